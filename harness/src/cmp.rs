//! ordering, equality, hashing
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

/// -1, 0, 1: order of the values, NaN last and equal to itself; forks on the outcome
fn spec_cmp(a: &Num, b: &Num) -> Ordering {
    if a.nan || b.nan {
        return a.nan.cmp(&b.nan);
    }
    let k = a.frac().max(b.frac()).max(-32768);
    let (x, y) = (a.val(k), b.val(k));
    if x.lt(y) {
        Ordering::Less
    } else if y.lt(x) {
        Ordering::Greater
    } else {
        Ordering::Equal
    }
}
fn case(a: &Num, b: &Num) {
    let e = spec_cmp(a, b);
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    check(x.partial_cmp(y) == Some(e), "partial_cmp disagrees with the order of the values");
    check(Ord::cmp(x, y) == e, "cmp disagrees with the order of the values");
    check((x == y) == (e == Ordering::Equal), "== disagrees with the order of the values");
    check((x != y) == (e != Ordering::Equal), "!= disagrees with the order of the values");
    check((x < y) == (e == Ordering::Less), "< disagrees with the order of the values");
    check((x <= y) == (e != Ordering::Greater), "<= disagrees with the order of the values");
    check((x > y) == (e == Ordering::Greater), "> disagrees with the order of the values");
    check((x >= y) == (e != Ordering::Less), ">= disagrees with the order of the values");
    reach(match e {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
}
#[no_mangle]
pub extern "C" fn check_cmp() {
    let a = small(if thorough() { 3 } else { 2 });
    let b = small(if thorough() { 3 } else { 2 });
    case(&a, &b);
}
#[no_mangle]
pub extern "C" fn check_cmp_wide() {
    static L: &[Spec] = &[
        (32767, 0, &[S]),
        (32766, 0, &[S]),
        (-4096, 16383, &[S]),
        (-4095, 16383, &[S]),
        (2, 9, &[S, S, 0, 9999, S]),
        (2, 13, &[S, S, 0, 9999, S, S]),
        (2, 12, &[S, S, 0, 9999, 0, S]),
    ];
    let one = |i: i64| {
        if i == 0 {
            Num::nan()
        } else if i == 1 {
            any_shape()
        } else {
            mk(pick(L), choose(0, 1) == 1)
        }
    };
    let a = one(choose(0, 2));
    let b = one(choose(0, 2));
    case(&a, &b);
}
/// long operands at every kind of distance
#[no_mangle]
pub extern "C" fn check_cmp_distant() {
    let w = pick(&[-60, -1, 0, 3, 44, 45, 70, 3000]);
    let n = pick(&[1, 2, 45]);
    let i = pick(&[0, n - 1]);
    let one = |w: i32, n: usize, i: usize| {
        let mut d = vec![9999; n];
        d[i] = S;
        let f = n as i32 - 1 - w;
        Num::with(choose(0, 1) == 1, w, if f > 0 { 4 * f } else { 0 }, &d)
    };
    let a = one(w, n, i);
    let b = one(pick(&[-1, 44]), pick(&[2, 45]), 0);
    case(&a, &b);
}
/// all combinations of owned and borrowed operands
#[no_mangle]
pub extern "C" fn check_cmp_variants() {
    let a = if choose(0, 3) == 0 { Num::nan() } else { small(1) };
    let b = if choose(0, 3) == 0 { Num::nan() } else { small(1) };
    let e = spec_cmp(&a, &b);
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y): (&Numeric, &Numeric) = (ea.num(), eb.num());
    let (bx, by): (NumericBuf, NumericBuf) = (x.to_owned(), y.to_owned());
    let (eq, pc) = match choose(0, 11) {
        0 => (bx == by, bx.partial_cmp(&by)),
        1 => (bx == *y, bx.partial_cmp(y)),
        2 => (bx == y, bx.partial_cmp(&y)),
        3 => (*x == by, x.partial_cmp(&by)),
        4 => (x == by, PartialOrd::<NumericBuf>::partial_cmp(&x, &by)),
        5 => (PartialEq::<Numeric>::eq(&x, y), PartialOrd::<Numeric>::partial_cmp(&x, y)),
        6 => (PartialEq::<&Numeric>::eq(x, &y), PartialOrd::<&Numeric>::partial_cmp(x, &y)),
        7 => (PartialEq::<NumericBuf>::eq(&&bx, &by), PartialOrd::<NumericBuf>::partial_cmp(&&bx, &by)),
        8 => (PartialEq::<&NumericBuf>::eq(&bx, &&by), PartialOrd::<&NumericBuf>::partial_cmp(&bx, &&by)),
        9 => (x == y, x.partial_cmp(y)),
        10 => (Ord::cmp(&bx, &by) == Ordering::Equal, Some(Ord::cmp(&bx, &by))),
        _ => (Ord::max(&bx, &by) == Ord::min(&bx, &by), Some(bx.as_numeric().cmp(by.as_numeric()))),
    };
    check(eq == (e == Ordering::Equal), "== on this operand combination");
    check(pc == Some(e), "partial_cmp on this operand combination");
    reach("compared");
}
/// writes everything fed to a hasher
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0.push(*x);
        }
    }
}
fn hash_same(x: &Rec, y: &Rec) {
    check(x.0.len() == y.0.len(), "equal numerics feed a hasher differently");
    for (p, q) in x.0.iter().zip(y.0.iter()) {
        check(*p == *q, "equal numerics feed a hasher differently");
    }
}
fn hash_case(a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    let (mut hx, mut hy, mut ho) = (Rec(vec![]), Rec(vec![]), Rec(vec![]));
    x.hash(&mut hx);
    y.hash(&mut hy);
    hash_same(&hx, &hy);
    let o: NumericBuf = x.to_owned();
    o.hash(&mut ho);
    hash_same(&hx, &ho);
    reach("hashed");
}
/// independently chosen operands that are equal
#[no_mangle]
pub extern "C" fn check_hash() {
    let a = if choose(0, 5) == 0 { Num::nan() } else { small(3) };
    let b = if a.nan { Num::nan() } else { small(3) };
    if !a.nan {
        let k = a.frac().max(b.frac()).max(0);
        assume(a.val(k).eq(b.val(k)));
    }
    hash_case(&a, &b);
}
/// one value at several display scales, short and long headers
#[no_mangle]
pub extern "C" fn check_hash_wide() {
    let a = any_shape();
    let mut b = a.clone();
    b.ds = pick(&[a.ds, a.ds + 1, a.ds.max(63), a.ds.max(64), 16383]);
    if b.ds > 16383 {
        return;
    }
    hash_case(&a, &b);
}
/// numerics that differ in value do not feed a hasher alike (no collisions before the hasher)
#[no_mangle]
pub extern "C" fn check_hash_differs() {
    let a = small(2);
    let b = small(2);
    let k = a.frac().max(b.frac()).max(0);
    if a.val(k).eq(b.val(k)) {
        return;
    }
    hash_differ(&a, &b);
}
fn hash_differ(a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let (mut hx, mut hy) = (Rec(vec![]), Rec(vec![]));
    ea.num().hash(&mut hx);
    eb.num().hash(&mut hy);
    let mut same = hx.0.len() == hy.0.len();
    if same {
        for (p, q) in hx.0.iter().zip(hy.0.iter()) {
            same &= *p == *q;
        }
    }
    check(!same, "different numerics feed a hasher alike");
    reach("differs");
}
/// long operands that agree in all digits but symbolic ones
fn long_pair() -> (Num, Num) {
    let n = long_len();
    let m = [n, n - 1, n + 1][choose(0, 2) as usize];
    let b = bulk();
    let i = [0, 1, 2, 3, n / 2, n - 1][choose(0, 5) as usize];
    let neg = choose(0, 1) == 1;
    let w = long_weight(n, n + i);
    (long(neg, n, w, 0, b, &[i, i + 1]), long(neg, m, w, 9, b, &[i, i + 1, m - 1]))
}
#[no_mangle]
pub extern "C" fn check_cmp_long() {
    let (a, b) = long_pair();
    if choose(0, 1) == 0 {
        case(&a, &b);
    } else {
        case(&b, &a);
    }
}
#[no_mangle]
pub extern "C" fn check_hash_long() {
    let (a, b) = long_pair();
    let k = a.frac().max(b.frac()).max(0);
    if a.val(k).eq(b.val(k)) {
        hash_case(&a, &b);
    } else {
        hash_differ(&a, &b);
    }
}
