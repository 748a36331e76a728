//! type modifiers and their application
use crate::num::*;
use crate::rt::*;
use pgnumeric::{NumericBuf, Typmod};

fn text(t: &Typmod) -> Vec<u8> {
    t.to_string().into_bytes()
}
/// every pair of integers: accepted exactly when within bounds, and kept
#[no_mangle]
pub extern "C" fn check_typmod_new() {
    let p = any(i32::MIN as i64, i32::MAX as i64);
    let s = any(i32::MIN as i64, i32::MAX as i64);
    let ok = 1 <= p && p <= 1000 && 0 <= s && s <= p;
    match Typmod::new(p as i32, s as i32) {
        None => {
            check(!ok, "valid precision and scale refused");
            reach("refused");
        }
        Some(t) => {
            check(ok, "invalid precision or scale accepted");
            let (p2, s2) = t.extract();
            check(p2 as i64 == p && s2 as i64 == s, "extract returns other values");
            check(t.value() as i64 == p * 65536 + s + 4, "value differs from the type modifier of PostgreSQL");
            let u = unsafe { Typmod::from_value_unchecked(t.value()) };
            check(u == t && u.extract() == (p2, s2), "from_value");
            reach("accepted");
        }
    }
}
#[no_mangle]
pub extern "C" fn check_typmod_precision() {
    let p = any(i32::MIN as i64, i32::MAX as i64);
    let ok = 1 <= p && p <= 1000;
    match Typmod::with_precision(p as i32) {
        None => {
            check(!ok, "valid precision refused");
            reach("refused");
        }
        Some(t) => {
            check(ok, "invalid precision accepted");
            check(t.extract() == (p as i32, 0), "extract returns other values");
            check(Typmod::new(p as i32, 0) == Some(t), "with_precision differs from a scale of 0");
            reach("accepted");
        }
    }
}
/// two type modifiers are equal exactly when precision and scale are
#[no_mangle]
pub extern "C" fn check_typmod_eq() {
    let (p, q) = (any(1, 1000), any(1, 1000));
    let (s, t) = (any(0, 1000), any(0, 1000));
    assume(s <= p && t <= q);
    let a = Typmod::new(p as i32, s as i32).unwrap();
    let b = Typmod::new(q as i32, t as i32).unwrap();
    check((a == b) == (p == q && s == t), "equality of type modifiers");
    check((a.value() == b.value()) == (p == q && s == t), "values of type modifiers");
    check(a != Typmod::default(), "default");
    reach("eq");
}
fn dec_text(mut v: i64, out: &mut Vec<u8>) {
    let mut t = vec![];
    while v >= 10 {
        t.push(b'0' + (v % 10) as u8);
        v /= 10;
    }
    out.push(b'0' + v as u8);
    while let Some(x) = t.pop() {
        out.push(x);
    }
}
#[no_mangle]
pub extern "C" fn check_typmod_text() {
    // one of the two symbolic at a time
    let (p, s) = match choose(0, 2) {
        0 => (any(1, 1000), 0),
        1 => (any(7, 1000), 7),
        _ => (1000, any(0, 1000)),
    };
    let t = text(&Typmod::new(p as i32, s as i32).unwrap());
    let mut e = vec![b'('];
    dec_text(p, &mut e);
    e.push(b',');
    e.push(b' ');
    dec_text(s, &mut e);
    e.push(b')');
    check(t.len() == e.len(), "text of a type modifier");
    for (x, y) in t.iter().zip(&e) {
        check(*x == *y, "text of a type modifier");
    }
    reach("text");
}
/// rounds to the scale; reports overflow exactly when more than precision - scale integer digits remain
fn apply_case(a: &Num, p: i32, s: i32) {
    let ea = a.enc();
    let mut b: NumericBuf = ea.num().to_owned();
    let over = b.apply_typmod(Typmod::new(p, s).unwrap());
    let k = a.frac().max((s + 3) / 4).max(0);
    let v = if a.is_zero() { z(0) } else { abs_z(a.val(k), a.neg) };
    let e = round_unit(v, pow10((4 * k - s) as u32));
    let lim = pow10((p - s) as u32) * pow10(4 * k as u32);
    check(over == lim.le(e), "overflow reported wrongly");
    check_num(&b, abs_z(e, a.neg), k, s, "value not rounded to the scale");
    reach(if over { "overflow" } else { "fits" });
}
#[no_mangle]
pub extern "C" fn check_apply() {
    let a = small(3);
    let (p, s) = pick2(
        &[(1, 0), (1, 1), (2, 1), (3, 0), (4, 0), (4, 4), (5, 0), (5, 2), (7, 3), (8, 0), (8, 8), (9, 4), (12, 4), (12, 7), (13, 8), (20, 9)],
        &[(2, 0), (2, 2), (3, 1), (3, 2), (3, 3), (4, 1), (4, 2), (4, 3), (5, 1), (5, 5), (6, 0), (6, 6), (6, 3), (7, 0), (8, 4), (9, 0), (9, 1), (9, 5), (10, 5), (11, 4), (12, 0), (12, 5), (13, 0), (1000, 0), (1000, 1000)],
    );
    apply_case(&a, p, s);
}
#[no_mangle]
pub extern "C" fn check_apply_wide() {
    let a = any_shape();
    let (p, s) = pick(&[(1, 0), (5, 5), (12, 0), (13, 4), (20, 8), (21, 4), (24, 0), (253, 0), (256, 0), (257, 0), (260, 0), (300, 300), (1000, 0), (1000, 64), (1000, 1000)]);
    apply_case(&a, p, s);
}
/// carries into a new digit decide whether the value still fits
#[no_mangle]
pub extern "C" fn check_apply_carry() {
    static L: &[(Spec, &[(i32, i32)])] = &[
        ((0, 4, &[9999, S]), &[(4, 0), (5, 0), (5, 1), (6, 2), (7, 3), (8, 4)]),
        ((1, 4, &[S, 9999, S]), &[(5, 0), (6, 0), (7, 0), (8, 0), (9, 1)]),
        ((0, 8, &[S, 9999, 9999]), &[(1, 0), (2, 1), (3, 1), (4, 1), (5, 4), (8, 4), (10, 6), (12, 8)]),
        ((-1, 8, &[9999, S]), &[(1, 0), (1, 1), (4, 4), (5, 5), (6, 6), (5, 4)]),
        ((-3, 12, &[S]), &[(1, 1), (8, 8), (9, 9), (10, 10), (11, 11), (12, 12), (3, 3)]),
        ((249, 0, &[9999, S]), &[(1000, 0), (999, 0), (1000, 1)]),
        ((250, 0, &[S]), &[(1000, 0)]),
        ((-250, 1000, &[S]), &[(1000, 1000), (999, 999), (1000, 999)]),
        ((-251, 1004, &[S]), &[(1000, 1000)]),
    ];
    let (a, m) = pick(L);
    let a = mk(a, choose(0, 1) == 1);
    let (p, s) = pick(m);
    apply_case(&a, p, s);
}
/// no modifier: nothing changes; NaN is never changed
#[no_mangle]
pub extern "C" fn check_apply_none() {
    let a = if choose(0, 3) == 0 { Num::nan() } else { any_shape() };
    let ea = a.enc();
    let mut b: NumericBuf = ea.num().to_owned();
    if a.nan && choose(0, 1) == 1 {
        let p = any(1, 1000);
        let s = any(0, 1000);
        assume(s <= p);
        let over = b.apply_typmod(Typmod::new(p as i32, s as i32).unwrap());
        check(!over, "NaN reported as overflow");
        reach("nan");
    } else {
        check(!b.apply_typmod(Typmod::default()), "overflow without a type modifier");
        reach("none");
    }
    check_same(&dec(&b), &a, "value changed");
}
/// a value that cannot be rounded within the format is reported and kept valid
#[no_mangle]
pub extern "C" fn check_apply_limit() {
    let neg = choose(0, 1) == 1;
    let mut d = vec![9999; 32768];
    d.push(0);
    d[32768] = any(1, 9) * 1000;
    let a = Num { nan: false, neg, w: 32767, ds: 1, d };
    let ea = a.enc();
    let mut b: NumericBuf = ea.num().to_owned();
    let over = b.apply_typmod(Typmod::new(1000, 0).unwrap());
    check(over, "overflow not reported");
    let r = dec(&b);
    check(!r.nan, "valid");
    reach("limit");
}
/// long operands around the precision
#[no_mangle]
pub extern "C" fn check_apply_long() {
    let n = long_len();
    let k = choose(0, 6) as i32;
    let w = long_weight(n, k as usize);
    let a = long(choose(0, 1) == 1, n, w, 0, bulk(), &[0, n - 1]);
    let s = (a.ds - pick(&[-5, 0, 1, 4])).max(0);
    let p = s + 4 * (w + 1) - choose(-1, 4) as i32;
    // the limits of type modifiers
    if p < 1 || p < s || p > 1000 || s > 1000 {
        return;
    }
    apply_case(&a, p, s);
}
