//! the binary format: every header, round trips, digit packing
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};

fn words(n: &Numeric) -> Vec<u16> {
    let b = n.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i + 1 < b.len() {
        v.push(u16::from_le(unsafe { (b.as_ptr().add(i) as *const u16).read_unaligned() }));
        i += 2;
    }
    check(b.len() % 2 == 0, "odd length");
    v
}
fn len_words(n: usize) -> [u16; 2] {
    let len = (n * 2) as u32;
    let v = if cfg!(feature = "big-endian-varlen") { len.to_be() } else { len << 2 };
    [v as u16, (v >> 16) as u16]
}
fn with_len(mut w: Vec<u16>) -> Vec<u16> {
    let l = len_words(w.len() + 2);
    w.insert(0, l[1]);
    w.insert(0, l[0]);
    w
}
fn same_words(a: &[u16], b: &[u16], m: &str) {
    check(a.len() == b.len(), m);
    for (x, y) in a.iter().zip(b) {
        check(*x == *y, m);
    }
}
fn digits(n: i64) -> Vec<u16> {
    (0..n).map(|i| any(if i == 0 || i == n - 1 { 1 } else { 0 }, 9999) as u16).collect()
}
fn copies(x: &Numeric, expect: &[u16], neg: &[u16]) {
    let o: NumericBuf = x.to_owned();
    same_words(&words(&o), expect, "to_owned changes the encoding");
    let c = o.clone();
    same_words(&words(&c), expect, "clone changes the encoding");
    same_words(&words(&-c), neg, "negation changes more than the sign");
    let mut o = o;
    o.negate_mut();
    same_words(&words(&o), neg, "negate_mut changes more than the sign");
    o.negate_mut();
    same_words(&words(&o), expect, "negating twice changes the encoding");
}
/// every short header
#[no_mangle]
pub extern "C" fn check_header_short() {
    let d = digits(choose(1, 3));
    let neg = choose(0, 1) as u16;
    let lo = any(0, 0x1FFF) as u16; // scale and weight bits
    let mk = |neg: u16| {
        let mut w = vec![0x8000 + neg * 0x2000 + lo];
        w.extend_from_slice(&d);
        with_len(w)
    };
    let e = mk(neg);
    let enc = Enc::from_u16s(&e);
    let x = enc.num();
    check(x.scale() == Some((lo >> 7) as i32), "scale of a short header");
    check(x.is_negative() == (neg == 1) && x.is_positive() == (neg == 0) && !x.is_nan(), "sign of a short header");
    copies(x, &e, &mk(1 - neg));
    reach("short");
}
/// every long header; those that fit a short one are rewritten as short
#[no_mangle]
pub extern "C" fn check_header_long() {
    let d = digits(choose(1, 3));
    let neg = choose(0, 1) as u16;
    let ds = any(0, 0x3FFF);
    let w = any(-32768, 32767);
    let mut l = vec![neg * 0x4000 + ds as u16, w as i16 as u16];
    l.extend_from_slice(&d);
    let long = with_len(l);
    let short = ds <= 63 && w >= -64 && w <= 63;
    let mk = |neg: u16| {
        let mut v = if short {
            let wb = if w < 0 { (w + 128) as u16 } else { w as u16 };
            vec![0x8000 + neg * 0x2000 + ds as u16 * 128 + wb]
        } else {
            vec![neg * 0x4000 + ds as u16, w as i16 as u16]
        };
        v.extend_from_slice(&d);
        with_len(v)
    };
    let enc = Enc::from_u16s(&long);
    let x = enc.num();
    check(x.scale() == Some(ds as i32), "scale of a long header");
    check(x.is_negative() == (neg == 1) && x.is_positive() == (neg == 0) && !x.is_nan(), "sign of a long header");
    copies(x, &mk(neg), &mk(1 - neg));
    reach(if short { "rewritten" } else { "long" });
}
/// zeros of every display scale
#[no_mangle]
pub extern "C" fn check_header_zero() {
    let ds = any(0, 0x3FFF);
    let e = if ds <= 63 { with_len(vec![0x8000 + ds as u16 * 128]) } else { with_len(vec![ds as u16, 0]) };
    let enc = Enc::from_u16s(&e);
    let x = enc.num();
    check(x.scale() == Some(ds as i32), "scale of a zero");
    copies(x, &e, &e);
    check(x.signum() == *Numeric::zero() && *x == *Numeric::zero(), "zero");
    reach("zero");
}
/// an operand in the long form where the short one fits behaves as the canonical one
#[no_mangle]
pub extern "C" fn check_long_operand() {
    let a = small(2);
    let b = small(1);
    let mut l = vec![(if a.neg { 0x4000 } else { 0 }) + a.ds as u16, a.w as i16 as u16];
    for x in &a.d {
        l.push(*x as u16);
    }
    let long = Enc::from_u16s(&with_len(l));
    let canon = a.enc();
    let eb = b.enc();
    let (x, y, o) = (long.num(), canon.num(), eb.num());
    check(x == y && x.partial_cmp(y) == Some(std::cmp::Ordering::Equal), "long and short forms compare equal");
    let (p, q) = match choose(0, 5) {
        0 => (x + o, y + o),
        1 => (o - x, o - y),
        2 => (x * o, y * o),
        3 => (x.round(1), y.round(1)),
        4 => (x.trunc(-1), y.trunc(-1)),
        _ => (x.abs(), y.abs()),
    };
    same_words(&words(&p), &words(&q), "an operation depends on the header form of its operand");
    reach("long operand");
}
/// results just inside and outside of what a short header holds
#[no_mangle]
pub extern "C" fn check_header_results() {
    static L: &[Spec] = &[
        (63, 0, &[S]),
        (62, 0, &[S]),
        (-64, 256, &[S]),
        (-63, 252, &[S]),
        (31, 0, &[S, S]),
        (-32, 128, &[S]),
        (0, 63, &[S]),
        (0, 62, &[S]),
        (0, 31, &[S]),
        (0, 32, &[S]),
        (-15, 63, &[S]),
        (63, 63, &[9999, S]),
    ];
    let a = mk(pick(L), choose(0, 1) == 1);
    let b = mk(pick(L), choose(0, 1) == 1);
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    let k = a.frac().max(b.frac());
    match choose(0, 2) {
        0 => check_num(&(x + y), a.val(k) + b.val(k), k, a.ds.max(b.ds), "sum"),
        1 => check_num(&(x - y), a.val(k) - b.val(k), k, a.ds.max(b.ds), "difference"),
        _ => check_num(&(x * y), a.val(a.frac()) * b.val(b.frac()), a.frac() + b.frac(), a.ds + b.ds, "product"),
    };
    reach("result");
}
/// thousands of digits: a number far from the point plus one at the point
#[no_mangle]
pub extern "C" fn check_header_huge() {
    let w = [2050, 4100, 8200, 16400, 32767][choose(0, 4) as usize];
    let neg = choose(0, 1) == 1;
    let a = Num::with(neg, w, 0, &[any(1, 9999)]);
    let b = Num::with(neg, 0, 0, &[any(1, 9999)]);
    let (ea, eb) = (a.enc(), b.enc());
    let r = ea.num() + eb.num();
    let mk = |neg: bool| {
        let mut v = vec![if neg { 0x4000u16 } else { 0 }, w as u16];
        v.resize(2 + w as usize, 0);
        v[2] = a.d[0] as u16;
        v.push(b.d[0] as u16);
        with_len(v)
    };
    let e = mk(neg);
    same_words(&words(&r), &e, "sum of distant digits");
    check(r.as_bytes().len() == 2 * (w as usize + 5), "length of a sum of distant digits");
    copies(&r, &e, &mk(!neg));
    let x: &Numeric = &r;
    check_num(&(x - ea.num()), b.val(0), 0, 0, "taking the distant digit away again");
    reach("huge");
}
