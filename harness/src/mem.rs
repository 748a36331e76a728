//! histories of operations on one owned numeric: memory is released exactly once, the
//! numeric stays valid, and each step does what the operation does to a fresh numeric
use crate::num::*;
use crate::rt::*;
use std::convert::TryFrom;
use pgnumeric::{Numeric, NumericBuf, Typmod};

fn typmod() -> Typmod {
    let (p, s) = pick(&[(4, 1), (2, 0), (12, 6)]);
    match Typmod::new(p, s) {
        Some(t) => t,
        None => unsafe { Typmod::new_unchecked(p, s) },
    }
}
const OPS: i64 = 15;
/// the operation done to an owned numeric, and to a fresh copy that is only borrowed
fn apply(op: i64, mut b: NumericBuf, f: &Numeric, y: &Numeric) -> (NumericBuf, NumericBuf) {
    match op {
        0 => {
            b.negate_mut();
            (b, f.negate())
        }
        1 => {
            b.abs_mut();
            (b, f.abs())
        }
        2 => {
            let s = pick(&[1, -3, 8]);
            b.round_mut(s);
            (b, f.round(s))
        }
        3 => {
            let s = pick(&[1, -3, 8]);
            b.trunc_mut(s);
            (b, f.trunc(s))
        }
        4 => {
            let t = typmod();
            let o = b.apply_typmod(t);
            let mut g = f.to_owned();
            let p = g.apply_typmod(t);
            check(o == p, "typmod overflow depends on the history");
            (b, g)
        }
        5 => {
            b += y;
            (b, f + y)
        }
        6 => {
            b -= y;
            (b, f - y)
        }
        7 => {
            b *= y;
            (b, f * y)
        }
        8 => {
            b /= y;
            (b, f / y)
        }
        9 => {
            b %= y;
            (b, f % y)
        }
        10 => {
            let c = b.clone();
            drop(b);
            (c, f.to_owned())
        }
        11 => (-b, f.negate()),
        12 => (b.inc(), f.inc()),
        13 => (b.ceil(), f.ceil()),
        _ => {
            // both operands owned, the second one consumed
            let o = y.to_owned();
            (o - b, y - f)
        }
    }
}
fn step_(a: &Num, b: NumericBuf, y: &Numeric) -> (Num, NumericBuf) {
    let op = choose(0, OPS - 1);
    let fresh = a.enc();
    let (b, e) = apply(op, b, fresh.num(), y);
    check(b.as_bytes().len() == e.as_bytes().len(), "in-place operation differs from the borrowed one");
    check(b.as_bytes() == e.as_bytes(), "in-place operation differs from the borrowed one");
    (dec(&b), b)
}
fn history(n: i64) {
    static A: &[Spec] = &[(0, 4, &[7, S]), (1, 2, &[9999, S]), (-2, 9, &[9999, S])];
    static T: &[Spec] = &[(1, 6, &[9999, 9999, S])];
    let a = mk(pick2(A, T), choose(0, 1) == 1);
    let y = mk((0, 2, &[7]), false);
    let ey = y.enc();
    let ea = a.enc();
    let mut a = a;
    let mut b = if choose(0, 1) == 0 { ea.num().to_owned() } else { ea.num() + ey.num() - ey.num() };
    check(b.as_bytes().len() == ea.bytes().len() && b.as_bytes() == ea.bytes(), "x + y - y");
    for _ in 0..n {
        let (c, d) = step_(&a, b, ey.num());
        a = c;
        b = d;
    }
    // consumed by a conversion
    let f = a.enc();
    match choose(0, 4) {
        0 => check(i64::try_from(b).ok() == i64::try_from(f.num()).ok(), "conversion of an owned numeric differs"),
        1 => check(u16::try_from(b).is_err() == u16::try_from(f.num()).is_err(), "conversion of an owned numeric differs"),
        2 => {
            let (x, y) = (b.round(0), f.num().round(0));
            check(x.as_bytes().len() == y.as_bytes().len() && x.as_bytes() == y.as_bytes(), "rounding of an owned numeric differs");
        }
        3 => check(b.as_bytes().len() == f.bytes().len(), "canonical length"),
        _ => drop(b),
    }
}
#[no_mangle]
pub extern "C" fn check_history() {
    let n = if thorough() { 3 } else { 2 };
    let before = heap_live();
    history(n);
    check(heap_live() == before, "memory leaked");
    reach("history");
}
/// every conversion and function that allocates gives the memory back
#[no_mangle]
pub extern "C" fn check_no_leak() {
    let a = match choose(0, 3) {
        0 => Num::nan(),
        1 => Num::zero(3),
        2 => mk((0, 4, &[7, S]), false),
        _ => mk((70, 0, &[S, 0, 1]), true),
    };
    let ea = a.enc();
    let before = heap_live();
    let x = ea.num();
    let y = NumericBuf::from(7i64);
    match choose(0, 13) {
        0 => drop(x.checked_add(&y)),
        1 => drop(x.checked_mul(&y)),
        2 => drop(x.checked_div(&y)),
        3 => drop(x.checked_rem(&y)),
        4 => drop(x.to_owned().clone()),
        5 => drop(x.normalize()),
        6 => drop(x.to_string()),
        7 => drop("-12.5e3".parse::<NumericBuf>()),
        8 => drop("12..5".parse::<NumericBuf>().is_err()),
        9 => drop(x.round(1)),
        10 => drop(x.signum()),
        11 => drop(x.floor()),
        12 => drop(x.checked_div_trunc(&y)),
        _ => drop(NumericBuf::factorial(9)),
    }
    drop(y);
    check(heap_live() == before, "memory leaked");
    reach("released");
}
