//! NaN operands, whole API
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf, Typmod};
use std::convert::TryFrom;

fn is_nan(r: &Numeric) {
    check(r.is_nan(), "an operation on NaN must give NaN");
    check(dec(r).nan, "an operation on NaN must give NaN");
    reach("nan");
}
fn opt(r: Option<NumericBuf>) {
    match r {
        Some(r) => is_nan(&r),
        None => fail("an operation on NaN must give NaN"),
    }
}
fn operand() -> Num {
    match choose(0, 2) {
        0 => Num::nan(),
        1 => any_shape(),
        _ => small(1),
    }
}
/// binary operations with NaN on either side or both, as functions, operators and assignments
#[no_mangle]
pub extern "C" fn check_nan_binary() {
    let first = choose(0, 1) == 1;
    let (a, b) = if first { (Num::nan(), operand()) } else { (operand(), Num::nan()) };
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    match choose(0, 15) {
        0 => opt(x.checked_add(y)),
        1 => opt(x.checked_sub(y)),
        2 => opt(x.checked_mul(y)),
        3 => opt(x.checked_div(y)),
        4 => opt(x.checked_div_trunc(y)),
        5 => opt(x.checked_rem(y)),
        6 => is_nan(&(x + y)),
        7 => is_nan(&(x - y)),
        8 => is_nan(&(x * y)),
        9 => is_nan(&(x / y)),
        10 => is_nan(&(x % y)),
        11 => {
            let mut v = x.to_owned();
            v += y;
            is_nan(&v)
        }
        12 => {
            let mut v = x.to_owned();
            v -= y;
            is_nan(&v)
        }
        13 => {
            let mut v = x.to_owned();
            v *= y;
            is_nan(&v)
        }
        14 => {
            let mut v = x.to_owned();
            v /= y;
            is_nan(&v)
        }
        _ => {
            let mut v = x.to_owned();
            v %= y;
            is_nan(&v)
        }
    }
}
/// unary operations, rounding to any scale, mathematical functions
#[no_mangle]
pub extern "C" fn check_nan_unary() {
    let e = Num::nan().enc();
    let x = e.num();
    let s = any(i32::MIN as i64, i32::MAX as i64) as i32;
    match choose(0, 21) {
        0 => is_nan(&x.negate()),
        1 => is_nan(&x.abs()),
        2 => is_nan(&x.signum()),
        3 => is_nan(&x.inc()),
        4 => is_nan(&x.round(s)),
        5 => is_nan(&x.trunc(s)),
        6 => is_nan(&x.ceil()),
        7 => is_nan(&x.floor()),
        8 => is_nan(&x.sqrt()),
        9 => is_nan(&x.ln()),
        10 => opt(x.exp()),
        11 => is_nan(&x.log2()),
        12 => is_nan(&x.log10()),
        13 => is_nan(&-x),
        14 => {
            let mut v = x.to_owned();
            v.negate_mut();
            is_nan(&v)
        }
        15 => {
            let mut v = x.to_owned();
            v.abs_mut();
            is_nan(&v)
        }
        16 => {
            let mut v = x.to_owned();
            v.round_mut(s);
            is_nan(&v)
        }
        17 => {
            let mut v = x.to_owned();
            v.trunc_mut(s);
            is_nan(&v)
        }
        18 => {
            // no limit applies to NaN
            let p = choose(1, 3) as i32;
            let t = Typmod::new(p, choose(0, p as i64) as i32).unwrap();
            let mut v = x.to_owned();
            check(!v.apply_typmod(t), "a type modifier overflows for NaN");
            is_nan(&v)
        }
        19 => {
            check(x.scale().is_none(), "NaN has a display scale");
            check(!x.is_negative() && !x.is_positive(), "NaN has a sign");
            is_nan(x)
        }
        20 => {
            check(x.to_string() == "NaN", "text of NaN");
            check(format!("{:e}", x) == "NaN" && format!("{:E}", x) == "NaN", "scientific text of NaN");
            check(x.normalize() == "NaN", "normalized text of NaN");
            check(u8::try_from(x).is_err() && i128::try_from(x).is_err(), "NaN converts to an integer");
            is_nan(Numeric::nan())
        }
        _ => {
            is_nan(&NumericBuf::nan());
            match "NaN".parse::<NumericBuf>() {
                Ok(r) => is_nan(&r),
                Err(_) => fail("NaN does not parse"),
            }
        }
    }
}
/// pow and log: NaN operands, with the two exceptions 1 ^ NaN and NaN ^ 0
#[no_mangle]
pub extern "C" fn check_nan_pow_log() {
    let first = choose(0, 1) == 1;
    let o = operand();
    let (a, b) = if first { (Num::nan(), o.clone()) } else { (o.clone(), Num::nan()) };
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    if choose(0, 1) == 0 {
        match x.pow(y) {
            None => fail("pow of NaN overflows"),
            Some(r) => {
                if r.is_nan() {
                    check(o.nan || first && !o.is_zero() || !first, "NaN ^ 0 is 1");
                    if !first && !o.nan {
                        let k = o.frac().max(0);
                        check(!o.val(k).eq(pow10(4 * k as u32)), "1 ^ NaN is 1");
                    }
                    dec(&r);
                    reach("pow nan");
                } else {
                    check(!o.nan, "NaN ^ NaN");
                    let r = dec(&r);
                    let k = o.frac().max(0);
                    check(if first { o.is_zero() } else { o.val(k).eq(pow10(4 * k as u32)) }, "an operation on NaN must give NaN");
                    let k = r.frac().max(0);
                    check(r.val(k).eq(pow10(4 * k as u32)), "must be 1");
                    reach("pow one");
                }
            }
        }
    } else {
        is_nan(&x.log(y));
    }
}
