//! conversions from and to the integer types
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};
use std::convert::TryFrom;

fn z128(x: i128) -> Z {
    z((x >> 64) as i64) * pow2(64) + zu64(x as u64)
}
fn zu128(x: u128) -> Z {
    zu64((x >> 64) as u64) * pow2(64) + zu64(x as u64)
}
fn zu64(x: u64) -> Z {
    z((x >> 32) as i64) * pow2(32) + z((x & 0xFFFF_FFFF) as i64)
}
fn pow2(k: u32) -> Z {
    let mut r = z(1);
    let t = z(1 << 16);
    for _ in 0..k / 16 {
        r = r * t;
    }
    r
}
const M: i64 = 0xFFFF_FFFF;
fn any_u64() -> u64 {
    any(0, M) as u64 * (1 << 32) + any(0, M) as u64
}
fn any_u128() -> u128 {
    any_u64() as u128 * (1 << 64) + any_u64() as u128
}
fn any_i128() -> i128 {
    any(i64::MIN, i64::MAX) as i128 * (1 << 64) + any_u64() as i128
}
macro_rules! roundtrip {
    ($t:ty, $v:expr, $z:expr) => {{
        let v: $t = $v;
        let n = NumericBuf::from(v);
        check_num(&n, $z(v), 0, 0, "conversion from an integer");
        match <$t>::try_from(&n) {
            Ok(b) => check(b == v, "integer does not survive the conversion to numeric and back"),
            Err(_) => fail("converted integer does not convert back"),
        }
        reach(stringify!($t));
    }};
}
fn zi<T: Into<i64>>(x: T) -> Z {
    z(x.into())
}
#[no_mangle]
pub extern "C" fn check_from_int() {
    match choose(0, 11) {
        0 => roundtrip!(i8, any(-128, 127) as i8, zi),
        1 => roundtrip!(i16, any(-32768, 32767) as i16, zi),
        2 => roundtrip!(i32, any(i32::MIN as i64, i32::MAX as i64) as i32, zi),
        3 => roundtrip!(i64, any(i64::MIN, i64::MAX), z),
        4 => roundtrip!(i128, any_i128(), z128),
        5 => roundtrip!(u8, any(0, 255) as u8, zi),
        6 => roundtrip!(u16, any(0, 65535) as u16, zi),
        7 => roundtrip!(u32, any(0, M) as u32, zi),
        8 => roundtrip!(u64, any_u64(), zu64),
        9 => roundtrip!(u128, any_u128(), zu128),
        10 => roundtrip!(isize, any(i64::MIN, i64::MAX) as isize, |x| z(x as i64)),
        _ => roundtrip!(usize, any_u64() as usize, |x| zu64(x as u64)),
    }
}
/// integers around chosen large ones: the low digits are symbolic
#[no_mangle]
pub extern "C" fn check_from_int_near() {
    static B: &[u64] = &[
        0, 99_990_000, u32::MAX as u64 - 9998, 9_007_199_254_730_000, 9_007_199_254_740_000, 10_000_000_000_000_000, 99_999_999_999_990_000,
        123_456_789_012_340_000, 1_000_000_000_000_000_000, 9_223_372_036_854_760_000, 9_223_372_036_854_765_808, 9_999_999_999_999_990_000,
        10_000_000_000_000_000_000, 12_345_678_901_234_560_000, 18_446_744_073_709_541_616,
    ];
    let b = pick(B);
    let n = any(0, 9999) as u64;
    let wide = b as u128 * 10_000_000_000_000_000 + b as u128 + n as u128;
    match choose(0, 4) {
        0 => roundtrip!(u64, b + n, zu64),
        1 => roundtrip!(i64, (b / 2).min(i64::MAX as u64 - 9999) as i64 + n as i64, z),
        2 => roundtrip!(i64, -((b / 2).min(i64::MAX as u64 - 9999) as i64) - n as i64, z),
        3 => roundtrip!(u128, wide, zu128),
        _ => roundtrip!(i128, -(wide as i128), z128),
    }
}
#[no_mangle]
pub extern "C" fn check_from_bool() {
    let b = any(0, 1) == 1;
    check_num(&NumericBuf::from(b), z(b as i64), 0, 0, "conversion from bool");
    reach("bool");
}
/// round half away from zero, refuse what does not fit
fn value(a: &Num) -> Z {
    let k = a.frac().max(0);
    if a.is_zero() {
        z(0)
    } else {
        let u = pow10(4 * k as u32);
        abs_z(round_unit(abs_z(a.val(k), a.neg), u).fdiv(u), a.neg)
    }
}
fn verdict<T, E: std::fmt::Display>(r: Result<T, E>, a: &Num, lo: Z, hi: Z, f: impl Fn(T) -> Z) {
    let v = value(a);
    let fits = lo.le(v) && v.le(hi);
    match r {
        Ok(x) => {
            check(fits, "out of range value converted");
            check(f(x).eq(v), "wrong integer");
            reach("converted");
        }
        Err(e) => {
            check(!fits, "value in range refused");
            check(e.to_string() == "value is out of range", "error kind");
            reach("refused");
        }
    }
}
macro_rules! to {
    ($t:ty, $f:expr, $how:expr, $x:expr, $a:expr) => {{
        let x: &Numeric = $x;
        let r = match $how {
            0 => <$t>::try_from(x),
            1 => <$t>::try_from(&x.to_owned()),
            _ => <$t>::try_from(x.to_owned()),
        };
        verdict(r, $a, $f(<$t>::MIN), $f(<$t>::MAX), $f)
    }};
}
fn convert(t: i64, how: i64, a: &Num) {
    let ea = a.enc();
    let x = ea.num();
    match t {
        0 => to!(i8, zi, how, x, a),
        1 => to!(i16, zi, how, x, a),
        2 => to!(i32, zi, how, x, a),
        3 => to!(i64, z, how, x, a),
        4 => to!(i128, z128, how, x, a),
        5 => to!(u8, zi, how, x, a),
        6 => to!(u16, zi, how, x, a),
        7 => to!(u32, zi, how, x, a),
        8 => to!(u64, zu64, how, x, a),
        9 => to!(u128, zu128, how, x, a),
        10 => to!(isize, |x| z(x as i64), how, x, a),
        _ => to!(usize, |x| zu64(x as u64), how, x, a),
    }
}
/// largest weight a value of the type can have
static TOP: [i32; 12] = [0, 1, 2, 4, 9, 0, 1, 2, 4, 9, 4, 4];
/// every value with up to three base digits around the limits of the type and the decimal point
#[no_mangle]
pub extern "C" fn check_to_int() {
    let t = choose(0, 11);
    let neg = choose(0, 1) == 1;
    let top = TOP[t as usize];
    // all digits down to one fractional digit
    let w = choose(-1, top as i64 + 1) as i32;
    let n = (w + 2).min(if thorough() { 12 } else { 5 }).max(1);
    let f = n - 1 - w;
    let a = Num::any(neg, w, if f > 0 { 4 * f } else { 0 }, n);
    convert(t, 0, &a);
}
/// values whose trailing digits are stripped; far out of range; tiny
#[no_mangle]
pub extern "C" fn check_to_int_wide() {
    let t = choose(0, 11);
    let a = if choose(0, 1) == 0 {
        any_shape()
    } else {
        static L: &[Spec] = &[
            (9, 0, &[S]),
            (9, 4, &[340, 2823, 6692, 938, 4634, 6337, 4607, 4317, 6821, S, S]),
            (9, 4, &[170, 1411, 8346, 469, 2317, 3168, 7303, 7158, 8410, S, S]),
            (4, 4, &[1844, 6744, 737, 955, S, S]),
            (4, 4, &[922, 3372, 368, 5477, S, S]),
            (2, 4, &[42, 9496, S, S]),
            (2, 4, &[21, 4748, S, S]),
            (0, 8, &[S, 4999, 9999]),
            (1, 4, &[S, 9999, S]),
            (-1, 8, &[4999, S]),
            (-2, 8, &[S]),
            (32767, 0, &[S]),
            (20, 0, &[S, S]),
        ];
        mk(pick(L), choose(0, 1) == 1)
    };
    convert(t, 0, &a);
}
/// long fractions: half, below, above, none; a symbolic unit digit
#[no_mangle]
pub extern "C" fn check_to_int_long() {
    let t = choose(0, 11);
    let top = TOP[t as usize];
    let w = pick(&[-1, 0, 1, 2, 4, 9]).min(top as i64 + 1) as i32;
    let n = pick2(&[3, 4, 5, 6, 8, 11, 14, 33, 130], &[7, 9, 10, 12, 13, 16, 17, 70, 260]) as i32;
    let f = n - 1 - w;
    if f <= 0 && w > top {
        return;
    }
    let tail = pick(&[0, 4999, 5000, 9999]);
    let mut a = long(choose(0, 1) == 1, n as usize, w, pick(&[0, 2]) as i32, bulk(), &[]);
    if w >= 0 && w < n {
        a.d[w as usize] = any(if w == 0 || w == n - 1 { 1 } else { 0 }, 9999);
    }
    if w + 1 < n - 1 {
        a.d[(w + 1) as usize] = tail;
        if w == -1 && tail == 0 {
            a.d[0] = 1;
        }
    }
    convert(t, 0, &a);
}
/// by value, by reference, borrowed
#[no_mangle]
pub extern "C" fn check_to_int_variants() {
    let t = choose(0, 11);
    let how = choose(0, 2);
    let a = small(1);
    convert(t, how, &a);
}
#[no_mangle]
pub extern "C" fn check_to_int_nan() {
    let x = Numeric::nan();
    let o = NumericBuf::nan();
    macro_rules! nan {
        ($($t:ty),*) => {$(
            match <$t>::try_from(x) {
                Ok(_) => fail("NaN converted to an integer"),
                Err(e) => check(e.to_string() == "cannot convert to numeric", "error kind for NaN"),
            }
            match <$t>::try_from(&o) {
                Ok(_) => fail("NaN converted to an integer"),
                Err(e) => check(e.to_string() == "cannot convert to numeric", "error kind for NaN"),
            }
            match <$t>::try_from(o.clone()) {
                Ok(_) => fail("NaN converted to an integer"),
                Err(e) => check(e.to_string() == "cannot convert to numeric", "error kind for NaN"),
            }
        )*};
    }
    nan!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, isize, usize);
    reach("nan");
}
