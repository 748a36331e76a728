//! floating-point conversions
use crate::num::*;
use crate::parse::*;
use crate::rt::*;
use pgnumeric::NumericBuf;
use std::convert::TryFrom;
use std::convert::TryInto;

/// '#' any digit, '!' any digit but zero
fn fill(t: &str) -> Vec<u8> {
    t.bytes()
        .map(|c| match c {
            b'#' => any(b'0' as i64, b'9' as i64) as u8,
            b'!' => any(b'1' as i64, b'9' as i64) as u8,
            c => c,
        })
        .collect()
}
fn sign() -> Vec<u8> {
    fill(pick(&["", "-"]))
}
/// the numeric made from the number printed as `s`
fn from_case(r: Result<NumericBuf, pgnumeric::NumericTryFromError>, s: &[u8]) {
    match r {
        Ok(n) => match recognise(s) {
            Verdict::Value(neg, d, frac, exp) => value(Ok(n), neg, &d, frac, concretize(exp)),
            _ => fail("text of a number"),
        },
        Err(_) => fail("finite number refused"),
    }
}
/// f64: every number of up to 15 significant digits
#[no_mangle]
pub extern "C" fn check_from_f64() {
    static T: &[&str] = &[
        "!", "!#", "!###", "!####", "!##########", "!##############", "!.!", "!#.#!", "!###.#!", "!####.###!", "!.#############!", "!#####.########!", "!############.#!", "0.!", "0.0#!", "0.00!", "0.000!", "0.000!##!", "0.000!#############!", "0.!#############!",
        "!e-05", "!.!e-05", "!.#############!e-05", "!.#!e-08", "!.#############!e-09", "!e+15", "!.!e+15", "!.#############!e+15", "!.##!e+16", "!.############!e+21", "!e+22", "!e+23", "!e-20", "!.###!e-33", "1.#!e+307", "!e+100", "!.#############!e-307", "!.#############!e+99", "!.#############!e-100",
    ];
    let mut s = sign();
    s.extend(fill(pick(T)));
    let f = float(&s, 15);
    from_case(NumericBuf::try_from(f), &s);
}
/// f32: every number of up to 6 significant digits
#[no_mangle]
pub extern "C" fn check_from_f32() {
    static T: &[&str] = &[
        "!", "!#", "!###", "!####", "!#####", "!.!", "!#.#!", "!###.#!", "!.####!", "!####.!", "0.!", "0.00!", "0.000!", "0.000!####!", "0.!####!", "!e-05", "!.!e-05", "!.####!e-05", "!.####!e-09", "!e+06", "!.####!e+06", "!.####!e+09", "!.##!e+10", "!e+23", "1.####!e+38", "2.####!e-38", "!.####!e-37", "!.####!e+37",
    ];
    let mut s = sign();
    s.extend(fill(pick(T)));
    let f = float(&s, 6) as f32;
    from_case(NumericBuf::try_from(f), &s);
}
/// NaN, infinities, zeros
#[no_mangle]
pub extern "C" fn check_from_float_special() {
    let q = choose(0, 1) as u64;
    let neg = choose(0, 1) as u64;
    let payload = pick(&[1u64, 2, 0x3fffff]);
    let wide = choose(0, 1) == 1;
    let from = |f: u64, m32: u32| if wide { NumericBuf::try_from(f64::from_bits(f | neg << 63)) } else { NumericBuf::try_from(f32::from_bits(m32 | (neg as u32) << 31)) };
    match choose(0, 2) {
        0 => match from(0x7ff << 52 | q << 51 | payload, 0xff << 23 | (q as u32) << 22 | payload as u32) {
            Ok(n) => check(dec(&n).nan, "NaN"),
            Err(_) => fail("NaN refused"),
        },
        1 => match from(0x7ff << 52, 0xff << 23) {
            Ok(_) => fail("infinity accepted"),
            Err(e) => check(e.to_string() == "cannot convert to numeric", "kind of error"),
        },
        _ => match from(0, 0) {
            Ok(n) => check(dec(&n).is_zero() && dec(&n).ds == 0, "zero"),
            Err(_) => fail("zero refused"),
        },
    }
    reach("special");
}

fn p10(k: i32) -> f64 {
    static P: [f64; 23] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22];
    P[k as usize]
}
fn p10s(k: i32) -> f32 {
    static P: [f32; 11] = [1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10];
    P[k as usize]
}
/// numbers with few digits: m / 10^k and m * 10^k with m and 10^k exact, so that one
/// IEEE operation gives the nearest number
#[no_mangle]
pub extern "C" fn check_to_f64() {
    // weight, display scale, base digits (-1: symbolic)
    static T: &[(i32, i32, &[i64])] = &[
        (0, 0, &[-1]), (0, 9, &[-1]), (-1, 4, &[-1]), (-1, 1, &[-1]), (-1, 3, &[-1]), (-2, 8, &[-1]), (-3, 12, &[-1]), (-5, 20, &[-1]), (1, 0, &[-1]), (2, 0, &[-1]), (2, 5, &[-1]), (3, 0, &[-1]),
        (0, 4, &[-1, 5000]), (0, 2, &[-1, 2500]), (0, 4, &[12, -1]), (0, 3, &[9999, -1]), (1, 0, &[7, -1]), (1, 0, &[-1, 1]), (-1, 8, &[1, -1]), (1, 4, &[99, 9999, -1]), (1, 4, &[99, -1, 9999]), (1, 4, &[-1, 1, 9999]), (1, 1, &[999, -1, 1000]),
        (0, 8, &[900, -1, 7]), (2, 0, &[123, -1, 4567]), (-1, 12, &[1, -1, 1]), (-2, 16, &[2, 0, -1]), (0, 12, &[7, 0, 0, -1]), (3, 0, &[7, 0, 0, -1]),
    ];
    let (w, ds, d) = pick(T);
    let a = Num::with(choose(0, 1) == 1, w, ds, d);
    // at most 15 digits before the point
    assume(w < 3 || a.d[0] <= 999);
    let e = a.enc();
    let f: f64 = match e.num().try_into() {
        Ok(f) => f,
        Err(_) => {
            fail("number refused");
            return;
        }
    };
    let mut m = 0i64;
    for x in &a.d {
        m = m * 10000 + *x;
    }
    let k = 4 * (w - (d.len() as i32 - 1));
    let g = if k >= 0 { m as f64 * p10(k) } else { m as f64 / p10(-k) };
    check(f == if a.neg { -g } else { g }, "nearest double");
    reach("converted");
}
#[no_mangle]
pub extern "C" fn check_to_f32() {
    static T: &[(i32, i32, &[i64])] = &[
        (0, 0, &[-1]), (0, 3, &[-1]), (-1, 4, &[-1]), (-1, 1, &[-1]), (-1, 3, &[-1]), (-2, 7, &[-1]), (-1, 7, &[-1]), (1, 0, &[-1]), (0, 4, &[-1, 5000]), (0, 4, &[12, -1]), (0, 3, &[167, -1]), (1, 0, &[7, -1]), (1, 0, &[-1, 1]), (-1, 7, &[1, -1]),
    ];
    let (w, ds, d) = pick(T);
    let a = Num::with(choose(0, 1) == 1, w, ds, d);
    let e = a.enc();
    let mut m = 0i64;
    for x in &a.d {
        m = m * 10000 + *x;
    }
    let k = 4 * (w - (d.len() as i32 - 1));
    // at most 7 digits before the point, and m exact in single precision
    assume(m <= 1 << 24 && (w < 1 || a.d[0] <= 999));
    let f: f32 = match e.num().try_into() {
        Ok(f) => f,
        Err(_) => {
            fail("number refused");
            return;
        }
    };
    let g = if k >= 0 { m as f32 * p10s(k) } else { m as f32 / p10s(-k) };
    check(f == if a.neg { -g } else { g }, "nearest single");
    reach("converted");
}
fn pow2(n: i32) -> Z {
    let mut v = z(1);
    let mut n = n;
    while n > 0 {
        let k = n.min(60);
        v = v * z(1 << k);
        n -= k;
    }
    v
}
/// `f` = mant * 2^exp is the number nearest to `a`, ties to even; `max` is the largest mantissa
fn nearest(a: &Num, mant: i64, exp: i32, min_exp: i32, top: i64) {
    let k = a.frac().max(0);
    let (x, t) = (abs_z(a.val(k), a.neg), pow10(4 * k as u32));
    // x / t against mant * 2^exp, all scaled by 4 * 2^-min(exp, 0)
    let (up, t) = if exp >= 0 { (z(4) * x, t * pow2(exp)) } else { (z(4) * x * pow2(-exp), t) };
    // half a step above; below a power of two the step is half as long
    let hi = t * z(4 * mant + 2);
    let lo = if mant == top && exp > min_exp { t * z(4 * mant - 1) } else { t * z(4 * mant - 2) };
    let even = mant & 1 == 0;
    check(if even { up.le(hi) } else { up.lt(hi) }, "not the nearest number");
    check(if even { lo.le(up) } else { lo.lt(up) }, "not the nearest number");
}
/// many digits, everything around the middle between two neighbours, ends of the range
#[no_mangle]
pub extern "C" fn check_to_float_long() {
    static T: &[(i32, i32, &[i64])] = &[
        // 2^53 + 1, 2^53 + 1 +- tiny, 1 + 2^-53, halfway with a long tail
        (3, 0, &[9007, 1992, 5474, -2]), (3, 4, &[9007, 1992, 5474, 993, -2]), (3, 40, &[9007, 1992, 5474, 992, 9999, 9999, 9999, -2]),
        (0, 56, &[1, 0, 0, 0, 1110, 2230, 2462, 5156, 5404, 2363, 1660, 6445, 3125, -2]), (0, 56, &[1, 0, 0, 0, 1110, 2230, 2462, 5156, 5404, 2363, 1660, 6445, 3124, -2]),
        (0, 32, &[1, 0, 596, 464, 4775, 3906, -2]), (0, 32, &[1, 0, 596, 464, 4775, 3905, -2]), (0, 32, &[1, 0, 596, 464, 4775, 3906, 2500, -2]),
        (1, 0, &[1677, -2]), (1, 8, &[1677, 7217, 0, -2]), (1, 8, &[1677, 7216, 9999, -2]), (0, 24, &[-2, 1, 2, 3, 4, 5, 6]), (0, 24, &[3, 1415, 9265, 3589, 7932, 3846, -2]),
        (9, 0, &[123, 4567, 8901, 2345, 6789, -2]), (9, 0, &[34, 282, 3466, 3852, 8859, 8117, 418, 3484, 5169, -2]), (9, 0, &[34, 282, 3567, 7976, 2553, 3652, 6633, 3300, -2]), (9, 0, &[-2]),
        (-10, 63, &[117, 5494, 3508, -2]), (-12, 70, &[-2]), (-12, 60, &[70, 649, 2321, -2]), (-20, 99, &[-2]),
        (77, 0, &[-2]), (77, 0, &[1, 7976, 9313, 4862, 3157, -2]), (78, 0, &[-2]), (99, 0, &[-2]), (101, 0, &[-2]), (-77, 330, &[-2]), (-80, 340, &[-2]), (-81, 324, &[-2]), (-82, 400, &[-2]), (-101, 500, &[-2]),
    ];
    static V: &[i64] = &[1, 2, 3, 5, 9, 10, 250, 500, 991, 992, 993, 994, 995, 1239, 1250, 5000, 7215, 7217, 7219, 9990, 9999];
    let (w, ds, d) = pick(T);
    let v = pick(V);
    let p = d.iter().position(|x| *x == -2).unwrap() as i32;
    let st = step(w, ds, p);
    assume(st != 0 && v % st == 0);
    let d: Vec<i64> = d.iter().map(|x| if *x == -2 { v } else { *x }).collect();
    let a = Num::with(choose(0, 1) == 1, w, ds, &d);
    let e = a.enc();
    if choose(0, 1) == 1 {
        match TryInto::<f64>::try_into(e.num()) {
            Ok(f) => {
                check(f.is_sign_negative() == a.neg && !f.is_nan(), "sign");
                let b = f.to_bits();
                let ex = (b >> 52 & 0x7ff) as i32;
                let fr = (b & ((1 << 52) - 1)) as i64;
                // 2^1024 stands for infinity
                let (m, ex) = if ex == 0 { (fr, -1074) } else { (fr | 1 << 52, ex - 1075) };
                reach("double");
                if f.is_infinite() {
                    let k = a.frac().max(0);
                    let (x, t) = (abs_z(a.val(k), a.neg), pow10(4 * k as u32));
                    check((t * pow2(970) * z((1 << 54) - 1)).le(x), "infinity for a number in range");
                    reach("infinite");
                    return;
                }
                nearest(&a, m, ex, -1074, 1 << 52);
            }
            Err(_) => fail("number refused"),
        }
    } else {
        let k = a.frac().max(0);
        let (x, t) = (abs_z(a.val(k), a.neg), pow10(4 * k as u32));
        match TryInto::<f32>::try_into(e.num()) {
            Ok(f) => {
                check(f.is_sign_negative() == a.neg && f.is_finite() && f != 0.0, "out of range");
                let b = f.to_bits();
                let ex = (b >> 23 & 0xff) as i32;
                let fr = (b & ((1 << 23) - 1)) as i64;
                let (m, ex) = if ex == 0 { (fr, -149) } else { (fr | 1 << 23, ex - 150) };
                reach("single");
                nearest(&a, m, ex, -149, 1 << 23);
            }
            Err(er) => {
                check(er.to_string() == "value is out of range", "kind of error");
                // at least 2^128 - 2^103, or at most 2^-150
                check((t * pow2(103) * z((1 << 25) - 1)).le(x) || (x * pow2(150)).le(t), "number in range refused");
                reach("range");
            }
        }
    }
}
/// NaN and zero to floating point, by every entry point
#[no_mangle]
pub extern "C" fn check_to_float_special() {
    let nan = choose(0, 1) == 1;
    let a = if nan { Num::nan() } else { Num::zero(pick(&[0, 1, 4, 20, 63, 64, 400])) };
    let e = a.enc();
    let b = NumericBuf::from(e.num().to_owned());
    let (d, s): (f64, f32) = if choose(0, 1) == 1 {
        match (TryInto::<f64>::try_into(e.num()), TryInto::<f32>::try_into(e.num())) {
            (Ok(d), Ok(s)) => (d, s),
            _ => {
                fail("refused");
                return;
            }
        }
    } else {
        match (TryInto::<f64>::try_into(&b), TryInto::<f32>::try_into(b.clone())) {
            (Ok(d), Ok(s)) => (d, s),
            _ => {
                fail("refused");
                return;
            }
        }
    };
    check(if nan { d.is_nan() && s.is_nan() } else { d == 0.0 && s == 0.0 }, "special value");
    reach("special");
}
