//! powers and factorials
use crate::num::*;
use crate::rt::*;
use pgnumeric::NumericBuf;

fn power(v: Z, n: i64) -> Z {
    let mut r = z(1);
    for _ in 0..n {
        r = r * v;
    }
    r
}
/// v^n rounded to max(16, scale of v, at most 1000) digits
fn pow_case(a: &Num, n: i64, eds: i32) {
    let (hi, lo) = (n.abs() / 10000, n.abs() % 10000);
    let e = match (hi, lo) {
        (0, 0) => Num::zero(eds),
        (0, _) => Num::with(n < 0, 0, eds, &[lo]),
        (_, 0) => Num::with(n < 0, 1, eds, &[hi]),
        _ => Num::with(n < 0, 1, eds, &[hi, lo]),
    };
    let (ea, ee) = (a.enc(), e.enc());
    let r = ea.num().pow(ee.num());
    let s = a.ds.max(16).min(1000);
    if n == 0 {
        check_opt(&r, z(1), 0, s, "x ^ 0 must be 1");
        reach("power");
        return;
    }
    if a.is_zero() {
        check_opt(&r, z(0), 0, s, "0 ^ n must be 0");
        reach("power");
        return;
    }
    // everything in units of 10000^-k
    let f = a.frac();
    let k = (f as i64 * n).max(((s + 3) / 4) as i64) as i32;
    let neg = a.neg && n % 2 != 0;
    let v = scale_up(power(abs_z(a.val(f), a.neg), n), (f as i64 * n) as i32, k);
    let v = if (n * a.ds as i64) <= s as i64 { v } else { round_unit(v, pow10((4 * k - s) as u32)) };
    check_opt(&r, if neg { v.neg() } else { v }, k, s, "wrong power");
    reach("power");
}
/// integer exponents, symbolic bases
#[no_mangle]
pub extern "C" fn check_pow_int() {
    static L: &[Spec] = &[(0, 0, &[]), (0, 0, &[S]), (0, 3, &[S]), (1, 0, &[S]), (-1, 4, &[S]), (-1, 2, &[S]), (2, 0, &[S, 7]), (0, 4, &[1, S]), (1, 3, &[S, 0, 500])];
    let n = choose(0, 2);
    let s = pick(L);
    let a = mk(s, !s.2.is_empty() && choose(0, 1) == 1);
    pow_case(&a, n, pick(&[0, 3]));
}
/// higher exponents: the powers of a digit are not linear, so its range is small
#[no_mangle]
pub extern "C" fn check_pow_higher() {
    let n = pick2(&[3, 4, 5, 7], &[6, 8, 9, 10, 11, 15, 16]);
    let m = if thorough() { 40 } else { 20 };
    static L: &[Spec] = &[(0, 0, &[S]), (0, 3, &[S]), (1, 0, &[S]), (-1, 4, &[S]), (-2, 8, &[S])];
    let s = pick(L);
    let a = Num { nan: false, neg: choose(0, 1) == 1, w: s.0, ds: s.1, d: vec![any(1, m)] };
    pow_case(&a, n, 0);
}
/// powers of many sizes: every path has its own base and exponent, the sign is symbolic only in its effect
#[no_mangle]
pub extern "C" fn check_pow_wide() {
    static L: &[Spec] = &[
        (0, 0, &[2]),
        (0, 0, &[9999]),
        (-1, 4, &[5000]),
        (-1, 4, &[9999]),
        (-1, 4, &[7]),
        (0, 4, &[1, 1]),
        (0, 8, &[1, 0, 1]),
        (2, 4, &[12, 3456, 7890, 1234]),
        (0, 20, &[3]),
        (0, 20, &[1, 5000]),
        (-5, 24, &[1, 2000]),
        (16, 0, &[1]),
    ];
    let a = mk(pick(L), choose(0, 1) == 1);
    let n = pick2(&[1, 2, 3, 5, 6, 10, 17, 31], &[4, 7, 8, 9, 12, 15, 16, 20, 33, 63, 64, 100]);
    pow_case(&a, n, 0);
}
/// every exponent up to 300 (800 in the thorough tier)
#[no_mangle]
pub extern "C" fn check_pow_exponents() {
    static L: &[Spec] = &[(0, 0, &[1]), (0, 0, &[2]), (-1, 1, &[7000]), (1, 4, &[1, 0, 1])];
    let a = mk(pick(L), choose(0, 1) == 1);
    pow_case(&a, choose(3, if thorough() { 800 } else { 300 }), 0);
}
/// exponents around 2^15, 2^16 and the largest ones
#[no_mangle]
pub extern "C" fn check_pow_large() {
    let e = pick2(&[1000, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 131071], &[1001, 1024, 5000, 10001, 99999, 100000, 131070]);
    let a = match choose(0, 2) {
        0 => Num::with(choose(0, 1) == 1, 0, 0, &[1]),
        1 => Num::with(choose(0, 1) == 1, 0, 0, &[10]),
        _ => Num::with(choose(0, 1) == 1, 0, 5, &[10]),
    };
    pow_case(&a, e, 0);
}
/// single digits at many weights; long bases
#[no_mangle]
pub extern "C" fn check_pow_long() {
    if choose(0, 1) == 0 {
        let d = pick(&[1, 10, 100, 1000, 5000, 9, 1001]);
        let w = choose(-3, 4) as i32;
        let neg = choose(0, 1) == 1;
        let ds = (-4 * w).max(0) + pick(&[0, 5]);
        let ds = if w < 0 && d % 10 == 0 && ds == -4 * w { ds - 1 } else { ds };
        pow_case(&Num::with(neg, w, ds, &[d]), choose(2, if thorough() { 40 } else { 12 }), 0);
    } else {
        let n = pick2(&[3, 4, 5, 6, 9], &[2, 7, 8, 12, 17]);
        let w = long_weight(n, choose(0, 6) as usize);
        let e = choose(1, 4);
        let neg = choose(0, 1) == 1;
        let more = pick(&[0, 3]);
        let b = bulk();
        let a = if e == 1 { long_few(neg, n, w, more, b, n / 2) } else { long(neg, n, w, more, b, &[]) };
        pow_case(&a, e, 0);
    }
}
/// 1 / v^n, within one unit of the last place
#[no_mangle]
pub extern "C" fn check_pow_negative() {
    static L: &[Spec] = &[
        (0, 0, &[1]),
        (0, 0, &[2]),
        (0, 0, &[3]),
        (0, 0, &[9999]),
        (0, 2, &[700]),
        (-1, 4, &[5000]),
        (-1, 4, &[9999]),
        (-1, 4, &[7]),
        (0, 4, &[1, 1]),
        (1, 4, &[12, 3456, 7890]),
        (0, 20, &[3]),
        (-2, 8, &[1]),
        (20, 0, &[1]),
    ];
    let a = mk(pick(L), choose(0, 1) == 1);
    let n = pick2(&[1, 2, 3, 5, 6, 17], &[4, 7, 10, 16, 31, 40, 64]);
    let e = Num::with(true, 0, 0, &[n]);
    let (ea, ee) = (a.enc(), e.enc());
    let s = a.ds.max(16).min(1000);
    let r = match ea.num().pow(ee.num()) {
        Some(r) => dec(&r),
        None => {
            fail("overflow reported although the power is representable");
            return;
        }
    };
    check(!r.nan && r.ds == s, "display scale of the power");
    check(r.is_zero() || r.neg == (a.neg && n % 2 == 1), "sign of the power");
    // |r| 10^s = q with |q - 10^s / v^n| <= 1
    let rk = r.frac().max((s + 3) / 4).max(0);
    let q = abs_z(r.val(rk), r.neg).fdiv(pow10((4 * rk - s) as u32));
    let f = a.frac().max(0);
    let v = power(abs_z(a.val(f), a.neg), n);
    let x = pow10(s as u32) * pow10((4 * f as i64 * n) as u32);
    check(((q - z(1)) * v).le(x), "wrong power");
    check(x.le((q + z(1)) * v), "wrong power");
    reach("reciprocal power");
}
/// zero and negative bases that have no power, overflow
#[no_mangle]
pub extern "C" fn check_pow_special() {
    let case = choose(0, 4);
    let zero = Num::zero(if case == 0 || case == 2 { pick(&[0, 3, 70]) } else { 0 });
    match case {
        0 => {
            // zero to a negative power
            let e = mk(pick(&[(0, 0, &[S]), (0, 4, &[3, S]), (3, 0, &[S]), (-1, 4, &[S])]), true);
            let (ea, ee) = (zero.enc(), e.enc());
            reach("undefined");
            allow_panic(true);
            let _ = ea.num().pow(ee.num());
            fail("zero raised to a negative power gave a result");
        }
        1 => {
            // negative to a fractional power
            let a = mk(pick(&[(0, 0, &[S]), (2, 4, &[S, 0, 0, S])]), true);
            static E: &[Spec] = &[
                (0, 4, &[3, S]), (-1, 4, &[S]), (1, 2, &[7, 0, S]),
                (0, 40, &[3, 5000]), (0, 1000, &[1, 5000]), (-3, 65, &[S]), (2, 64, &[1, 0, 0, 5000]), (-30, 120, &[S]),
            ];
            let e = mk(pick(E), choose(0, 1) == 1);
            let (ea, ee) = (a.enc(), e.enc());
            reach("complex");
            allow_panic(true);
            let _ = ea.num().pow(ee.num());
            fail("a negative number raised to a fractional power gave a result");
        }
        2 => {
            // zero to a positive power that is no 32-bit integer
            let e = mk(pick(&[(0, 4, &[3, S]), (-1, 4, &[S]), (3, 0, &[S])]), false);
            let (ea, ee) = (zero.enc(), e.enc());
            let r = ea.num().pow(ee.num());
            check_opt(&r, z(0), 0, 16, "zero to a positive power must be 0");
            reach("zero");
        }
        3 => {
            // far too large
            let w = pick(&[20000, 32767]);
            let n = pick(&[2, 3, 5, 9999]);
            // higher powers of an unknown digit are out of reach of the solvers
            let d = if n == 2 { any(1, 9999) } else { pick(&[1, 3, 9, 10, 31, 32, 99, 100, 316, 317, 1000, 3162, 3163, 9999]) };
            let a = Num::with(choose(0, 1) == 1, w, 0, &[d]);
            let e = Num::with(false, 0, 0, &[n]);
            let (ea, ee) = (a.enc(), e.enc());
            let r = ea.num().pow(ee.num());
            check(r.is_none(), "power too large to represent");
            reach("overflow");
        }
        _ => {
            // one, whatever the exponent
            let a = Num::with(false, 0, pick(&[0, 5, 20]), &[1]);
            let e = Num { nan: false, neg: false, w: 0, ds: 0, d: vec![any(1, 70)] };
            let (ea, ee) = (a.enc(), e.enc());
            let r = ea.num().pow(ee.num());
            check_opt(&r, z(1), 0, a.ds.max(16), "power of one");
            reach("one");
        }
    }
}
/// roots and logarithms outside their domains are refused for every operand
#[no_mangle]
pub extern "C" fn check_domain() {
    static L: &[Spec] = &[(0, 0, &[]), (0, 0, &[S]), (0, 4, &[S, S]), (-1, 4, &[S]), (-3, 13, &[S, S]), (5, 8, &[1, 0, S, 0, 0, 0, 0, S]), (64, 64, &[S, S]), (-65, 260, &[S]), (32767, 0, &[S]), (-4096, 16383, &[S])];
    let s = pick(L);
    let a = if s.2.is_empty() { Num::zero(pick(&[0, 5, 64])) } else { mk(s, true) };
    let p = Num::with(false, 0, 0, &[pick(&[1, 10])]);
    let (ea, ep) = (a.enc(), p.enc());
    let (x, y) = (ea.num(), ep.num());
    let op = choose(0, 5);
    if op == 0 && a.is_zero() {
        check_num(&x.sqrt(), z(0), 0, a.ds.max(15), "root of zero");
        reach("root of zero");
        return;
    }
    reach("refused");
    allow_panic(true);
    match op {
        0 => drop(x.sqrt()),
        1 => drop(x.ln()),
        2 => drop(x.log2()),
        3 => drop(x.log10()),
        4 => drop(x.log(y)),
        _ => drop(y.log(x)),
    }
    fail("a root or logarithm outside its domain gave a result");
}
/// division by zero: the operators panic, the checked functions return None
#[no_mangle]
pub extern "C" fn check_zero_divisor() {
    let b = Num::zero(pick(&[0, 2, 63, 64, 16383]));
    let a = if choose(0, 1) == 0 { small(2) } else { any_shape() };
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    let op = choose(0, 4);
    check(x.checked_div(y).is_none(), "division by zero gave a result");
    check(x.checked_div_trunc(y).is_none(), "division by zero gave a result");
    check(x.checked_rem(y).is_none(), "division by zero gave a result");
    reach("refused");
    allow_panic(true);
    match op {
        0 => drop(x / y),
        1 => drop(x % y),
        2 => {
            let mut v = x.to_owned();
            v /= y;
        }
        3 => {
            let mut v = x.to_owned();
            v %= y;
        }
        _ => drop(x.to_owned() / y.to_owned()),
    }
    fail("division by zero gave a result");
}
/// factorials: 1 below 2, n! = n (n-1)! above, None when the value does not fit
#[no_mangle]
pub extern "C" fn check_factorial() {
    let top = if thorough() { 400 } else { 200 };
    let n = match choose(0, 3) {
        0 => any(i64::MIN, 1),
        1 => choose(2, top),
        2 => any(32178, i64::MAX),
        // from 10000 on the argument has two base-10000 digits
        _ => pick2(&[10001, 500, 1009, 2500], &[5000, 12000]),
    };
    let r = NumericBuf::factorial(n);
    if n > 32177 {
        check(r.is_none(), "factorial too large to represent");
        reach("overflow");
        return;
    }
    let n = if n < 2 { 1 } else { n };
    let mut e = z(1);
    for i in 2..=n {
        e = e * z(i);
    }
    check_opt(&r, e, 0, 0, "wrong factorial");
    reach("factorial");
}
