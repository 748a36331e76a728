//! division, truncating division, remainder
use crate::num::*;
use crate::rt::*;
use pgnumeric::NumericBuf;

/// divisors: concrete digits (the quotient digit estimation depends on the leading ones)
static SHORT: &[Spec] = &[(0, 0, &[1]), (0, 0, &[3]), (0, 2, &[700]), (0, 0, &[9999]), (-1, 4, &[5000])];
static SHORT_T: &[Spec] = &[(0, 0, &[2]), (0, 0, &[9]), (0, 0, &[10]), (3, 0, &[11]), (-1, 4, &[6]), (0, 0, &[9973]), (2, 0, &[4999])];
static LONG: &[Spec] = &[(1, 0, &[1, 1]), (1, 4, &[5000, 0, 1]), (0, 4, &[9999, 9999]), (0, 8, &[1, 0, 1])];
/// as LONG, with quotient digits that are hard to estimate
static HARD: &[Spec] = &[(0, 4, &[1, 9999]), (0, 8, &[5000, 0, 9999])];
static HARD_T: &[Spec] = &[
    (0, 8, &[4999, 9999, 9999]),
    (-2, 16, &[1, 0, 5001]),
    (0, 4, &[4096, 1]),
    (0, 4, &[3333, 3334]),
    (0, 12, &[9999, 9999, 9999, 9999]),
    (2, 2, &[5000, 1, 0, 100]),
    (1, 8, &[5000, 0, 5000, 1]),
    (0, 8, &[7, 0, 9999]),
    (0, 4, &[2, 9999]),
    (0, 8, &[4999, 0, 1]),
];
/// dividends whose symbolic digits come late
static TAIL: &[Spec] = &[(0, 16, &[1234, 5678, 9012, 3456, S]), (0, 16, &[5000, 0, 0, 1, S])];
static TAIL_T: &[Spec] = &[(0, 19, &[9999, 9999, 9999, 9999, S]), (1, 16, &[1, 9999, 9999, 9998, S]), (2, 16, &[7, 9999, 9999, 0, 9999, S])];
/// dividends with one symbolic digit, and with more
static ONE: &[Spec] = &[(0, 0, &[S]), (-1, 4, &[S]), (2, 0, &[S])];
static ONE_T: &[Spec] = &[(1, 3, &[9999, S]), (0, 8, &[5000, 0, S]), (-2, 12, &[S]), (4, 0, &[S])];
static MANY: &[Spec] = &[(0, 4, &[S, S]), (1, 3, &[S, S, S]), (2, 0, &[9999, S, S])];
static MANY_T: &[Spec] = &[(1, 0, &[S, S]), (0, 8, &[S, S, S]), (3, 5, &[S, 0, S, 9999, S]), (-2, 12, &[S, S]), (2, 6, &[S, S, S, S])];

/// display scale a quotient is computed to
fn scale(a: &Num, b: &Num) -> i32 {
    let (w1, f1) = if a.is_zero() { (0, 0) } else { (a.w, a.d[0]) };
    let (w2, f2) = (b.w, b.d[0]);
    let q = w1 - w2 - (f1 <= f2) as i32;
    (16 - 4 * q).max(a.ds).max(b.ds).max(0).min(1000)
}
/// k such that every value and 10^-s is a multiple of 10000^-k
fn unit(a: &Num, b: &Num, s: i32) -> i32 {
    a.frac().max(b.frac()).max((s + 3) / 4).max(0)
}
/// |a / b| at scale s: r * 10^-s with r rounded (half away from zero) or truncated; None on overflow
fn quotient_ok(r: &Option<NumericBuf>, a: &Num, b: &Num, s: i32, round: bool, m: &str) {
    let k = unit(a, b, s);
    let na = abs_z(a.val(k), a.neg);
    let nb = abs_z(b.val(k), b.neg);
    let r = match r {
        None => {
            // overflow: |a / b| >= 10000^32768
            let lim = pow10(4 * 32768) * nb;
            check(lim.le(na + na), "overflow reported although the quotient is representable");
            reach("overflow");
            return;
        }
        Some(r) => dec(r),
    };
    check(!r.nan, "NaN quotient of numbers");
    check(r.ds == s, "display scale of the quotient");
    if r.is_zero() {
        if round {
            check((z(2) * na * pow10(s as u32)).lt(nb), m);
        } else {
            check((na * pow10(s as u32)).lt(nb), m);
        }
        reach("zero quotient");
        return;
    }
    check(r.neg == (a.neg != b.neg), "sign of the quotient");
    let rk = r.frac().max((s + 3) / 4).max(0);
    // integer multiple of 10^-s
    let u = pow10((4 * rk - s) as u32);
    let q = abs_z(r.val(rk), r.neg).fdiv(u);
    let x = na * pow10(s as u32);
    if round {
        // q - 1/2 <= |a/b| 10^s < q + 1/2
        check(((z(2) * q - z(1)) * nb).le(z(2) * x), m);
        check((z(2) * x).lt((z(2) * q + z(1)) * nb), m);
    } else {
        check((q * nb).le(x), m);
        check(x.lt((q + z(1)) * nb), m);
    }
    reach("quotient");
}
fn div_case(a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let r = ea.num().checked_div(eb.num());
    quotient_ok(&r, a, b, scale(a, b), true, "div: not the correctly rounded quotient");
}
fn trunc_case(a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let r = ea.num().checked_div_trunc(eb.num());
    quotient_ok(&r, a, b, 0, false, "div_trunc: not the truncated quotient");
}
/// a = trunc(a / b) * b + rem with |rem| < |b| and the sign of a
fn rem_case(a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let r = match ea.num().checked_rem(eb.num()) {
        None => {
            fail("rem: overflow");
            return;
        }
        Some(r) => dec(&r),
    };
    check(!r.nan, "NaN remainder of numbers");
    check(r.ds == a.ds.max(b.ds), "display scale of the remainder");
    let k = a.frac().max(b.frac()).max(r.frac()).max(0);
    let (na, nb, nr) = (abs_z(a.val(k), a.neg), abs_z(b.val(k), b.neg), abs_z(r.val(k), r.neg));
    check(r.is_zero() || r.neg == a.neg, "sign of the remainder");
    check(nr.lt(nb), "remainder not smaller than the divisor");
    check(nr.eq(na.fmod(nb)), "wrong remainder");
    reach("remainder");
}
/// many symbolic digits by one digit; one symbolic digit by many; late symbolic digits by many
fn operands() -> (Num, Num) {
    let (a, b) = match choose(0, 2) {
        0 => (pick2(MANY, MANY_T), pick2(SHORT, SHORT_T)),
        1 => (pick2(ONE, ONE_T), pick(LONG)),
        _ => (pick2(TAIL, TAIL_T), pick2(HARD, HARD_T)),
    };
    // signs are treated apart from magnitudes: one combination for each operand pair, all of them below
    (mk(a, choose(0, 1) == 1), mk(b, false))
}
#[no_mangle]
pub extern "C" fn check_div_signs() {
    let a = mk(pick(MANY), choose(0, 1) == 1);
    let b = mk(pick(SHORT), choose(0, 1) == 1);
    div_case(&a, &b);
    reach("signs");
}
#[no_mangle]
pub extern "C" fn check_div() {
    let (a, b) = operands();
    div_case(&a, &b);
}
/// integer quotients have few digits: also many symbolic digits by many
fn int_operands() -> (Num, Num) {
    let (a, b) = match choose(0, 3) {
        0 => (pick2(MANY, MANY_T), pick2(SHORT, SHORT_T)),
        1 => (pick2(MANY, MANY_T), pick2(&LONG[..3], &LONG[3..])),
        2 => (pick2(ONE, ONE_T), pick(LONG)),
        _ => (pick2(TAIL, TAIL_T), pick2(HARD, HARD_T)),
    };
    (mk(a, choose(0, 1) == 1), mk(b, choose(0, 1) == 1))
}
#[no_mangle]
pub extern "C" fn check_div_trunc() {
    let (a, b) = int_operands();
    trunc_case(&a, &b);
}
#[no_mangle]
pub extern "C" fn check_rem() {
    let (a, b) = int_operands();
    rem_case(&a, &b);
}
/// display scales far apart
#[no_mangle]
pub extern "C" fn check_rem_wide() {
    static L: &[(Spec, Spec)] = &[
        ((0, 0, &[1]), (-1, 21, &[3333, 3333, 3333, 3333, 3333, 3000])),
        ((0, 0, &[S]), (0, 30, &[1])),
        ((0, 0, &[S]), (-1, 21, &[5000])),
        ((0, 0, &[9999]), (-1, 63, &[7])),
        ((0, 1, &[4321, 7000]), (-16, 64, &[9973])),
        ((-1, 4, &[2024]), (-100, 400, &[7, 1])),
        ((0, 70, &[S]), (0, 0, &[3])),
        ((-10, 70, &[S]), (0, 1, &[2, 5000])),
        ((0, 0, &[S]), (0, 16383, &[7])),
        ((3, 0, &[7]), (-250, 1000, &[13])),
        ((40, 0, &[7, 1]), (0, 9, &[1, 0, 5])),
        ((-30, 124, &[3, S]), (-30, 120, &[2])),
    ];
    let (a, b) = pick(L);
    rem_case(&mk(a, choose(0, 1) == 1), &mk(b, choose(0, 1) == 1));
}
/// zero dividend, zero divisor
#[no_mangle]
pub extern "C" fn check_div_zero() {
    let b = if choose(0, 1) == 0 { Num::zero(pick(&[0, 5, 63, 64, 16383])) } else { mk(pick(LONG), false) };
    let a = if choose(0, 1) == 0 { Num::zero(pick(&[0, 5, 63, 64, 16383])) } else { mk(pick(ONE), choose(0, 1) == 1) };
    if !a.is_zero() && !b.is_zero() {
        return;
    }
    let (ea, eb) = (a.enc(), b.enc());
    let (d, t, r) = (ea.num().checked_div(eb.num()), ea.num().checked_div_trunc(eb.num()), ea.num().checked_rem(eb.num()));
    if b.is_zero() {
        check(d.is_none() && t.is_none() && r.is_none(), "division by zero gave a result");
        reach("zero divisor");
    } else if a.is_zero() {
        let s = scale(&a, &b);
        check_opt(&d, z(0), 0, s, "0 / b");
        check_opt(&t, z(0), 0, 0, "0 div b");
        check_opt(&r, z(0), 0, a.ds.max(b.ds), "0 % b");
        reach("zero dividend");
    }
}
/// long dividends and divisors, far apart and at the limits of the format
#[no_mangle]
pub extern "C" fn check_div_wide() {
    static L: &[(Spec, Spec)] = &[
        ((5, 8, &[1, 0, 0, 0, 0, 0, 0, S]), (2, 0, &[1, 0, 1])),
        ((20, 0, &[S]), (0, 0, &[3])),
        ((0, 0, &[S]), (20, 0, &[7])),
        ((0, 20, &[S]), (0, 30, &[7])),
        ((0, 999, &[S]), (0, 0, &[7])),
        ((-240, 1000, &[S]), (0, 0, &[7])),
        ((0, 2000, &[S]), (0, 0, &[8])),
        ((-300, 1200, &[S]), (0, 0, &[7])),
        ((32767, 0, &[S]), (0, 0, &[2])),
        ((32767, 0, &[S]), (-1, 4, &[1])),
        ((32767, 0, &[S]), (-1, 1, &[5000])),
        ((32767, 0, &[S]), (-20, 80, &[1])),
        ((10, 0, &[9999, 9999, 9999, 9999, 9999, 9999, S]), (3, 0, &[9999, 9999, 9999, 9999])),
        ((9, 0, &[5000, 0, 0, 0, 0, 0, S]), (3, 0, &[5000, 0, 0, 1])),
        ((9, 0, &[4999, 9999, 9999, 9999, 9999, S]), (3, 0, &[5000, 0, 0, 1])),
    ];
    let (a, b) = pick(L);
    let a = mk(a, choose(0, 1) == 1);
    let b = mk(b, true);
    div_case(&a, &b);
}
#[no_mangle]
pub extern "C" fn check_div_trunc_wide() {
    static L: &[(Spec, Spec)] = &[
        ((5, 8, &[1, 0, 0, 0, 0, 0, 0, S]), (2, 0, &[1, 0, 1])),
        ((20, 0, &[S]), (0, 0, &[3])),
        ((0, 0, &[S]), (20, 0, &[7])),
        ((0, 16000, &[S]), (0, 10, &[7])),
        ((-240, 1000, &[S]), (-240, 1000, &[7])),
        ((-240, 1000, &[S]), (-241, 1000, &[9999, 9999])),
        ((10, 0, &[9999, 9999, 9999, 9999, 9999, 9999, S]), (3, 0, &[9999, 9999, 9999, 9999])),
        ((9, 0, &[5000, 0, 0, 0, 0, 0, S]), (3, 0, &[5000, 0, 0, 1])),
        ((9, 0, &[4999, 9999, 9999, 9999, 9999, S]), (3, 0, &[5000, 0, 0, 1])),
    ];
    let (a, b) = pick(L);
    let a = mk(a, choose(0, 1) == 1);
    let b = mk(b, false);
    if choose(0, 1) == 0 {
        trunc_case(&a, &b);
    } else {
        rem_case(&a, &b);
    }
}
/// divisors of one digit, each against a symbolic dividend
#[no_mangle]
pub extern "C" fn check_div_digit() {
    // quick: all up to 1500, then every 17th, and the last ones
    let d = if thorough() {
        choose(1, 9999)
    } else {
        let i = choose(1, 2020);
        if i <= 1500 { i } else if i < 2000 { 1500 + 17 * (i - 1500) } else { i + 7979 }
    };
    let a = mk((0, 0, &[S]), false);
    let b = Num::with(choose(0, 1) == 1, 0, 0, &[d]);
    div_case(&a, &b);
}
/// a symbolic divisor
#[no_mangle]
pub extern "C" fn check_trunc_digit() {
    let a = mk(pick(&[(0, 0, &[S]), (0, 0, &[9999]), (0, 0, &[5000])]), choose(0, 1) == 1);
    let b = mk((0, 0, &[S]), choose(0, 1) == 1);
    trunc_case(&a, &b);
}
/// long dividends, the last digit symbolic where the quotient ends with the dividend; divisors of one and more digits
fn long_operands(trunc: bool) -> (Num, Num) {
    static D: &[&[i64]] = &[
        &[1],
        &[2],
        &[10],
        &[3],
        &[4096],
        &[9999],
        &[1, 1],
        &[5000, 0, 1],
        &[9999, 9999, 9999, 9998],
        &[4999, 9999, 1, 0, 0, 7],
        &[1, 2345, 6789, 123, 4567, 8901, 2345],
    ];
    let n = pick2(&[4, 5, 6, 7, 9, 13, 17, 33, 70, 130], &[8, 10, 11, 12, 16, 18, 65, 260, 520]);
    let b = bulk();
    // the last ones are the dividend's own digits: all, the first half, all and one more
    let own = long(false, n, 0, 0, b, &[]).d;
    let more = long(false, n + 1, 0, 0, b, &[]).d;
    let d = match choose(0, D.len() as i64 + 2) as usize {
        i if i < D.len() => D[i],
        i => [&own[..], &own[..n / 2], &more[..]][i - D.len()],
    };
    let w = [n as i32 - 1, n as i32 / 2 - 1, -1, -5][choose(0, 3) as usize];
    let more = pick(&[0, 3]);
    // the integer quotient ends with the dividend, or anywhere
    let v = if trunc && choose(0, 1) == 1 { w - n as i32 + 1 } else { [w / 2, w - 3, w + 2, w + 251, w - 300][(n + d.len()) % 5] };
    let f = 4 * (d.len() as i32 - 1 - v);
    let y = Num::with(false, v, f.max(0), d);
    let x = long(choose(0, 1) == 1, n, w, more, b, &[]);
    if d.len() == 1 && (if trunc { v > w - n as i32 } else { scale(&x, &y) <= 4 * x.frac() }) {
        (long_few(x.neg, n, w, more, b, n - 1), y)
    } else {
        (x, y)
    }
}
#[no_mangle]
pub extern "C" fn check_div_long() {
    let (a, b) = long_operands(false);
    div_case(&a, &b);
}
#[no_mangle]
pub extern "C" fn check_div_trunc_long() {
    let (a, b) = long_operands(true);
    if choose(0, 1) == 0 {
        trunc_case(&a, &b);
    } else {
        rem_case(&a, &b);
    }
}
