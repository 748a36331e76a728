//! round, trunc, ceil, floor and their in-place forms
use crate::num::*;
use crate::rt::*;
use pgnumeric::NumericBuf;

/// k such that the value and 10^-s are integers times 10000^-k
fn unit(a: &Num, s: i32) -> i32 {
    a.frac().max((s + 3).div_euclid(4)).max(0)
}
fn call(a: &Num, s: i32, round: bool, in_place: bool) -> NumericBuf {
    let ea = a.enc();
    if in_place {
        let mut b: NumericBuf = ea.num().to_owned();
        if round {
            b.round_mut(s);
        } else {
            b.trunc_mut(s);
        }
        b
    } else if round {
        ea.num().round(s)
    } else {
        ea.num().trunc(s)
    }
}
fn case(a: &Num, s: i32, round: bool, in_place: bool) {
    let r = call(a, s, round, in_place);
    let s = s.max(-1000).min(1000);
    let k = unit(a, s);
    let u = pow10((4 * k - s) as u32);
    let v = if a.is_zero() { z(0) } else { abs_z(a.val(k), a.neg) };
    let e = if round { round_unit(v, u) } else { trunc_unit(v, u) };
    check_num(&r, abs_z(e, a.neg), k, s.max(0), if round { "round: not the nearest multiple" } else { "trunc: not the truncated value" });
    reach("rounded");
}
fn run(round: bool) {
    let in_place = choose(0, 1) == 1;
    if choose(0, 1) == 0 {
        let a = small(if thorough() { 4 } else { 3 });
        let s = choose(-9, 13) as i32;
        case(&a, s, round, in_place);
    } else {
        let a = any_shape();
        let s = pick(&[i32::MIN, -1001, -1000, -999, -256, -17, -8, -1, 0, 2, 4, 8, 9, 17, 64, 255, 999, 1000, 1001, i32::MAX]);
        case(&a, s, round, in_place);
    }
}
#[no_mangle]
pub extern "C" fn check_round() {
    run(true);
}
#[no_mangle]
pub extern "C" fn check_trunc() {
    run(false);
}
/// carries that run through long digit strings, rounding inside large numbers
#[no_mangle]
pub extern "C" fn check_round_wide() {
    static L: &[(Spec, &[i32])] = &[
        ((3, 16, &[9999, 9999, 9999, 9999, 9999, S, 9999, 9999]), &[4, 5, 7, 8, 9, 12, 15, 16, 0, -4]),
        ((-10, 63, &[9999, S, 9999, 9999, 9999, 5000]), &[40, 44, 47, 48, 50, 59, 60, 36]),
        ((-250, 1001, &[S]), &[999, 1000, 1001]),
        ((-250, 1004, &[4999, S]), &[1000, 1001, 2000]),
        ((-260, 1040, &[S]), &[1000]),
        ((251, 0, &[S, 0, 0, 4999, 9999, S]), &[-1000, -1001, -5000, -999, -996]),
        ((249, 0, &[S, S]), &[-1000, -999]),
        ((32767, 0, &[9999, S]), &[0, -1000, 5]),
        ((0, 16383, &[S]), &[0, -2, -4, -5]),
    ];
    let (a, s) = pick(L);
    let s = pick(s);
    let a = mk(a, choose(0, 1) == 1);
    case(&a, s, choose(0, 1) == 0, false);
}
/// a carry through every digit and out of the leading one, at every weight
#[no_mangle]
pub extern "C" fn check_round_carry() {
    let n = pick2(&[1, 2, 5], &[3, 4, 9]);
    let w = choose(-17, if thorough() { 70 } else { 24 }) as i32;
    let mut d = vec![9999; n];
    d[n - 1] = S;
    let f = 4 * (n as i32 - 1 - w);
    let a = Num::with(choose(0, 1) == 1, w, f.max(0), &d);
    let s = f - choose(0, 5) as i32;
    case(&a, s, true, choose(0, 1) == 0);
}
/// the largest magnitude cannot be rounded up
#[no_mangle]
pub extern "C" fn check_round_limit() {
    let neg = choose(0, 1) == 1;
    let mut d = vec![9999; 32768];
    d.push(0);
    d[32768] = any(1, 9) * 1000;
    let a = Num { nan: false, neg, w: 32767, ds: 1, d };
    let ea = a.enc();
    let up = z(5000).le(z(a.d[32768]));
    match choose(0, 2) {
        0 => {
            allow_panic(up);
            let r = ea.num().round(0);
            check(!up, "round returned an unrepresentable value");
            check_num(&r, abs_z(pow10(131072) - z(1), neg), 0, 0, "round at the limit");
            reach("round down");
        }
        1 => {
            allow_panic(!neg);
            let r = ea.num().ceil();
            check(neg, "ceil returned an unrepresentable value");
            check_num(&r, z(1) - pow10(131072), 0, 0, "ceil at the limit");
            reach("ceil");
        }
        _ => {
            allow_panic(neg);
            let r = ea.num().floor();
            check(!neg, "floor returned an unrepresentable value");
            check_num(&r, pow10(131072) - z(1), 0, 0, "floor at the limit");
            reach("floor");
        }
    }
}
fn int_case(a: &Num, up: bool) {
    let ea = a.enc();
    let r = if up { ea.num().ceil() } else { ea.num().floor() };
    let k = a.frac().max(0);
    let v = if a.is_zero() { z(0) } else { a.val(k) };
    let u = pow10(4 * k as u32);
    let e = if up { v.neg().fdiv(u).neg() } else { v.fdiv(u) };
    check_num(&r, e, 0, 0, if up { "ceil" } else { "floor" });
    reach("integer");
}
#[no_mangle]
pub extern "C" fn check_ceil_floor() {
    static M: &[Spec] = &[
        (0, 1, &[9999, S]),
        (2, 4, &[9999, 9999, 9999, S]),
        (2, 8, &[9999, 9999, 9999, 0, S]),
        (-1, 3, &[S]),
        (-5, 20, &[S]),
        (-250, 1000, &[S]),
        (-1251, 5004, &[S, S]),
        (-4096, 16383, &[S]),
        (-7, 16383, &[S, S]),
        (300, 900, &[9999, S]),
        (3, 16, &[1, 0, 0, 0, 0, 0, 0, S]),
        (32767, 0, &[S]),
    ];
    let a = match choose(0, 2) {
        0 => small(3),
        1 => any_shape(),
        _ => mk(pick(M), choose(0, 1) == 1),
    };
    int_case(&a, choose(0, 1) == 1);
}
/// long operands cut at their beginning, middle and end
#[no_mangle]
pub extern "C" fn check_round_long() {
    let n = long_len();
    let b = bulk();
    let k = choose(0, 4) as usize;
    // the digit the scale lies in, and the place within it
    let i = [0, 1, n / 2, n - 2, n - 1][k];
    let w = long_weight(n, n + k);
    let a = long(choose(0, 1) == 1, n, w, pick(&[0, 5]), b, &[i, i + 1, n - 1]);
    let s = 4 * (i as i32 - w) - choose(0, 3) as i32;
    match choose(0, 2) {
        0 => case(&a, s, true, choose(0, 1) == 1),
        1 => case(&a, s, false, choose(0, 1) == 1),
        _ => int_case(&a, choose(0, 1) == 1),
    }
}
