//! negation, absolute value, sign, increment, classification
use crate::num::*;
use crate::rt::*;
use pgnumeric::NumericBuf;

fn operand() -> Num {
    static L: &[Spec] = &[(32767, 0, &[S]), (-4096, 16383, &[S]), (63, 63, &[S, S]), (-64, 300, &[S, S]), (0, 4, &[9999, 9999])];
    match choose(0, 2) {
        0 => small(3),
        1 => any_shape(),
        _ => mk(pick(L), choose(0, 1) == 1),
    }
}
#[no_mangle]
pub extern "C" fn check_neg() {
    let a = operand();
    let ea = a.enc();
    let x = ea.num();
    let r = match choose(0, 4) {
        0 => x.negate(),
        1 => {
            let mut b: NumericBuf = x.to_owned();
            b.negate_mut();
            b
        }
        2 => -x,
        3 => -&x.to_owned(),
        _ => -x.to_owned(),
    };
    let r = dec(&r);
    let mut e = a.clone();
    e.neg = !e.neg && !e.is_zero();
    check_same(&r, &e, "negation");
    reach("negated");
}
#[no_mangle]
pub extern "C" fn check_abs() {
    let a = operand();
    let ea = a.enc();
    let x = ea.num();
    let r = if choose(0, 1) == 0 {
        x.abs()
    } else {
        let mut b: NumericBuf = x.to_owned();
        b.abs_mut();
        b
    };
    let r = dec(&r);
    let mut e = a.clone();
    e.neg = false;
    check_same(&r, &e, "absolute value");
    reach("abs");
}
#[no_mangle]
pub extern "C" fn check_sign() {
    let a = operand();
    let ea = a.enc();
    let x = ea.num();
    let b: NumericBuf = x.to_owned();
    check(!x.is_nan() && !b.is_nan(), "is_nan of a number");
    check(x.scale() == Some(a.ds), "scale");
    let n = a.neg && !a.is_zero();
    check(x.is_negative() == n && b.is_negative() == n, "is_negative");
    if !a.is_zero() {
        check(x.is_positive() == !n && b.is_positive() == !n, "is_positive");
    }
    let s = x.signum();
    let e = if a.is_zero() { 0 } else if a.neg { -1 } else { 1 };
    check_num(&s, z(e), 0, 0, "signum");
    reach("signum");
}
#[no_mangle]
pub extern "C" fn check_inc() {
    static L: &[Spec] = &[(0, 0, &[9999]), (1, 4, &[9999, 9999, S]), (3, 2, &[9999, 9999, 9999, 9999, 9900]), (-1, 4, &[9999])];
    let a = if choose(0, 1) == 0 { operand() } else { mk(pick(L), choose(0, 1) == 1) };
    let ea = a.enc();
    let r = ea.num().inc();
    let k = a.frac().max(0);
    let v = if a.is_zero() { z(0) } else { a.val(k) };
    check_num(&r, v + pow10(4 * k as u32), k, a.ds, "inc");
    reach("incremented");
}
/// the largest integer cannot be incremented
#[no_mangle]
pub extern "C" fn check_inc_limit() {
    let mut d = vec![9999; 32768];
    d[32767] = any(1, 9999);
    let a = Num { nan: false, neg: false, w: 32767, ds: 0, d };
    let ea = a.enc();
    let over = a.d[32767] == 9999;
    allow_panic(over);
    let r = ea.num().inc();
    check(!over, "inc returned an unrepresentable value");
    check_num(&r, a.val(0) + z(1), 0, 0, "inc at the limit");
    reach("limit");
}
/// constants and copies
#[no_mangle]
pub extern "C" fn check_copy() {
    let a = if choose(0, 5) == 0 { Num::nan() } else { operand() };
    let ea = a.enc();
    let x = ea.num();
    let b: NumericBuf = x.to_owned();
    check_same(&dec(&b), &a, "to_owned");
    let c = b.clone();
    check_same(&dec(&c), &a, "clone");
    check_same(&dec(&b), &a, "original after clone");
    drop(b);
    check_same(&dec(c.as_numeric()), &a, "clone after the original is dropped");
    check_same(&dec(&NumericBuf::nan()), &Num::nan(), "NumericBuf::nan");
    check_same(&dec(pgnumeric::Numeric::nan()), &Num::nan(), "Numeric::nan");
    check_same(&dec(&NumericBuf::zero()), &Num::zero(0), "NumericBuf::zero");
    check_same(&dec(pgnumeric::Numeric::zero()), &Num::zero(0), "Numeric::zero");
    let cow: std::borrow::Cow<pgnumeric::Numeric> = x.into();
    check_same(&dec(&cow), &a, "Cow of a borrowed numeric");
    let cow: std::borrow::Cow<pgnumeric::Numeric> = c.into();
    check_same(&dec(&cow.into_owned()), &a, "Cow of an owned numeric");
    reach("copied");
}
/// long operands through every unary operation
#[no_mangle]
pub extern "C" fn check_unary_long() {
    let n = long_len();
    let k = choose(0, 6) as i32;
    let w = long_weight(n, k as usize);
    let a = long(choose(0, 1) == 1, n, w, pick(&[0, 21, 70]), bulk(), &[0, n / 2, n - 1]);
    let ea = a.enc();
    let x = ea.num();
    let mut e = a.clone();
    match choose(0, 5) {
        0 => {
            e.neg = !a.neg;
            check_same(&dec(&x.negate()), &e, "negation");
        }
        1 => {
            e.neg = false;
            check_same(&dec(&x.abs()), &e, "absolute value");
        }
        2 => {
            let mut b: NumericBuf = x.to_owned();
            b.negate_mut();
            b.negate_mut();
            check_same(&dec(&b), &a, "negated twice");
            b.abs_mut();
            e.neg = false;
            check_same(&dec(&b), &e, "absolute value in place");
        }
        3 => {
            check_num(&x.signum(), z(if a.neg { -1 } else { 1 }), 0, 0, "signum");
        }
        4 => {
            let f = a.frac().max(0);
            check_num(&x.inc(), a.val(f) + pow10(4 * f as u32), f, a.ds, "inc");
        }
        _ => {
            let b: NumericBuf = x.to_owned();
            check_same(&dec(&b.clone()), &a, "clone");
        }
    }
    reach("long");
}
