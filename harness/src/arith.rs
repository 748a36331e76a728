//! addition, subtraction, multiplication
use crate::num::*;
use crate::rt::*;

fn add_case(a: &Num, b: &Num, sub: bool) {
    let (ea, eb) = (a.enc(), b.enc());
    let r = if sub { ea.num().checked_sub(eb.num()) } else { ea.num().checked_add(eb.num()) };
    let k = a.frac().max(b.frac()).max(-32768);
    let e = if sub { a.val(k) - b.val(k) } else { a.val(k) + b.val(k) };
    check_opt(&r, e, k, a.ds.max(b.ds), "add/sub: wrong value");
    reach("sum");
}
/// every pair of operands with up to 2 base digits around the decimal point
#[no_mangle]
pub extern "C" fn check_add() {
    let sub = choose(0, 1) == 1;
    let a = small(if thorough() { 3 } else { 2 });
    let b = small(2);
    add_case(&a, &b, sub);
}
/// long, distant, boundary operands
#[no_mangle]
pub extern "C" fn check_add_wide() {
    let sub = choose(0, 1) == 1;
    let a = any_shape();
    let b = any_shape();
    add_case(&a, &b, sub);
}
/// around the largest representable magnitude, and with the smallest one
#[no_mangle]
pub extern "C" fn check_add_limit() {
    static L: &[Spec] = &[(32767, 0, &[S]), (32767, 0, &[9999, S]), (32766, 0, &[S]), (32766, 0, &[9999, S])];
    let sub = choose(0, 1) == 1;
    let a = mk(pick(L), choose(0, 1) == 1);
    let b = mk(pick(L), choose(0, 1) == 1);
    add_case(&a, &b, sub);
}
/// operands thousands of digits apart: no digit of either is lost
#[no_mangle]
pub extern "C" fn check_add_distant() {
    static L: &[Spec] = &[(32767, 0, &[S]), (9000, 0, &[9999, S]), (1000, 2, &[S]), (300, 0, &[1])];
    static M: &[Spec] = &[(0, 0, &[S]), (-1, 7, &[S, S]), (-4095, 16383, &[S]), (-50, 201, &[9999]), (4, 0, &[S, 0, 7])];
    let sub = choose(0, 1) == 1;
    let a = mk(pick(L), choose(0, 1) == 1);
    let b = mk(pick(M), choose(0, 1) == 1);
    if choose(0, 1) == 0 {
        add_case(&a, &b, sub);
    } else {
        add_case(&b, &a, sub);
    }
}
fn mul_case(a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let r = ea.num().checked_mul(eb.num());
    let (ka, kb) = (a.frac(), b.frac());
    if a.is_zero() || b.is_zero() {
        check_opt(&r, z(0), 0, a.ds + b.ds, "mul: zero product");
    } else {
        check_opt(&r, a.val(ka) * b.val(kb), ka + kb, a.ds + b.ds, "mul: wrong value");
    }
    reach("product");
}
#[no_mangle]
pub extern "C" fn check_mul() {
    let a = small(if thorough() { 3 } else { 2 });
    let b = small(2);
    mul_case(&a, &b);
}
#[no_mangle]
pub extern "C" fn check_mul_wide() {
    // products of symbolic digits stay few: one symbolic digit in the second operand
    static M: &[Spec] = &[
        (0, 0, &[S]),
        (3, 4, &[1, 0, 9999, 0, S]),
        (-1, 8, &[S, 9999]),
        (2, 1, &[9999, 9999, 9999, 9000]),
        (-3, 20, &[12, 9999, 5000]),
        (63, 0, &[S]),
        (-40, 160, &[S]),
        (0, 63, &[S]),
        (0, 16000, &[1]),
    ];
    let a = any_shape();
    let b = mk(pick(M), choose(0, 1) == 1);
    mul_case(&a, &b);
}
/// long operands of large digits: the accumulators are normalised during the product
#[no_mangle]
pub extern "C" fn check_mul_carry() {
    let n = pick2(&[21, 22, 23, 45], &[44, 46, 67, 90]);
    let m = pick2(&[21, 24, 43], &[22, 23, 45, 66]);
    let g = pick(&[9999, 9998, 5000]);
    let mut d1 = vec![g; n];
    let mut d2 = vec![9999; m];
    // a symbolic digit in each operand would make the product quadratic: one operand only
    let i = pick(&[0, 1, 20]);
    if choose(0, 1) == 0 {
        d1[i] = S;
    } else {
        d2[i] = S;
    }
    let f = choose(0, 1) as i32;
    let a = Num::with(choose(0, 1) == 1, (n as i32 - 1) * (1 - f), 4 * (n as i32 - 1) * f, &d1);
    let b = Num::with(false, m as i32 - 1, 0, &d2);
    mul_case(&a, &b);
}
/// products around the largest and smallest representable magnitudes
#[no_mangle]
pub extern "C" fn check_mul_limit() {
    static L: &[(Spec, Spec)] = &[
        ((32767, 0, &[S]), (0, 0, &[S])),
        ((16383, 0, &[S]), (16383, 0, &[S])),
        ((16383, 0, &[S]), (16384, 0, &[S])),
        ((16384, 0, &[S, S]), (16384, 0, &[S])),
        ((32767, 0, &[S]), (32767, 0, &[S])),
        ((32766, 0, &[S, S]), (1, 0, &[S])),
        ((-2048, 8191, &[S]), (-2048, 8192, &[S])),
        ((-2048, 8192, &[S]), (-2048, 8192, &[S])),
        ((0, 8192, &[]), (0, 8192, &[S])),
        ((-4096, 16383, &[S]), (0, 0, &[S])),
        ((-4096, 16383, &[S]), (0, 1, &[S])),
        ((0, 16383, &[]), (0, 1, &[])),
        ((-4096, 16383, &[S]), (32767, 0, &[S])),
    ];
    let (a, b) = pick(L);
    let (a, b) = if choose(0, 1) == 0 { (a, b) } else { (b, a) };
    let a = mk(a, choose(0, 1) == 1 && !a.2.is_empty());
    let b = mk(b, false);
    mul_case(&a, &b);
}
/// long operands: overlapping, adjacent and apart, with carries and borrows through the digits between
#[no_mangle]
pub extern "C" fn check_add_long() {
    let sub = choose(0, 1) == 1;
    let n = long_len();
    let b = bulk();
    let k = choose(0, 5) as i32;
    let m = [1, 2, n][(choose(0, 2)) as usize];
    // the first digit of the second operand: where it stands relative to the first operand's digits
    let off = [0, 1, n as i32 - 1, n as i32, n as i32 + 1, -1][k as usize];
    let w = long_weight(n, (n as i32 + k) as usize);
    let x = long(choose(0, 1) == 1, n, w, pick(&[0, if n == 68 { 6000 } else if n % 2 == 1 { 21 } else { 1200 }]), b, &[0, n - 1]);
    let y = long(false, m, w - off, 0, b, &[0, 1, m - 1]);
    add_case(&x, &y, sub);
}
/// one symbolic digit in long factors
#[no_mangle]
pub extern "C" fn check_mul_long() {
    let n = long_len();
    let m = pick(&[1, 2, 3, 4, 5, 9]);
    let b = bulk();
    let i = choose(0, 2) as usize;
    let w = long_weight(n, n + m + i);
    let (x, y) = if choose(0, 1) == 0 {
        (long_few(choose(0, 1) == 1, n, w, (7 * i) as i32, b, [0, n / 2, n - 1][i]), long(false, m, 0, 3, bulk(), &[]))
    } else {
        (long(choose(0, 1) == 1, n, w, (7 * i) as i32, b, &[]), long_few(true, m, 0, 3, bulk(), [0, m / 2, m - 1][i]))
    };
    if choose(0, 1) == 0 {
        mul_case(&x, &y);
    } else {
        mul_case(&y, &x);
    }
}
