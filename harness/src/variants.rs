//! operators in all owned/borrowed/assigning forms agree with the checked functions
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};

fn same(r: &NumericBuf, e: &Option<NumericBuf>) {
    match e {
        Some(e) => {
            check(r.as_bytes().len() == e.as_bytes().len(), "operator differs from the checked function");
            check(r.as_bytes() == e.as_bytes(), "operator differs from the checked function");
            reach("agrees");
        }
        None => fail("operator returned although the checked function reports an error"),
    }
}
macro_rules! forms {
    ($op:tt, $asg:tt, $form:expr, $x:expr, $y:expr, $ox:expr, $oy:expr) => {{
        let (x, y): (&Numeric, &Numeric) = ($x, $y);
        let (ox, oy): (NumericBuf, NumericBuf) = ($ox, $oy);
        match $form {
            0 => x $op y,
            1 => x $op &oy,
            2 => x $op oy,
            3 => &ox $op y,
            4 => &ox $op &oy,
            5 => &ox $op oy,
            6 => ox $op y,
            7 => ox $op &oy,
            8 => ox $op oy,
            9 => { let mut v = ox; v $asg y; v }
            10 => { let mut v = ox; v $asg &oy; v }
            _ => { let mut v = ox; v $asg oy; v }
        }
    }};
}
fn case(op: i64, form: i64, a: &Num, b: &Num) {
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    let e = match op {
        0 => x.checked_add(y),
        1 => x.checked_sub(y),
        2 => x.checked_mul(y),
        3 => x.checked_div(y),
        _ => x.checked_rem(y),
    };
    allow_panic(e.is_none());
    let (ox, oy) = (x.to_owned(), y.to_owned());
    let r = match op {
        0 => forms!(+, +=, form, x, y, ox, oy),
        1 => forms!(-, -=, form, x, y, ox, oy),
        2 => forms!(*, *=, form, x, y, ox, oy),
        3 => forms!(/, /=, form, x, y, ox, oy),
        _ => forms!(%, %=, form, x, y, ox, oy),
    };
    allow_panic(false);
    same(&r, &e);
    // borrowed operands are left alone
    check(dec(x).nan == a.nan, "operand changed");
    if !a.nan && !b.nan {
        check_same(&dec(x), a, "operand changed");
        check_same(&dec(y), b, "operand changed");
    }
}
/// ordinary operands; zero divisors and NaN included
#[no_mangle]
pub extern "C" fn check_operators() {
    let op = choose(0, 4);
    let form = choose(0, 11);
    static A: &[Spec] = &[(0, 0, &[]), (0, 2, &[S]), (1, 5, &[12, 0, S]), (-1, 4, &[S])];
    static B: &[Spec] = &[(0, 0, &[]), (0, 0, &[7]), (0, 4, &[12, 5000])];
    let i = choose(0, 4);
    let a = if i == 4 { Num::nan() } else { mk(A[i as usize], i > 0 && choose(0, 1) == 1) };
    let j = choose(0, 3);
    let b = if j == 3 { Num::nan() } else { mk(B[j as usize], j > 0 && choose(0, 1) == 1) };
    case(op, form, &a, &b);
}
/// operands of differing lengths, weights and display scales
#[no_mangle]
pub extern "C" fn check_operators_wide() {
    static L: &[(Spec, Spec)] = &[
        ((0, 24, &[1, 0, 0, 0, 0, 0, S]), (0, 0, &[2])),
        ((0, 0, &[S]), (0, 40, &[1, 5000, 0, 0, 0, 0, 0, 0, 0, 7])),
        ((20, 0, &[S]), (-3, 20, &[3])),
        ((-30, 120, &[S]), (64, 64, &[9])),
        ((40, 1000, &[9999, S]), (0, 1, &[5])),
        ((-1, 4, &[S]), (0, 63, &[7])),
        ((-1, 33, &[1, 0, 0, 0, 0, 0, 0, 0, S]), (64, 70, &[1])),
    ];
    let (a, b) = pick(L);
    let op = choose(0, 4);
    let (mut a, b) = (mk(a, choose(0, 1) == 1), mk(b, choose(0, 1) == 1));
    if op >= 3 {
        // long quotients: one dividend
        let n = a.d.len();
        a.d[n - 1] = if a.w < 0 { 3000 } else { 2024 };
    }
    case(op, choose(0, 11), &a, &b);
}
/// at the limits of the format: the operators panic exactly when the checked functions return None
#[no_mangle]
pub extern "C" fn check_operators_limit() {
    static L: &[(i64, Spec, Spec)] = &[
        (0, (32767, 0, &[S]), (32767, 0, &[S])),
        (1, (32767, 0, &[S]), (32767, 0, &[S])),
        (2, (16383, 0, &[S]), (16384, 0, &[S])),
        (2, (0, 8192, &[]), (0, 8192, &[S])),
        (3, (32767, 0, &[S]), (-1, 4, &[1])),
        (4, (32767, 0, &[S]), (32767, 0, &[2])),
    ];
    let (op, a, b) = pick(L);
    let a = mk(a, !a.2.is_empty() && choose(0, 1) == 1);
    let b = mk(b, choose(0, 1) == 1);
    case(op, choose(0, 11), &a, &b);
}
/// NaN-free comparison of an operand with itself; sums and products do not depend on the order of the operands
#[no_mangle]
pub extern "C" fn check_commutes() {
    let a = small(2);
    let b = if choose(0, 1) == 0 { small(1) } else { any_shape() };
    let (ea, eb) = (a.enc(), b.enc());
    let (x, y) = (ea.num(), eb.num());
    if choose(0, 1) == 0 {
        match (x.checked_add(y), y.checked_add(x)) {
            (Some(p), Some(q)) => check_same(&dec(&p), &dec(&q), "a + b differs from b + a"),
            _ => fail("sum overflows"),
        }
        reach("sum");
    } else {
        match (x.checked_sub(y), y.checked_sub(x)) {
            (Some(p), Some(q)) => check_same(&dec(&p), &dec(&q.negate()), "a - b differs from -(b - a)"),
            _ => fail("difference overflows"),
        }
        reach("difference");
    }
}
