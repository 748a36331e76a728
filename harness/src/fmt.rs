//! numeric to text
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};

fn is_digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
/// integer written by decimal digits
fn digits(d: &[u8]) -> Z {
    let mut v = z(0);
    for c in d.chunks(16) {
        let mut t = 0i64;
        for x in c {
            t = t * 10 + (*x - b'0') as i64;
        }
        v = v * pow10(c.len() as u32) + z(t);
    }
    v
}
/// the bytes after an optional minus sign, which must agree with the value
fn unsign<'a>(s: &'a [u8], a: &Num) -> &'a [u8] {
    if a.neg && !a.is_zero() {
        check(!s.is_empty() && s[0] == b'-', "minus sign");
        &s[1..]
    } else {
        s
    }
}
/// digits of an unsigned decimal text with `ds` fraction digits and no superfluous leading zero
fn plain(s: &[u8], ds: usize) -> Vec<u8> {
    let n = s.len();
    let int = if ds > 0 { n as i64 - ds as i64 - 1 } else { n as i64 };
    check(int >= 1, "text is too short for its display scale");
    let int = int as usize;
    let mut d = vec![];
    for (i, c) in s.iter().enumerate() {
        if i == int {
            check(*c == b'.', "decimal point");
        } else {
            check(is_digit(*c), "digit expected in the text of a numeric");
            d.push(*c);
        }
    }
    if int > 1 {
        check(s[0] != b'0', "superfluous leading zero");
    }
    d
}
fn check_display(a: &Num, t: &str) {
    let s = unsign(t.as_bytes(), a);
    let d = plain(s, a.ds as usize);
    let k = a.frac().max((a.ds + 3) / 4).max(0);
    let v = abs_z(a.val(k), a.neg);
    check((digits(&d) * pow10((4 * k - a.ds) as u32)).eq(v), "text differs from the value");
    reach("text");
}
fn operand(n: i64) -> Num {
    match choose(0, 2) {
        0 => small(n),
        1 => {
            static L: &[Spec] = &[
                (0, 21, &[]),
                (2, 9, &[S, S, 0, 9999, S, S]),
                (-3, 13, &[S, S]),
                (5, 8, &[1, 0, 0, 0, 0, 0, 0, S]),
                (63, 63, &[S]),
                (64, 64, &[S, S]),
                (-64, 256, &[S]),
                (-65, 260, &[S]),
                (120, 0, &[S]),
                (0, 1000, &[S]),
                (1, 1, &[S, 0, S]),
                (1, 2, &[S, 0, S]),
                (1, 3, &[S, 0, S]),
                (1, 7, &[S, 0, S]),
                (-1, 5, &[S, S]),
                (-1, 7, &[S, S]),
            ];
            let s = pick(L);
            mk(s, !s.2.is_empty() && choose(0, 1) == 1)
        }
        _ => {
            // digits at the seams of the text of a base digit
            static L: &[Spec] = &[(1, 0, &[1, 10]), (1, 0, &[10, 100]), (1, 4, &[1000, 1, S]), (0, 4, &[999, 5]), (2, 0, &[9, 0, 99]), (-1, 4, &[1]), (-1, 4, &[1000]), (-2, 8, &[10])];
            mk(pick(L), choose(0, 1) == 1)
        }
    }
}
#[no_mangle]
pub extern "C" fn check_text() {
    let a = operand(if thorough() { 4 } else { 3 });
    let ea = a.enc();
    let t = if choose(0, 1) == 0 { ea.num().to_string() } else { ea.num().to_owned().to_string() };
    check_display(&a, &t);
}
/// parsing the text gives the same numeric, bit for bit
#[no_mangle]
pub extern "C" fn check_text_roundtrip() {
    let a = operand(if thorough() { 3 } else { 2 });
    let ea = a.enc();
    let t = ea.num().to_string();
    match t.parse::<NumericBuf>() {
        Ok(r) => {
            check(r.as_bytes().len() == ea.bytes().len(), "text does not parse back to the same numeric");
            check(r.as_bytes() == ea.bytes(), "text does not parse back to the same numeric");
        }
        Err(_) => fail("text of a numeric does not parse"),
    }
    reach("round trip");
}
/// scientific notation: exact, one significant digit before the point, no trailing zeros
#[no_mangle]
pub extern "C" fn check_sci() {
    // every symbolic digit multiplies the paths: its length, its trailing zeros
    let a = match choose(0, if thorough() { 2 } else { 1 }) {
        0 => small(1),
        1 => {
            static L: &[Spec] = &[
                (0, 21, &[]),
                (0, 4, &[7, S]),
                (1, 0, &[S, 10]),
                (0, 7, &[S, 500]),
                (2, 9, &[1, 9999, 0, 9999, S, 1000]),
                (-3, 13, &[S, 9000]),
                (-3, 16, &[100, S]),
                (5, 8, &[1, 0, 0, 0, 0, 0, 0, S]),
                (63, 63, &[S]),
                (-65, 260, &[S]),
                (0, 1000, &[S]),
                (1, 1, &[9999, 9999, S]),
                (0, 8, &[S, 9999, 9999]),
            ];
            let s = pick(L);
            mk(s, !s.2.is_empty() && choose(0, 1) == 1)
        }
        _ => operand(2),
    };
    let ea = a.enc();
    let x: &Numeric = ea.num();
    let how = choose(0, 3);
    let t = match how {
        0 => format!("{:e}", x),
        1 => format!("{:E}", x),
        2 => format!("{:e}", x.to_owned()),
        _ => format!("{:E}", x.to_owned()),
    };
    sci(&a, &t, if how % 2 == 0 { b'e' } else { b'E' });
}
fn sci(a: &Num, t: &str, letter: u8) {
    let s = unsign(t.as_bytes(), a);
    // the exponent
    let mut p = s.len();
    while p > 0 && s[p - 1] != letter {
        p -= 1;
    }
    check(p > 0, "exponent letter");
    let (m, e) = (&s[..p - 1], &s[p..]);
    check(e.len() >= 3 && (e[0] == b'+' || e[0] == b'-'), "exponent needs a sign and two digits");
    let mut x = 0i64;
    for c in &e[1..] {
        check(is_digit(*c), "digit expected in an exponent");
        x = x * 10 + (*c - b'0') as i64;
    }
    check(e.len() == 3 || e[1] != b'0', "superfluous zero in the exponent");
    let x = concretize(if e[0] == b'-' { -x } else { x });
    let f = if m.len() > 1 { m.len() - 2 } else { 0 };
    let d = plain(m, f);
    check(d.len() == f + 1, "one digit before the point");
    if a.is_zero() {
        check(m.len() == 1 && m[0] == b'0' && x == 0 && e[0] == b'+', "scientific text of zero");
        reach("zero");
        return;
    }
    check(d[0] != b'0', "significant digit before the point");
    check(f == 0 || d[f] != b'0', "trailing zero in the significand");
    // significand * 10^(x - f) is the value
    let sh = x - f as i64;
    let k = (a.frac() as i64).max((-sh + 3).div_euclid(4)).max(-40000);
    let v = abs_z(a.val(k as i32), a.neg);
    check((digits(&d) * pow10((4 * k + sh) as u32)).eq(v), "scientific text differs from the value");
    reach("scientific");
}
/// magnitudes at the limits of the format
#[no_mangle]
pub extern "C" fn check_sci_limit() {
    static L: &[Spec] = &[(32767, 0, &[S]), (32767, 0, &[S, S]), (-4096, 16383, &[S]), (-4000, 16383, &[S, S]), (24, 0, &[S]), (25, 0, &[S]), (-25, 100, &[S]), (-26, 104, &[S]), (250, 0, &[S, S]), (-250, 1004, &[S, S]), (-251, 1004, &[S])];
    let a = mk(pick(L), choose(0, 1) == 1);
    let ea = a.enc();
    let t = format!("{:e}", ea.num());
    sci(&a, &t, b'e');
}
/// normalize: the text without trailing zeros of the fraction
#[no_mangle]
pub extern "C" fn check_normalize() {
    let a = operand(if thorough() { 3 } else { 2 });
    let ea = a.enc();
    normal(&a, &ea.num().normalize());
}
fn normal(a: &Num, t: &str) {
    let s = unsign(t.as_bytes(), a);
    // fraction digits
    let mut f = 0;
    let mut point = false;
    for (i, c) in s.iter().enumerate() {
        if *c == b'.' {
            check(!point, "second decimal point");
            point = true;
            f = s.len() - i - 1;
        }
    }
    check(!point || f > 0, "dangling decimal point");
    check(f as i32 <= a.ds, "normalized text is longer than the text");
    let d = plain(s, f);
    check(f == 0 || s[s.len() - 1] != b'0', "trailing zero in normalized text");
    let k = a.frac().max((f as i32 + 3) / 4).max(0);
    let v = abs_z(a.val(k), a.neg);
    check((digits(&d) * pow10((4 * k - f as i32) as u32)).eq(v), "normalized text differs from the value");
    reach("normalized");
}
/// equal values have equal normalized texts whatever their display scale, different values different ones
#[no_mangle]
pub extern "C" fn check_normalize_eq() {
    static L: &[(i32, &[i64])] = &[(0, &[S]), (1, &[S, S]), (-1, &[S]), (3, &[S]), (0, &[S, S])];
    let (w, d) = pick(L);
    let f = (4 * (d.len() as i32 - 1 - w)).max(0);
    let a = Num::with(choose(0, 1) == 1, w, f, d);
    let mut b = a.clone();
    b.ds = f + pick(&[1, 4, 7, 63, 100]);
    let (ea, eb) = (a.enc(), b.enc());
    check(ea.num().normalize() == eb.num().normalize(), "equal values have different normalized texts");
    let zero = Num::zero(pick(&[0, 1, 5, 70])).enc();
    check(zero.num().normalize() == "0", "normalized zero");
    reach("equal");
}
/// thousands of digits, one or two of them symbolic
fn long_operand() -> Num {
    static L: &[(i32, i32, i32)] = &[(0, 16383, 4096), (0, 16383, 4097), (-1, 16383, 4095), (1200, 100, 1226), (1600, 0, 1601), (300, 1000, 551), (-100, 1600, 301)];
    let (w, ds, n) = pick(L);
    let base = pick(&[0, 9999, 307]);
    let mut d: Vec<i64> = vec![];
    for i in 0..n {
        let s = step(w, ds, i);
        let x = if base == 307 { (i as i64 * 307 + 11) % 10000 } else { base };
        d.push(x - x % s);
    }
    d[0] = if base == 0 { 1 } else { 12 };
    let s = step(w, ds, n - 1);
    d[n as usize - 1] = if choose(0, 1) == 0 { any(1, 9999 / s) * s } else { s };
    Num { nan: false, neg: base == 9999, w, ds, d }
}
#[no_mangle]
pub extern "C" fn check_text_long() {
    let a = long_operand();
    let ea = a.enc();
    match choose(0, 2) {
        0 => check_display(&a, &ea.num().to_string()),
        1 => {
            let t = ea.num().to_string();
            let r = match t.parse::<NumericBuf>() {
                Ok(r) => r,
                Err(_) => {
                    fail("text of a numeric does not parse");
                    return;
                }
            };
            check(r.as_bytes().len() == ea.bytes().len() && r.as_bytes() == ea.bytes(), "text does not parse back to the same numeric");
        }
        _ => sci(&a, &format!("{:E}", ea.num()), b'E'),
    }
    reach("long");
}
/// a few symbolic digits among many
fn mid(how: i64) {
    let n = long_len();
    let k = choose(0, 2) as usize;
    let b = bulk();
    let w = long_weight(n, n + k + (b == 0) as usize + 2 * (b < 0) as usize);
    let more = [0, 7, if n == 68 { 6000 } else if n % 2 == 1 { 40 } else { 1200 }][k];
    // scientific notation looks at the ends only
    let both = [0, n / 2];
    let sym: &[usize] = if how == 2 { &[] } else { &both };
    let mut a = long(choose(0, 1) == 1, n, w, more, b, sym);
    let s = step(w, a.ds, n as i32 - 1);
    a.d[n - 1] = any(1, 9999 / s) * s;
    let ea = a.enc();
    let x = ea.num();
    match how {
        0 => check_display(&a, &x.to_string()),
        1 => match x.to_string().parse::<NumericBuf>() {
            Ok(r) => check(r.as_bytes().len() == ea.bytes().len() && r.as_bytes() == ea.bytes(), "text does not parse back to the same numeric"),
            Err(_) => fail("text of a numeric does not parse"),
        },
        2 => sci(&a, &format!("{:e}", x), b'e'),
        _ => normal(&a, &x.normalize()),
    }
    reach("mid");
}
#[no_mangle]
pub extern "C" fn check_text_mid() {
    mid(choose(0, 1));
}
#[no_mangle]
pub extern "C" fn check_sci_mid() {
    mid(2);
}
#[no_mangle]
pub extern "C" fn check_normal_mid() {
    mid(3);
}
