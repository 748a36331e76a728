//! text to numeric
use crate::num::*;
use crate::rt::*;
use pgnumeric::{Numeric, NumericBuf};

fn is_ws(b: u8) -> bool {
    b == b' ' || b == b'\t' || b == b'\n' || b == 0x0C || b == b'\r'
}
fn is_digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
pub enum Verdict {
    Empty,
    Invalid,
    /// junk after an exponent that is too large: either error is acceptable
    BadOverflow,
    Overflow,
    Nan,
    /// sign, digits (as bytes, integral then fractional), fractional digits, exponent
    Value(bool, Vec<u8>, i32, i64),
}
/// the grammar: ws* ( [+-] ( d+ [ . d* ] | . d+ ) [ e [+-] d+ ] | nan ) ws*
pub fn recognise(s: &[u8]) -> Verdict {
    let n = s.len();
    let mut i = 0;
    while i < n && is_ws(s[i]) {
        i += 1;
    }
    if i == n {
        return Verdict::Empty;
    }
    let rest_blank = |mut i: usize| {
        while i < n && is_ws(s[i]) {
            i += 1;
        }
        i == n
    };
    let low = |i: usize, c: u8| i < n && (s[i] == c || s[i] == c - 32);
    if low(i, b'n') && low(i + 1, b'a') && low(i + 2, b'n') {
        return if rest_blank(i + 3) { Verdict::Nan } else { Verdict::Invalid };
    }
    let mut neg = false;
    if s[i] == b'+' {
        i += 1;
    } else if s[i] == b'-' {
        neg = true;
        i += 1;
    }
    let mut d = vec![];
    while i < n && is_digit(s[i]) {
        d.push(s[i]);
        i += 1;
    }
    let mut frac = 0;
    if i < n && s[i] == b'.' {
        i += 1;
        while i < n && is_digit(s[i]) {
            d.push(s[i]);
            frac += 1;
            i += 1;
        }
    }
    if d.is_empty() {
        return Verdict::Invalid;
    }
    let mut exp = 0i64;
    let mut huge = false;
    if i < n && (s[i] == b'e' || s[i] == b'E') {
        i += 1;
        let mut eneg = false;
        if i < n && s[i] == b'+' {
            i += 1;
        } else if i < n && s[i] == b'-' {
            eneg = true;
            i += 1;
        }
        let st = i;
        while i < n && is_digit(s[i]) {
            exp = exp * 10 + (s[i] - b'0') as i64;
            if exp > 1 << 40 {
                exp = 1 << 40;
            }
            i += 1;
        }
        if i == st {
            return Verdict::Invalid;
        }
        huge = exp >= (i32::MAX / 2) as i64;
        if eneg {
            exp = -exp;
        }
    }
    if !rest_blank(i) {
        return if huge { Verdict::BadOverflow } else { Verdict::Invalid };
    }
    if huge {
        return Verdict::Overflow;
    }
    Verdict::Value(neg, d, frac, exp)
}
fn case(s: &[u8]) {
    let r = unsafe { std::str::from_utf8_unchecked(s) }.parse::<NumericBuf>();
    match recognise(s) {
        Verdict::Empty => error(r, "cannot parse numeric from empty string"),
        Verdict::Invalid => error(r, "invalid numeric literal"),
        Verdict::Overflow => error(r, "value overflows numeric format"),
        Verdict::BadOverflow => {
            check(r.is_err(), "invalid text accepted");
            reach("rejected");
        }
        Verdict::Nan => match r {
            Ok(r) => {
                check(dec(&r).nan, "NaN expected");
                reach("nan");
            }
            Err(_) => fail("valid text rejected"),
        },
        Verdict::Value(neg, d, frac, exp) => {
            let e = concretize(exp);
            value(r, neg, &d, frac, e)
        }
    }
}
fn error(r: Result<NumericBuf, pgnumeric::NumericParseError>, m: &str) {
    match r {
        Ok(_) => fail("invalid text accepted"),
        Err(e) => check(e.to_string() == m, "kind of parse error"),
    }
    reach("rejected");
}
/// integer written by decimal digits
fn digits(d: &[u8]) -> Z {
    let mut v = z(0);
    for c in d.chunks(16) {
        let mut t = 0i64;
        for x in c {
            t = t * 10 + (*x - b'0') as i64;
        }
        v = v * pow10(c.len() as u32) + z(t);
    }
    v
}
pub fn value(r: Result<NumericBuf, pgnumeric::NumericParseError>, neg: bool, d: &[u8], frac: i32, exp: i64) {
    let m = digits(d);
    let ds = (frac as i64 - exp).max(0);
    // magnitude: m * 10^(exp - frac) < 10^(4 * 32768)
    let sh = exp - frac as i64;
    let weight_ok = m.eq(z(0)) || sh + d.len() as i64 <= 4 * 32768 || (sh < 4 * 32768 && m.lt(pow10((4 * 32768 - sh) as u32)));
    let fits = weight_ok && ds <= 16383;
    match r {
        Err(e) => {
            check(!fits, "valid text rejected");
            check(e.to_string() == "value overflows numeric format", "kind of parse error");
            reach("overflow");
        }
        Ok(r) => {
            check(fits, "unrepresentable text accepted");
            let r = dec(&r);
            check(!r.nan, "NaN from digits");
            check(r.ds as i64 == ds, "display scale of the parsed value");
            if r.is_zero() {
                check(m.eq(z(0)), "value of the parsed text");
                reach("zero");
                return;
            }
            check(r.neg == neg, "sign of the parsed text");
            let k = (r.frac() as i64).max((-sh + 3).div_euclid(4));
            let lhs = abs_z(r.val(k as i32), r.neg);
            check(lhs.eq(m * pow10((4 * k + sh) as u32)), "value of the parsed text");
            reach("value");
        }
    }
}
/// every string of up to 5 ASCII characters (6 in the thorough tier)
#[no_mangle]
pub extern "C" fn check_parse_any() {
    let n = choose(0, if thorough() { 6 } else { 5 });
    let mut s = vec![];
    for _ in 0..n {
        s.push(any(0, 127) as u8);
    }
    case(&s);
}
/// strings with one non-ASCII character are invalid wherever it stands
#[no_mangle]
pub extern "C" fn check_parse_utf8() {
    let n = choose(0, 2);
    let p = choose(0, n);
    let mut s = vec![];
    for i in 0..=n {
        if i == p {
            match choose(0, 2) {
                0 => {
                    s.push(any(0xC2, 0xDF) as u8);
                    s.push(any(0x80, 0xBF) as u8);
                }
                1 => {
                    s.push(any(0xE1, 0xEC) as u8);
                    s.push(any(0x80, 0xBF) as u8);
                    s.push(any(0x80, 0xBF) as u8);
                }
                _ => {
                    s.push(0xF0);
                    s.push(any(0x90, 0xBF) as u8);
                    s.push(any(0x80, 0xBF) as u8);
                    s.push(any(0x80, 0xBF) as u8);
                }
            }
        } else {
            s.push(any(0, 127) as u8);
        }
    }
    let r = unsafe { std::str::from_utf8_unchecked(&s) }.parse::<NumericBuf>();
    error(r, "invalid numeric literal");
}
/// '#' any digit, '?' any ASCII character
fn fill(t: &str) -> Vec<u8> {
    t.bytes()
        .map(|c| match c {
            b'#' => any(b'0' as i64, b'9' as i64) as u8,
            b'?' => any(0, 127) as u8,
            c => c,
        })
        .collect()
}
/// longer grammars with one or two arbitrary characters
#[no_mangle]
pub extern "C" fn check_parse_edit() {
    static T: &[&str] = &[
        "12?34", "1?2.5", "1.5?", "?1.5", "1.?5", "-?12", "1e?5", "1e-?5", "1e5?", "1?e5", "1.e?5", ".5?e1", ".?e1", "  12 ?", "\t\r\n\x0c12?",
        "na?", "n?n", "?an", "NaN?", "NaN ?", " nan\t?", "+na?", "1e+0?", "0?0", "1e00000000000?", "1e0000000000?5", "1e000000000000000000000000000000000000000000000000000000000000000000000000000000?3", "-.5e-00000000000000000000000000000000000000000000000000000000?2",
        "                                                                                 ?1", "1                                                                         ?", "0000000000000000000000000000000000000000000000000000000000000000000000000000000000000?",
        "0.00000000000000000000000000000000000000000000000000000000000000000000000000000000000?", "1e1073741823?", "1e107374182?", "1e-107374182?", "1e1000000000?", "1e99999999999?", "1e5 ?",
        "??nan", "1??5", "1e??", "1e-??", ".??", "+??1", " ??1",
    ];
    let i = choose(0, T.len() as i64 - 1) as usize;
    let s = fill(T[i]);
    case(&s);
}
/// values: every digit arbitrary
#[no_mangle]
pub extern "C" fn check_parse_value() {
    static T: &[&str] = &[
        "#", "##", "###", "####", "#####", "########", "#########", "#############", ".#", ".##", ".###", ".####", ".#####", "#.#", "##.##", "###.###", "####.####", "#####.#####", "######.######",
        "#.", "####.", "0000#.#0000", "00000000#", ".00000000#", "0.000#0000", "#000000000000", "9999999999.9999999999", "################.################", "#.#########", "###########.#",
        "####################################", ".####################",
    ];
    static E: &[&str] = &["", "e0", "e1", "E2", "e3", "e4", "e+5", "e-1", "e-2", "e-3", "E-4", "e-5", "e16", "e-16", "e+007", "e-0000000000000012"];
    let t = pick(T);
    let e = pick(E);
    let mut s = fill(match choose(0, 2) {
        0 => "",
        1 => "-",
        _ => " +",
    });
    s.extend(fill(t));
    s.extend(e.bytes());
    if choose(0, 1) == 1 {
        s.push(b' ');
    }
    case(&s);
}
/// around the limits of weight and display scale
#[no_mangle]
pub extern "C" fn check_parse_limit() {
    static T: &[&str] = &[
        "#e131071", "#e131072", "##e131070", "##e131071", "0#e131070", "0##.#e131070", ".#e131072", ".#e131073", ".0#e131074", "0.0###e131074", "0e131072", "0e1073741822", "#e1073741822", "000#e131071", "#e-16383", "#e-16384", ".#e-16382",
        ".#e-16383", "0e-16383", "0e-16384", "0.0e-16383", "#e-20000", "#e-1073741822", "####e-16386", "####.#e-16382", "0.000#e131076", "#e2147483647", "#e-2147483648", "#e9999999999", "#e10000000000", "#e+0000000000131071", "#.#e131071",
    ];
    let mut s = fill(pick(&["", "-"]));
    s.extend(fill(pick(T)));
    case(&s);
}
/// TryFrom<&str>-like entry points and the constructors agree with parsing
#[no_mangle]
pub extern "C" fn check_parse_consts() {
    check(dec(Numeric::zero()).is_zero() && dec(Numeric::zero()).ds == 0, "Numeric::zero");
    check(dec(&NumericBuf::zero()).is_zero() && dec(&NumericBuf::zero()).ds == 0, "NumericBuf::zero");
    check(dec(Numeric::nan()).nan && dec(&NumericBuf::nan()).nan, "nan constructors");
    reach("constants");
}
/// long digit strings: more digits than any inline buffer holds
#[no_mangle]
pub extern "C" fn check_parse_long() {
    let n = pick2(&[60, 119, 120, 121, 124, 128, 129, 132, 136, 140], &[61, 62, 63, 117, 118, 122, 123, 125, 126, 127, 130, 131, 133, 134, 135, 137, 300, 1000]);
    let fill = pick(&[b'0', b'9', b'7']);
    let point = pick(&[0, 1, 4, 30, 59, 1000000]);
    let exp = pick(&["", "e-3", "e+2", "e-200"]);
    let mut s = vec![];
    for i in 0..n {
        if i == point {
            s.push(b'.');
        }
        s.push(if i == 0 || i == n / 2 || i == n - 1 { any(b'0' as i64, b'9' as i64) as u8 } else { fill });
    }
    s.extend(exp.bytes());
    case(&s);
}
/// integers and fractions around the lengths of machine words
#[no_mangle]
pub extern "C" fn check_parse_word() {
    let n = pick2(&[9, 10, 17, 18, 19, 20, 21, 38, 39, 40], &[8, 11, 12, 16, 22, 36, 37, 41, 48]);
    let fill = pick(&[b'0', b'9', b'8', b'3']);
    let point = pick(&[1000000, 0, n - 1]);
    let mut s = vec![];
    if choose(0, 1) == 1 {
        s.push(b'-');
    }
    for i in 0..n {
        if i == point {
            s.push(b'.');
        }
        s.push(if i < 2 || i >= n - 2 { any(b'0' as i64, b'9' as i64) as u8 } else { fill });
    }
    case(&s);
}
