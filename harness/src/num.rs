//! An independent model of numerics: the on-disk encoding, and values as exact integers.
use crate::rt::*;
use pgnumeric::Numeric;

/// sign, base-10000 weight of the first digit, display scale, base-10000 digits
#[derive(Clone)]
pub struct Num {
    pub nan: bool,
    pub neg: bool,
    pub w: i32,
    pub ds: i32,
    pub d: Vec<i64>,
}

/// 4-byte aligned storage for an encoded numeric
pub struct Enc {
    buf: Vec<u32>,
    len: usize,
}
impl Enc {
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.buf.as_ptr() as *const u8, self.len) }
    }
    pub fn num(&self) -> &Numeric {
        unsafe { Numeric::from_bytes_unchecked(self.bytes()) }
    }
    pub fn from_u16s(ws: &[u16]) -> Enc {
        let n = ws.len();
        let mut buf: Vec<u32> = vec![0; (n + 1) / 2];
        let p = buf.as_mut_ptr() as *mut u16;
        for (i, w) in ws.iter().enumerate() {
            unsafe { p.add(i).write(*w) };
        }
        Enc { buf, len: n * 2 }
    }
}

/// decimal step of base digit `i` (0 when the digit lies beyond the display scale)
pub fn step(w: i32, ds: i32, i: i32) -> i64 {
    let p = i - w; // >= 1: p-th fractional base digit
    if p <= 0 {
        return 1;
    }
    let r = ds - 4 * (p - 1);
    if r >= 4 {
        1
    } else if r == 3 {
        10
    } else if r == 2 {
        100
    } else if r == 1 {
        1000
    } else {
        0
    }
}

impl Num {
    pub fn nan() -> Num {
        Num { nan: true, neg: false, w: 0, ds: 0, d: vec![] }
    }
    pub fn zero(ds: i32) -> Num {
        Num { nan: false, neg: false, w: 0, ds, d: vec![] }
    }
    /// a numeric with `n` symbolic digits (first and last non-zero)
    pub fn any(neg: bool, w: i32, ds: i32, n: i32) -> Num {
        let mut d = vec![];
        for i in 0..n {
            let s = step(w, ds, i);
            assume(s != 0);
            let lo = if i == 0 || i == n - 1 { 1 } else { 0 };
            let k = any(lo, 9999 / s);
            d.push(if s == 1 { k } else { k * s });
        }
        Num { nan: false, neg: n > 0 && neg, w: if n == 0 { 0 } else { w }, ds, d }
    }
    /// as `any`, with digits given when >= 0
    pub fn with(neg: bool, w: i32, ds: i32, ds_: &[i64]) -> Num {
        let n = ds_.len() as i32;
        let mut d = vec![];
        for i in 0..n {
            let s = step(w, ds, i);
            assume(s != 0);
            let g = ds_[i as usize];
            if g >= 0 {
                d.push(g);
            } else {
                let lo = if i == 0 || i == n - 1 { 1 } else { 0 };
                let k = any(lo, 9999 / s);
                d.push(if s == 1 { k } else { k * s });
            }
        }
        Num { nan: false, neg, w, ds, d }
    }
    /// on-disk form
    pub fn enc(&self) -> Enc {
        let mut ws: Vec<u16> = vec![0, 0];
        if self.nan {
            ws.push(0xC000);
        } else {
            let n = self.d.len();
            let w = if n == 0 { 0 } else { self.w };
            let neg = self.neg && n > 0;
            if self.ds <= 63 && w >= -64 && w <= 63 {
                ws.push(0x8000 | (if neg { 0x2000 } else { 0 }) | ((self.ds as u16) << 7) | ((w as u16) & 0x7F));
            } else {
                ws.push((if neg { 0x4000 } else { 0 }) | self.ds as u16);
                ws.push(w as i16 as u16);
            }
            for x in &self.d {
                ws.push(*x as u16);
            }
        }
        let len = (ws.len() * 2) as u32;
        let v = if cfg!(feature = "big-endian-varlen") { len.to_be() } else { len << 2 };
        ws[0] = v as u16;
        ws[1] = (v >> 16) as u16;
        Enc::from_u16s(&ws)
    }
    /// value * 10000^k as an exact integer; every digit must have w - i + k >= 0
    pub fn val(&self, k: i32) -> Z {
        if self.d.is_empty() {
            return z(0);
        }
        let e = self.w - (self.d.len() as i32 - 1) + k;
        check(e >= 0, "harness: value scaled too little");
        // two levels of Horner's rule, so that long digit strings stay affordable
        let b = z(10000);
        let mut s = z(0);
        for c in self.d.chunks(64) {
            let mut t = z(0);
            for x in c {
                t = t * b + z(*x);
            }
            s = s * pow10(4 * c.len() as u32) + t;
        }
        let s = s * pow10(4 * e as u32);
        if self.neg {
            s.neg()
        } else {
            s
        }
    }
    /// smallest k for which `val` is an integer
    pub fn frac(&self) -> i32 {
        if self.d.is_empty() {
            -40000
        } else {
            self.d.len() as i32 - 1 - self.w
        }
    }
    pub fn is_zero(&self) -> bool {
        self.d.is_empty()
    }
}

/// Decodes the bytes of a numeric, checking that they are the one canonical encoding.
pub fn dec(n: &Numeric) -> Num {
    let b = n.as_bytes();
    let u16at = |i: usize| {
        let _ = b[i + 1];
        u16::from_le(unsafe { (b.as_ptr().add(i) as *const u16).read_unaligned() })
    };
    check(b.len() >= 6, "encoding: shorter than a header");
    let v = u16at(0) as u32 | (u16at(2) as u32) << 16;
    let len = if cfg!(feature = "big-endian-varlen") { u32::from_be(v) } else { v >> 2 };
    check(cfg!(feature = "big-endian-varlen") || v & 3 == 0, "encoding: length flags");
    check(len as usize == b.len(), "encoding: varlena length differs from the slice length");
    let h = concretize(u16at(4) as i64) as u16;
    if h & 0xC000 == 0xC000 {
        check(h == 0xC000 && b.len() == 6, "encoding: non-canonical NaN");
        return Num::nan();
    }
    let (neg, w, ds, off);
    if h & 0x8000 != 0 {
        neg = h & 0x2000 != 0;
        ds = ((h >> 7) & 63) as i32;
        let x = (h & 0x7F) as i32;
        w = if x >= 64 { x - 128 } else { x };
        off = 6;
    } else {
        check(b.len() >= 8, "encoding: shorter than a long header");
        neg = h & 0x4000 != 0;
        ds = (h & 0x3FFF) as i32;
        w = concretize(u16at(6) as i16 as i64) as i32;
        off = 8;
        check(ds > 63 || w < -64 || w > 63, "encoding: long header where the short one fits");
    }
    check((b.len() - off) % 2 == 0, "encoding: odd length");
    let n = (b.len() - off) / 2;
    let mut d = vec![];
    for i in 0..n {
        d.push((u16at(off + 2 * i) as i16) as i64);
    }
    if n == 0 {
        check(!neg && w == 0, "encoding: non-canonical zero");
    } else {
        check(d[0] != 0, "encoding: leading zero digit");
        check(d[n - 1] != 0, "encoding: trailing zero digit");
        for x in &d {
            check(*x >= 0 && *x <= 9999, "encoding: digit out of range");
        }
        // no digit beyond the display scale
        for i in 0..n {
            let s = step(w, ds, i as i32);
            if s == 0 {
                fail("encoding: digits beyond the display scale");
            } else if s > 1 {
                check(z(d[i]).fmod(z(s)).eq(z(0)), "encoding: digits beyond the display scale");
            }
        }
    }
    Num { nan: false, neg, w, ds, d }
}

/// equality of values as sign/weight/digit sequences (canonical forms)
pub fn same_value(a: &Num, b: &Num) -> bool {
    if a.nan || b.nan {
        return a.nan == b.nan;
    }
    let k = a.frac().max(b.frac()).max(0);
    a.val(k).eq(b.val(k))
}
pub fn check_same(a: &Num, b: &Num, m: &str) {
    check(a.nan == b.nan, m);
    if !a.nan {
        check(same_value(a, b), m);
        check(a.ds == b.ds, m);
    }
}

/// |v| with the sign taken off (`neg` must be concrete)
pub fn abs_z(v: Z, neg: bool) -> Z {
    if neg {
        v.neg()
    } else {
        v
    }
}
/// multiple of `unit` next to `v` (v >= 0), halves away from zero
pub fn round_unit(v: Z, unit: Z) -> Z {
    (z(2) * v + unit).fdiv(z(2) * unit) * unit
}
pub fn trunc_unit(v: Z, unit: Z) -> Z {
    v.fdiv(unit) * unit
}
/// the result is the number e / 10000^k with display scale ds
pub fn check_num(r: &Numeric, e: Z, k: i32, ds: i32, m: &str) -> Num {
    let r = dec(r);
    check(!r.nan, "NaN result from numbers");
    check(r.ds == ds, "display scale of the result");
    let kk = k.max(r.frac());
    check(r.val(kk).eq(if kk == k { e } else { e * pow10(4 * (kk - k) as u32) }), m);
    r
}
/// as `check_num` for operations that report overflow: None exactly when the weight would exceed 32767
pub fn check_opt(r: &Option<pgnumeric::NumericBuf>, e: Z, k: i32, ds: i32, m: &str) {
    let fits = if k > -30000 || ds > 16383 {
        // operands of moderate size
        ds <= 16383
    } else if k < -32768 {
        e.eq(z(0))
    } else {
        let lim = pow10(4 * (32768 + k) as u32);
        e.lt(lim) && lim.neg().lt(e)
    };
    match r {
        None => check(!fits, "overflow reported although the result is representable"),
        Some(r) => {
            check(fits, "unrepresentable result returned");
            check_num(r, e, k, ds, m);
        }
    }
}
pub fn scale_up(v: Z, from: i32, to: i32) -> Z {
    if from == to {
        v
    } else {
        v * pow10(4 * (to - from) as u32)
    }
}
pub type Spec = (i32, i32, &'static [i64]);
/// symbolic digit
pub const S: i64 = -1;
/// operands of many shapes: (weight, display scale, digits)
pub static SHAPES: &[Spec] = &[
    (0, 0, &[]),
    (0, 21, &[]),
    (0, 0, &[S]),
    (0, 3, &[S, S]),
    (2, 0, &[S]),
    (2, 9, &[S, S, 0, 9999, S, S]),
    (-1, 4, &[S]),
    (-3, 13, &[S, S]),
    (3, 1, &[9999, 9999, S, 9999, S]),
    (5, 8, &[1, 0, 0, 0, 0, 0, 0, S]),
    (1, 16, &[9999, 9999, 9999, 9999, 9999, S]),
    (63, 63, &[S]),
    (64, 64, &[S, S]),
    (-64, 256, &[S]),
    (-65, 260, &[S]),
    (0, 16383, &[S]),
];
pub fn mk(s: Spec, neg: bool) -> Num {
    Num::with(neg, s.0, s.1, s.2)
}
pub fn any_shape() -> Num {
    let i = choose(0, SHAPES.len() as i64 - 1) as usize;
    let s = SHAPES[i];
    let neg = !s.2.is_empty() && choose(0, 1) == 1;
    mk(s, neg)
}
/// (weight, dscale, ndigits) around the decimal point
pub fn small(n_max: i64) -> Num {
    let n = choose(0, n_max) as i32;
    let neg = n > 0 && choose(0, 1) == 1;
    let w = if n == 0 { 0 } else { choose(-1, 1) as i32 };
    // least display scale that shows every digit, or a little less or more
    let f = n - 1 - w;
    let ds = if f <= 0 { pick(&[0, 3]) } else { 4 * f - pick(&[0, 3]) };
    Num::any(neg, w, ds, n)
}
/// numbers of base digits beyond the few that can all be symbolic
pub fn long_len() -> usize {
    pick2(&[5, 9, 13, 17, 33, 68, 130, 260], &[4, 6, 7, 8, 10, 11, 12, 16, 18, 20, 24, 32, 34, 65, 100, 200, 520, 1030])
}
/// the digits between the symbolic ones
pub fn bulk() -> i64 {
    pick(&[9999, 0, -2])
}
fn bulk_digit(b: i64, i: usize) -> i64 {
    if b >= 0 {
        b
    } else {
        (i as i64 * 3707 + 1011) % 10000
    }
}
/// `n` digits from weight `w` on, symbolic at the given places, with `more` fraction digits than needed
pub fn long(neg: bool, n: usize, w: i32, more: i32, b: i64, sym: &[usize]) -> Num {
    let mut d: Vec<i64> = (0..n).map(|i| bulk_digit(b, i)).collect();
    if d[0] == 0 {
        d[0] = 1;
    }
    if d[n - 1] == 0 {
        d[n - 1] = 1;
    }
    for i in sym {
        if *i < n {
            d[*i] = S;
        }
    }
    let f = 4 * (n as i32 - 1 - w);
    Num::with(neg, w, f.max(0) + more, &d)
}
/// `long` with one of 32 spread values at place `i`: short of all, where carries of products are to be decided
pub fn long_few(neg: bool, n: usize, w: i32, more: i32, b: i64, i: usize) -> Num {
    let mut a = long(neg, n, w, more, b, &[]);
    a.d[i] = any(0, 31) * 317 + 1;
    a
}
/// integers, around the point, fractions, small fractions, multiples of a large power of ten and of 10000, one fraction digit
pub fn long_weight(n: usize, k: usize) -> i32 {
    let n = n as i32;
    [n - 1, n / 2 - 1, -1, -9, n + 30, n, n - 2][k % 7]
}
