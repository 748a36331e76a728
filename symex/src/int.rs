//! Arbitrary-precision signed integers (no external crates available offline).
//! Small values stay in an i128; big ones are sign + base-2^32 magnitude.
use std::cmp::Ordering;
use std::fmt;
use std::sync::Arc;

#[derive(Clone, PartialEq, Eq, Hash)]
pub enum Int {
    S(i128),
    /// (negative, magnitude little endian); only used when the value does not fit in an i128
    B(bool, Arc<Vec<u32>>),
}
use Int::*;

fn trim(m: &mut Vec<u32>) {
    while let Some(0) = m.last() {
        m.pop();
    }
}
fn cmp_mag(a: &[u32], b: &[u32]) -> Ordering {
    if a.len() != b.len() {
        return a.len().cmp(&b.len());
    }
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    Ordering::Equal
}
fn add_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let n = a.len().max(b.len());
    let mut r = Vec::with_capacity(n + 1);
    let mut c = 0u64;
    for i in 0..n {
        let s = c + *a.get(i).unwrap_or(&0) as u64 + *b.get(i).unwrap_or(&0) as u64;
        r.push(s as u32);
        c = s >> 32;
    }
    if c > 0 {
        r.push(c as u32);
    }
    r
}
fn sub_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = Vec::with_capacity(a.len());
    let mut bor = 0i64;
    for i in 0..a.len() {
        let mut s = a[i] as i64 - *b.get(i).unwrap_or(&0) as i64 - bor;
        if s < 0 {
            s += 1 << 32;
            bor = 1
        } else {
            bor = 0
        }
        r.push(s as u32);
    }
    trim(&mut r);
    r
}
fn mul_mag(a: &[u32], b: &[u32]) -> Vec<u32> {
    let mut r = vec![0u32; a.len() + b.len()];
    for i in 0..a.len() {
        let mut c = 0u64;
        for j in 0..b.len() {
            let t = a[i] as u64 * b[j] as u64 + r[i + j] as u64 + c;
            r[i + j] = t as u32;
            c = t >> 32;
        }
        r[i + b.len()] = c as u32;
    }
    trim(&mut r);
    r
}
fn divrem_mag(a: &[u32], b: &[u32]) -> (Vec<u32>, Vec<u32>) {
    assert!(!b.is_empty());
    if cmp_mag(a, b) == Ordering::Less {
        return (vec![], a.to_vec());
    }
    if b.len() == 1 {
        let d = b[0] as u64;
        let mut q = vec![0u32; a.len()];
        let mut r = 0u64;
        for i in (0..a.len()).rev() {
            let t = (r << 32) | a[i] as u64;
            q[i] = (t / d) as u32;
            r = t % d;
        }
        trim(&mut q);
        let mut rv = vec![r as u32];
        trim(&mut rv);
        return (q, rv);
    }
    let s = b[b.len() - 1].leading_zeros();
    let shl = |v: &[u32]| -> Vec<u32> {
        let mut r = Vec::with_capacity(v.len() + 1);
        let mut c = 0u32;
        for &x in v {
            r.push(if s == 0 { x } else { (x << s) | c });
            c = if s == 0 { 0 } else { x >> (32 - s) };
        }
        r.push(c);
        r
    };
    let mut u = shl(a);
    let mut v = shl(b);
    trim(&mut v);
    let n = v.len();
    let m = u.len() - n - 1;
    let mut q = vec![0u32; m + 1];
    for j in (0..=m).rev() {
        let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
        let mut qh = num / v[n - 1] as u64;
        let mut rh = num % v[n - 1] as u64;
        while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
            qh -= 1;
            rh += v[n - 1] as u64;
            if rh >= 1 << 32 {
                break;
            }
        }
        let mut bor = 0i64;
        let mut c = 0u64;
        for i in 0..n {
            let p = qh * v[i] as u64 + c;
            c = p >> 32;
            let t = u[i + j] as i64 - bor - (p & 0xffff_ffff) as i64;
            u[i + j] = t as u32;
            bor = if t < 0 { 1 } else { 0 };
        }
        let t = u[j + n] as i64 - bor - c as i64;
        u[j + n] = t as u32;
        if t < 0 {
            qh -= 1;
            let mut c = 0u64;
            for i in 0..n {
                let t = u[i + j] as u64 + v[i] as u64 + c;
                u[i + j] = t as u32;
                c = t >> 32;
            }
            u[j + n] = (u[j + n] as u64 + c) as u32;
        }
        q[j] = qh as u32;
    }
    trim(&mut q);
    u.truncate(n);
    // unnormalise
    if s > 0 {
        for i in 0..n {
            let hi = if i + 1 < n { u[i + 1] << (32 - s) } else { 0 };
            u[i] = (u[i] >> s) | hi;
        }
    }
    trim(&mut u);
    (q, u)
}

impl Int {
    pub const ZERO: Int = S(0);
    pub const ONE: Int = S(1);
    fn parts(&self) -> (bool, Vec<u32>) {
        match self {
            S(v) => {
                let mut m = v.unsigned_abs();
                let mut r = vec![];
                while m > 0 {
                    r.push(m as u32);
                    m >>= 32;
                }
                (*v < 0, r)
            }
            B(n, m) => (*n, (**m).clone()),
        }
    }
    fn from_parts(neg: bool, mut m: Vec<u32>) -> Int {
        trim(&mut m);
        if m.len() <= 4 {
            let mut v = 0u128;
            for &d in m.iter().rev() {
                v = (v << 32) | d as u128;
            }
            if v <= i128::MAX as u128 {
                return S(if neg { -(v as i128) } else { v as i128 });
            }
            if neg && v == 1u128 << 127 {
                return S(i128::MIN);
            }
        }
        B(neg, Arc::new(m))
    }
    pub fn from_u128(v: u128) -> Int {
        if v <= i128::MAX as u128 {
            S(v as i128)
        } else {
            Int::from_parts(false, vec![v as u32, (v >> 32) as u32, (v >> 64) as u32, (v >> 96) as u32])
        }
    }
    pub fn pow2(n: u32) -> Int {
        if n < 127 {
            S(1i128 << n)
        } else {
            let mut m = vec![0u32; n as usize / 32 + 1];
            m[n as usize / 32] = 1 << (n % 32);
            Int::from_parts(false, m)
        }
    }
    pub fn pow10(n: u32) -> Int {
        let mut r = S(1);
        let mut n = n;
        while n >= 30 {
            r = r.mul(&S(10i128.pow(30)));
            n -= 30;
        }
        r.mul(&S(10i128.pow(n)))
    }
    pub fn is_zero(&self) -> bool {
        matches!(self, S(0))
    }
    pub fn is_one(&self) -> bool {
        matches!(self, S(1))
    }
    pub fn is_neg(&self) -> bool {
        match self {
            S(v) => *v < 0,
            B(n, _) => *n,
        }
    }
    pub fn neg(&self) -> Int {
        match self {
            S(v) if *v != i128::MIN => S(-v),
            _ => {
                let (n, m) = self.parts();
                Int::from_parts(!n, m)
            }
        }
    }
    pub fn addi(&self, k: i128) -> Int {
        self.add(&Int::S(k))
    }
    pub fn abs(&self) -> Int {
        if self.is_neg() {
            self.neg()
        } else {
            self.clone()
        }
    }
    pub fn add(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_add(*b) {
                return S(c);
            }
        }
        let (na, a) = self.parts();
        let (nb, b) = o.parts();
        if na == nb {
            Int::from_parts(na, add_mag(&a, &b))
        } else {
            match cmp_mag(&a, &b) {
                Ordering::Equal => S(0),
                Ordering::Greater => Int::from_parts(na, sub_mag(&a, &b)),
                Ordering::Less => Int::from_parts(nb, sub_mag(&b, &a)),
            }
        }
    }
    pub fn sub(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_sub(*b) {
                return S(c);
            }
        }
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Int) -> Int {
        if let (S(a), S(b)) = (self, o) {
            if let Some(c) = a.checked_mul(*b) {
                return S(c);
            }
        }
        let (na, a) = self.parts();
        let (nb, b) = o.parts();
        Int::from_parts(na != nb, mul_mag(&a, &b))
    }
    /// truncating division
    pub fn tdivrem(&self, o: &Int) -> (Int, Int) {
        if let (S(a), S(b)) = (self, o) {
            if let Some(q) = a.checked_div(*b) {
                return (S(q), S(a % b));
            }
        }
        let (na, a) = self.parts();
        let (nb, b) = o.parts();
        let (q, r) = divrem_mag(&a, &b);
        (Int::from_parts(na != nb, q), Int::from_parts(na, r))
    }
    /// floor division
    pub fn fdivrem(&self, o: &Int) -> (Int, Int) {
        let (q, r) = self.tdivrem(o);
        if !r.is_zero() && (r.is_neg() != o.is_neg()) {
            (q.sub(&S(1)), r.add(o))
        } else {
            (q, r)
        }
    }
    pub fn fdiv(&self, o: &Int) -> Int {
        self.fdivrem(o).0
    }
    pub fn cdiv(&self, o: &Int) -> Int {
        self.neg().fdiv(o).neg()
    }
    pub fn fmod(&self, o: &Int) -> Int {
        self.fdivrem(o).1
    }
    pub fn gcd(&self, o: &Int) -> Int {
        let (mut a, mut b) = (self.abs(), o.abs());
        while !b.is_zero() {
            let r = a.tdivrem(&b).1;
            a = b;
            b = r;
        }
        a
    }
    pub fn to_u128(&self) -> Option<u128> {
        match self {
            S(v) if *v >= 0 => Some(*v as u128),
            B(false, m) if m.len() <= 4 => {
                let mut v = 0u128;
                for &d in m.iter().rev() {
                    v = (v << 32) | d as u128;
                }
                Some(v)
            }
            _ => None,
        }
    }
    pub fn to_i128(&self) -> Option<i128> {
        if let S(v) = self {
            Some(*v)
        } else {
            None
        }
    }
    pub fn parse(s: &str) -> Option<Int> {
        let (neg, d) = match s.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, s),
        };
        if d.is_empty() {
            return None;
        }
        let mut r = S(0);
        let b = d.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let j = (i + 18).min(b.len());
            let mut v = 0i128;
            for &c in &b[i..j] {
                if !c.is_ascii_digit() {
                    return None;
                }
                v = v * 10 + (c - b'0') as i128;
            }
            r = r.mul(&S(10i128.pow((j - i) as u32))).add(&S(v));
            i = j;
        }
        Some(if neg { r.neg() } else { r })
    }
}
impl PartialOrd for Int {
    fn partial_cmp(&self, o: &Int) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Int {
    fn cmp(&self, o: &Int) -> Ordering {
        if let (S(a), S(b)) = (self, o) {
            return a.cmp(b);
        }
        let (na, a) = self.parts();
        let (nb, b) = o.parts();
        match (na, nb) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => cmp_mag(&a, &b),
            (true, true) => cmp_mag(&b, &a),
        }
    }
}
impl fmt::Display for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            S(v) => write!(f, "{}", v),
            B(n, m) => {
                let mut parts: Vec<String> = vec![];
                let mut cur = (**m).clone();
                while !cur.is_empty() {
                    let (q, r) = divrem_mag(&cur, &[1_000_000_000]);
                    let r = r.first().copied().unwrap_or(0);
                    parts.push(if q.is_empty() { format!("{}", r) } else { format!("{:09}", r) });
                    cur = q;
                }
                if *n {
                    write!(f, "-")?;
                }
                for p in parts.iter().rev() {
                    write!(f, "{}", p)?;
                }
                Ok(())
            }
        }
    }
}
impl fmt::Debug for Int {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self)
    }
}
impl From<i128> for Int {
    fn from(v: i128) -> Int {
        S(v)
    }
}
impl From<i64> for Int {
    fn from(v: i64) -> Int {
        S(v as i128)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn basic() {
        let a = Int::parse("123456789012345678901234567890123456789012345678901234567890").unwrap();
        let b = Int::parse("-98765432109876543210987654321098765432109").unwrap();
        assert_eq!(format!("{}", a), "123456789012345678901234567890123456789012345678901234567890");
        let (q, r) = a.tdivrem(&b);
        assert_eq!(q.mul(&b).add(&r), a);
        let (q, r) = b.fdivrem(&S(7));
        assert_eq!(q.mul(&S(7)).add(&r), b);
        assert!(r >= S(0) && r < S(7));
        let mut x = 12345u64;
        for _ in 0..2000 {
            let mut mk = |n: u32| {
                let mut v = S(0);
                for _ in 0..n {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let w = if x >> 60 == 0 { 0xffff_ffff } else if x >> 60 == 1 { 0 } else { x >> 32 };
                    v = v.mul(&S(1 << 32)).add(&S(w as i128));
                }
                v
            };
            let a = mk(9);
            let b = mk(5).add(&S(1));
            let c = mk(3).add(&S(1));
            for d in [&b, &c] {
                let (q, r) = a.tdivrem(d);
                assert_eq!(q.mul(d).add(&r), a);
                assert!(r < *d && !r.is_neg());
            }
            assert_eq!(a.add(&b).sub(&b), a);
            assert_eq!(Int::parse(&format!("{}", a)).unwrap(), a);
        }
    }
}
