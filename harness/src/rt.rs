//! Primitives of the symbolic executor and the specification side of the checks.
extern "C" {
    fn sym_int(lo: i64, hi: i64) -> i64;
    fn sym_choose(lo: i64, hi: i64) -> i64;
    fn sym_tier() -> i64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, p: *const u8, n: usize);
    fn sym_reach(p: *const u8, n: usize);
    fn sym_allow_panic(c: i64);
    fn sym_concretize(v: i64) -> i64;
    fn sym_heap_live() -> u64;
    fn sym_float(p: *const u8, n: usize, prec: usize) -> f64;
    fn spec_int(v: i64) -> u32;
    fn spec_pow10(k: u32) -> u32;
    fn spec_add(a: u32, b: u32) -> u32;
    fn spec_sub(a: u32, b: u32) -> u32;
    fn spec_mul(a: u32, b: u32) -> u32;
    fn spec_div(a: u32, b: u32) -> u32;
    fn spec_le(a: u32, b: u32) -> bool;
    fn spec_eq(a: u32, b: u32) -> bool;
}
/// any integer in lo..=hi, symbolic
pub fn any(lo: i64, hi: i64) -> i64 {
    unsafe { sym_int(lo, hi) }
}
/// any integer in lo..=hi, one path per value
pub fn choose(lo: i64, hi: i64) -> i64 {
    unsafe { sym_choose(lo, hi) }
}
pub fn pick<T: Copy>(v: &[T]) -> T {
    v[choose(0, v.len() as i64 - 1) as usize]
}
/// 0 quick, 1 thorough
pub fn tier() -> i64 {
    unsafe { sym_tier() }
}
pub fn thorough() -> bool {
    tier() > 0
}
/// `pick` from `q` in the quick tier, from `q` and `t` in the thorough tier
pub fn pick2<T: Copy>(q: &[T], t: &[T]) -> T {
    if thorough() {
        let i = choose(0, (q.len() + t.len()) as i64 - 1) as usize;
        if i < q.len() {
            q[i]
        } else {
            t[i - q.len()]
        }
    } else {
        pick(q)
    }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn fail(m: &str) {
    check(false, m)
}
pub fn reach(m: &str) {
    unsafe { sym_reach(m.as_ptr(), m.len()) }
}
pub fn allow_panic(c: bool) {
    unsafe { sym_allow_panic(c as i64) }
}
pub fn concretize(v: i64) -> i64 {
    unsafe { sym_concretize(v) }
}
pub fn heap_live() -> u64 {
    unsafe { sym_heap_live() }
}

/// a number whose text at `prec` significant digits is `s`
pub fn float(s: &[u8], prec: usize) -> f64 {
    unsafe { sym_float(s.as_ptr(), s.len(), prec) }
}

/// unbounded integer
#[derive(Clone, Copy)]
pub struct Z(u32);
pub fn z(v: i64) -> Z {
    Z(unsafe { spec_int(v) })
}
pub fn pow10(k: u32) -> Z {
    Z(unsafe { spec_pow10(k) })
}
impl Z {
    /// floor division
    pub fn fdiv(self, o: Z) -> Z {
        Z(unsafe { spec_div(self.0, o.0) })
    }
    pub fn fmod(self, o: Z) -> Z {
        self - self.fdiv(o) * o
    }
    pub fn le(self, o: Z) -> bool {
        unsafe { spec_le(self.0, o.0) }
    }
    pub fn lt(self, o: Z) -> bool {
        !o.le(self)
    }
    pub fn eq(self, o: Z) -> bool {
        unsafe { spec_eq(self.0, o.0) }
    }
    pub fn neg(self) -> Z {
        z(0) - self
    }
}
impl std::ops::Add for Z {
    type Output = Z;
    fn add(self, o: Z) -> Z {
        Z(unsafe { spec_add(self.0, o.0) })
    }
}
impl std::ops::Sub for Z {
    type Output = Z;
    fn sub(self, o: Z) -> Z {
        Z(unsafe { spec_sub(self.0, o.0) })
    }
}
impl std::ops::Mul for Z {
    type Output = Z;
    fn mul(self, o: Z) -> Z {
        Z(unsafe { spec_mul(self.0, o.0) })
    }
}
