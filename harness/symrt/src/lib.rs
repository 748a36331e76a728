//! Native definitions of the primitives that the symbolic executor intercepts.
//! Linked into the replay binary: a counterexample is a list of input values, and
//! running the same entry with them executes the real, natively compiled code.
#![allow(dead_code)]
#[path = "../../../symex/src/int.rs"]
#[allow(unused)]
mod int;
mod alloc;
use int::Int;
use std::sync::Mutex;

struct Rt {
    inputs: Vec<i64>,
    pos: usize,
    tier: i64,
    spec: Vec<Int>,
    allow_panic: bool,
}
static RT: Mutex<Option<Rt>> = Mutex::new(None);

pub const EXIT_ASSERT: i32 = 70;
pub const EXIT_ASSUME: i32 = 77;
pub const EXIT_PANIC: i32 = 71;
pub const EXIT_PANIC_ALLOWED: i32 = 72;

fn with<T>(f: impl FnOnce(&mut Rt) -> T) -> T {
    let mut g = RT.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().expect("symrt not initialised"))
}
fn die(code: i32) -> ! {
    std::process::exit(code)
}

/// inputs: whitespace separated tokens `v5`, `c2`, with `t1` giving the tier
pub fn init(text: &str) {
    let mut inputs = vec![];
    let mut tier = 0;
    for t in text.split_whitespace() {
        let (k, v) = t.split_at(1);
        let v: i64 = v.parse().expect("input token");
        if k == "t" {
            tier = v
        } else {
            inputs.push(v)
        }
    }
    *RT.lock().unwrap() = Some(Rt { inputs, pos: 0, tier, spec: vec![], allow_panic: false });
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let allowed = match RT.try_lock() {
            Ok(g) => g.as_ref().map(|r| r.allow_panic).unwrap_or(false),
            Err(_) => false,
        };
        if allowed {
            die(EXIT_PANIC_ALLOWED);
        }
        old(i);
        println!("PANIC");
        die(EXIT_PANIC);
    }));
}

fn next(lo: i64, hi: i64) -> i64 {
    let r = with(|r| {
        let v = r.inputs.get(r.pos).copied();
        r.pos += 1;
        v
    });
    match r {
        Some(v) if v >= lo && v <= hi => v,
        Some(_) => die(EXIT_ASSUME),
        None => {
            if lo > hi {
                die(EXIT_ASSUME)
            }
            lo
        }
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_int(lo: i64, hi: i64) -> i64 {
    next(lo, hi)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_choose(lo: i64, hi: i64) -> i64 {
    next(lo, hi)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_tier() -> i64 {
    with(|r| r.tier)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_assume(c: bool) {
    if !c {
        die(EXIT_ASSUME)
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        println!("ASSERT-FAILED {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
        die(EXIT_ASSERT)
    }
}
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_reach(p: *const u8, n: usize) {
    println!("REACHED {}", String::from_utf8_lossy(std::slice::from_raw_parts(p, n)));
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_allow_panic(c: i64) {
    with(|r| r.allow_panic = c != 0)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_concretize(v: i64) -> i64 {
    unsafe { std::ptr::read_volatile(&v) }
}
/// the number written by a text of at most `prec` significant digits; formatting it
/// with that precision gives the text back
#[no_mangle]
#[inline(never)]
pub unsafe extern "C" fn sym_float(p: *const u8, n: usize, prec: usize) -> f64 {
    let s = std::str::from_utf8(std::slice::from_raw_parts(p, n)).unwrap_or("");
    let f: f64 = match s.parse() {
        Ok(f) => f,
        Err(_) => die(EXIT_ASSUME),
    };
    // single precision: the nearest f32, which prints the same at 6 digits
    if prec <= 6 {
        s.parse::<f32>().unwrap() as f64
    } else {
        f
    }
}
/// number of live allocations made by the program under test
#[no_mangle]
#[inline(never)]
pub extern "C" fn sym_heap_live() -> u64 {
    alloc::live()
}
fn put(v: Int) -> u32 {
    alloc::untracked(|| {
        with(|r| {
            r.spec.push(v);
            r.spec.len() as u32 - 1
        })
    })
}
fn get(i: u32) -> Int {
    with(|r| r.spec[i as usize].clone())
}
fn op(a: u32, b: u32, f: impl FnOnce(&Int, &Int) -> Int) -> u32 {
    alloc::untracked(|| {
        let (x, y) = (get(a), get(b));
        put(f(&x, &y))
    })
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_int(v: i64) -> u32 {
    alloc::untracked(|| put(Int::S(v as i128)))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_pow10(k: u32) -> u32 {
    alloc::untracked(|| put(Int::pow10(k)))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_add(a: u32, b: u32) -> u32 {
    op(a, b, |x, y| x.add(y))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_sub(a: u32, b: u32) -> u32 {
    op(a, b, |x, y| x.sub(y))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_mul(a: u32, b: u32) -> u32 {
    op(a, b, |x, y| x.mul(y))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_div(a: u32, b: u32) -> u32 {
    op(a, b, |x, y| x.fdiv(y))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_le(a: u32, b: u32) -> bool {
    alloc::untracked(|| get(a) <= get(b))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn spec_eq(a: u32, b: u32) -> bool {
    alloc::untracked(|| get(a) == get(b))
}
