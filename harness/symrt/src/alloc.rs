//! Checking allocator for native replays: verifies the layout given to dealloc,
//! red zones on both sides of every block, and poisons fresh and freed memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

static LIVE: AtomicU64 = AtomicU64::new(0);
static HIDE: AtomicI64 = AtomicI64::new(0);
const PAD: usize = 64;

struct Checked;
#[global_allocator]
static A: Checked = Checked;

pub fn live() -> u64 {
    LIVE.load(Ordering::SeqCst)
}
/// run harness bookkeeping whose allocations are not counted
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    HIDE.fetch_add(1, Ordering::SeqCst);
    let r = f();
    HIDE.fetch_sub(1, Ordering::SeqCst);
    r
}
fn fail(m: &str) -> ! {
    use std::io::Write;
    let e = std::io::stdout();
    let _ = writeln!(e.lock(), "UB {}", m);
    std::process::exit(73)
}
// block: [PAD: size u64, align u64, counted u64, canary...][data][PAD canary]
unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let pad = PAD.max(l.align());
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + pad + PAD, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let u = p.add(pad);
        std::ptr::write_bytes(u.sub(PAD), 0xC5, PAD);
        std::ptr::write_bytes(u, 0xA7, l.size());
        std::ptr::write_bytes(u.add(l.size()), 0xC5, PAD);
        let counted = HIDE.load(Ordering::SeqCst) == 0;
        let h = u.sub(PAD) as *mut u64;
        h.write_unaligned(l.size() as u64);
        h.add(1).write_unaligned(l.align() as u64);
        h.add(2).write_unaligned(counted as u64);
        if counted {
            LIVE.fetch_add(1, Ordering::SeqCst);
        }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(PAD) as *mut u64;
        let (s, a, c) = (h.read_unaligned() as usize, h.add(1).read_unaligned() as usize, h.add(2).read_unaligned());
        if s != l.size() || a != l.align() {
            fail(&format!("deallocation with the wrong layout: allocated ({}, {}), freed ({}, {})", s, a, l.size(), l.align()));
        }
        for i in 24..PAD {
            if *u.sub(PAD).add(i) != 0xC5 {
                fail("write before the start of a heap block");
            }
        }
        for i in 0..PAD {
            if *u.add(s).add(i) != 0xC5 {
                fail("write past the end of a heap block");
            }
        }
        if c == 1 {
            LIVE.fetch_sub(1, Ordering::SeqCst);
        }
        std::ptr::write_bytes(u, 0xDD, s);
        let pad = PAD.max(a);
        System.dealloc(u.sub(pad), Layout::from_size_align_unchecked(s + pad + PAD, a.max(16)));
    }
}
