//! Allocator that can put every heap block next to an inaccessible page, so that reads and writes outside a buffer fault.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    fn madvise(a: *mut u8, n: usize, advice: i32) -> i32;
}
const PAGE: usize = 4096;
const SLOT: usize = 1 << 16;
const SLOTS: usize = 1 << 18;
const MAX: usize = SLOT - 3 * PAGE;
pub static ON: AtomicBool = AtomicBool::new(false);
static BASE: AtomicUsize = AtomicUsize::new(0);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static USED: [AtomicU8; SLOTS] = [const { AtomicU8::new(0) }; SLOTS];

pub fn enable() {
    let p = unsafe { mmap(std::ptr::null_mut(), SLOT * SLOTS, 0, 0x2 | 0x20 | 0x4000, -1, 0) };
    if p as isize == -1 { return; }
    BASE.store(p as usize, Relaxed);
    ON.store(true, Relaxed);
}

pub struct Guard;
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let n = l.size();
        if !ON.load(Relaxed) || n == 0 || n > MAX || l.align() > 64 { return System.alloc(l); }
        let mut i = NEXT.load(Relaxed);
        let mut tries = 0;
        while USED[i].load(Relaxed) != 0 {
            i = (i + 1) % SLOTS;
            tries += 1;
            if tries == SLOTS { return System.alloc(l); }
        }
        USED[i].store(1, Relaxed);
        NEXT.store((i + 1) % SLOTS, Relaxed);
        let s = BASE.load(Relaxed) + i * SLOT;
        let m = (n + PAGE - 1) / PAGE * PAGE;
        let (lo, p) = if i % 4 == 3 { (s + PAGE, s + PAGE) } else {
            let end = s + SLOT - PAGE;
            (end - m, (end - n) & !(l.align() - 1))
        };
        // an aligned end-placed block may start one page lower
        let lo = lo.min(p & !(PAGE - 1));
        if mprotect(lo as *mut u8, m + PAGE.min(lo_extra(lo, m, s)), 3) != 0 { return System.alloc(l); }
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let b = BASE.load(Relaxed);
        if b == 0 || (p as usize) < b || (p as usize) >= b + SLOT * SLOTS { return System.dealloc(p, l); }
        let i = (p as usize - b) / SLOT;
        let s = (b + i * SLOT) as *mut u8;
        mprotect(s, SLOT, 0);
        madvise(s, SLOT, 4);
        USED[i].store(0, Relaxed);
    }
}
fn lo_extra(lo: usize, m: usize, s: usize) -> usize { if lo + m < s + SLOT - PAGE && lo != s + PAGE { PAGE } else { 0 } }
