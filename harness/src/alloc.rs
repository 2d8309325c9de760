//! A global allocator that counts the live bytes allocated inside the code under test.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::SeqCst};

pub struct Tagged;
static INSIDE: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicIsize = AtomicIsize::new(0);
const H: usize = 16;

unsafe impl GlobalAlloc for Tagged {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > H { return System.alloc(l); }
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + H, H));
        if p.is_null() { return p; }
        let tag = INSIDE.load(SeqCst);
        *(p as *mut u64) = tag as u64;
        if tag { LIVE.fetch_add(l.size() as isize, SeqCst); }
        p.add(H)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > H { return System.dealloc(p, l); }
        let q = p.sub(H);
        if *(q as *mut u64) == 1 { LIVE.fetch_sub(l.size() as isize, SeqCst); }
        System.dealloc(q, Layout::from_size_align_unchecked(l.size() + H, H));
    }
}

/// Runs a call into the code under test; its allocations are counted.
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    struct G(bool);
    impl Drop for G { fn drop(&mut self) { INSIDE.store(self.0, SeqCst); } }
    let _g = G(INSIDE.swap(true, SeqCst));
    f()
}

pub fn live() -> isize { LIVE.load(SeqCst) }
