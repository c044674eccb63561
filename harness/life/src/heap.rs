//! Ledger of heap blocks requested while the library runs.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

const MAX: usize = 512;
struct Table {
    n: AtomicUsize,
    e: [(AtomicUsize, AtomicUsize, AtomicUsize); MAX],
}
static ON: AtomicBool = AtomicBool::new(false);
static BAD: AtomicBool = AtomicBool::new(false);
static OVER: AtomicBool = AtomicBool::new(false);
static TABLE: Table = Table { n: AtomicUsize::new(0), e: [const { (AtomicUsize::new(0), AtomicUsize::new(0), AtomicUsize::new(0)) }; MAX] };

pub struct Ledger;
unsafe impl GlobalAlloc for Ledger {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if ON.load(Relaxed) {
            let n = TABLE.n.load(Relaxed);
            if n < MAX {
                TABLE.e[n].0.store(p as usize, Relaxed);
                TABLE.e[n].1.store(l.size(), Relaxed);
                TABLE.e[n].2.store(l.align(), Relaxed);
                TABLE.n.store(n + 1, Relaxed);
            } else {
                OVER.store(true, Relaxed);
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let n = TABLE.n.load(Relaxed);
        for i in (0..n).rev() {
            if TABLE.e[i].0.load(Relaxed) == p as usize {
                if TABLE.e[i].1.load(Relaxed) != l.size() || TABLE.e[i].2.load(Relaxed) != l.align() {
                    BAD.store(true, Relaxed);
                }
                let last = n - 1;
                TABLE.e[i].0.store(TABLE.e[last].0.load(Relaxed), Relaxed);
                TABLE.e[i].1.store(TABLE.e[last].1.load(Relaxed), Relaxed);
                TABLE.e[i].2.store(TABLE.e[last].2.load(Relaxed), Relaxed);
                TABLE.n.store(last, Relaxed);
                break;
            }
        }
        System.dealloc(p, l)
    }
}

/// Runs `f` with the ledger on.
pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    struct G(bool);
    impl Drop for G {
        fn drop(&mut self) {
            ON.store(self.0, Relaxed);
        }
    }
    let _g = G(ON.swap(true, Relaxed));
    f()
}
/// Runs harness bookkeeping inside a tracked region.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let old = ON.swap(false, Relaxed);
    let r = f();
    ON.store(old, Relaxed);
    r
}
pub fn live() -> usize {
    TABLE.n.load(Relaxed)
}
pub fn layouts_ok() -> bool {
    !BAD.load(Relaxed)
}
/// Frees whatever is still recorded (deliberately leaked closures), forgetting it.
pub fn sweep() {
    while TABLE.n.load(Relaxed) > 0 {
        let n = TABLE.n.load(Relaxed) - 1;
        let (p, s, a) = (TABLE.e[n].0.load(Relaxed), TABLE.e[n].1.load(Relaxed), TABLE.e[n].2.load(Relaxed));
        TABLE.n.store(n, Relaxed);
        unsafe { System.dealloc(p as *mut u8, Layout::from_size_align_unchecked(s, a)) };
    }
    BAD.store(false, Relaxed);
}
/// More blocks at once than the ledger has room for: this run says nothing about the heap.
pub fn overflowed() -> bool {
    OVER.load(Relaxed)
}
/// Stops watching what is still recorded, leaving it alone.
pub fn forget() {
    TABLE.n.store(0, Relaxed);
    BAD.store(false, Relaxed);
    OVER.store(false, Relaxed);
}
