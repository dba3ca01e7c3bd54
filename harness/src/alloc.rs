//! Global allocator of the harness.
//!
//! * Page aligned allocations (only the data space of the Forth machine asks for them) are
//!   placed between two inaccessible regions so that any access outside of the data space, even by
//!   one byte, kills the process.
//! * Counts allocations and releases (property C20).
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub struct Alloc;

pub static COUNT: AtomicU64 = AtomicU64::new(0);
pub static COUNTING: AtomicBool = AtomicBool::new(false);

const GUARD: usize = 1 << 20;

#[inline]
fn tick() {
    if COUNTING.load(Relaxed) {
        COUNT.fetch_add(1, Relaxed);
    }
}

/// New pages between inaccessible ones.
unsafe fn pages(l: Layout) -> *mut u8 {
    let size = (l.size() + 4095) & !4095;
    let p = libc::mmap(
        std::ptr::null_mut(),
        size + 2 * GUARD,
        libc::PROT_NONE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
        -1,
        0,
    ) as *mut u8;
    if p as isize == -1 {
        return std::ptr::null_mut();
    }
    let q = p.add(GUARD);
    libc::mprotect(q as *mut _, size, libc::PROT_READ | libc::PROT_WRITE);
    q
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        tick();
        if l.align() >= 4096 {
            // Memory which is not asked to be zero is not.
            let p = pages(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0xA5, l.size());
            }
            return p;
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        tick();
        if l.align() >= 4096 {
            return pages(l);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        tick();
        if l.align() >= 4096 {
            let size = (l.size() + 4095) & !4095;
            libc::munmap(p.sub(GUARD) as *mut _, size + 2 * GUARD);
            return;
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        tick();
        if l.align() >= 4096 {
            let nl = Layout::from_size_align_unchecked(n, l.align());
            let q = self.alloc(nl);
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            return q;
        }
        System.realloc(p, l, n)
    }
}

/// Run `f` and count the allocations and releases it makes.
pub fn count<R>(f: impl FnOnce() -> R) -> (R, u64) {
    COUNT.store(0, Relaxed);
    COUNTING.store(true, Relaxed);
    let r = f();
    COUNTING.store(false, Relaxed);
    (r, COUNT.load(Relaxed))
}
