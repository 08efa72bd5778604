//! Counting, layout-checking global allocator. It counts per-thread net bytes and blocks, so that leaks and
//! lost allocations of the crate under test are observable (only meaningful on the thread that runs
//! the history), and compares the layout of every deallocation with that of the allocation.
//! Under Miri the interpreter does all of this itself and this allocator is not installed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
}

/// The first mismatch: sizes and alignments, allocated and deallocated (0: none)
static BAD: [AtomicUsize; 4] = [const { AtomicUsize::new(0) }; 4];

pub fn net() -> (i64, i64) {
    // the ledger may grow during a history
    (BLOCKS.with(|b| b.get()), BYTES.with(|b| b.get()) - crate::ledger::own_bytes())
}
pub fn total_allocs() -> u64 {
    TOTAL.with(|b| b.get())
}
/// A deallocation with another layout than the allocation, if there was one since the last call
pub fn take_mismatch() -> Option<String> {
    let v: Vec<usize> = BAD.iter().map(|b| b.swap(0, Relaxed)).collect();
    (v[1] != 0).then(|| format!("a block allocated with size {} and alignment {} was deallocated with size {} and alignment {}", v[0], v[1], v[2], v[3]))
}

fn add(blocks: i64, bytes: i64) {
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    let _ = BYTES.try_with(|b| b.set(b.get() + bytes));
    if blocks > 0 {
        let _ = TOTAL.try_with(|b| b.set(b.get() + 1));
    }
}

#[cold]
fn mismatch(s: usize, a: usize, l: Layout) {
    if BAD[1].swap(a.max(1), Relaxed) == 0 {
        BAD[0].store(s, Relaxed);
        BAD[2].store(l.size(), Relaxed);
        BAD[3].store(l.align(), Relaxed);
    }
}

// Under AddressSanitizer the runtime is asked for the size, so that redzones stay next to the blocks.
#[cfg(mon_asan)]
mod block {
    use super::*;
    extern "C" {
        fn __sanitizer_get_allocated_size(p: *const u8) -> usize;
    }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    pub unsafe fn check(p: *mut u8, l: Layout) -> Layout {
        let s = unsafe { __sanitizer_get_allocated_size(p) };
        // (0: not a live block; the deallocation itself reports that)
        if s != 0 && s != l.size() && l.size() != 0 {
            mismatch(s, p as usize & (p as usize).wrapping_neg(), l);
        }
        l
    }
    pub unsafe fn dealloc(p: *mut u8, l: Layout) {
        unsafe { System.dealloc(p, l) }
    }
    pub unsafe fn realloc(p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe { System.realloc(p, l, n) }
    }
}

// Otherwise a header before each block says what it is.
#[cfg(not(mon_asan))]
mod block {
    use super::*;
    const MAGIC: usize = 0x5a17_ab1e;
    fn outer(l: Layout) -> (Layout, usize) {
        let off = l.align().max(16);
        (Layout::from_size_align(l.size() + off, off).unwrap_or_else(|_| std::process::abort()), off)
    }
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        let (o, off) = outer(l);
        unsafe {
            let p = System.alloc(o);
            if p.is_null() {
                return p;
            }
            let p = p.add(off);
            p.cast::<usize>().sub(1).write(l.size());
            p.cast::<usize>().sub(2).write(l.align() ^ MAGIC);
            p
        }
    }
    /// The layout the block was really allocated with
    pub unsafe fn check(p: *mut u8, l: Layout) -> Layout {
        let (s, a) = unsafe { (p.cast::<usize>().sub(1).read(), p.cast::<usize>().sub(2).read() ^ MAGIC) };
        match Layout::from_size_align(s, a) {
            Ok(real) => {
                if real != l {
                    mismatch(s, a, l);
                }
                real
            }
            Err(_) => {
                mismatch(0, 0, l);
                l
            }
        }
    }
    pub unsafe fn dealloc(p: *mut u8, real: Layout) {
        let (o, off) = outer(real);
        unsafe {
            p.cast::<usize>().sub(2).write(0);
            System.dealloc(p.sub(off), o)
        }
    }
    pub unsafe fn realloc(p: *mut u8, real: Layout, n: usize) -> *mut u8 {
        unsafe {
            let q = alloc(Layout::from_size_align_unchecked(n, real.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, real.size().min(n));
                dealloc(p, real);
            }
            q
        }
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { block::alloc(l) };
        if !p.is_null() {
            add(1, l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as i64));
        unsafe {
            let real = block::check(p, l);
            block::dealloc(p, real)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let real = block::check(p, l);
            let q = block::realloc(p, real, n);
            if !q.is_null() {
                add(0, n as i64 - l.size() as i64);
            }
            q
        }
    }
}
