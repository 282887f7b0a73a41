//! Counting allocator: live and peak heap bytes while a window is open. In a
//! run, simulated code gets its memory from a region of its own at a fixed
//! address, so that addresses (which parking_lot hashes) depend on nothing but
//! the run's own choices.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

use crate::sim;

pub struct Counting;

static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BIGGEST: AtomicI64 = AtomicI64::new(0);

fn add(n: i64) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
    if n > BIGGEST.load(Relaxed) {
        BIGGEST.store(n, Relaxed);
    }
}

const BASE: usize = 0x2000_0000_0000;
const MIN: u32 = 4;
const MAX: u32 = 26;
/// Address space of one size class.
const SPAN: usize = 1 << 30;
const CLASSES: usize = (MAX - MIN + 1) as usize;
/// Address space of the region, and how much of it a run may touch.
pub const SPACE: usize = SPAN * CLASSES;
const LIMIT: usize = 2 << 30;

struct Region {
    on: bool,
    used: usize,
    next: [usize; CLASSES],
    free: [usize; CLASSES],
}

// Only touched by the thread that holds the baton.
static mut REGION: Region = Region { on: false, used: 0, next: [0; CLASSES], free: [0; CLASSES] };

pub fn open_region() {
    unsafe {
        let r = libc::mmap(
            BASE as *mut libc::c_void,
            SPACE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
            -1,
            0,
        );
        assert!(r as usize == BASE, "no address space for the region");
        REGION.on = true;
    }
}

fn class(l: &Layout) -> usize {
    let n = l.size().max(l.align()).max(1 << MIN);
    (usize::BITS - (n - 1).leading_zeros() - MIN) as usize
}

#[inline]
fn ours(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SPACE
}

#[allow(static_mut_refs)]
unsafe fn get(l: Layout) -> *mut u8 {
    if REGION.on && sim::active() {
        let c = class(&l);
        if c < CLASSES {
            let f = REGION.free[c];
            if f != 0 {
                REGION.free[c] = *(f as *const usize);
                return f as *mut u8;
            }
            let n = REGION.next[c];
            let size = 1usize << (c as u32 + MIN);
            if n + size <= SPAN && REGION.used + size <= LIMIT {
                REGION.next[c] = n + size;
                REGION.used += size;
                return (BASE + c * SPAN + n) as *mut u8;
            }
        }
    }
    System.alloc(l)
}

#[allow(static_mut_refs)]
unsafe fn put(p: *mut u8, l: Layout) {
    if ours(p) {
        let c = (p as usize - BASE) / SPAN;
        *(p as *mut usize) = REGION.free[c];
        REGION.free[c] = p as usize;
    } else {
        System.dealloc(p, l)
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            add(l.size() as i64);
        }
        get(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            add(l.size() as i64);
        }
        if class(&l) >= CLASSES {
            return System.alloc_zeroed(l);
        }
        let p = get(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        put(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            // The old and the new block exist together for a moment.
            add(n as i64);
            LIVE.fetch_sub(l.size() as i64, Relaxed);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        if ours(p) && class(&l) == class(&nl) {
            return p;
        }
        if !ours(p) && !(REGION.on && sim::active()) {
            return System.realloc(p, l, n);
        }
        let q = get(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            put(p, l);
        }
        q
    }
}

/// Peak growth of the heap while `f` runs.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, u64) {
    start();
    let v = f();
    (v, stop())
}

pub fn start() {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    BIGGEST.store(0, Relaxed);
    ON.store(true, Relaxed);
}

/// Peak growth since the start.
pub fn stop() -> u64 {
    ON.store(false, Relaxed);
    PEAK.load(Relaxed).max(0) as u64
}
