//! The memory one run shares with the process that started it.

use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

pub const TAPE_CAP: usize = 1 << 20;
pub const N_COUNT: usize = 56;
pub const N_COVER: usize = 512;
pub const N_NOTE: usize = 16;

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

#[repr(C)]
pub struct Shared {
    pub status: AtomicU32,
    pub class: [u8; 96],
    pub msg: [u8; 4096],
    pub steps: u64,
    pub clock: u64,
    pub hash: u64,
    pub shash: u64,
    pub checks: u64,
    pub switches: u64,
    pub threads: u64,
    pub faults: u64,
    pub mut_ops: u64,
    pub notes: [u64; N_NOTE],
    pub counts: [u64; N_COUNT],
    pub cover: [(u64, u64, u64); N_COVER],
    pub tape_len: [u32; 3],
    pub tapes: [[u32; TAPE_CAP]; 3],
}

/// Shared between the workers of one check.
#[repr(C)]
pub struct Control {
    pub stop: AtomicU32,
    pub runs: AtomicU64,
}

pub fn map<T>() -> &'static mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        if p == libc::MAP_FAILED {
            eprintln!("bisim: can not map shared memory");
            libc::_exit(70);
        }
        &mut *(p as *mut T)
    }
}

impl Shared {
    pub fn reset(&mut self) {
        self.status.store(ST_RUNNING, Ordering::SeqCst);
        self.class[0] = 0;
        self.msg[0] = 0;
        self.steps = 0;
        self.clock = 0;
        self.hash = 0;
        self.shash = 0;
        self.checks = 0;
        self.switches = 0;
        self.threads = 0;
        self.faults = 0;
        self.mut_ops = 0;
        self.notes = [0; N_NOTE];
        self.counts = [0; N_COUNT];
        self.cover = [(0, 0, 0); N_COVER];
        self.tape_len = [0; 3];
    }
}

pub fn put_str(dst: &mut [u8], s: &str) {
    let n = s.len().min(dst.len() - 1);
    dst[..n].copy_from_slice(&s.as_bytes()[..n]);
    dst[n] = 0;
}

pub fn get_str(src: &[u8]) -> String {
    let n = src.iter().position(|b| *b == 0).unwrap_or(src.len());
    String::from_utf8_lossy(&src[..n]).into_owned()
}
