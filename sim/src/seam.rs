//! The seam: definitions of the C library functions the code under test
//! reaches the outside through. Calls of simulated threads on files below the
//! run's scratch directory, and all thread, lock and clock calls of simulated
//! threads, are decided by the simulator. Everything else passes through.

use std::arch::asm;
use std::os::raw::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicU64, Ordering};

use crate::sim::{self, active, count_fault, ev, sim, Fk, Op, St, NEVER};

#[inline]
pub unsafe fn sys6(
    n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64,
) -> i64 {
    let r: i64;
    asm!("syscall",
         inlateout("rax") n => r,
         in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}
#[inline]
pub unsafe fn sys3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sys6(n, a, b, c, 0, 0, 0)
}

pub fn raw_write(fd: i32, p: *const u8, n: usize) {
    unsafe {
        let mut off = 0;
        while off < n {
            let r = sys3(libc::SYS_write, fd as i64, p.add(off) as i64, (n - off) as i64);
            if r <= 0 {
                return;
            }
            off += r as usize;
        }
    }
}
pub unsafe fn raw_futex_wait(addr: usize, val: u32) {
    sys6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64,
         val as i64, 0, 0, 0);
}
pub unsafe fn raw_futex_wake(addr: usize, n: i32) {
    sys6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64,
         n as i64, 0, 0, 0);
}
pub fn exit_group(code: i32) -> ! {
    unsafe {
        sys3(libc::SYS_exit_group, code as i64, 0, 0);
    }
    loop {}
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as c_int;
        -1
    } else {
        r
    }
}
unsafe fn err(e: c_int) -> i64 {
    *libc::__errno_location() = e;
    -1
}

// ---------------------------------------------------------------- files

#[derive(Clone, Copy, PartialEq)]
pub struct FdInfo {
    /// Number of the file in order of first use; 0 when not tracked.
    pub file: u32,
    pub temp: bool,
    pub opened_by: u32,
}

pub struct IoState {
    pub fds: Vec<FdInfo>,
    /// Event counters.
    pub events: Vec<bool>,
    pub maps: Vec<(usize, usize, u32)>,
    pub next_file: u32,
    pub paths: Vec<(Vec<u8>, u32)>,
    /// Directories in which temporary files were created.
    pub temp_dirs: Vec<Vec<u8>>,
    /// Opens outside the scratch directory by simulated threads.
    pub strays: Vec<Vec<u8>>,
    /// Called around each file operation: (before, file).
    pub watch: Option<fn(bool, Op, u32)>,
    pub rnd: u64,
    pub bytes_written: u64,
    /// The current directory is the scratch directory.
    pub cwd_inside: bool,
    /// A file on which nothing fails for good.
    pub log_file: u32,
    /// The longest content made by the workloads.
    pub length_max: u64,
}

const NOFD: FdInfo = FdInfo { file: 0, temp: false, opened_by: 0 };

impl IoState {
    pub fn new() -> IoState {
        IoState {
            fds: vec![NOFD; 1024],
            events: vec![false; 1024],
            maps: Vec::new(),
            next_file: 1,
            paths: Vec::new(),
            temp_dirs: Vec::new(),
            strays: Vec::new(),
            watch: None,
            rnd: 0x1234_5678_9abc_def0,
            bytes_written: 0,
            cwd_inside: false,
            log_file: 0,
            length_max: 0x14_0000,
        }
    }
    pub fn open_fds(&self) -> Vec<(usize, FdInfo)> {
        self.fds
            .iter()
            .enumerate()
            .filter(|(_, f)| f.file != 0)
            .map(|(i, f)| (i, *f))
            .collect()
    }
}

fn tracked(fd: c_int) -> u32 {
    if fd < 0 || fd >= 1024 || !active() {
        return 0;
    }
    sim().io.fds[fd as usize].file
}

fn watch(before: bool, op: Op, file: u32) {
    if let Some(w) = sim().io.watch {
        {
            let _g = sim::raw_guard();
            w(before, op, file);
        }
        if before {
            // The operation takes time, so that others can overlap.
            sim::point();
        }
    }
}

/// A hard fault of kind k, with its probability, if still allowed.
fn hard(k: Fk) -> u32 {
    let s = sim();
    if s.fl.hard_left == 0 {
        0
    } else {
        s.fl.p[k as usize]
    }
}
fn soft(k: Fk) -> u32 {
    sim().fl.p[k as usize]
}
fn spend(k: Fk) {
    sim().fl.hard_left = sim().fl.hard_left.saturating_sub(1);
    count_fault(k);
}

/// Choose among the fault kinds given; None is no fault.
fn choose(ks: &[(Fk, u32)]) -> Option<Fk> {
    let sum: u32 = ks.iter().map(|k| k.1).sum();
    if sum == 0 {
        return None;
    }
    let mut w = [0u32; 8];
    w[0] = 1000u32.saturating_sub(sum);
    for (i, k) in ks.iter().enumerate() {
        w[i + 1] = k.1;
    }
    match sim().f.weighted(&w[..=ks.len()]) {
        0 => None,
        i if ks[i - 1].1 == 0 => None,
        i => Some(ks[i - 1].0),
    }
}

/// A cut point in 1..len, biased to the ends.
fn cut(len: usize) -> usize {
    if len <= 2 {
        return 1;
    }
    let f = &mut sim().f;
    let c = match f.weighted(&[2, 1, 3]) {
        0 => 1,
        1 => len - 1,
        _ => 1 + f.below((len - 1).min(1 << 30) as u32) as usize,
    };
    c.min(len - 1).max(1)
}

/// Count a mutating operation. True if the process stops at this one.
fn crash_here() -> bool {
    let s = sim();
    if s.dead {
        return true;
    }
    s.mut_ops += 1;
    if s.fl.crash_at == Some(s.mut_ops) {
        s.dead = true;
        count_fault(Fk::Crash);
        return true;
    }
    false
}

macro_rules! tr {
    ($($arg:tt)*) => {{
        if sim().trace_fd >= 0 {
            let _g = sim::raw_guard();
            sim::trace(&format!($($arg)*));
        }
    }};
}

type WriteRaw = unsafe fn(c_int, *const u8, usize, i64) -> i64;
unsafe fn wr_seq(fd: c_int, p: *const u8, n: usize, _: i64) -> i64 {
    sys3(libc::SYS_write, fd as i64, p as i64, n as i64)
}
unsafe fn wr_at(fd: c_int, p: *const u8, n: usize, off: i64) -> i64 {
    sys6(libc::SYS_pwrite64, fd as i64, p as i64, n as i64, off, 0, 0)
}
unsafe fn rd_seq(fd: c_int, p: *mut u8, n: usize, _: i64) -> i64 {
    sys3(libc::SYS_read, fd as i64, p as i64, n as i64)
}
unsafe fn rd_at(fd: c_int, p: *mut u8, n: usize, off: i64) -> i64 {
    sys6(libc::SYS_pread64, fd as i64, p as i64, n as i64, off, 0, 0)
}

unsafe fn do_write(
    op: Op, file: u32, fd: c_int, p: *const u8, n: usize, off: i64, w: WriteRaw,
) -> i64 {
    sim::point();
    watch(true, op, file);
    let was_dead = sim().dead;
    if n > 0 && crash_here() {
        // Part of the write at which the process stops may still happen.
        let k = if was_dead { 0 } else { sim().f.below((n + 1).min(1 << 30) as u32) as usize };
        if k > 0 {
            w(fd, p, k, off);
        }
        tr!("{} f{} len={} CRASH after {}", sim::OP_NAMES[op as usize], file, n, k);
        ev(op, file as u64, n as i64, -1000 - k as i64);
        watch(false, op, file);
        return err(libc::EIO);
    }
    let mut note = "";
    let safe = file == sim().io.log_file && file != 0;
    if safe {
        // Each part of a line is a write.
        sim().max_steps += 4;
    }
    let k = if n == 0 {
        None
    } else {
        choose(&[
            (Fk::ShortWrite, if n > 1 { soft(Fk::ShortWrite) } else { 0 }),
            (Fk::EintrWrite, soft(Fk::EintrWrite)),
            (Fk::TornWrite, if n > 1 { soft(Fk::TornWrite) } else { 0 }),
            (Fk::EnospcWrite, if safe { 0 } else { hard(Fk::EnospcWrite) }),
            (Fk::EioWrite, if safe { 0 } else { hard(Fk::EioWrite) }),
        ])
    };
    let mut n1 = n;
    if let Some(q) = sim().fl.quota.filter(|_| !safe) {
        if (n as u64) > q {
            n1 = q as usize;
            note = " DISK-FULL";
            if q == 0 {
                count_fault(Fk::DiskFull);
            }
        }
    }
    let r = if n > 0 && !safe && sim().fl.full_next {
        sim().fl.full_next = false;
        note = " ENOSPC";
        -(libc::ENOSPC as i64)
    } else if n1 == 0 && n > 0 {
        -(libc::ENOSPC as i64)
    } else {
        match k {
            None => w(fd, p, n1, off),
            Some(Fk::ShortWrite) => {
                count_fault(Fk::ShortWrite);
                note = " SHORT";
                let c = cut(n1.max(2)).min(n1);
                w(fd, p, c, off)
            }
            Some(Fk::EintrWrite) => {
                count_fault(Fk::EintrWrite);
                note = " EINTR";
                -(libc::EINTR as i64)
            }
            Some(Fk::TornWrite) if n1 < 2 => w(fd, p, n1, off),
            Some(Fk::TornWrite) => {
                count_fault(Fk::TornWrite);
                note = " TORN";
                let c = cut(n1);
                let r1 = w(fd, p, c, off);
                if r1 == c as i64 {
                    sim::point();
                    if sim().dead {
                        // Another thread met the end of the process.
                        watch(false, op, file);
                        return err(libc::EIO);
                    }
                    let r2 = w(fd, p.add(c), n1 - c, off + c as i64);
                    if r2 < 0 { r1 } else { r1 + r2 }
                } else {
                    r1
                }
            }
            Some(Fk::EnospcWrite) => {
                // The bytes that fit are written and reported; the next write
                // meets the full disk. Or nothing fits.
                spend(Fk::EnospcWrite);
                note = " ENOSPC";
                let c = sim().f.below((n1).min(1 << 30) as u32) as usize;
                if c == 0 {
                    -(libc::ENOSPC as i64)
                } else {
                    sim().fl.full_next = true;
                    w(fd, p, c, off)
                }
            }
            Some(_) => {
                spend(Fk::EioWrite);
                note = " EIO";
                -(libc::EIO as i64)
            }
        }
    };
    if r > 0 {
        if let Some(ref mut q) = sim().fl.quota.as_mut().filter(|_| !safe) {
            **q -= (r as u64).min(**q);
        }
        sim().io.bytes_written += r as u64;
    }
    tr!("{} f{} len={} off={} = {}{}", sim::OP_NAMES[op as usize], file, n, off, r, note);
    ev(op, file as u64, n as i64, r);
    watch(false, op, file);
    ret(r)
}

type ReadRaw = unsafe fn(c_int, *mut u8, usize, i64) -> i64;

unsafe fn do_read(
    op: Op, file: u32, fd: c_int, p: *mut u8, n: usize, off: i64, rd: ReadRaw,
) -> i64 {
    sim::point();
    watch(true, op, file);
    let mut note = "";
    let k = if n == 0 {
        None
    } else {
        choose(&[
            (Fk::ShortRead, if n > 1 { soft(Fk::ShortRead) } else { 0 }),
            (Fk::EintrRead, soft(Fk::EintrRead)),
            (Fk::TornRead, if n > 1 { soft(Fk::TornRead) } else { 0 }),
            (Fk::EioRead, hard(Fk::EioRead)),
            (Fk::EofRead, hard(Fk::EofRead)),
        ])
    };
    let r = match k {
        None => rd(fd, p, n, off),
        Some(Fk::ShortRead) => {
            count_fault(Fk::ShortRead);
            note = " SHORT";
            rd(fd, p, cut(n), off)
        }
        Some(Fk::EintrRead) => {
            count_fault(Fk::EintrRead);
            note = " EINTR";
            -(libc::EINTR as i64)
        }
        Some(Fk::TornRead) => {
            note = " TORN";
            // Cut inside what is there, not inside the caller's buffer.
            let r0 = rd(fd, p, n, off);
            if r0 < 2 {
                r0
            } else {
                count_fault(Fk::TornRead);
                let c = cut(r0 as usize);
                if op == Op::Read {
                    sys3(libc::SYS_lseek, fd as i64, c as i64 - r0, libc::SEEK_CUR as i64);
                }
                sim::point();
                let r2 = rd(fd, p.add(c), n - c, off + c as i64);
                if r2 < 0 { c as i64 } else { c as i64 + r2 }
            }
        }
        Some(Fk::EofRead) => {
            spend(Fk::EofRead);
            note = " EOF";
            0
        }
        Some(_) => {
            spend(Fk::EioRead);
            note = " EIO";
            -(libc::EIO as i64)
        }
    };
    tr!("{} f{} len={} off={} = {}{}", sim::OP_NAMES[op as usize], file, n, off, r, note);
    ev(op, file as u64, n as i64, r);
    watch(false, op, file);
    ret(r)
}


unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    std::slice::from_raw_parts(p as *const u8, libc::strlen(p))
}

unsafe fn do_open(dir: c_int, path: *const c_char, flags: c_int, mode: c_int) -> i64 {
    let fl = flags | libc::O_LARGEFILE;
    if !active() {
        return ret(sys6(libc::SYS_openat, dir as i64, path as i64, fl as i64, mode as i64, 0, 0));
    }
    let bytes = cstr(path);
    let relative = sim().io.cwd_inside && !bytes.starts_with(b"/");
    let inside = relative || bytes.starts_with(sim().scratch.as_bytes());
    if !inside {
        let wr = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT) != 0;
        if wr {
            let _g = sim::raw_guard();
            sim().io.strays.push(bytes.to_vec());
            tr!("open outside scratch: {}", String::from_utf8_lossy(bytes));
        }
        return ret(sys6(libc::SYS_openat, dir as i64, path as i64, fl as i64, mode as i64, 0, 0));
    }
    sim::point();
    let tmp = flags & libc::O_TMPFILE == libc::O_TMPFILE;
    let excl = flags & (libc::O_CREAT | libc::O_EXCL) == (libc::O_CREAT | libc::O_EXCL);
    let isdir = flags & libc::O_DIRECTORY != 0 && !tmp;
    let temp = tmp || excl;
    watch(true, Op::Open, 0);
    let r = if isdir {
        sys6(libc::SYS_openat, dir as i64, path as i64, fl as i64, mode as i64, 0, 0)
    } else if sim().dead && (temp || flags & libc::O_CREAT != 0) {
        -(libc::EIO as i64)
    } else if tmp && sim().fl.no_tmpfile {
        count_fault(Fk::TmpfileUnsupported);
        -(libc::EOPNOTSUPP as i64)
    } else if choose(&[(Fk::FailOpen, hard(Fk::FailOpen))]).is_some() {
        spend(Fk::FailOpen);
        let e = [libc::EMFILE, libc::EACCES, libc::ENOSPC, libc::EIO];
        -(e[sim().f.below(4) as usize] as i64)
    } else {
        sys6(libc::SYS_openat, dir as i64, path as i64, fl as i64, mode as i64, 0, 0)
    };
    let mut file = 0;
    if r >= 0 && r < 1024 && !isdir {
        let _g = sim::raw_guard();
        let io = &mut sim().io;
        let known = if temp { None } else {
            io.paths.iter().find(|p| p.0 == bytes).map(|p| p.1)
        };
        file = match known {
            Some(f) => f,
            None => {
                let f = io.next_file;
                io.next_file += 1;
                if !temp {
                    io.paths.push((bytes.to_vec(), f));
                }
                f
            }
        };
        if temp {
            let d = if tmp { bytes.to_vec() } else {
                let i = bytes.iter().rposition(|b| *b == b'/').unwrap_or(0);
                bytes[..i].to_vec()
            };
            if !io.temp_dirs.contains(&d) {
                io.temp_dirs.push(d);
            }
        }
        let tid = sim().cur as u32;
        sim().io.fds[r as usize] = FdInfo { file, temp, opened_by: tid };
    }
    watch(false, Op::Open, 0);
    tr!("open {}{} = {}", String::from_utf8_lossy(&bytes[if relative { 0 } else { sim().scratch.len() }..]),
        if tmp { " (tmpfile)" } else { "" },
        if r < 0 { format!("{}", r) } else { format!("f{}", file) });
    ev(Op::Open, file as u64, flags as i64, r.min(0));
    ret(r)
}

#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, path, flags, mode) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: c_int) -> c_int {
    do_open(d, path, flags, mode) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    let t = tracked(fd);
    if t != 0 {
        sim::point();
        sim().io.fds[fd as usize] = NOFD;
        tr!("close f{}", t);
        ev(Op::Close, t as u64, 0, 0);
    } else if fd >= 0 && fd < 1024 && sim::in_child() {
        sim().io.fds[fd as usize] = NOFD;
        sim().io.events[fd as usize] = false;
    }
    ret(sys3(libc::SYS_close, fd as i64, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, p: *mut c_void, n: usize) -> isize {
    let t = tracked(fd);
    if t == 0 {
        return ret(sys3(libc::SYS_read, fd as i64, p as i64, n as i64)) as isize;
    }
    do_read(Op::Read, t, fd, p as *mut u8, n, 0, rd_seq) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: usize) -> isize {
    let t = tracked(fd);
    if t == 0 {
        let r = sys3(libc::SYS_write, fd as i64, p as i64, n as i64);
        if fd >= 0 && fd < 1024 && active() && sim().io.events[fd as usize] {
            sim::notify(POLL_KEY, usize::MAX);
            ev(Op::FutexWake, 1, 0, 0);
            sim::point();
        }
        return ret(r) as isize;
    }
    do_write(Op::Write, t, fd, p as *const u8, n, 0, wr_seq) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, p: *mut c_void, n: usize, off: i64) -> isize {
    let t = tracked(fd);
    if t == 0 {
        return ret(sys6(libc::SYS_pread64, fd as i64, p as i64, n as i64, off, 0, 0)) as isize;
    }
    do_read(Op::Pread, t, fd, p as *mut u8, n, off, rd_at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, p: *const c_void, n: usize, off: i64) -> isize {
    let t = tracked(fd);
    if t == 0 {
        return ret(sys6(libc::SYS_pwrite64, fd as i64, p as i64, n as i64, off, 0, 0)) as isize;
    }
    do_write(Op::Pwrite, t, fd, p as *const u8, n, off, wr_at) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, p: *mut c_void, n: usize, off: i64) -> isize {
    pread64(fd, p, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, p: *const c_void, n: usize, off: i64) -> isize {
    pwrite64(fd, p, n, off)
}
// A vectored call on a tracked file serves its first non-empty part: a legal
// short count.
unsafe fn first(iov: *const libc::iovec, n: c_int) -> (*mut c_void, usize) {
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return (v.iov_base, v.iov_len);
        }
    }
    (std::ptr::null_mut(), 0)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if tracked(fd) == 0 {
        return ret(sys3(libc::SYS_readv, fd as i64, iov as i64, n as i64)) as isize;
    }
    let (p, l) = first(iov, n);
    read(fd, p, l)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> isize {
    if tracked(fd) == 0 {
        return ret(sys3(libc::SYS_writev, fd as i64, iov as i64, n as i64)) as isize;
    }
    let (p, l) = first(iov, n);
    write(fd, p, l)
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const libc::iovec, n: c_int, off: i64) -> isize {
    if tracked(fd) == 0 {
        return ret(sys6(libc::SYS_preadv, fd as i64, iov as i64, n as i64, off, 0, 0)) as isize;
    }
    let (p, l) = first(iov, n);
    pread64(fd, p, l, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, iov: *const libc::iovec, n: c_int, off: i64) -> isize {
    if tracked(fd) == 0 {
        return ret(sys6(libc::SYS_pwritev, fd as i64, iov as i64, n as i64, off, 0, 0)) as isize;
    }
    let (p, l) = first(iov, n);
    pwrite64(fd, p, l, off)
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, wh: c_int) -> i64 {
    let t = tracked(fd);
    if t != 0 {
        sim::point();
        watch(true, Op::Seek, t);
    }
    let r = sys3(libc::SYS_lseek, fd as i64, off, wh as i64);
    if t != 0 {
        watch(false, Op::Seek, t);
        tr!("seek f{} {} whence={} = {}", t, off, wh, r);
        ev(Op::Seek, t as u64, off, r);
    }
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: i64, wh: c_int) -> i64 {
    lseek64(fd, off, wh)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    let t = tracked(fd);
    if t == 0 {
        return ret(sys3(libc::SYS_ftruncate, fd as i64, len, 0)) as c_int;
    }
    sim::point();
    let was_dead = sim().dead;
    if crash_here() {
        // Truncation is all or nothing.
        if !was_dead && sim().f.below(2) == 1 {
            sys3(libc::SYS_ftruncate, fd as i64, len, 0);
        }
        tr!("truncate f{} {} CRASH", t, len);
        ev(Op::Truncate, t as u64, len, -1000);
        return err(libc::EIO) as c_int;
    }
    let cur = sys3(libc::SYS_lseek, fd as i64, 0, libc::SEEK_CUR as i64);
    let end = sys3(libc::SYS_lseek, fd as i64, 0, libc::SEEK_END as i64);
    sys3(libc::SYS_lseek, fd as i64, cur, libc::SEEK_SET as i64);
    let r = if len > end && choose(&[(Fk::EnospcTruncate, hard(Fk::EnospcTruncate))]).is_some() {
        spend(Fk::EnospcTruncate);
        -(libc::ENOSPC as i64)
    } else {
        sys3(libc::SYS_ftruncate, fd as i64, len, 0)
    };
    tr!("truncate f{} {} (was {}) = {}", t, len, end, r);
    ev(Op::Truncate, t as u64, len, r);
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: i64) -> c_int {
    ftruncate64(fd, len)
}

unsafe fn do_sync(n: c_long, fd: c_int) -> c_int {
    let t = tracked(fd);
    if t == 0 {
        return ret(sys3(n, fd as i64, 0, 0)) as c_int;
    }
    sim::point();
    let r = if choose(&[(Fk::FailSync, hard(Fk::FailSync))]).is_some() {
        spend(Fk::FailSync);
        -(libc::EIO as i64)
    } else {
        0
    };
    tr!("sync f{} = {}", t, r);
    ev(Op::Sync, t as u64, 0, r);
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(libc::SYS_fsync, fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(libc::SYS_fdatasync, fd)
}

#[no_mangle]
pub unsafe extern "C" fn mmap64(
    a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64,
) -> *mut c_void {
    let t = tracked(fd);
    if t == 0 {
        return ret(sys6(libc::SYS_mmap, a as i64, n as i64, prot as i64, flags as i64,
                        fd as i64, off)) as *mut c_void;
    }
    sim::point();
    watch(true, Op::Mmap, t);
    let r = if choose(&[(Fk::EnomemMap, hard(Fk::EnomemMap))]).is_some() {
        spend(Fk::EnomemMap);
        -(libc::ENOMEM as i64)
    } else {
        sys6(libc::SYS_mmap, a as i64, n as i64, prot as i64, flags as i64, fd as i64, off)
    };
    if r > 0 || r < -4095 {
        let _g = sim::raw_guard();
        sim().io.maps.push((r as usize, n, t));
    }
    tr!("mmap f{} len={} off={} = {}", t, n, off, if r < 0 && r > -4096 { r } else { 0 });
    ev(Op::Mmap, t as u64, n as i64, (r < 0 && r > -4096) as i64);
    watch(false, Op::Mmap, t);
    ret(r) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(
    a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: i64,
) -> *mut c_void {
    mmap64(a, n, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, n: usize) -> c_int {
    if sim::in_child() {
        let i = sim().io.maps.iter().position(|m| m.0 == a as usize);
        if let Some(i) = i {
            let m = sim().io.maps[i];
            if active() {
                sim::point();
                tr!("munmap f{} len={}", m.2, n);
                ev(Op::Munmap, m.2 as u64, n as i64, 0);
            }
            let _g = sim::raw_guard();
            let i = sim().io.maps.iter().position(|m| m.0 == a as usize);
            if let Some(i) = i {
                sim().io.maps.remove(i);
            }
        }
    }
    ret(sys3(libc::SYS_munmap, a as i64, n as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn madvise(a: *mut c_void, n: usize, adv: c_int) -> c_int {
    if active() && sim().io.maps.iter().any(|m| m.0 <= a as usize && (a as usize) < m.0 + m.1) {
        sim::point();
        // Advice of mode 0 is given when a map is released.
        if adv != 0 {
            watch(true, Op::Madvise, 0);
        }
        let r = if choose(&[(Fk::FailMadvise, hard(Fk::FailMadvise))]).is_some() {
            spend(Fk::FailMadvise);
            -(libc::EINVAL as i64)
        } else {
            sys3(libc::SYS_madvise, a as i64, n as i64, adv as i64)
        };
        tr!("madvise len={} advice={} = {}", n, adv, r);
        ev(Op::Madvise, 0, adv as i64, r);
        if adv != 0 {
            watch(false, Op::Madvise, 0);
        }
        return ret(r) as c_int;
    }
    ret(sys3(libc::SYS_madvise, a as i64, n as i64, adv as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn posix_madvise(a: *mut c_void, n: usize, adv: c_int) -> c_int {
    let r = madvise(a, n, adv);
    if r == 0 { 0 } else { *libc::__errno_location() }
}

#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let r = sys3(libc::SYS_fcntl, fd as i64, cmd as i64, arg);
    if r >= 0 && r < 1024 && sim::in_child()
        && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC)
        && fd >= 0 && fd < 1024
    {
        sim().io.fds[r as usize] = sim().io.fds[fd as usize];
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    fcntl(fd, libc::F_DUPFD, 0)
}

#[no_mangle]
pub unsafe extern "C" fn statx(
    d: c_int, path: *const c_char, flags: c_int, mask: u32, buf: *mut c_void,
) -> c_int {
    let t = tracked(d);
    if t != 0 {
        sim::point();
    }
    let r = sys6(libc::SYS_statx, d as i64, path as i64, flags as i64, mask as i64, buf as i64, 0);
    if t != 0 {
        tr!("stat f{} = {}", t, r);
        ev(Op::Stat, t as u64, 0, r);
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut c_void) -> c_int {
    let t = tracked(fd);
    if t != 0 {
        sim::point();
        tr!("stat f{}", t);
        ev(Op::Stat, t as u64, 0, 0);
    }
    ret(sys3(libc::SYS_fstat, fd as i64, buf as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, buf: *mut c_void) -> c_int {
    fstat64(fd, buf)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    if active() && cstr(path).starts_with(sim().scratch.as_bytes()) {
        sim::point();
        tr!("unlink {}", String::from_utf8_lossy(&cstr(path)[sim().scratch.len()..]));
        ev(Op::Unlink, 0, 0, 0);
        if sim().dead {
            return err(libc::EIO) as c_int;
        }
    }
    ret(sys3(libc::SYS_unlink, path as i64, 0, 0)) as c_int
}

// File to file copies in the kernel: refused, so that callers fall back to
// read and write.
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(
    a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: usize, f: u32,
) -> isize {
    if tracked(a) != 0 || tracked(b) != 0 {
        return err(libc::EXDEV) as isize;
    }
    ret(sys6(libc::SYS_copy_file_range, a as i64, oa as i64, b as i64, ob as i64, n as i64,
             f as i64)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: usize) -> isize {
    if tracked(o) != 0 || tracked(i) != 0 {
        return err(libc::EINVAL) as isize;
    }
    ret(sys6(libc::SYS_sendfile, o as i64, i as i64, off as i64, n as i64, 0, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn splice(
    a: c_int, oa: *mut i64, b: c_int, ob: *mut i64, n: usize, f: u32,
) -> isize {
    if tracked(a) != 0 || tracked(b) != 0 {
        return err(libc::EINVAL) as isize;
    }
    ret(sys6(libc::SYS_splice, a as i64, oa as i64, b as i64, ob as i64, n as i64, f as i64))
        as isize
}

// ---------------------------------------------------------------- time, random

unsafe fn put_ts(ts: *mut libc::timespec, ns: u64) {
    (*ts).tv_sec = (ns / 1_000_000_000) as i64;
    (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut libc::timespec) -> c_int {
    if sim::in_child() && active() {
        let base = if id == libc::CLOCK_REALTIME { 1_600_000_000_000_000_000 } else { 0 };
        put_ts(ts, base + sim().clock);
        return 0;
    }
    ret(sys3(libc::SYS_clock_gettime, id as i64, ts as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if active() {
        let ns = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        ev(Op::Sleep, 0, ns as i64, 0);
        sim::sleep(ns);
        return 0;
    }
    ret(sys3(libc::SYS_nanosleep, a as i64, b as i64, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(
    id: c_int, flags: c_int, a: *const libc::timespec, b: *mut libc::timespec,
) -> c_int {
    if active() {
        let mut ns = (*a).tv_sec as u64 * 1_000_000_000 + (*a).tv_nsec as u64;
        if flags & libc::TIMER_ABSTIME != 0 {
            ns = ns.saturating_sub(sim().clock);
        }
        ev(Op::Sleep, 0, ns as i64, 0);
        sim::sleep(ns);
        return 0;
    }
    let r = sys6(libc::SYS_clock_nanosleep, id as i64, flags as i64, a as i64, b as i64, 0, 0);
    (-r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if active() {
        ev(Op::Yield, 0, 0, 0);
        sim::yield_now();
        return 0;
    }
    ret(sys3(libc::SYS_sched_yield, 0, 0, 0)) as c_int
}

unsafe fn fill_random(p: *mut u8, n: usize) {
    let s = sim();
    for i in 0..n {
        s.io.rnd ^= s.io.rnd << 13;
        s.io.rnd ^= s.io.rnd >> 7;
        s.io.rnd ^= s.io.rnd << 17;
        *p.add(i) = (s.io.rnd >> 24) as u8;
    }
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: usize, flags: u32) -> isize {
    if sim::in_child() && active() {
        fill_random(p as *mut u8, n);
        return n as isize;
    }
    ret(sys3(libc::SYS_getrandom, p as i64, n as i64, flags as i64)) as isize
}

// ---------------------------------------------------------------- event polling

const POLL_KEY: usize = 0xe901;

/// Waiting for events: descriptors in use are event counters, written by
/// simulated threads, so the kernel's state is exact at any scheduling point.
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(
    ep: c_int, evs: *mut libc::epoll_event, n: c_int, ms: c_int,
) -> c_int {
    if !(sim::in_child() && active()) {
        return ret(sys6(libc::SYS_epoll_wait, ep as i64, evs as i64, n as i64, ms as i64, 0, 0)) as c_int;
    }
    sim::point();
    let mut deadline = NEVER;
    if ms >= 0 {
        deadline = sim().clock + ms as u64 * 1_000_000;
    }
    loop {
        let r = sys6(libc::SYS_epoll_wait, ep as i64, evs as i64, n as i64, 0, 0, 0);
        if r == 0 && ms == 0 {
            // Polling takes its time.
            sim().clock += 50_000;
        }
        if r != 0 || ms == 0 || sim().clock >= deadline {
            ev(Op::FutexWait, 1, ms as i64, r);
            return ret(r) as c_int;
        }
        tr!("poll for events, {} ms", ms);
        sim::block(St::Cond { key: POLL_KEY, deadline });
    }
}

#[no_mangle]
pub unsafe extern "C" fn eventfd(init: u32, flags: c_int) -> c_int {
    let r = sys3(libc::SYS_eventfd2, init as i64, flags as i64, 0);
    if r >= 0 && r < 1024 && sim::in_child() {
        sim().io.events[r as usize] = true;
    }
    ret(r) as c_int
}

// ---------------------------------------------------------------- locks, threads

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64,
) -> c_long {
    if sim::in_child() && active() {
        if n == libc::SYS_futex {
            return do_futex(a, b, c, d, e, f);
        }
        if n == libc::SYS_getrandom {
            fill_random(a as *mut u8, b as usize);
            return b;
        }
    }
    ret(sys6(n, a, b, c, d, e, f))
}

unsafe fn do_futex(addr: i64, op: i64, val: i64, ts: i64, a2: i64, v3: i64) -> c_long {
    let cmd = (op as c_int) & 127;
    match cmd {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            sim::point();
            let word = &*(addr as *const std::sync::atomic::AtomicU32);
            if word.load(Ordering::SeqCst) != val as u32 {
                return err(libc::EAGAIN);
            }
            let mut deadline = NEVER;
            if ts != 0 {
                let t = &*(ts as *const libc::timespec);
                let ns = (t.tv_sec as u64)
                    .saturating_mul(1_000_000_000)
                    .saturating_add(t.tv_nsec as u64);
                deadline = if cmd == libc::FUTEX_WAIT {
                    sim().clock.saturating_add(ns)
                } else if (op as c_int) & libc::FUTEX_CLOCK_REALTIME != 0 {
                    ns.saturating_sub(1_600_000_000_000_000_000)
                } else {
                    ns
                };
            }
            if choose(&[(Fk::SpuriousWake, soft(Fk::SpuriousWake))]).is_some() {
                count_fault(Fk::SpuriousWake);
                ev(Op::FutexWait, 0, 0, 1);
                return 0;
            }
            tr!("park");
            let ok = sim::block(St::Futex { addr: addr as usize, deadline });
            ev(Op::FutexWait, 0, 0, ok as i64);
            if ok { 0 } else { err(libc::ETIMEDOUT) }
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let n = sim::wake_futex(addr as usize, val.max(0) as usize);
            ev(Op::FutexWake, 0, val, n as i64);
            if n > 0 {
                tr!("wake {}", n);
            }
            sim::point();
            n as c_long
        }
        _ => ret(sys6(libc::SYS_futex, addr, op, val, ts, a2, v3)),
    }
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
type CreateFn = unsafe extern "C" fn(
    *mut u64, *const c_void, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void,
) -> c_int;
type JoinFn = unsafe extern "C" fn(u64, *mut *mut c_void) -> c_int;

static REAL_CREATE: AtomicU64 = AtomicU64::new(0);
static REAL_JOIN: AtomicU64 = AtomicU64::new(0);
static EXIT_KEY: AtomicU64 = AtomicU64::new(u64::MAX);

unsafe fn real(cell: &AtomicU64, name: &[u8]) -> u64 {
    let v = cell.load(Ordering::Relaxed);
    if v != 0 {
        return v;
    }
    let p = libc::dlsym(libc::RTLD_NEXT, name.as_ptr() as *const c_char) as u64;
    if p == 0 {
        libc::abort();
    }
    cell.store(p, Ordering::Relaxed);
    p
}

struct Tramp {
    start: Start,
    arg: *mut c_void,
    tid: usize,
}

pub fn init_key() {
    unsafe extern "C" fn end(_: *mut c_void) {
        sim::leave_thread();
    }
    unsafe {
        let mut k: libc::pthread_key_t = 0;
        if libc::pthread_key_create(&mut k, Some(end)) != 0 {
            libc::abort();
        }
        EXIT_KEY.store(k as u64, Ordering::Relaxed);
        real(&REAL_CREATE, b"pthread_create\0");
        real(&REAL_JOIN, b"pthread_join\0");
    }
}

extern "C" fn tramp(p: *mut c_void) -> *mut c_void {
    unsafe {
        let t = *Box::from_raw(p as *mut Tramp);
        sim::enter_thread(t.tid);
        libc::pthread_setspecific(
            EXIT_KEY.load(Ordering::Relaxed) as libc::pthread_key_t,
            1 as *const c_void,
        );
        (t.start)(t.arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    out: *mut u64, attr: *const c_void, start: Start, arg: *mut c_void,
) -> c_int {
    let f: CreateFn = std::mem::transmute(real(&REAL_CREATE, b"pthread_create\0"));
    if !(sim::in_child() && active()) {
        return f(out, attr, start, arg);
    }
    let tid = sim::new_thread();
    sim::publish_baton(tid);
    let r = {
        let _g = sim::raw_guard();
        let b = Box::into_raw(Box::new(Tramp { start, arg, tid }));
        f(out, attr, tramp, b as *mut c_void)
    };
    if r != 0 {
        sim::abort_thread(tid);
        return r;
    }
    sim().threads[tid].pthread = *out;
    tr!("spawn T{}", tid);
    ev(Op::Spawn, tid as u64, 0, 0);
    sim::point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: u64, out: *mut *mut c_void) -> c_int {
    let f: JoinFn = std::mem::transmute(real(&REAL_JOIN, b"pthread_join\0"));
    if sim::in_child() && active() {
        let i = sim().threads.iter().rposition(|x| x.pthread == t && t != 0);
        if let Some(i) = i {
            sim::point();
            while sim().threads[i].st != St::Done {
                sim::block(St::Join(i));
            }
            ev(Op::Join, i as u64, 0, 0);
        }
    }
    f(t, out)
}

// ---------------------------------------------------------------- process exit

static mut AT_EXIT: Option<Box<dyn FnMut(c_int)>> = None;
static REAL_EXIT: AtomicU64 = AtomicU64::new(0);

/// From now on the end of the process is the end of the command under test.
pub fn at_exit(f: Box<dyn FnMut(c_int)>) {
    unsafe {
        AT_EXIT = Some(f);
    }
}

pub fn exited(code: c_int) -> ! {
    unsafe {
        let p = &raw mut AT_EXIT;
        match (*p).take() {
            Some(mut f) => f(code),
            None => sim::harness_error("exit without a command"),
        }
    }
    sim::finish_ok()
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    if sim::in_child() {
        tr!("exit {}", code);
        exited(code);
    }
    let f: unsafe extern "C" fn(c_int) -> ! = std::mem::transmute(real(&REAL_EXIT, b"exit\0"));
    f(code)
}
