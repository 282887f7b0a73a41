//! The scheduler: real threads, one at a time, every intercepted call a
//! scheduling point, virtual time, seeded choices.

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};

use crate::seam;
use crate::shared::*;
use crate::tape::{mix, Rng, Tape};

thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static RAW: Cell<u32> = const { Cell::new(0) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Run,
    Futex { addr: usize, deadline: u64 },
    Sleep(u64),
    Join(usize),
    Cond { key: usize, deadline: u64 },
    /// Runs when nothing else can; with `true` only after all timers fired.
    Quiesce(bool),
    Done,
}

pub const NEVER: u64 = u64::MAX;

pub struct Th {
    pub st: St,
    baton: Box<AtomicU32>,
    /// The last block ended by time-out rather than by a wake.
    timed_out: bool,
    since: u64,
    prio: u64,
    pub pthread: u64,
    pub name: String,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Policy {
    /// Switch with probability p/1000 at each point.
    Random(u32),
    /// Highest priority runs; priorities change at random points.
    Pct(u32),
}

pub const OP_NAMES: [&str; 24] = [
    "open", "close", "read", "write", "pread", "pwrite", "seek", "truncate",
    "mmap", "munmap", "madvise", "sync", "stat", "unlink", "futex_wait",
    "futex_wake", "spawn", "join", "exit", "yield", "clock", "sleep", "net",
    "task",
];
#[derive(Clone, Copy, PartialEq)]
#[repr(u8)]
pub enum Op {
    Open, Close, Read, Write, Pread, Pwrite, Seek, Truncate, Mmap, Munmap,
    Madvise, Sync, Stat, Unlink, FutexWait, FutexWake, Spawn, Join, Exit,
    Yield, Clock, Sleep, Net, Task,
}

pub const N_FAULT: usize = 32;
pub const FAULT_NAMES: [&str; N_FAULT] = [
    "short_read", "eintr_read", "torn_read", "eio_read", "short_write",
    "eintr_write", "torn_write", "enospc_write", "eio_write", "fail_open",
    "tmpfile_unsupported", "enomem_map", "fail_madvise", "fail_sync",
    "enospc_truncate", "crash", "spurious_wake", "clock_jump",
    "spurious_poll", "abandon", "net_split", "net_delay", "net_cut",
    "disk_full", "eof_read", "slow_peer", "kill", "peer_close", "-", "-", "-",
    "-",
];
#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u8)]
pub enum Fk {
    ShortRead, EintrRead, TornRead, EioRead, ShortWrite, EintrWrite, TornWrite,
    EnospcWrite, EioWrite, FailOpen, TmpfileUnsupported, EnomemMap,
    FailMadvise, FailSync, EnospcTruncate, Crash, SpuriousWake, ClockJump,
    SpuriousPoll, Abandon, NetSplit, NetDelay, NetCut, DiskFull, EofRead,
    SlowPeer, Kill, PeerClose,
}

/// Per mille probabilities, indexed by fault kind, plus the global modes.
#[derive(Clone)]
pub struct Faults {
    pub p: [u32; N_FAULT],
    /// Hard faults still allowed.
    pub hard_left: u32,
    /// File system does not know O_TMPFILE.
    pub no_tmpfile: bool,
    /// Bytes that can still be written, if limited.
    pub quota: Option<u64>,
    /// Stop having any effect at the n-th mutating operation.
    pub crash_at: Option<u64>,
    /// The next write meets a full disk.
    pub full_next: bool,
}

impl Faults {
    pub fn none() -> Faults {
        Faults {
            p: [0; N_FAULT],
            hard_left: 0,
            no_tmpfile: false,
            quota: None,
            crash_at: None,
            full_next: false,
        }
    }
}

pub struct Sim {
    pub threads: Vec<Th>,
    pub cur: usize,
    pub clock: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub w: Tape,
    pub s: Tape,
    pub f: Tape,
    pub prng: Rng,
    pub policy: Policy,
    pub jump: u32,
    pub shared: *mut Shared,
    pub trace_fd: i32,
    pub fl: Faults,
    pub mut_ops: u64,
    pub dead: bool,
    pub io: seam::IoState,
    pub scratch: String,
    pub seed: u64,
    pub property: String,
    pub ctx: Vec<String>,
    opts: Vec<usize>,
    seq: u64,
    low: u64,
}

/// Lines of the file of known findings.
pub fn known_lines() -> &'static Vec<String> {
    unsafe {
        let p = &raw const KNOWN;
        &*p
    }
}
pub fn load_known(text: &str) {
    unsafe {
        let p = &raw mut KNOWN;
        *p = text.lines().filter(|l| l.starts_with("known: ")).map(|l| l.to_string()).collect();
    }
}
static mut KNOWN: Vec<String> = Vec::new();

static mut SIM: *mut Sim = std::ptr::null_mut();

#[inline]
pub fn sim() -> &'static mut Sim {
    unsafe { &mut *SIM }
}

#[inline]
pub fn in_child() -> bool {
    unsafe { !SIM.is_null() }
}

/// True if the calling thread is simulated and not in harness code.
#[inline]
pub fn active() -> bool {
    unsafe {
        !SIM.is_null()
            && TID.try_with(|t| t.get() >= 0).unwrap_or(false)
            && RAW.try_with(|r| r.get() == 0).unwrap_or(false)
    }
}

pub fn tid() -> usize {
    TID.with(|t| t.get()) as usize
}

pub struct RawGuard(());
impl Drop for RawGuard {
    fn drop(&mut self) {
        let _ = RAW.try_with(|r| r.set(r.get() - 1));
    }
}
pub fn raw_guard() -> RawGuard {
    let _ = RAW.try_with(|r| r.set(r.get() + 1));
    RawGuard(())
}
/// Run harness code without interception.
pub fn raw<T>(f: impl FnOnce() -> T) -> T {
    let _g = raw_guard();
    f()
}

/// Run `f` as simulated code although called from harness code.
pub fn simulated<T>(f: impl FnOnce() -> T) -> T {
    let old = RAW.with(|r| r.replace(0));
    let v = f();
    RAW.with(|r| r.set(old));
    v
}

pub fn start(
    shared: *mut Shared,
    property: &str,
    seed: u64,
    tapes: Option<[Vec<u32>; 3]>,
    scratch: String,
    trace_fd: i32,
) {
    let (a, b, c) = match tapes {
        Some([a, b, c]) => (Some(a), Some(b), Some(c)),
        None => (None, None, None),
    };
    let s = Box::new(Sim {
        threads: vec![Th {
            st: St::Run,
            baton: Box::new(AtomicU32::new(0)),
            timed_out: false,
            since: 0,
            prio: 0,
            pthread: 0,
            name: "root".to_string(),
        }],
        cur: 0,
        clock: 1_000_000_000,
        steps: 0,
        max_steps: 4_000_000,
        w: Tape::new(shared, 0, seed, a),
        s: Tape::new(shared, 1, seed, b),
        f: Tape::new(shared, 2, seed, c),
        prng: Rng::new(mix(seed, 77)),
        policy: Policy::Random(0),
        jump: 0,
        shared,
        trace_fd,
        fl: Faults::none(),
        mut_ops: 0,
        dead: false,
        io: seam::IoState::new(),
        scratch,
        seed,
        property: property.to_string(),
        ctx: Vec::new(),
        opts: Vec::new(),
        seq: 0,
        low: u64::MAX / 2,
    });
    unsafe {
        SIM = Box::into_raw(s);
    }
    crate::alloc::open_region();
    TID.with(|t| t.set(0));
    seam::init_key();
}

fn export() {
    let s = sim();
    unsafe {
        (*s.shared).steps = s.steps;
        (*s.shared).clock = s.clock - 1_000_000_000;
        (*s.shared).threads = s.threads.len() as u64;
        (*s.shared).mut_ops = s.mut_ops;
    }
}

pub fn finish_ok() -> ! {
    raw(|| {
        export();
        unsafe {
            (*sim().shared).status.store(ST_OK, Ordering::SeqCst);
        }
        seam::exit_group(0)
    })
}

/// Report a violation and end the run.
pub fn fail(class: &str, msg: &str) -> ! {
    let _g = raw_guard();
    let s = sim();
    export();
    let mut full = String::new();
    for c in &s.ctx {
        full.push_str(c);
        full.push_str(": ");
    }
    full.push_str(msg);
    unsafe {
        put_str(&mut (*s.shared).class, class);
        put_str(&mut (*s.shared).msg, &full);
        if s.trace_fd >= 0 {
            trace(&format!("VIOLATION {}: {}", class, full));
        }
        (*s.shared).status.store(ST_VIOLATION, Ordering::SeqCst);
    }
    seam::exit_group(0)
}

/// The harness itself could not go on: an error of the check.
pub fn harness_error(msg: &str) -> ! {
    let _g = raw_guard();
    let s = sim();
    export();
    unsafe {
        put_str(&mut (*s.shared).class, "harness");
        put_str(&mut (*s.shared).msg, msg);
        (*s.shared).status.store(ST_HARNESS, Ordering::SeqCst);
    }
    seam::exit_group(0)
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $class:expr, $($arg:tt)*) => {{
        $crate::sim::checked();
        if !$cond {
            let m = $crate::sim::raw(|| format!($($arg)*));
            $crate::sim::fail($class, &m);
        }
    }};
}

#[macro_export]
macro_rules! note {
    ($($arg:tt)*) => {{
        if $crate::sim::tracing() {
            $crate::sim::raw(|| $crate::sim::trace(&format!($($arg)*)));
        }
    }};
}

/// One oracle comparison was made.
pub fn checked() {
    unsafe {
        (*sim().shared).checks += 1;
    }
}

pub fn tracing() -> bool {
    sim().trace_fd >= 0
}

pub fn trace(line: &str) {
    let s = sim();
    if s.trace_fd < 0 {
        return;
    }
    let t = s.clock - 1_000_000_000;
    let l = format!(
        "[{}.{:03}us #{} T{}] {}\n",
        t / 1000, t % 1000, s.steps, s.cur, line
    );
    unsafe {
        seam::raw_write(s.trace_fd, l.as_ptr(), l.len());
    }
}

/// Note that this run reached the named situation.
pub fn cover(name: &'static str) {
    let sh = unsafe { &mut *sim().shared };
    let p = name.as_ptr() as u64;
    for c in sh.cover.iter_mut() {
        if c.0 == p && c.1 == name.len() as u64 {
            c.2 += 1;
            return;
        }
        if c.0 == 0 {
            *c = (p, name.len() as u64, 1);
            return;
        }
    }
}

/// A finding that is kept in the list of known findings, or a violation.
pub fn known(name: &'static str, msg: String) {
    checked();
    let key = raw(|| format!("property={} {} ", sim().property, name));
    if known_lines().iter().any(|k| k.contains(&key)) {
        cover(name);
    } else {
        fail(name, &msg);
    }
}

pub fn note_max(i: usize, v: u64) {
    let sh = unsafe { &mut *sim().shared };
    sh.notes[i] = sh.notes[i].max(v);
}

pub fn count_fault(k: Fk) {
    let sh = unsafe { &mut *sim().shared };
    sh.counts[k as usize] += 1;
    sh.faults += 1;
}

/// Log an event into the run's hash and the trace.
pub fn ev(op: Op, obj: u64, a: i64, b: i64) {
    let s = sim();
    let sh = unsafe { &mut *s.shared };
    sh.counts[N_FAULT + op as usize] += 1;
    if s.trace_fd >= 0 && matches!(op, Op::Yield | Op::Exit | Op::FutexWait | Op::Join) {
        raw(|| trace(&format!("{} {} {} {}", OP_NAMES[op as usize], obj, a, b)));
    }
    let mut h = sh.hash ^ 0xcbf2_9ce4_8422_2325;
    for v in &[s.cur as u64, op as u64, obj, a as u64, b as u64] {
        h = (h ^ *v).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    sh.hash = h;
}

pub fn w() -> &'static mut Tape {
    &mut sim().w
}

impl Sim {
    fn fire(&mut self) {
        let now = self.clock;
        for t in self.threads.iter_mut() {
            let due = match t.st {
                St::Futex { deadline, .. } => deadline <= now,
                St::Cond { deadline, .. } => deadline <= now,
                St::Sleep(d) => d <= now,
                _ => false,
            };
            if due {
                t.st = St::Run;
                t.timed_out = true;
            }
        }
    }

    fn next_deadline(&self) -> Option<u64> {
        let mut m = NEVER;
        for t in &self.threads {
            let d = match t.st {
                St::Futex { deadline, .. } => deadline,
                St::Cond { deadline, .. } => deadline,
                St::Sleep(d) => d,
                _ => NEVER,
            };
            m = m.min(d);
        }
        if m == NEVER {
            None
        } else {
            Some(m)
        }
    }

    fn pick(&mut self, yielding: bool) -> usize {
        if let Some(d) = self.next_deadline() {
            if self.jump > 0 && d > self.clock && self.s.chance(self.jump) {
                self.clock = d;
                count_fault(Fk::ClockJump);
            }
            if d <= self.clock {
                self.fire();
            }
        }
        loop {
            self.opts.clear();
            let cur = self.cur;
            if self.threads[cur].st == St::Run && !yielding {
                self.opts.push(cur);
            }
            for (i, t) in self.threads.iter().enumerate() {
                if i != cur && t.st == St::Run {
                    self.opts.push(i);
                }
            }
            if self.opts.is_empty()
                && yielding
                && self.threads[cur].st == St::Run
            {
                self.opts.push(cur);
            }
            if !self.opts.is_empty() {
                break;
            }
            if let Some(t) =
                self.threads.iter_mut().find(|t| t.st == St::Quiesce(false))
            {
                t.st = St::Run;
                continue;
            }
            if let Some(d) = self.next_deadline() {
                self.clock = self.clock.max(d);
                self.fire();
                continue;
            }
            if let Some(t) =
                self.threads.iter_mut().find(|t| t.st == St::Quiesce(true))
            {
                t.st = St::Run;
                continue;
            }
            let mut m = String::from("no thread can run:");
            for (i, t) in self.threads.iter().enumerate() {
                if t.st != St::Done {
                    m.push_str(&format!(" T{}({})={:?}", i, t.name, kind(t.st)));
                }
            }
            fail("deadlock", &m);
        }
        let n = self.opts.len() as u32;
        if n == 1 {
            return self.opts[0];
        }
        let can_stay = self.opts[0] == self.cur;
        if yielding {
            // The thread that yields goes to the back.
            self.low -= 1;
            let c = self.cur;
            self.threads[c].prio = self.low;
        }
        let policy = self.policy;
        let Sim { ref mut s, ref opts, ref mut threads, ref mut prng, ref mut low, .. } =
            *self;
        let i = s.by(n, |r| match policy {
            Policy::Random(p) => {
                if can_stay && r.below(1000) >= u64::from(p) {
                    0
                } else {
                    r.below(u64::from(n)) as u32
                }
            }
            Policy::Pct(p) => {
                for t in threads.iter_mut() {
                    if t.prio == 0 {
                        t.prio = u64::MAX / 2 + prng.below(u64::MAX / 2);
                    }
                }
                if can_stay && r.below(1000) < u64::from(p) {
                    *low -= 1;
                    threads[opts[0]].prio = *low;
                }
                let mut best = 0;
                for k in 1..opts.len() {
                    if threads[opts[k]].prio > threads[opts[best]].prio {
                        best = k;
                    }
                }
                best as u32
            }
        });
        self.opts[i as usize]
    }

    fn tick(&mut self) {
        self.steps += 1;
        self.clock += 1000;
        if self.steps > self.max_steps {
            fail("livelock", "step budget exhausted");
        }
    }

    fn hand_over(&mut self, next: usize) {
        if next != self.cur {
            unsafe {
                (*self.shared).switches += 1;
            }
        }
        self.cur = next;
        let b: *const AtomicU32 = &*self.threads[next].baton;
        unsafe {
            (*b).store(1, Ordering::Release);
            seam::raw_futex_wake(b as usize, 1);
        }
    }
}

fn kind(st: St) -> &'static str {
    match st {
        St::Run => "runnable",
        St::Futex { .. } => "lock-or-park",
        St::Sleep(_) => "sleep",
        St::Join(_) => "join",
        St::Cond { .. } => "wait-for-wake",
        St::Quiesce(_) => "quiesce",
        St::Done => "done",
    }
}

fn wait_baton(b: *const AtomicU32) {
    unsafe {
        loop {
            if (*b).swap(0, Ordering::Acquire) == 1 {
                return;
            }
            seam::raw_futex_wait(b as usize, 0);
        }
    }
}

fn go(yielding: bool) {
    let s = sim();
    let me = s.cur;
    let next = s.pick(yielding);
    if next != me {
        let b: *const AtomicU32 = &*s.threads[me].baton;
        s.hand_over(next);
        wait_baton(b);
    }
}

/// A scheduling point.
pub fn point() {
    let _g = raw_guard();
    sim().tick();
    go(false);
}

pub fn yield_now() {
    let _g = raw_guard();
    sim().tick();
    go(true);
}

/// Block the current thread. Returns true if it was woken, false on time-out.
pub fn block(st: St) -> bool {
    let _g = raw_guard();
    let s = sim();
    s.tick();
    let me = s.cur;
    s.seq += 1;
    let seq = s.seq;
    let t = &mut s.threads[me];
    t.st = st;
    t.timed_out = false;
    t.since = seq;
    go(false);
    !sim().threads[me].timed_out
}

/// Wake up to n threads waiting on a futex word; the order is a choice.
pub fn wake_futex(addr: usize, n: usize) -> usize {
    let _g = raw_guard();
    let s = sim();
    let mut woken = 0;
    while woken < n {
        let mut v: Vec<usize> = (0..s.threads.len())
            .filter(|i| matches!(s.threads[*i].st, St::Futex{addr: a, ..} if a == addr))
            .collect();
        if v.is_empty() {
            break;
        }
        v.sort_by_key(|i| s.threads[*i].since);
        let i = if n < v.len() { s.s.below(v.len() as u32) as usize } else { 0 };
        s.threads[v[i]].st = St::Run;
        woken += 1;
    }
    woken
}

pub fn notify(key: usize, n: usize) {
    let _g = raw_guard();
    let s = sim();
    let mut left = n;
    for t in s.threads.iter_mut() {
        if left == 0 {
            break;
        }
        if matches!(t.st, St::Cond{key: k, ..} if k == key) {
            t.st = St::Run;
            left -= 1;
        }
    }
}

/// Let all other threads run until none of them can. With `timers`, also let
/// all virtual timers fire first.
pub fn quiesce(timers: bool) {
    block(St::Quiesce(timers));
}

pub fn sleep(ns: u64) {
    let d = sim().clock + ns;
    block(St::Sleep(d));
}

pub fn now() -> u64 {
    sim().clock
}

// Thread creation and end, called by the seam.

pub fn new_thread() -> usize {
    let _g = raw_guard();
    let s = sim();
    let t = s.threads.len();
    s.threads.push(Th {
        st: St::Run,
        baton: Box::new(AtomicU32::new(0)),
        timed_out: false,
        since: 0,
        prio: 0,
        pthread: 0,
        name: format!("t{}", t),
    });
    t
}

pub fn enter_thread(tid: usize) {
    TID.with(|t| t.set(tid as i32));
    let b: *const AtomicU32 = {
        // Threads only ever grow while the creator holds the baton, and the
        // box does not move.
        BATONS[tid].load(Ordering::Acquire) as *const AtomicU32
    };
    wait_baton(b);
}

#[allow(clippy::declare_interior_mutable_const)]
const ZERO: AtomicU64 = AtomicU64::new(0);
static BATONS: [AtomicU64; 512] = [ZERO; 512];

pub fn publish_baton(tid: usize) {
    let p: *const AtomicU32 = &*sim().threads[tid].baton;
    BATONS[tid].store(p as u64, Ordering::Release);
}

pub fn abort_thread(tid: usize) {
    sim().threads[tid].st = St::Done;
}

/// Called at the very end of a simulated thread.
pub fn leave_thread() {
    let me = match TID.try_with(|t| t.get()) {
        Ok(t) if t >= 0 => t as usize,
        _ => return,
    };
    let _g = raw_guard();
    let s = sim();
    s.tick();
    ev(Op::Exit, me as u64, 0, 0);
    s.threads[me].st = St::Done;
    for t in s.threads.iter_mut() {
        if t.st == St::Join(me) {
            t.st = St::Run;
        }
    }
    let _ = TID.try_with(|t| t.set(-1));
    let next = s.pick(false);
    s.hand_over(next);
}

/// Choose a schedule policy for this run.
pub fn choose_policy() {
    let _g = raw_guard();
    let s = sim();
    let k = s.s.weighted(&[1, 3, 3, 2, 2, 2]);
    s.policy = match k {
        0 => Policy::Random(0),
        1 => Policy::Random(500),
        2 => Policy::Random(120),
        3 => Policy::Random(30),
        4 => Policy::Pct(8),
        _ => Policy::Pct(40),
    };
    s.jump = [0, 0, 2, 20][s.s.below(4) as usize];
}

/// Prefix for the messages of violations while the result lives.
pub fn ctx(s: String) -> Ctx {
    raw(|| sim().ctx.push(s));
    Ctx(())
}

pub struct Ctx(());
impl Drop for Ctx {
    fn drop(&mut self) {
        if in_child() {
            raw(|| {
                sim().ctx.pop();
            })
        }
    }
}
