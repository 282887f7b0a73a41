//! Runs, minimises and reports.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

use crate::json::quote;
use crate::scen::Scenario;
use crate::shared::*;
use crate::sim;
use crate::tape::{mix, tape_from_string, tape_to_string};

pub type Tapes = [Vec<u32>; 3];

pub struct Outcome {
    pub status: u32,
    pub class: String,
    pub msg: String,
    pub hash: u64,
}

pub fn root() -> PathBuf {
    let d = std::env::var("BISIM_ROOT").unwrap_or_else(|_| "/verif".into());
    PathBuf::from(d)
}

pub struct Scratch(pub PathBuf);

impl Scratch {
    pub fn new() -> Scratch {
        let base = ["/dev/shm", "/tmp", "/var/tmp"];
        for b in base.iter() {
            let p = PathBuf::from(format!("{}/bisim-{}", b, std::process::id()));
            let _ = fs::remove_dir_all(&p);
            if fs::create_dir_all(&p).is_ok() {
                // Files without a name must work here.
                return Scratch(p);
            }
        }
        eprintln!("bisim: no scratch directory");
        std::process::exit(2);
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn rlimit(res: libc::__rlimit_resource_t, v: u64) {
    let more = if res == libc::RLIMIT_FSIZE { 10 << 30 } else { 20 };
    let l = libc::rlimit { rlim_cur: v, rlim_max: v + more };
    unsafe {
        libc::setrlimit(res, &l);
    }
}

/// Bytes a file may have, apart from a hole at its beginning.
const FILE_MAX: u64 = 256 << 20;

/// Allow for a hole of this size.
pub fn allow_hole(hole: u64) {
    unsafe {
        let mut l = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = l.rlim_cur.max(hole + FILE_MAX);
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

/// No more of these.
pub fn end_holes() {
    unsafe {
        let mut l = std::mem::zeroed::<libc::rlimit>();
        libc::getrlimit(libc::RLIMIT_FSIZE, &mut l);
        l.rlim_cur = FILE_MAX;
        libc::setrlimit(libc::RLIMIT_FSIZE, &l);
    }
}

/// One run, in a child process.
pub fn run_once(
    sc: &Scenario,
    sh: &mut Shared,
    dir: &Path,
    seed: u64,
    tapes: Option<&Tapes>,
    trace_fd: i32,
) -> Outcome {
    sh.reset();
    let _ = fs::remove_dir_all(dir);
    if let Err(e) = fs::create_dir_all(dir) {
        return Outcome { status: ST_HARNESS, class: "scratch".into(), msg: e.to_string(), hash: 0 };
    }
    let shp: *mut Shared = sh;
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Outcome { status: ST_HARNESS, class: "fork".into(), msg: "fork failed".into(), hash: 0 };
    }
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        }
        rlimit(libc::RLIMIT_CPU, 12);
        rlimit(libc::RLIMIT_AS, (3 << 30) + crate::alloc::SPACE as u64);
        rlimit(libc::RLIMIT_CORE, 0);
        rlimit(libc::RLIMIT_FSIZE, FILE_MAX);
        unsafe {
            libc::alarm(150);
        }
        sim::start(
            shp,
            sc.id,
            seed,
            tapes.cloned(),
            dir.to_string_lossy().into_owned(),
            trace_fd,
        );
        (sc.run)();
        sim::finish_ok();
    }
    let mut st: i32 = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
    }
    let status = sh.status.load(Ordering::SeqCst);
    let hash = sh.hash;
    let mut out = Outcome { status, class: get_str(&sh.class), msg: get_str(&sh.msg), hash };
    if status == ST_RUNNING {
        out.status = ST_VIOLATION;
        if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            let (class, what) = match sig {
                libc::SIGXCPU | libc::SIGALRM => ("hang", "the run did not end"),
                libc::SIGKILL => ("killed", "killed (out of memory?)"),
                libc::SIGABRT => ("abort", "the process aborted"),
                libc::SIGSEGV | libc::SIGBUS => ("memory-fault", "invalid memory access"),
                libc::SIGXFSZ => ("file-growth", "a file grew without bound"),
                _ => ("signal", "died of a signal"),
            };
            if sig == libc::SIGKILL {
                out.status = ST_HARNESS;
            }
            out.class = class.into();
            let m = get_str(&sh.msg);
            out.msg = format!("{} (signal {}) {}", what, sig, m);
        } else {
            out.class = "exit".into();
            out.msg = format!("the process exited with {}", libc::WEXITSTATUS(st));
        }
    }
    out
}

pub fn tapes_of(sh: &Shared) -> Tapes {
    let mut t: Tapes = [Vec::new(), Vec::new(), Vec::new()];
    for i in 0..3 {
        t[i] = sh.tapes[i][..sh.tape_len[i] as usize].to_vec();
        while t[i].last() == Some(&0) {
            t[i].pop();
        }
    }
    t
}

#[repr(C)]
struct Stats {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    clock: u64,
    checks: u64,
    switches: u64,
    max_threads: u64,
    max_steps: u64,
    faulted: u64,
    mismatched: u64,
    rechecked: u64,
    notes: [u64; N_NOTE],
    counts: [u64; N_COUNT],
    cover: [(u64, u64, u64); N_COVER],
    n_hash: u64,
    hashes: [u64; 1 << 21],
    found: u32,
    found_seed: u64,
    class: [u8; 96],
    msg: [u8; 4096],
    samples: [[u8; 700]; 2],
}

fn pin(k: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let n = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, n, &mut set) != 0 {
            return;
        }
        let cpus: Vec<usize> = (0..1024).filter(|i| libc::CPU_ISSET(*i, &set)).collect();
        if cpus.is_empty() {
            return;
        }
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(cpus[k % cpus.len()], &mut one);
        libc::sched_setaffinity(0, n, &one);
    }
}

pub fn seed_of(base: u64, id: &str, i: u64) -> u64 {
    let mut h = base;
    for b in id.bytes() {
        h = mix(h, u64::from(b));
    }
    mix(h, i) >> 16
}

fn worker(
    sc: &Scenario, k: usize, n: usize, base: u64, target: u64, until: Instant,
    ctl: &'static Control, st: &'static mut Stats, scratch: &Path,
) {
    pin(k);
    let sh: &'static mut Shared = map();
    let dir = scratch.join(format!("w{}", k));
    let mut i = k as u64;
    while i < target && ctl.stop.load(Ordering::Relaxed) == 0 {
        if Instant::now() > until {
            break;
        }
        let seed = seed_of(base, sc.id, i);
        let o = run_once(sc, sh, &dir, seed, None, -1);
        st.runs += 1;
        st.steps += sh.steps;
        st.max_steps = st.max_steps.max(sh.steps);
        st.clock += sh.clock;
        st.checks += sh.checks;
        st.switches += sh.switches;
        st.max_threads = st.max_threads.max(sh.threads);
        if sh.faults > 0 {
            st.faulted += 1;
        }
        for j in 0..N_NOTE {
            st.notes[j] = st.notes[j].max(sh.notes[j]);
        }
        for j in 0..N_COUNT {
            st.counts[j] += sh.counts[j];
        }
        for c in sh.cover.iter() {
            if c.0 == 0 {
                break;
            }
            for d in st.cover.iter_mut() {
                if d.0 == 0 {
                    *d = (c.0, c.1, 1);
                    break;
                }
                if d.0 == c.0 && d.1 == c.1 {
                    d.2 += 1;
                    break;
                }
            }
        }
        if sh.checks > 0 && (sh.faults > 0 || sh.switches > 0 || sh.steps > 4) {
            st.nontrivial += 1;
            if (st.n_hash as usize) < st.hashes.len() {
                st.hashes[st.n_hash as usize] = sh.hash;
                st.n_hash += 1;
            }
        }
        let nth = st.runs as usize;
        if nth == 3 || nth == 40 {
            let s = format!(
                "seed {}: {} steps, {} threads, {} switches, {} faults, {} oracle checks, {} us simulated; {}",
                seed, sh.steps, sh.threads, sh.switches, sh.faults, sh.checks,
                sh.clock / 1000, o.msg
            );
            put_str(&mut st.samples[(nth == 40) as usize], &s);
        }
        if o.status == ST_VIOLATION || o.status == ST_HARNESS {
            st.found = o.status;
            st.found_seed = seed;
            put_str(&mut st.class, &o.class);
            put_str(&mut st.msg, &o.msg);
            ctl.stop.store(1, Ordering::SeqCst);
            break;
        }
        if nth % 97 == 5 {
            // The recorded choices must give the same run again.
            let t = tapes_of(sh);
            let h = sh.hash;
            let o2 = run_once(sc, sh, &dir, seed, Some(&t), -1);
            st.rechecked += 1;
            if o2.status != o.status || sh.hash != h {
                st.mismatched += 1;
            }
        }
        i += n as u64;
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn check(sc: &Scenario) -> i32 {
    let t0 = Instant::now();
    let base = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let target = env_u64("BISIM_RUNS", if thorough { sc.quick * 25 } else { sc.quick });
    let cap = env_u64("BISIM_SECS", if thorough { 700 } else { 240 });
    let until = t0 + Duration::from_secs(cap);
    let scratch = Scratch::new();
    let ctl: &'static mut Control = map();
    ctl.stop.store(0, Ordering::SeqCst);
    let ctl: &'static Control = ctl;
    let n = (env_u64("BISIM_WORKERS", 0) as usize).max(1).max(
        if std::env::var("BISIM_WORKERS").is_ok() { 1 } else { num_cpus() },
    );
    let mut stats: Vec<*mut Stats> = Vec::new();
    let mut pids = Vec::new();
    for k in 0..n {
        let st: &'static mut Stats = map();
        stats.push(st);
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            }
            worker(sc, k, n, base, target, until, ctl, st, &scratch.0);
            unsafe { libc::_exit(0) }
        }
        pids.push(pid);
    }
    let mut bad_worker = false;
    for p in pids {
        let mut st = 0;
        unsafe {
            while libc::waitpid(p, &mut st, 0) != p {}
        }
        if st != 0 {
            bad_worker = true;
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut found: Option<(u32, u64, String, String)> = None;
    let mut all = HashSet::new();
    let (mut runs, mut nontriv, mut steps, mut clock, mut checks, mut switches, mut maxth) =
        (0, 0, 0, 0, 0, 0, 0);
    let mut longest = 0;
    let (mut faulted, mut rechecked, mut mism) = (0, 0, 0);
    let mut notes = [0u64; N_NOTE];
    let mut counts = [0u64; N_COUNT];
    let mut cover: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples = Vec::new();
    for st in &stats {
        let st = unsafe { &**st };
        runs += st.runs;
        nontriv += st.nontrivial;
        steps += st.steps;
        clock += st.clock;
        checks += st.checks;
        switches += st.switches;
        maxth = maxth.max(st.max_threads);
        longest = longest.max(st.max_steps);
        faulted += st.faulted;
        rechecked += st.rechecked;
        mism += st.mismatched;
        for j in 0..N_NOTE {
            notes[j] = notes[j].max(st.notes[j]);
        }
        for j in 0..N_COUNT {
            counts[j] += st.counts[j];
        }
        for c in st.cover.iter() {
            if c.0 == 0 {
                break;
            }
            let s = unsafe {
                std::str::from_utf8_unchecked(std::slice::from_raw_parts(
                    c.0 as *const u8, c.1 as usize))
            };
            *cover.entry(s.to_string()).or_insert(0) += c.2;
        }
        all.extend(st.hashes[..st.n_hash as usize].iter().copied());
        for s in st.samples.iter() {
            let s = get_str(s);
            if !s.is_empty() && samples.len() < 4 {
                samples.push(s);
            }
        }
        if st.found != 0 {
            let worse = match found {
                None => true,
                Some(ref f) => f.0 == ST_HARNESS && st.found == ST_VIOLATION,
            };
            if worse {
                found = Some((st.found, st.found_seed, get_str(&st.class), get_str(&st.msg)));
            }
        }
    }
    let mut violations = Vec::new();
    let mut code = 0;
    if let Some((status, seed, class, msg)) = found {
        if status == ST_HARNESS {
            println!("ERROR property={} seed={} {}: {}", sc.id, seed, class, msg);
            code = 2;
        } else {
            let path = minimise_and_report(sc, seed, &class, &msg, &scratch.0, thorough);
            violations.push((seed, class, path));
            code = 1;
        }
    } else if bad_worker {
        println!("ERROR property={} a worker died", sc.id);
        code = 2;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut fj = String::new();
    for (i, nme) in sim::FAULT_NAMES.iter().enumerate() {
        if counts[i] > 0 {
            fj.push_str(&format!("{}{}: {}", if fj.is_empty() { "" } else { ", " }, quote(nme), counts[i]));
        }
    }
    let mut oj = String::new();
    for (i, nme) in sim::OP_NAMES.iter().enumerate() {
        if counts[sim::N_FAULT + i] > 0 {
            oj.push_str(&format!("{}{}: {}", if oj.is_empty() { "" } else { ", " }, quote(nme), counts[sim::N_FAULT + i]));
        }
    }
    let mut cj = String::new();
    for (k, v) in &cover {
        cj.push_str(&format!("{}{}: {}", if cj.is_empty() { "" } else { ", " }, quote(k), v));
    }
    let mut nj = String::new();
    for (i, nm) in sc.notes.iter().enumerate() {
        nj.push_str(&format!("{}{}: {}", if nj.is_empty() { "" } else { ", " }, quote(nm), notes[i]));
    }
    let sj: Vec<String> = samples.iter().map(|s| quote(s)).collect();
    let vj: Vec<String> = violations
        .iter()
        .map(|(s, c, p)| format!("{{\"seed\": {}, \"class\": {}, \"replay\": {}}}", s, quote(c), quote(p)))
        .collect();
    let (real, simulated) = components(sc);
    let aj: Vec<String> = sc.assumptions.iter().map(|s| quote(s)).collect();
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"nontrivial_runs\": {},\n  \"oracle_checks\": {},\n  \"runs_with_faults\": {},\n  \"runs_per_hour\": {},\n  \"simulated_seconds\": {:.6},\n  \"scheduling_points\": {},\n  \"longest_run_points\": {},\n  \"context_switches\": {},\n  \"max_threads\": {},\n  \"faults_injected\": {{{}}},\n  \"operations\": {{{}}},\n  \"situations_reached_in_runs\": {{{}}},\n  \"maxima\": {{{}}},\n  \"replayed_for_determinism\": {},\n  \"replay_mismatches\": {},\n  \"workers\": {},\n  \"search_s\": {:.2},\n  \"components_real\": [{}],\n  \"components_simulated\": [{}]\n }},\n \"wall_s\": {:.2},\n \"assumptions\": [{}],\n \"violations\": [{}]\n}}\n",
        quote(sc.id), quote(if thorough { "thorough" } else { "quick" }), base, quote(sc.level),
        runs, all.len(), quote(sc.rule), sj.join(", "), nontriv, checks, faulted,
        (runs as f64 / search_s.max(0.001) * 3600.0) as u64,
        clock as f64 / 1e9, steps, longest, switches, maxth, fj, oj, cj, nj, rechecked, mism, n,
        search_s, real.join(", "), simulated.join(", "), wall, aj.join(", "), vj.join(", ")
    );
    let ev = root().join("evidence");
    let _ = fs::create_dir_all(&ev);
    if let Err(e) = fs::write(ev.join(format!("{}.json", sc.id)), text) {
        println!("ERROR property={} evidence not written: {}", sc.id, e);
        if code == 0 {
            code = 2;
        }
    }
    for l in sim::known_lines() {
        let l = l.trim_start_matches("known: ");
        let mut f = l.splitn(3, ' ');
        let (p, name, what) = (f.next().unwrap_or(""), f.next().unwrap_or(""), f.next().unwrap_or(""));
        if p == format!("property={}", sc.id) && cover.iter().any(|c| c.0 == name) {
            println!("KNOWN-FINDING: {} {}", p, what);
        }
    }
    println!(
        "{} {}: {} runs, {} distinct, {} steps, {} faults, {} switches in {:.1}s{}",
        sc.id, tier, runs, all.len(), steps,
        counts[..sim::N_FAULT].iter().sum::<u64>(), switches, wall,
        if mism > 0 { format!(" ({} replay mismatches)", mism) } else { String::new() }
    );
    code
}

/// What of a run is the real code, and what stands in for something else.
fn components(sc: &Scenario) -> (Vec<String>, Vec<String>) {
    let net = ["C04", "C17", "C19", "C20", "C21"].contains(&sc.id);
    let tasks = ["C04", "C05", "C12", "C13", "C14", "C15", "C20", "C21"].contains(&sc.id);
    let mut real = vec!["body-image", "std, olio, tempfile, memmap as linked", "file contents and page cache (a scratch directory)"];
    let mut not = vec![
        "thread scheduling, futex, clock and sleep (seeded scheduler, virtual time)",
        "results of file operations (real system calls, split, interrupted or failed by the seed)",
        "randomness for names and hash keys (seeded)",
    ];
    if !["C01", "C02", "C03", "C12", "C13", "C14", "C15", "C16", "C17", "C21"].contains(&sc.id) {
        real.push("barc with flate2 and brotli");
    }
    if tasks || net || sc.id == "C16" {
        real.push("body-image-futio");
    }
    if tasks {
        real.push("blocking-permit pool and semaphores");
        not.push("task executor (seeded choice of tasks, spurious polls, abandoned tasks)");
    }
    if net {
        real.push(if sc.id == "C21" { "hyper server" } else { "hyper and tokio runtime, with mio polling" });
        not.push("network peer and wire (in memory, splits, delays and cuts by the seed)");
        if sc.id != "C21" {
            not.push("TLS connector (stand-in; OpenSSL is not available)");
        }
    }
    if sc.cli {
        real.push("barc command from its entry point to exit, with clap and piccolog");
        not.push("process end (kill points by the seed)");
    }
    if sc.id == "C20" {
        real.push("piccolog and log");
    }
    let q = |v: Vec<&str>| v.iter().map(|s| quote(s)).collect();
    (q(real), q(not))
}

fn num_cpus() -> usize {
    std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
}

struct Shrink<'a> {
    sc: &'a Scenario,
    sh: &'static mut Shared,
    dir: PathBuf,
    class: String,
    until: Instant,
    tries: u64,
}

impl<'a> Shrink<'a> {
    fn ok(&mut self, t: &Tapes) -> Option<Tapes> {
        if Instant::now() > self.until {
            return None;
        }
        self.tries += 1;
        let o = run_once(self.sc, self.sh, &self.dir, 0, Some(t), -1);
        if o.status == ST_VIOLATION && o.class == self.class {
            Some(tapes_of(self.sh))
        } else {
            None
        }
    }
    fn size(t: &Tapes) -> (usize, u64) {
        let nz: usize = t.iter().map(|x| x.iter().filter(|v| **v != 0).count()).sum();
        let len: usize = t.iter().map(|x| x.len()).sum();
        let sum: u64 = t.iter().flat_map(|x| x.iter()).map(|v| u64::from(*v)).sum();
        (nz * 4 + len, sum)
    }
    fn try_take(&mut self, best: &mut Tapes, cand: Tapes) -> bool {
        if &cand == best {
            return false;
        }
        if let Some(t) = self.ok(&cand) {
            if Self::size(&t) < Self::size(best) {
                *best = t;
                return true;
            }
        }
        false
    }
    fn pass(&mut self, best: &mut Tapes) -> bool {
        let mut progress = false;
        for &k in &[1usize, 2, 0] {
            let mut c = best.clone();
            c[k].clear();
            progress |= self.try_take(best, c);
            // Zero, then delete, ever smaller pieces.
            let mut size = (best[k].len() / 2).max(1);
            loop {
                let mut i = 0;
                while i < best[k].len() {
                    if Instant::now() > self.until {
                        return progress;
                    }
                    let e = (i + size).min(best[k].len());
                    let mut took = false;
                    if best[k][i..e].iter().any(|v| *v != 0) {
                        let mut c = best.clone();
                        for v in &mut c[k][i..e] {
                            *v = 0;
                        }
                        took = self.try_take(best, c);
                    }
                    if !took && i < best[k].len() {
                        let e = (i + size).min(best[k].len());
                        let mut c = best.clone();
                        c[k].drain(i..e);
                        took = self.try_take(best, c);
                        if took {
                            progress = true;
                            continue;
                        }
                    }
                    progress |= took;
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size = if size > 16 { size / 4 } else { size / 2 };
            }
            // Smaller values.
            let mut i = 0;
            while i < best[k].len() {
                let v = best[k][i];
                if v > 1 {
                    for nv in &[1, v / 2, v - 1] {
                        if *nv < v && Instant::now() < self.until {
                            let mut c = best.clone();
                            c[k][i] = *nv;
                            if self.try_take(best, c) {
                                progress = true;
                                break;
                            }
                        }
                    }
                }
                i += 1;
            }
        }
        progress
    }
}

fn trace_of(sc: &Scenario, sh: &mut Shared, dir: &Path, tapes: &Tapes, file: &Path) -> (Outcome, String) {
    let f = fs::OpenOptions::new().create(true).write(true).truncate(true).open(file);
    let fd = match f {
        Ok(ref f) => {
            use std::os::unix::io::AsRawFd;
            f.as_raw_fd()
        }
        Err(_) => -1,
    };
    let o = run_once(sc, sh, dir, 0, Some(tapes), fd);
    let text = fs::read(file).map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
    let _ = fs::remove_file(file);
    (o, text)
}

fn minimise_and_report(
    sc: &Scenario, seed: u64, class: &str, msg: &str, scratch: &Path, thorough: bool,
) -> String {
    let dir = scratch.join("m");
    let sh: &'static mut Shared = map();
    let o = run_once(sc, sh, &dir, seed, None, -1);
    let again = o.status == ST_VIOLATION && o.class == class;
    let mut best = tapes_of(sh);
    let orig: Vec<usize> = best.iter().map(|t| t.len()).collect();
    let mut s = Shrink {
        sc, sh, dir: dir.clone(), class: class.to_string(),
        until: Instant::now() + Duration::from_secs(if thorough { 90 } else { 40 }),
        tries: 0,
    };
    if again {
        let b0 = best.clone();
        if let Some(t) = s.ok(&b0) {
            best = t;
            for _ in 0..6 {
                if !s.pass(&mut best) {
                    break;
                }
            }
        }
    }
    let tries = s.tries;
    let sh = s.sh;
    let (o1, trace) = trace_of(sc, sh, &dir, &best, &scratch.join("trace"));
    let h1 = sh.hash;
    let o2 = run_once(sc, sh, &dir, 0, Some(&best), -1);
    let same = o1.status == ST_VIOLATION && o2.status == ST_VIOLATION
        && o1.class == class && o2.class == class && h1 == sh.hash;
    let lines: Vec<&str> = trace.lines().collect();
    let from = lines.len().saturating_sub(600);
    let tl: Vec<String> = lines[from..].iter().map(|l| format!("  {}", quote(l))).collect();
    let m = if o1.status == ST_VIOLATION { o1.msg.clone() } else { msg.to_string() };
    let text = format!(
        "{{\n \"property\": {},\n \"seed\": \"{}\",\n \"class\": {},\n \"message\": {},\n \"w\": {},\n \"s\": {},\n \"f\": {},\n \"event_hash\": \"{:016x}\",\n \"replays_exactly\": {},\n \"original_tape_lengths\": [{}, {}, {}],\n \"minimiser_runs\": {},\n \"trace\": [\n{}\n ]\n}}\n",
        quote(sc.id), seed, quote(class), quote(&m),
        quote(&tape_to_string(&best[0])), quote(&tape_to_string(&best[1])),
        quote(&tape_to_string(&best[2])), h1, same, orig[0], orig[1], orig[2], tries,
        tl.join(",\n")
    );
    let d = root().join("replay");
    let _ = fs::create_dir_all(&d);
    let path = d.join(format!("{}-{}.json", sc.id, seed));
    let _ = fs::write(&path, text);
    println!("{} seed={} {}: {}", sc.id, seed, class, m);
    println!("VIOLATION property={} replay={}", sc.id, path.display());
    path.display().to_string()
}

/// Re-run a replay file; 1 if it fails in the same way.
pub fn replay(file: &str, find: impl Fn(&str) -> Option<&'static Scenario>) -> i32 {
    let text = match fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let g = |k: &str| crate::json::field(&text, k);
    let (id, class) = match (g("property"), g("class")) {
        (Some(i), Some(c)) => (i, c),
        _ => return 2,
    };
    let sc = match find(&id) {
        Some(s) => s,
        None => return 2,
    };
    let mut t: Tapes = Default::default();
    for (i, k) in ["w", "s", "f"].iter().enumerate() {
        match g(k).and_then(|s| tape_from_string(&s)) {
            Some(v) => t[i] = v,
            None => return 2,
        }
    }
    let scratch = Scratch::new();
    let sh: &'static mut Shared = map();
    let o = run_once(sc, sh, &scratch.0.join("r"), 0, Some(&t), 1);
    let h = format!("{:016x}", sh.hash);
    println!("status={} class={} msg={} event_hash={} recorded={}",
             o.status, o.class, o.msg, h, g("event_hash").unwrap_or_default());
    if o.status == ST_VIOLATION && o.class == class {
        println!("VIOLATION property={} replay={}", id, file);
        1
    } else if o.status == ST_OK {
        0
    } else {
        2
    }
}

/// One seed, with a trace on standard output.
pub fn run_seed(sc: &Scenario, seed: u64, trace: bool) -> i32 {
    let scratch = Scratch::new();
    let sh: &'static mut Shared = map();
    let o = run_once(sc, sh, &scratch.0.join("r"), seed, None, if trace { 1 } else { -1 });
    println!("status={} class={} msg={} steps={} switches={} threads={} faults={} checks={} hash={:016x}",
             o.status, o.class, o.msg, sh.steps, sh.switches, sh.threads, sh.faults, sh.checks, sh.hash);
    let _ = std::io::stdout().flush();
    if std::env::var_os("BISIM_AGAIN").is_some() {
        let t = tapes_of(sh);
        let h = sh.hash;
        println!("---- again from the recorded choices");
        run_once(sc, sh, &scratch.0.join("r"), seed, Some(&t), if trace { 1 } else { -1 });
        println!("again: {}", if sh.hash == h { "same" } else { "DIFFERENT" });
    }
    if o.status == ST_OK { 0 } else { 1 }
}

/// Many seeds in this process, grouped by kind of failure.
pub fn survey(sc: &Scenario, n: u64) -> i32 {
    let scratch = Scratch::new();
    let mut kids = Vec::new();
    let nw = num_cpus() as u64;
    for k in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            pin(k as usize);
            let sh: &'static mut Shared = map();
            let dir = scratch.0.join(format!("s{}", k));
            let mut out = String::new();
            let mut i = k;
            while i < n {
                let seed = seed_of(env_u64("VERIF_SEED", 1), sc.id, i);
                let o = run_once(sc, sh, &dir, seed, None, -1);
                if o.status != ST_OK {
                    let mut m: String = o.msg.chars().filter(|c| c.is_ascii_alphabetic() || *c == ' ').collect();
                    m.truncate(48);
                    out.push_str(&format!("{}\t{}\t{}\t{}\n", o.class, m.replace('\n', " "), seed,
                                          o.msg.replace('\n', " ")));
                }
                i += nw;
            }
            let _ = fs::write(scratch.0.join(format!("out{}", k)), out);
            unsafe { libc::_exit(0) }
        }
        kids.push(pid);
    }
    let mut all: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for (k, p) in kids.iter().enumerate() {
        let mut st = 0;
        unsafe {
            while libc::waitpid(*p, &mut st, 0) != *p {}
        }
        let t = fs::read_to_string(scratch.0.join(format!("out{}", k))).unwrap_or_default();
        for l in t.lines() {
            let v: Vec<&str> = l.split('\t').collect();
            let e = all.entry(format!("{} {}", v[0], v[1])).or_insert((0, format!("{} {}", v[2], v[3])));
            e.0 += 1;
        }
    }
    for (k, v) in &all {
        println!("{:6} {}\n         e.g. seed {}", v.0, k, v.1);
    }
    println!("{} runs, {} kinds", n, all.len());
    0
}
