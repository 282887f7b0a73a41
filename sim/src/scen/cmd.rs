//! The command line program, run for real inside the simulator: C18.

use std::ffi::CString;
use std::fs;
use std::path::{Path, PathBuf};

use barc::BarcFile;
use body_image::{Tunables, Tuner};
use http::header::{HeaderMap, HeaderName, HeaderValue};

use super::arc::*;
use super::util::*;
use super::Scenario;
use crate::check;
use crate::note;
use crate::seam::{self, FdInfo};
use crate::sim::{self, cover, sim, w, Fk};

pub const C18: Scenario = Scenario {
    id: "C18",
    run: c18,
    quick: 70_000,
    level: "exploration",
    rule: "one run = one invocation of the command on seeded archives (whole or damaged), options and paths, under seeded short, interrupted, torn and failing operations on inputs, output archive and standard output, or killed at a seeded mutating operation; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["the process stops, not the machine: completed writes persist in order",
                   "shrinking the archive file does not fail"],
    notes: &["records", "inputs", "output_bytes"],
    cli: true,
};

// ------------------------------------------------------ running the command

/// Run the command with these arguments; `done` gets the exit status and the
/// run ends with it.
pub fn command(args: &[String], done: impl FnOnce(i32) + 'static) -> ! {
    let main = match crate::cli() {
        Some(m) => m,
        None => sim::harness_error("the command is not linked in"),
    };
    sim::raw(|| {
        let sc = sim().scratch.clone();
        std::env::set_current_dir(&sc).unwrap();
        std::env::set_var("TMPDIR", format!("{}/tmp", sc));
        sim().io.cwd_inside = true;
        redirect(1, &scratch("stdout"), true);
        redirect(2, &scratch("stderr"), false);
        let mut done = Some(done);
        seam::at_exit(Box::new(move |code| {
            if let Some(d) = done.take() {
                d(code);
            }
            sim::finish_ok();
        }));
    });
    note!("barc {}", args.join(" "));
    let argv = sim::raw(|| {
        let mut v: Vec<*const libc::c_char> = Vec::new();
        for a in std::iter::once("barc").chain(args.iter().map(|a| a.as_str())) {
            v.push(CString::new(a).unwrap().into_raw());
        }
        v.push(std::ptr::null());
        v
    });
    let code = unsafe { main(argv.len() as i32 - 1, argv.as_ptr()) };
    seam::exited(code)
}

/// Now and then with the log, which is no reason to do anything else.
pub fn verbose(args: &mut Vec<String>) {
    let t = w();
    if t.chance(120) {
        let d = t.pick(&["-d", "-dd", "--debug", "-dddd", "-ddd"]).to_string();
        let at = t.below(2) as usize;
        args.insert(at, d);
        cover("with log");
    }
}

pub fn redirect(fd: i32, path: &Path, track: bool) {
    use std::os::unix::io::IntoRawFd;
    unsafe {
        if sim().trace_fd == fd {
            sim().trace_fd = libc::fcntl(fd, libc::F_DUPFD, 100);
        }
        let f = fs::OpenOptions::new().append(true).create(true).open(path).unwrap().into_raw_fd();
        libc::dup2(f, fd);
        libc::close(f);
    }
    if track {
        let io = &mut sim().io;
        io.fds[fd as usize] = FdInfo { file: io.next_file, temp: false, opened_by: 0 };
        io.next_file += 1;
    }
}

pub fn hard_count() -> u64 {
    let c = unsafe { &(*sim().shared).counts };
    [Fk::EnospcWrite, Fk::EioWrite, Fk::EioRead, Fk::FailOpen, Fk::EnomemMap, Fk::FailMadvise, Fk::FailSync,
     Fk::EnospcTruncate, Fk::DiskFull]
        .iter()
        .map(|k| c[*k as usize])
        .sum()
}

pub fn text(p: &str) -> String {
    sim::raw(|| String::from_utf8_lossy(&fs::read(scratch(p)).unwrap_or_default()).trim().chars().take(300).collect())
}

// ------------------------------------------------------ archives

pub struct Archive {
    /// Name below the scratch directory.
    pub name: String,
    pub recs: Vec<(u64, Rec)>,
    pub bytes: Vec<u8>,
    /// First record that does not read, and whether it surely does not.
    pub bad: Option<(usize, bool)>,
}

/// Some record with now and then a body beyond the default RAM limit.
fn some_rec() -> Rec {
    let mut r = any_rec(&ANCHORS, false);
    if w().chance(60) {
        let c = Content::any();
        r.res_b = c.bytes(0x3_0000 + w().below(40_000) as usize - 2);
    }
    r
}

pub fn archive(name: &str, dir: &PathBuf, n: u32) -> Archive {
    let path = scratch(name);
    let mut recs = Vec::new();
    faultless(|| {
        let bf = BarcFile::new(&path);
        let mut wr = bf.writer().unwrap();
        for _ in 0..n {
            let r = some_rec();
            let st = Strat::any();
            match write(&mut wr, &r, dir, &st) {
                Ok(o) => recs.push((o, r)),
                Err(e) => check!(false, "unexpected-error", "write of the input: {}", e),
            }
        }
    });
    let bytes = sim::raw(|| fs::read(&path).unwrap());
    Archive { name: name.to_string(), recs, bytes, bad: None }
}

/// Make one record unreadable.
fn spoil(a: &mut Archive) {
    if a.recs.is_empty() {
        return;
    }
    let t = w();
    let k = t.below(a.recs.len() as u32) as usize;
    let at = a.recs[k].0 as usize;
    let end = a.recs.get(k + 1).map(|r| r.0 as usize).unwrap_or_else(|| a.bytes.len());
    match t.below(3) {
        0 => {
            // Inside the record, but not at its beginning.
            let cut = match t.below(3) {
                0 => at + 1 + t.below(53) as usize,
                1 => end - 1,
                _ => at + 1 + t.below((end - at - 1) as u32) as usize,
            };
            a.bytes.truncate(cut);
            a.bad = Some((k, true));
        }
        1 => {
            // A head that is none.
            let i = at + t.below(12) as usize;
            a.bytes[i] = *t.pick(b"?xz\r");
            a.bad = Some((k, true));
        }
        _ => {
            // The head only reserved, as by a process that ended.
            let head = &mut a.bytes[at..at + 54];
            head.copy_from_slice(&b"BARC2 000000000000 RP 00000 00000 0000000000 00000\r\n\r\n"[..]);
            a.bad = Some((k, false));
        }
    }
    sim::raw(|| fs::write(scratch(&a.name), &a.bytes).unwrap());
    cover("damaged input");
}

fn oracle_tune() -> Tunables {
    let mut b = Tuner::new();
    b.set_temp_dir(scratch("tmp"));
    b.finish()
}

/// All that reads in order, and whether that ended without an error.
pub fn read_all(name: &str) -> (Vec<barc::Record>, Option<String>) {
    let mut v = Vec::new();
    if !sim::raw(|| scratch(name).exists()) {
        return (v, None);
    }
    let tune = oracle_tune();
    let mut rd = match BarcFile::new(scratch(name)).reader() {
        Ok(r) => r,
        Err(e) => return (v, Some(e.to_string())),
    };
    loop {
        match rd.read(&tune) {
            Ok(Some(r)) => v.push(r),
            Ok(None) => return (v, None),
            Err(e) => return (v, Some(e.to_string())),
        }
    }
}

// ------------------------------------------------------ the invocation

#[derive(Clone, Copy, PartialEq, Debug)]
enum Start {
    First,
    Index(u64),
    /// Offset of this record, or the end.
    At(usize),
    /// Not the beginning of a record.
    Astray,
}

/// What an invocation should do with one input.
struct Want {
    /// Index of the input and of the record.
    recs: Vec<(usize, usize)>,
    /// Must fail after these.
    fail: bool,
    /// May fail after these.
    may_fail: bool,
}

fn select(i: usize, a: &Archive, start: Start, count: u64) -> Want {
    let n = a.recs.len();
    let (first, skip) = match start {
        Start::First => (0, 0),
        Start::Index(k) => (0, k.min(1 << 20) as usize),
        Start::At(k) => (k, 0),
        Start::Astray => return Want { recs: vec![], fail: count > 0, may_fail: true },
    };
    // A record that does not read ends the archive: with an error, or, if it
    // was never finished, perhaps like the end of the file.
    let from = first + skip;
    let to = from.saturating_add(count.min(1 << 20) as usize);
    let bad = a.bad.filter(|b| b.0 >= first);
    let end = bad.map(|b| b.0).unwrap_or(n);
    Want {
        recs: (from..to.min(end)).map(|k| (i, k)).collect(),
        fail: bad.map(|b| b.1 && count > 0 && b.0 < to).unwrap_or(false),
        // One record may be read ahead.
        may_fail: bad.map(|b| b.0 <= to).unwrap_or(false),
    }
}

struct Parts {
    meta: bool,
    req_h: bool,
    req_b: bool,
    res_h: bool,
    res_b: bool,
}

struct Plan {
    cp: bool,
    ins: Vec<Archive>,
    /// How each input is named in the arguments.
    names: Vec<String>,
    old: Option<Archive>,
    out: String,
    want: Vec<(usize, usize)>,
    fail: bool,
    may_fail: bool,
    /// Arguments that make no sense.
    misuse: bool,
    /// The output is this input.
    same: bool,
    parts: Parts,
}

/// Absolute paths vary from run to run, so they must not be printed.
fn name_of(file: &str, abs: bool) -> String {
    match w().weighted(&[5, 2, if abs { 2 } else { 0 }, 1]) {
        0 => file.to_string(),
        1 => format!("./{}", file),
        2 => format!("{}/{}", sim().scratch, file),
        _ => format!("tmp/../{}", file),
    }
}

fn c18() {
    let dir = temp_dir();
    let t = w();
    let cp = t.chance(550);
    let n_in = 1 + t.weighted(&[6, 2, 1]);
    let mut ins: Vec<Archive> = Vec::new();
    for i in 0..n_in {
        let n = t.weighted(&[1, 3, 4, 3, 2, 1]) as u32;
        let name = ["a.barc", "b c.barc", "\u{e4}.barc"][i];
        let mut a = archive(name, &dir, n);
        if t.chance(140) {
            spoil(&mut a);
        }
        ins.push(a);
    }
    let mut old = None;
    let out = "out.barc".to_string();
    if cp && t.chance(400) {
        let n = t.below(3);
        old = Some(archive(&out, &dir, n));
    }
    let mut names: Vec<String> = ins.iter().map(|a| name_of(&a.name, cp)).collect();
    let mut outname = name_of(&out, cp);
    let mut opts: Vec<String> = Vec::new();
    let mut start = Start::First;
    let mut count = u64::MAX;
    let mut misuse = false;
    let recs = ins[0].recs.len();
    if n_in == 1 || t.chance(60) {
        match t.weighted(&[4, 3, 3, 1]) {
            0 => {}
            1 => {
                let k = match t.below(5) {
                    4 => *t.pick(&[1_000_000u64, u64::MAX]),
                    _ => u64::from(t.below(recs as u32 + 2)),
                };
                start = Start::Index(k);
                put(&mut opts, "-i", "--index", format!("{}", k));
            }
            k => {
                let (s, o) = if k == 2 || recs == 0 {
                    let k = t.below(recs as u32 + 1) as usize;
                    (Start::At(k), ins[0].recs.get(k).map(|r| r.0).unwrap_or(ins[0].bytes.len() as u64))
                } else {
                    let k = t.below(recs as u32) as usize;
                    let end = ins[0].recs.get(k + 1).map(|r| r.0).unwrap_or(ins[0].bytes.len() as u64);
                    let room = end.saturating_sub(ins[0].recs[k].0).max(2);
                    (Start::Astray, ins[0].recs[k].0 + 1 + u64::from(t.below(room as u32 - 1)))
                };
                start = s;
                if o >= ins[0].bytes.len() as u64 && !ins[0].bytes.is_empty() {
                    start = Start::At(recs);
                }
                let v = if t.chance(500) { format!("{:#x}", o) } else { format!("{}", o) };
                put(&mut opts, "-o", "--offset", v);
            }
        }
        if t.chance(400) {
            count = u64::from(t.below(recs as u32 + 2));
            put(&mut opts, "-c", "--count", format!("{}", count));
        }
        if n_in > 1 && !opts.is_empty() {
            misuse = true;
        }
    }
    let mut parts = Parts { meta: true, req_h: true, req_b: true, res_h: true, res_b: true };
    if cp {
        match t.weighted(&[4, 3, 2]) {
            0 => {}
            1 => opts.push(t.pick(&["-z", "--gzip"]).to_string()),
            _ => opts.push(t.pick(&["-b", "--brotli"]).to_string()),
        }
    } else if t.chance(500) {
        let mut f = [false; 5];
        for (k, o) in ["--meta", "--req-head", "--req-body", "--res-head", "--res-body"].iter().enumerate() {
            if t.chance(400) {
                f[k] = true;
                opts.push(o.to_string());
            }
        }
        if f.iter().any(|x| *x) {
            parts = Parts { meta: f[0], req_h: f[1], req_b: f[2], res_h: f[3], res_b: f[4] };
        }
    }
    if t.chance(60) {
        opts.push(t.pick(&["-d", "-dd", "-dddd"]).to_string());
    }
    if t.chance(30) {
        misuse = true;
        match t.below(5) {
            0 => opts.push("--no-such".into()),
            1 => opts.extend(vec!["-c".to_string(), "x".to_string()]),
            2 => opts.extend(vec!["-i".to_string(), "0".to_string(), "-o".to_string(), "0".to_string()]),
            3 => opts.extend(vec!["-o".to_string(), "0xg".to_string()]),
            _ => opts.extend(vec!["-i".to_string(), "-1".to_string()]),
        }
        if start != Start::First || count != u64::MAX {
            // Options given twice are refused or the last counts: not judged.
            opts.retain(|o| o == "--no-such");
            opts.push("--no-such".into());
        }
    }
    // Inputs one after the other, as far as nothing fails.
    let mut plan_want = Vec::new();
    let (mut fail, mut may_fail) = (false, false);
    let mut same = false;
    let missing = if t.chance(50) { Some(t.below(n_in as u32) as usize) } else { None };
    if cp && missing.is_none() && !misuse && t.chance(60) {
        same = true;
        let k = t.below(n_in as u32) as usize;
        old = None;
        sim::raw(|| {
            let _ = fs::remove_file(scratch(&out));
            let f = scratch(&ins[k].name);
            match w().below(4) {
                0 => outname = names[k].clone(),
                1 => outname = name_of(&ins[k].name, cp),
                2 => std::os::unix::fs::symlink(&f, scratch(&out)).unwrap(),
                _ => fs::hard_link(&f, scratch(&out)).unwrap(),
            }
        });
        cover("output is an input");
    }
    if let Some(k) = missing {
        names[k] = t.pick(&["none.barc", "no/such/dir.barc", "tmp"]).to_string();
        cover("input missing");
    }
    if !misuse && !same {
        for (i, a) in ins.iter().enumerate() {
            if missing == Some(i) {
                // A directory does open.
                fail = count > 0 || names[i] != "tmp";
                may_fail = true;
                break;
            }
            let v = select(i, a, start, count);
            plan_want.extend(v.recs);
            fail |= v.fail;
            may_fail |= v.may_fail;
            if v.fail {
                break;
            }
        }
    }
    let mut args = vec![if cp { "cp" } else { "cat" }.to_string()];
    let last = t.chance(300) && !misuse;
    if !last {
        args.extend(opts.iter().cloned());
    }
    args.extend(names.iter().cloned());
    if cp {
        args.push(outname.clone());
    }
    if last {
        args.extend(opts);
    }
    verbose(&mut args);

    let mut fl = soft_faults();
    match sim().f.weighted(&[4, 3, 2, 1]) {
        0 => {}
        1 => {
            hard_faults(&mut fl, HARD_FS);
            fl.p[Fk::EnospcTruncate as usize] = 0;
        }
        2 => {
            let span = [12, 4, 40, 150][sim().f.below(4) as usize];
            fl.crash_at = Some(sim().mut_ops + 1 + u64::from(sim().f.below(span)));
        }
        _ => {
            fl.quota = Some(u64::from(sim().f.below(20_000)));
        }
    }
    set_faults(fl);
    sim::note_max(0, ins.iter().map(|a| a.recs.len() as u64).sum());
    sim::note_max(1, n_in as u64);
    let p = Plan { cp, ins, names, old, out, want: plan_want, fail, may_fail, misuse, same, parts };
    let line = args.join(" ");
    describe(line.clone());
    let hard0 = hard_count();
    command(&args, move |code| judge(p, code, hard_count() > hard0, &line));
}

fn put(opts: &mut Vec<String>, short: &str, long: &str, v: String) {
    match w().below(3) {
        0 => {
            opts.push(short.to_string());
            opts.push(v);
        }
        1 => opts.push(format!("{}={}", long, v)),
        _ => {
            opts.push(long.to_string());
            opts.push(v);
        }
    }
}

// ------------------------------------------------------ the judgement

fn judge(p: Plan, code: i32, hard: bool, line: &str) {
    let killed = sim().dead;
    sim().dead = false;
    no_faults();
    let _c = sim::ctx(sim::raw(|| format!("{}, status {}{}{}", if p.cp { "copy" } else { "print" }, code,
                                          if killed { ", killed" } else { "" },
                                          if hard { ", with failing operations" } else { "" })));
    note!("exit {} of `barc {}`: {}", code, line, text("stderr"));
    for a in &p.ins {
        if p.same {
            continue;
        }
        let now = sim::raw(|| fs::read(scratch(&a.name)).unwrap_or_default());
        same("input-changed", &a.name, &now, &a.bytes);
    }
    let stdout = sim::raw(|| fs::read(scratch("stdout")).unwrap());
    sim::note_max(2, stdout.len() as u64);
    if !killed {
        if p.misuse || p.same || p.fail {
            check!(code != 0, "status", "success although it can not be");
            cover(if p.misuse { "misuse refused" } else if p.same { "same file refused" } else { "bad input reported" });
        } else if code != 0 {
            check!(hard || p.may_fail, "status", "failure without a reason: {}", text("stderr"));
            cover("failure reported");
        }
        if code != 0 {
            check!(!text("stderr").is_empty(), "silent", "failure without a message");
        }
    } else {
        cover("killed");
    }
    let whole = code == 0 && !killed;
    if p.same {
        // Inputs before the one that is the output may have been appended.
        for a in &p.ins {
            let now = sim::raw(|| fs::read(scratch(&a.name)).unwrap_or_default());
            if p.ins.len() == 1 {
                same("input-changed", &a.name, &now, &a.bytes);
            } else {
                check!(now.starts_with(&a.bytes), "input-changed", "{} lost content", a.name);
            }
        }
    } else if p.cp {
        check!(stdout.is_empty(), "output", "copy printed {} bytes", stdout.len());
        judge_copy(&p, whole, killed);
    } else {
        let s = parse(&p, &stdout);
        if whole {
            check!(s == p.want.len(), "missing-record", "{} of {} records printed", s, p.want.len());
        }
        check!(!p.misuse || stdout.is_empty(), "output", "output in spite of misuse");
    }
    if !killed {
        audit_names(&scratch("tmp"), "at exit");
    }
}

fn judge_copy(p: &Plan, whole: bool, killed: bool) {
    if p.misuse {
        let now = sim::raw(|| fs::read(scratch(&p.out)).ok());
        let before = p.old.as_ref().map(|a| a.bytes.clone());
        check!(now == before, "output", "output changed in spite of misuse");
        return;
    }
    let mut want: Vec<&Rec> = Vec::new();
    let mut n_old = 0;
    if let Some(ref a) = p.old {
        n_old = a.recs.len();
        want.extend(a.recs.iter().map(|r| &r.1));
        let now = sim::raw(|| fs::read(scratch(&p.out)).unwrap_or_default());
        check!(now.starts_with(&a.bytes), "output", "content of the output lost");
    }
    want.extend(p.want.iter().map(|(i, k)| &p.ins[*i].recs[*k].1));
    let (got, err) = read_all(&p.out);
    if let Some(e) = err {
        check!(killed, "output", "the output does not read after {} records: {}", got.len(), e);
    }
    check!(got.len() <= want.len(), "extra-record", "{} records instead of {}", got.len(), want.len());
    for (g, r) in got.iter().zip(&want) {
        same_record(g, r, false, "output");
    }
    check!(got.len() >= n_old, "missing-record", "{} of {} old records", got.len(), n_old);
    if whole {
        check!(got.len() == want.len(), "missing-record", "{} records instead of {}", got.len(), want.len());
        cover("copied");
    } else if got.len() > n_old {
        cover("part copied");
    }
}

/// Read the output of cat, as far as it goes; the number of whole records.
fn parse(p: &Plan, out: &[u8]) -> usize {
    let mut at = 0;
    let whole = |at: usize| at >= out.len();
    for (n, (i, k)) in p.want.iter().enumerate() {
        if whole(at) {
            return n;
        }
        let a = &p.ins[*i];
        let (off, r) = (a.recs[*k].0, &a.recs[*k].1);
        let what = sim::raw(|| format!("record {} at {}", n, off));
        // The separator.
        let e = match out[at..].iter().position(|b| *b == b'\n') {
            Some(e) => at + e,
            None => {
                check!(out[at..].starts_with(b"=") , "output", "{}: no separator", what);
                return n;
            }
        };
        let sep = sim::raw(|| String::from_utf8_lossy(&out[at..e]).into_owned());
        check!(sep.starts_with("======"), "output", "{}: no separator: {:?}", what, sim::raw(|| sep.chars().take(100).collect::<String>()));
        check!(sep.contains(&p.names[*i]), "output", "{}: separator without the path: {}", what, sep);
        let hex = sim::raw(|| sep.split_whitespace().filter(|x| x.starts_with("0x"))
                           .filter_map(|x| u64::from_str_radix(&x[2..], 16).ok()).last());
        check!(hex == Some(off), "output", "{}: separator with a wrong offset: {}", what, sep);
        at = e + 1;
        let q = &p.parts;
        let steps: [(bool, Result<&HeaderMap, &Vec<u8>>); 5] = [
            (q.meta, Ok(&r.meta)), (q.req_h, Ok(&r.req_h)), (q.req_b, Err(&r.req_b)), (q.res_h, Ok(&r.res_h)),
            (q.res_b, Err(&r.res_b)),
        ];
        for (on, x) in steps.iter() {
            if !on {
                continue;
            }
            match x {
                Err(b) => {
                    if b.is_empty() {
                        continue;
                    }
                    let n1 = b.len().min(out.len() - at);
                    same("output", &what, &out[at..at + n1], &b[..n1]);
                    at += n1;
                    let n2 = 2.min(out.len() - at);
                    check!(out[at..at + n2] == b"\r\n"[..n2], "output", "{}: no end of line after a body", what);
                    at += n2;
                    if n1 < b.len() || n2 < 2 {
                        return n;
                    }
                }
                Ok(h) => {
                    if h.is_empty() {
                        continue;
                    }
                    let mut got = HeaderMap::new();
                    loop {
                        let e = match out[at..].windows(2).position(|b| b == b"\r\n") {
                            Some(e) => at + e,
                            None => return n,
                        };
                        let l = &out[at..e];
                        at = e + 2;
                        if l.is_empty() {
                            break;
                        }
                        sim::raw(|| {
                            let c = l.windows(2).position(|b| b == b": ").unwrap_or(0);
                            if let (Ok(k), Ok(v)) = (HeaderName::from_bytes(&l[..c]), HeaderValue::from_bytes(&l[(c + 2).min(l.len())..])) {
                                got.append(k, v);
                            }
                        });
                    }
                    same_headers(&what, &got, h);
                }
            }
        }
    }
    check!(whole(at), "output", "{} bytes after the last record", out.len() - at);
    p.want.len()
}
