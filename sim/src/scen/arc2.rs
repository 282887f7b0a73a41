//! Archives in use and in trouble: C08 to C11.

use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::thread;

use barc::{BarcError, BarcFile, BarcReader, Record};
use body_image::Tunables;
use http::header::HeaderValue;

use super::arc::*;
use super::util::*;
use super::Scenario;
use crate::check;
use crate::note;
use crate::sim::{self, choose_policy, cover, sim, w, Fk};
use crate::tape::Rng;

pub const C08: Scenario = Scenario {
    id: "C08",
    run: c08,
    quick: 70_000,
    level: "exploration",
    rule: "one run = 1 to 3 threads sharing one archive's writer and 1 to 4 threads reading it in order or by offset, every file operation torn, shortened or interrupted at random and interleaved by the seeded scheduler; non-trivial = at least one record comparison and more than 4 scheduling points; distinct = different hash of the sequence of (thread, operation, file, arguments, result)",
    assumptions: &["a write and a read of the same bytes may each be torn at one point, in file order"],
    notes: &["records", "readers", "writers"],
    cli: false,
};

pub const C09: Scenario = Scenario {
    id: "C09",
    run: c09,
    quick: 50_000,
    level: "exploration",
    rule: "one run = a history of appends, some failing at a seeded point by storage faults or refused records, with readers opened before and after; non-trivial = at least one record comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["shrinking the archive file does not fail"],
    notes: &["records", "failures"],
    cli: false,
};

pub const C10: Scenario = Scenario {
    id: "C10",
    run: c10,
    quick: 70_000,
    level: "exploration",
    rule: "one run = up to 4 process lives, each ended at a seeded mutating operation (a write cut at a seeded byte), then re-opened, read and appended to; non-trivial = at least one record comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["the process stops, not the machine: completed writes persist in order"],
    notes: &["records", "lives"],
    cli: false,
};

pub const C11: Scenario = Scenario {
    id: "C11",
    run: c11,
    quick: 110_000,
    level: "exploration",
    rule: "one run = an archive of real records, damaged by seeded truncation, overwrites, bit flips, splices and forged heads, read in order and by offset under soft and hard read faults; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["damage happens before the archive is opened"],
    notes: &["records", "damages", "peak_kib"],
    cli: false,
};

const SMALL: [u64; 6] = [64, 100, 1024, 4096, 54, 2];

fn tag(r: &mut Rec, id: u64) {
    sim::raw(|| r.meta.insert("id", HeaderValue::from(id)));
}

fn id_of(r: &Record) -> Option<u64> {
    sim::raw(|| r.meta.get("id").and_then(|v| v.to_str().ok()).and_then(|v| v.parse().ok()))
}

// ------------------------------------------------------------------- C08

struct Shared {
    bf: BarcFile,
    path: PathBuf,
    recs: Vec<Rec>,
    /// Accepted, in order: (offset, id).
    log: Mutex<Vec<(u64, u64)>>,
}

impl Shared {
    fn len(&self) -> usize {
        sim::raw(|| self.log.lock().unwrap().len())
    }
    fn at(&self, k: usize) -> (u64, u64) {
        sim::raw(|| self.log.lock().unwrap()[k])
    }
}

fn c08_writer(sh: &Shared, items: Vec<(u64, Record, Strat)>, keep: bool) {
    let mut it = items.into_iter().peekable();
    while it.peek().is_some() {
        let mut wr = match sh.bf.writer() {
            Ok(wr) => wr,
            Err(e) => {
                check!(false, "unexpected-error", "writer: {}", e);
                return;
            }
        };
        while let Some((id, rec, st)) = it.next() {
            match wr.write(&rec, st.get()) {
                Ok(off) => {
                    note!("record {} accepted at {}", id, off);
                    sim::raw(|| sh.log.lock().unwrap().push((off, id)))
                }
                Err(e) => check!(false, "unexpected-error", "write: {}", e),
            }
            if !keep {
                break;
            }
        }
    }
}

struct ReaderJob {
    seed: u64,
    own_file: bool,
    random: bool,
    hold: bool,
    tune: Tunables,
    late: bool,
}

fn c08_reader(sh: &Shared, j: &ReaderJob, total: usize) {
    let mut r = Rng::new(j.seed);
    let other;
    let bf = if j.own_file {
        other = BarcFile::new(&sh.path);
        &other
    } else {
        &sh.bf
    };
    let mut tries = 0u32;
    let mut idle = 0u32;
    let mut rd = loop {
        if !j.late || sh.len() > 0 {
            match bf.reader() {
                Ok(rd) => break rd,
                Err(e) => check!(sh.len() == 0, "unexpected-error", "reader: {}", e),
            }
        }
        sim::sleep((1000 + r.below(1000)) << tries.min(24));
        tries += 1;
        if tries > 100_000 {
            return;
        }
    };
    let mut held: Vec<(Record, u64)> = Vec::new();
    let mut at = 0usize;
    loop {
        if j.random && r.below(3) == 0 && sh.len() > 0 {
            // Some accepted record, then on from there.
            let k = r.below(sh.len() as u64) as usize;
            let (off, _) = sh.at(k);
            if let Err(e) = rd.seek(off) {
                check!(false, "unexpected-error", "seek: {}", e);
            }
            at = k;
        }
        let before = sh.len();
        let off = rd.offset();
        match rd.read(&j.tune) {
            Ok(Some(rec)) => {
                let id = id_of(&rec).unwrap_or(u64::MAX);
                check!((id as usize) < sh.recs.len(), "content", "record at {} without its mark", off);
                same_record(&rec, &sh.recs[id as usize], false, "read");
                if at < before {
                    let e = sh.at(at);
                    check!(e == (off, id), "order", "record {} at {} instead of {:?}", id, off, e);
                }
                if at < sh.len() {
                    let e = sh.at(at);
                    check!(e == (off, id), "order", "record {} at {}, accepted as {:?}", id, off, e);
                } else {
                    cover("read before the writer returned");
                }
                if j.hold {
                    held.push((rec, id));
                }
                at += 1;
                idle = 0;
            }
            Ok(None) => {
                check!(at >= before, "missing-record",
                       "end of archive at {}, but record {} was accepted before the read began", off, at);
                check!(rd.offset() == off, "offset", "offset moved from {} to {} at the end", off, rd.offset());
                if at < total {
                    cover("reader met the end and went on");
                    sim::sleep((500 + r.below(3000)) << idle.min(24));
                    idle += 1;
                }
            }
            Err(BarcError::ReadIncompleteRecHead(n)) => {
                check!(at >= before, "unexpected-error", "incomplete head of {} for accepted record {}", n, at);
                check!(rd.offset() == off, "offset", "offset moved from {} to {} on error", off, rd.offset());
                cover("incomplete head met");
                sim::sleep((500 + r.below(3000)) << idle.min(24));
                    idle += 1;
            }
            Err(e) => check!(false, "unexpected-error", "read at {}: {}", off, e),
        }
        if at == total && !(j.random && r.below(2) == 0) {
            break;
        }
        tries += 1;
        if tries > 100_000 {
            check!(false, "stuck", "reader at record {} of {}", at, total);
        }
    }
    for (rec, id) in held {
        same_record(&rec, &sh.recs[id as usize], false, "held");
    }
}

fn c08() {
    let dir = temp_dir();
    choose_policy();
    let mut fl = soft_faults();
    for k in &[Fk::TornWrite, Fk::TornRead] {
        fl.p[*k as usize] = [100, 300, 20, 0][sim().f.below(4) as usize];
    }
    set_faults(fl);
    let nw = 1 + w().weighted(&[6, 3, 1]);
    let nr = 1 + w().below(4) as usize;
    sim::note_max(1, nr as u64);
    sim::note_max(2, nw as u64);
    let mut recs = Vec::new();
    let mut work = Vec::new();
    for _ in 0..nw {
        let n = 1 + w().below(4);
        let keep = w().chance(500);
        let mut items = Vec::new();
        for _ in 0..n {
            let mut r = any_rec(&SMALL, false);
            let id = recs.len() as u64;
            tag(&mut r, id);
            items.push((id, to_record(&r, &dir), Strat::any()));
            recs.push(r);
        }
        work.push((items, keep));
    }
    let total = recs.len();
    sim::note_max(0, total as u64);
    let path = scratch("a.barc");
    let jobs: Vec<ReaderJob> = (0..nr)
        .map(|_| ReaderJob {
            seed: u64::from(w().below(1 << 30)),
            own_file: w().chance(500),
            random: w().chance(400),
            hold: w().chance(500),
            tune: reader_tune(&dir),
            late: w().chance(300),
        })
        .collect();
    let sh = Arc::new(Shared { bf: BarcFile::new(&path), path: path.clone(), recs, log: Mutex::new(Vec::new()) });
    let mut hs = Vec::new();
    for (items, keep) in work {
        let sh = sh.clone();
        hs.push(thread::spawn(move || c08_writer(&sh, items, keep)));
    }
    for j in jobs {
        let sh = sh.clone();
        hs.push(thread::spawn(move || c08_reader(&sh, &j, total)));
    }
    for h in hs {
        h.join().unwrap();
    }
    // The whole archive once more.
    let mut rd = open(&sh.bf);
    let all: Vec<(u64, Rec)> = (0..sh.len()).map(|k| (sh.at(k).0, sh.recs[sh.at(k).1 as usize].clone())).collect();
    check!(all.len() == total, "missing-record", "{} of {} records accepted", all.len(), total);
    let mut at = 0;
    let tune = reader_tune(&dir);
    for _ in 0..=total {
        read_next(&mut rd, &mut at, &all, &tune);
    }
    describe(format!("{} writers, {} readers, {} records", nw, nr, total));
}

// ------------------------------------------------------------------- C09

/// Make one header block `size` long, without the empty line that ends it.
fn fill(r: &mut Rec, size: usize) {
    let h = match w().below(3) {
        0 => &mut r.meta,
        1 => &mut r.req_h,
        _ => &mut r.res_h,
    };
    sim::raw(|| {
        h.remove("big");
        let used: usize = h.iter().map(|(k, v)| k.as_str().len() + v.len() + 4).sum();
        h.insert("big", "x".repeat(size - used - 7).parse().unwrap());
    });
}

/// The longest header block that can be written in any way.
const FULL: usize = 0xf_fffd;

/// A record that the format cannot hold.
fn oversize(r: &mut Rec) {
    let n = *w().pick(&[0x10_0000usize, 0x10_0001, 0x10_0005, 0x18_0000]);
    fill(r, n);
}

/// The archive holds exactly `recs`.
fn exactly(bf: &BarcFile, recs: &[(u64, Rec)], tune: &Tunables, what: &str) {
    let keep = sim().fl.clone();
    sim().fl.hard_left = 0;
    sim().fl.quota = None;
    sim().fl.full_next = false;
    sim::raw(|| sim().ctx.push(what.to_string()));
    let mut rd = open(bf);
    let mut at = 0;
    for _ in 0..=recs.len() {
        read_next(&mut rd, &mut at, recs, tune);
    }
    if !recs.is_empty() {
        let k = w().below(recs.len() as u32) as usize;
        rd.seek(recs[k].0).unwrap();
        let mut at = k;
        read_next(&mut rd, &mut at, recs, tune);
    }
    sim::raw(|| sim().ctx.pop());
    sim().fl = keep;
}

fn c09() {
    let dir = temp_dir();
    let path = scratch("a.barc");
    let soft = soft_faults();
    let mut bf = BarcFile::new(&path);
    let mut recs: Vec<(u64, Rec)> = Vec::new();
    let mut reader: Option<(BarcReader, usize)> = None;
    let mut failures = 0;
    let rounds = 1 + w().below(5);
    for _ in 0..rounds {
        // One of: no hard fault, a fault now and then, a full disk.
        let mut fl = soft.clone();
        match sim().f.weighted(&[2, 6, 3]) {
            0 => {}
            1 => {
                hard_faults(&mut fl, &[Fk::EnospcWrite, Fk::EioWrite, Fk::EioRead, Fk::EnomemMap]);
                fl.hard_left = fl.hard_left.max(1);
            }
            _ => {
                fl.quota = Some(u64::from(match sim().f.below(3) {
                    0 => sim().f.below(60),
                    1 => sim().f.below(700),
                    _ => sim().f.below(9000),
                }));
            }
        }
        let n = 1 + w().below(3);
        let mut items = Vec::new();
        for _ in 0..n {
            let mut r = any_rec(&SMALL, false);
            let refused = w().chance(40);
            if refused {
                oversize(&mut r);
            } else if w().chance(2) {
                fill(&mut r, FULL);
                cover("longest header block");
            }
            items.push((to_record(&r, &dir), r, Strat::any(), refused));
        }
        let hard = fl.hard_left > 0 || fl.quota.is_some();
        set_faults(fl);
        {
            let wr = bf.writer();
            match wr {
                Ok(mut wr) => {
                    for (rec, r, st, refused) in items {
                        match wr.write(&rec, st.get()) {
                            Ok(off) => {
                                check!(!refused, "accepted", "a record that cannot be represented was accepted");
                                note!("accepted at {}", off);
                                recs.push((off, r));
                            }
                            Err(e) => {
                                note!("append failed: {}", e);
                                failures += 1;
                                if refused {
                                    cover("record refused");
                                } else {
                                    cover("append failed");
                                }
                                check!(refused || hard, "unexpected-error", "append: {}", e);
                            }
                        }
                        if w().chance(150) {
                            let tune = reader_tune(&dir);
                            exactly(&BarcFile::new(&path), &recs, &tune, "while the writer is open");
                        }
                    }
                }
                Err(e) => check!(false, "unexpected-error", "writer: {}", e),
            }
        }
        set_faults(soft.clone());
        if let Some((ref mut rd, ref mut at)) = reader {
            let tune = reader_tune(&dir);
            while *at < recs.len() {
                read_next(rd, at, &recs, &tune);
            }
            read_next(rd, at, &recs, &tune);
            cover("reader from before a failure went on");
        } else if w().chance(400) {
            reader = Some((open(&bf), 0));
        }
        let tune = reader_tune(&dir);
        exactly(&bf, &recs, &tune, "after the round");
        if w().chance(200) {
            bf = BarcFile::new(&path);
        }
    }
    // With storage working again, appends do too.
    set_faults(soft);
    let r = any_rec(&SMALL, false);
    let st = Strat::any();
    let res = match bf.writer() {
        Ok(mut wr) => write(&mut wr, &r, &dir, &st),
        Err(e) => Err(e),
    };
    match res {
        Ok(off) => recs.push((off, r)),
        Err(e) => check!(false, "unexpected-error", "append after recovery: {}", e),
    }
    let tune = reader_tune(&dir);
    exactly(&bf, &recs, &tune, "at the end");
    sim::note_max(0, recs.len() as u64);
    sim::note_max(1, failures);
    describe(format!("{} records, {} failed appends", recs.len(), failures));
}

// ------------------------------------------------------------------- C10

fn c10() {
    let dir = temp_dir();
    let path = scratch("a.barc");
    let soft = soft_faults();
    let mut recs: Vec<(u64, Rec)> = Vec::new();
    // Records being appended when a process ended, by offset.
    let mut open_at: Vec<(u64, Rec)> = Vec::new();
    let lives = 1 + w().below(4);
    let mut ended = 0;
    for life in 0..=lives {
        let mut items = Vec::new();
        let n = 1 + w().below(4);
        for _ in 0..n {
            let r = any_rec(&SMALL, false);
            items.push((to_record(&r, &dir), r, Strat::any()));
        }
        let mut fl = soft.clone();
        if life < lives {
            // The ops of the records to come are counted from here.
            let span = [12, 4, 40, 150][sim().f.below(4) as usize];
            fl.crash_at = Some(sim().mut_ops + 1 + u64::from(sim().f.below(span)));
        }
        set_faults(fl);
        {
            let bf = BarcFile::new(&path);
            let end = sim::raw(|| std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
            match bf.writer() {
                Ok(mut wr) => {
                    let mut end = end;
                    for (rec, r, st) in items {
                        let res = wr.write(&rec, st.get());
                        if sim().dead {
                            cover("process ended while appending");
                            open_at.push((end, r));
                            ended += 1;
                            break;
                        }
                        match res {
                            Ok(off) => {
                                check!(off == end, "offset", "record at {} of an archive of {}", off, end);
                                recs.push((off, r));
                            }
                            Err(e) => check!(false, "unexpected-error", "append: {}", e),
                        }
                        end = sim::raw(|| std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
                    }
                }
                Err(e) => check!(sim().dead, "unexpected-error", "writer: {}", e),
            };
        }
        // A new process.
        sim().dead = false;
        set_faults(soft.clone());
        after_crash(&path, &dir, &recs, &open_at);
    }
    sim::note_max(0, recs.len() as u64);
    sim::note_max(1, ended);
    describe(format!("{} records, {} ends", recs.len(), ended));
}

fn after_crash(path: &PathBuf, dir: &PathBuf, recs: &[(u64, Rec)], open_at: &[(u64, Rec)]) {
    if !sim::raw(|| path.exists()) {
        check!(recs.is_empty(), "missing-record", "no archive");
        return;
    }
    let bf = BarcFile::new(path);
    let tune = reader_tune(dir);
    let mut rd = open(&bf);
    // In order, as far as the first record that was never finished.
    loop {
        let off = rd.offset();
        let want = recs.iter().find(|r| r.0 == off);
        let maybe = open_at.iter().rev().find(|r| r.0 == off);
        match (rd.read(&tune), want, maybe) {
            (Ok(Some(rec)), Some(want), _) => same_record(&rec, &want.1, false, "read in order"),
            (Ok(Some(rec)), None, Some(want)) => {
                cover("complete record of an ended process");
                same_record(&rec, &want.1, false, "last record of an ended process");
            }
            (Ok(Some(_)), None, None) => check!(false, "extra-record", "record at {} was never written", off),
            (Ok(None), Some(_), _) => check!(false, "missing-record", "end of archive at {}", off),
            (Err(e), Some(_), _) => check!(false, "unexpected-error", "accepted record at {}: {}", off, e),
            (Ok(None), None, _) => {
                cover("end after restart");
                break;
            }
            (Err(e), None, _) => {
                note!("error at {}: {}", off, e);
                cover("error after restart");
                break;
            }
        }
    }
    for (off, want) in recs {
        if let Err(e) = rd.seek(*off) {
            check!(false, "unexpected-error", "seek: {}", e);
        }
        match rd.read(&tune) {
            Ok(Some(rec)) => same_record(&rec, want, false, "read by offset"),
            Ok(None) => check!(false, "missing-record", "nothing at {}", off),
            Err(e) => check!(false, "unexpected-error", "accepted record at {}: {}", off, e),
        }
    }
}

// ------------------------------------------------------------------- C11

/// Damage to the bytes; returns the range that may differ from before, if
/// bytes after it keep their place (otherwise the range reaches the end).
fn damage(v: &mut Vec<u8>, recs: &[(u64, Rec)]) -> (usize, usize) {
    let t = w();
    let n = v.len();
    if n == 0 {
        return (0, 0);
    }
    // Some place, often in a head.
    let (k, base) = {
        let k = t.below(recs.len() as u32) as usize;
        (k, recs[k].0 as usize)
    };
    let place = |t: &mut crate::tape::Tape| -> usize {
        match t.below(3) {
            0 => (base + t.below(54) as usize).min(n - 1),
            1 => (base + 54 + t.below(200) as usize).min(n - 1),
            _ => t.below(n as u32) as usize,
        }
    };
    match t.weighted(&[4, 4, 3, 3, 8, 2, 2]) {
        0 => {
            let at = place(t);
            v.truncate(at);
            (at, usize::MAX)
        }
        1 => {
            let at = place(t);
            v[at] ^= 1 << t.below(8);
            (at, at + 1)
        }
        2 => {
            let at = place(t);
            let len = (1 + t.below(100) as usize).min(n - at);
            let mut r = Rng::new(u64::from(t.below(1 << 20)));
            for b in &mut v[at..at + len] {
                *b = match t.below(3) {
                    0 => 0,
                    1 => r.below(256) as u8,
                    _ => b"0123456789abcdefRDPZB \r\n"[r.below(24) as usize],
                };
            }
            (at, at + len)
        }
        3 => {
            // Cut bytes out, or put some in.
            let at = place(t);
            let len = 1 + t.below(80) as usize;
            if t.chance(500) {
                v.drain(at..(at + len).min(n));
            } else {
                let extra: Vec<u8> = (0..len).map(|i| v[(at + i) % n]).collect();
                let tail = v.split_off(at);
                v.extend(extra);
                v.extend(tail);
            }
            (at, usize::MAX)
        }
        4 => {
            // A forged field in a head.
            let fields: [(usize, usize); 5] = [(6, 12), (22, 5), (28, 5), (34, 10), (45, 5)];
            let (o, l) = fields[t.below(5) as usize];
            let cur = v
                .get(base + o..base + o + l)
                .and_then(|s| std::str::from_utf8(s).ok())
                .and_then(|s| u64::from_str_radix(s, 16).ok())
                .unwrap_or(0);
            let val = match t.below(9) {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => u64::MAX >> 1,
                4 => cur + 1,
                5 => cur.saturating_sub(1),
                6 => cur.saturating_sub(2),
                7 => cur + u64::from(t.below(5000)),
                _ => u64::from(t.below(0x10_0000)),
            };
            let s = format!("{:0w$x}", val & ((1u64 << (4 * l as u32)) - 1), w = l);
            if base + o + l <= n {
                v[base + o..base + o + l].copy_from_slice(s.as_bytes());
            }
            (base + o, base + o + l)
        }
        5 => {
            // Another type or compression.
            let at = base + 19 + t.below(2) as usize;
            if at < n {
                v[at] = *t.pick(b"RDPZBX");
            }
            (at, at + 1)
        }
        _ => {
            // Another record's bytes over this one's.
            let from = recs[(k + 1) % recs.len()].0 as usize;
            let at = place(t);
            let from = from.min(n);
            let len = (54 + t.below(300) as usize).min(n - at).min(n - from);
            let b: Vec<u8> = v[from..from + len].to_vec();
            v[at..at + len].copy_from_slice(&b);
            (at, at + len)
        }
    }
}

fn c11() {
    let dir = temp_dir();
    let path = scratch("a.barc");
    let mut recs: Vec<(u64, Rec)> = Vec::new();
    let bf = BarcFile::new(&path);
    let n = 1 + w().below(4);
    for _ in 0..n {
        let rich = w().chance(50);
        let r = any_rec(&SMALL, rich);
        let st = Strat::any();
        let mut wr = bf.writer().unwrap();
        match write(&mut wr, &r, &dir, &st) {
            Ok(off) => recs.push((off, r)),
            Err(e) => check!(false, "unexpected-error", "write: {}", e),
        }
    }
    let mut bytes = sim::raw(|| std::fs::read(&path).unwrap());
    let full = bytes.len();
    let nd = w().weighted(&[1, 8, 3, 2]);
    // Where record k ends.
    let end = |k: usize| -> usize { if k + 1 < recs.len() { recs[k + 1].0 as usize } else { full } };
    let mut hurt = vec![false; recs.len()];
    let mut shifted = false;
    let whole = sim::raw(|| bytes.clone());
    for _ in 0..nd {
        let (a, b) = sim::raw(|| damage(&mut bytes, &recs));
        if b == usize::MAX && bytes.len() != a {
            shifted = true;
        }
        for k in 0..recs.len() {
            if a < end(k) && b > recs[k].0 as usize {
                hurt[k] = true;
            }
        }
        note!("damage {}..{}", a, b);
    }
    sim::raw(|| std::fs::write(&path, &bytes).unwrap());
    sim::note_max(0, recs.len() as u64);
    sim::note_max(1, nd as u64);
    let mut fl = soft_faults();
    let hard = sim().f.below(3) == 1;
    if hard {
        hard_faults(&mut fl, &[Fk::EioRead, Fk::FailOpen, Fk::EnospcWrite, Fk::EnomemMap]);
    }
    let tune = {
        let t = tunables(&dir);
        let small = w().chance(300) && (bytes.len() < 0x1_0000 || t.t.buffer_size_fs() >= 64);
        if small { t.t } else { reader_tune(&dir) }
    };
    let mut rd = open(&bf);
    set_faults(fl);
    // Room for the format's largest header blocks, the body buffers, the
    // archive itself and the decoders.
    let bound = 40 * 1024 * 1024 + 4 * tune.max_body_ram() + 2 * bytes.len() as u64 + 8 * tune.buffer_size_fs() as u64;
    let reads = 3 + w().below(8);
    for i in 0..reads {
        // In order at first, then anywhere.
        if i > 3 || w().chance(200) {
            let off = match w().below(4) {
                0 => u64::from(w().below(bytes.len() as u32 + 100)),
                1 if w().chance(100) => u64::MAX >> w().below(3),
                _ => recs[w().below(recs.len() as u32) as usize].0,
            };
            if rd.seek(off).is_err() {
                continue;
            }
        }
        let off = rd.offset();
        let k = recs.iter().position(|r| r.0 == off);
        let (res, peak) = crate::alloc::peak(|| rd.read(&tune));
        sim::note_max(2, peak >> 10);
        check!(peak <= bound, "memory", "{} bytes used for a read of an archive of {}", peak, bytes.len());
        match res {
            Ok(Some(rec)) => {
                check!(rd.offset() > off, "offset", "offset {} after a record at {}", rd.offset(), off);
                match k {
                    Some(k) if !hurt[k] => {
                        same_record(&rec, &recs[k].1, hard, "undamaged record");
                        check!(rd.offset() == end(k) as u64, "offset", "offset {} after record {}", rd.offset(), k);
                    }
                    k => {
                        // The head is as it was, so only the content is not.
                        if let Some(k) = k {
                            let at = recs[k].0 as usize;
                            let head = at..at + 54;
                            if !shifted && bytes.get(head.clone()) == Some(&whole[head]) {
                                check!(bytes.len() >= end(k), "damage-accepted", "record {} of {} bytes returned, with {} of them missing",
                                       k, end(k) - at, end(k) - bytes.len());
                                if whole[at + 20] == b'Z' {
                                    cover("harmless damage");
                                    same_record(&rec, &recs[k].1, hard, "damaged compressed record");
                                }
                            }
                        }
                        cover("damaged record read");
                        use_record(rec, hard);
                    }
                }
            }
            Ok(None) => {
                check!(rd.offset() == off, "offset", "offset moved from {} to {} at the end", off, rd.offset());
                if let Some(k) = k {
                    check!(hurt[k], "missing-record", "undamaged record {} missing", k);
                }
            }
            Err(e) => {
                note!("read at {}: {}", off, e);
                cover("damage reported");
                check!(rd.offset() == off, "offset", "offset moved from {} to {} on error", off, rd.offset());
                if let Some(k) = k {
                    let long = recs[k].1.res_b.len() as u64 > tune.max_body();
                    check!(hurt[k] || hard || long, "unexpected-error", "undamaged record {}: {}", k, e);
                }
            }
        }
    }
    describe(format!("{} records, {} damages, {} of {} bytes", recs.len(), nd, bytes.len(), full));
}

/// A record from damaged bytes is still sound: each body delivers its length.
fn use_record(rec: Record, hard: bool) {
    for b in [rec.req_body, rec.res_body].iter_mut() {
        let len = b.len();
        if w().chance(300) {
            if let Err(e) = b.mem_map() {
                check!(hard, "unexpected-error", "mem_map of {} bytes: {}", len, e);
            }
        }
        let mut t = Taker::new();
        match b.write_to(&mut t) {
            Ok(n) => check!(n == len && t.got.len() as u64 == len, "length", "{} bytes of a body of {}", n, len),
            Err(e) => check!(hard, "unexpected-error", "write_to: {}", e),
        }
    }
    let _ = barc_dialog(rec_parts(rec.meta, rec.req_headers, rec.res_headers));
}

fn rec_parts(meta: http::HeaderMap, req_headers: http::HeaderMap, res_headers: http::HeaderMap) -> Record {
    Record { meta, req_headers, res_headers, ..Record::default() }
}

fn barc_dialog(rec: Record) -> bool {
    use std::convert::TryFrom;
    body_image::Dialog::try_from(rec).is_ok()
}
