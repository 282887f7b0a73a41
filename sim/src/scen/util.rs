//! Generators, simulated sources and writers, and comparisons.

use std::io::{self, Read, Write};
use std::path::PathBuf;
use std::sync::Arc;

use body_image::{BodyImage, BodySink, Tunables, Tuner};
use bytes::Bytes;
use olio::fs::rc::ReadSlice;

use crate::check;
use crate::sim::{self, sim, w, Faults, Fk};

/// Position dependent content, so that any gap, repeat or swap shows.
#[derive(Clone, Copy, Debug)]
pub struct Content {
    pub style: u32,
    pub salt: u64,
}

impl Content {
    pub fn any() -> Content {
        Content { style: w().below(4), salt: u64::from(w().below(1000)) + 1 }
    }
    pub fn at(&self, i: u64) -> u8 {
        match self.style {
            // Compressible text with a counter.
            1 => {
                let line = i / 16;
                match i % 16 {
                    15 => b'\n',
                    k if k < 8 => b"0123456789abcdef"[((line >> (4 * (7 - k))) & 15) as usize],
                    k => b'a' + ((self.salt + k + line / 7) % 26) as u8,
                }
            }
            // Full of CR and LF.
            2 => match crate::tape::mix(self.salt, i) % 3 {
                0 => b'\r',
                1 => b'\n',
                _ => (i % 251) as u8,
            },
            // Long runs.
            3 => ((i / 4096 + self.salt) % 255) as u8,
            _ => {
                let z = (i ^ (self.salt << 32)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                ((z >> 40) ^ (z >> 56)) as u8
            }
        }
    }
    pub fn fill(&self, from: u64, buf: &mut [u8]) {
        for (k, b) in buf.iter_mut().enumerate() {
            *b = self.at(from + k as u64);
        }
    }
    pub fn bytes(&self, len: usize) -> Vec<u8> {
        sim::raw(|| {
            let mut v = vec![0u8; len];
            self.fill(0, &mut v);
            v
        })
    }
}

/// A length, biased to the boundaries given. `big` allows lengths of more
/// than 64 KiB now and then.
pub fn length(anchors: &[u64], big: bool) -> usize {
    let t = w();
    let k = t.weighted(&[3, 6, 12, 3, 4, if big { 2 } else { 0 }]);
    let v: u64 = match k {
        0 => u64::from(t.below(4)),
        1 => u64::from(t.below(64)),
        2 if !anchors.is_empty() => {
            let a = *t.pick(anchors);
            let d = [0i64, 1, -1, 2, -2, 3, -3, 7][t.below(8) as usize];
            (a as i64 + d).max(0) as u64
        }
        3 => (1u64 << t.below(14)) + u64::from(t.below(3)).saturating_sub(1),
        4 => u64::from(t.below(6000)),
        _ => match t.below(5) {
            0 => 0x1_0000 + u64::from(t.below(0x1_0000)),
            1 => 0x2_ff00 + u64::from(t.below(0x200)),
            2 => 0x3_0000 + u64::from(t.below(3)),
            3 => 0x10_0000 + u64::from(t.below(5000)),
            _ => 0x5_0000 + u64::from(t.below(0x1_0000)),
        },
    };
    v.min(sim().io.length_max) as usize
}

pub struct Tune {
    pub t: Tunables,
    pub ram: u64,
    pub max: u64,
}

/// Tunables small enough that short bodies meet every limit; sometimes the
/// defaults.
pub fn tunables(dir: &PathBuf) -> Tune {
    let t = w();
    let mut b = Tuner::new();
    b.set_temp_dir(dir.as_path());
    let mut ram = 192 * 1024;
    let mut max = 1024 * 1024 * 1024;
    if !t.chance(120) {
        ram = u64::from(*t.pick(&[64u32, 0, 1, 2, 100, 1024, 1025, 2048, 4096, 8192, 40000]));
        max = ram
            + match t.below(6) {
                0 => 1 << 30,
                1 => 0,
                2 => 1,
                3 => u64::from(t.below(3000)),
                4 => 4096,
                _ => 60000,
            };
        b.set_max_body(max);
        b.set_max_body_ram(ram);
        b.set_buffer_size_ram(*t.pick(&[512, 1, 2, 63, 1023, 1024, 1025, 2048, 4096, 8192]));
        b.set_buffer_size_fs(*t.pick(&[1024, 1, 3, 64, 4096, 5000, 65536]));
        if t.chance(300) {
            b.set_size_estimate_gzip(*t.pick(&[1, 2, 10, 1000]));
            b.set_size_estimate_deflate(*t.pick(&[1, 2, 10, 1000]));
            b.set_size_estimate_brotli(*t.pick(&[1, 2, 10, 1000]));
        }
    }
    Tune { t: b.finish(), ram, max }
}

pub fn temp_dir() -> PathBuf {
    sim::raw(|| {
        let p = PathBuf::from(format!("{}/tmp", sim().scratch));
        let _ = std::fs::create_dir_all(&p);
        p
    })
}

pub fn scratch(name: &str) -> PathBuf {
    PathBuf::from(format!("{}/{}", sim().scratch, name))
}

/// Bytes of a sparse file before the part of interest: usually none, now and
/// then so many that offsets need 32 bits or more.
pub fn hole() -> u64 {
    if !w().chance(25) {
        return 0;
    }
    sim::cover("beyond 2 GiB");
    let n = *w().pick(&[0x7fff_0000u64, 0xffff_0000, 0x1_0000_0000]) + u64::from(w().below(0x1_2000));
    crate::orch::allow_hole(n);
    n
}

/// Write a file of a hole and then `v`.
pub fn write_after(path: &std::path::Path, hole: u64, v: &[u8]) {
    use std::io::Seek;
    let mut f = std::fs::File::create(path).unwrap();
    f.set_len(hole).unwrap();
    f.seek(io::SeekFrom::Start(hole)).unwrap();
    f.write_all(v).unwrap();
}

/// Transparent faults for this run: usually some subset, sometimes none.
pub fn soft_faults() -> Faults {
    let f = &mut sim().f;
    let mut fl = Faults::none();
    if f.below(5) != 0 {
        let lv = [20u32, 80, 300, 5];
        for k in &[Fk::ShortRead, Fk::EintrRead, Fk::ShortWrite, Fk::EintrWrite,
                   Fk::TornRead, Fk::TornWrite, Fk::SpuriousWake] {
            if f.below(2) == 1 {
                fl.p[*k as usize] = lv[f.below(4) as usize];
            }
        }
        fl.no_tmpfile = f.below(4) == 1;
    }
    fl
}

/// Add hard faults: usually few and at random places.
pub fn hard_faults(fl: &mut Faults, kinds: &[Fk]) {
    let f = &mut sim().f;
    fl.hard_left = [0, 1, 1, 2, 3, 1000][f.below(6) as usize];
    let lv = [60u32, 200, 15, 600];
    for k in kinds {
        if f.below(3) != 0 {
            fl.p[*k as usize] = lv[f.below(4) as usize];
        }
    }
}

pub const HARD_FS: &[Fk] = &[
    Fk::EnospcWrite, Fk::EioWrite, Fk::EioRead, Fk::FailOpen, Fk::EnomemMap,
    Fk::FailMadvise, Fk::FailSync, Fk::EnospcTruncate,
];

pub fn set_faults(fl: Faults) {
    sim().fl = fl;
}
pub fn no_faults() {
    let t = sim().fl.no_tmpfile;
    sim().fl = Faults::none();
    sim().fl.no_tmpfile = t;
}

/// A byte source that returns its bytes in arbitrary pieces, is interrupted,
/// and may fail at a position.
pub struct Source {
    pub c: Content,
    pub len: u64,
    pub pos: u64,
    pub fail_at: Option<u64>,
    /// Which of SOURCE_ERRS, and whether the source goes on afterwards.
    pub kind: usize,
    pub once: bool,
    pub failed: bool,
    pub jitter: u32,
    pub calls: u64,
    pub eofs: u64,
}

impl Source {
    pub fn new(c: Content, len: u64) -> Source {
        Source { c, len, pos: 0, fail_at: None, kind: 0, once: false, failed: false, jitter: 0, calls: 0, eofs: 0 }
    }
}

/// How a source may fail.
pub const SOURCE_ERRS: [io::ErrorKind; 8] = [
    io::ErrorKind::ConnectionReset, io::ErrorKind::UnexpectedEof, io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut, io::ErrorKind::InvalidData, io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe, io::ErrorKind::WriteZero,
];

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.calls += 1;
        let f = &mut sim().f;
        if let Some(e) = self.fail_at {
            if self.pos >= e {
                self.failed = true;
                if self.once {
                    self.fail_at = None;
                }
                return Err(io::Error::from(SOURCE_ERRS[self.kind]));
            }
        }
        let end = self.fail_at.unwrap_or(self.len).min(self.len);
        let avail = (end - self.pos).min(buf.len() as u64) as usize;
        if avail == 0 {
            self.eofs += 1;
            return Ok(0);
        }
        let n = if self.jitter == 0 {
            avail
        } else {
            match f.weighted(&[1000 - self.jitter, self.jitter / 3, self.jitter / 3, self.jitter / 3]) {
                0 => avail,
                1 => {
                    sim::count_fault(Fk::EintrRead);
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                2 => 1,
                _ => {
                    sim::count_fault(Fk::ShortRead);
                    1 + f.below(avail.min(1 << 20) as u32) as usize
                }
            }
        }
        .min(avail);
        self.c.fill(self.pos, &mut buf[..n]);
        self.pos += n as u64;
        Ok(n)
    }
}

/// A writer that takes arbitrary pieces, is interrupted, and may fail.
pub struct Taker {
    pub got: Vec<u8>,
    pub jitter: u32,
    pub fail_at: Option<usize>,
    pub failed: bool,
}

impl Taker {
    pub fn new() -> Taker {
        Taker { got: Vec::new(), jitter: 0, fail_at: None, failed: false }
    }
}

impl Write for Taker {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let f = &mut sim().f;
        let mut n = buf.len();
        if let Some(e) = self.fail_at {
            if self.got.len() >= e && n > 0 {
                self.failed = true;
                return Err(io::Error::from(io::ErrorKind::BrokenPipe));
            }
            n = n.min(e - self.got.len());
        }
        if n > 0 && self.jitter > 0 {
            match f.weighted(&[1000 - self.jitter, self.jitter / 2, self.jitter / 2]) {
                0 => {}
                1 => {
                    sim::count_fault(Fk::EintrWrite);
                    return Err(io::Error::from(io::ErrorKind::Interrupted));
                }
                _ => {
                    sim::count_fault(Fk::ShortWrite);
                    n = 1 + f.below(n.min(1 << 20) as u32) as usize;
                }
            }
        }
        sim::raw(|| self.got.extend_from_slice(&buf[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn jitter() -> u32 {
    let f = &mut sim().f;
    [0, 30, 200, 900][f.below(4) as usize]
}

/// Exact comparison, reporting the first difference.
pub fn same(class: &str, what: &str, got: &[u8], want: &[u8]) {
    let eq = got == want;
    check!(eq, class, "{}: {}", what, sim::raw(|| diff(got, want)));
}

pub fn diff(got: &[u8], want: &[u8]) -> String {
    let n = got.len().min(want.len());
    let i = (0..n).find(|i| got[*i] != want[*i]);
    match i {
        Some(i) => format!(
            "lengths {} and {} (expected), first difference at {}: {:?} instead of {:?}",
            got.len(), want.len(), i,
            &got[i..(i + 8).min(got.len())], &want[i..(i + 8).min(want.len())]
        ),
        None => format!("length {} instead of {}", got.len(), want.len()),
    }
}

/// Nothing may be left of temporary files.
pub fn audit_temp(dir: &PathBuf, what: &str) {
    let io = &sim().io;
    let open: Vec<u32> = io.open_fds().iter().filter(|f| f.1.temp).map(|f| f.1.file).collect();
    check!(open.is_empty(), "leak-fd", "{}: temporary files still open: {:?}", what, open);
    check!(io.maps.is_empty(), "leak-map", "{}: {} mappings left", what, io.maps.len());
    audit_names(dir, what);
}

/// What remains of temporary files when the process ends.
pub fn audit_names(dir: &PathBuf, what: &str) {
    let io = &sim().io;
    let names: Vec<String> = sim::raw(|| match std::fs::read_dir(dir) {
        Ok(d) => d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect(),
        Err(_) => Vec::new(),
    });
    check!(names.is_empty(), "leak-name", "{}: files left in the temporary directory: {:?}", what, names);
    let want = dir.to_string_lossy().into_owned();
    for d in &io.temp_dirs {
        check!(d == want.as_bytes(), "stray-temp", "{}: temporary file created in {}", what,
               String::from_utf8_lossy(d));
    }
    check!(io.strays.is_empty(), "stray-temp", "{}: file opened for writing outside: {}", what,
           String::from_utf8_lossy(io.strays.first().map(|v| &v[..]).unwrap_or(b"")));
}

pub fn describe(s: String) {
    sim::raw(|| unsafe { crate::shared::put_str(&mut (*sim().shared).msg, &s) });
}

/// Run `f` simulated but without faults.
pub fn faultless<T>(f: impl FnOnce() -> T) -> T {
    let keep = sim().fl.clone();
    sim().fl = Faults::none();
    sim().fl.no_tmpfile = keep.no_tmpfile;
    let v = f();
    sim().fl = keep;
    v
}

pub const STORED: [&str; 6] = ["RAM", "RAM pieces", "file", "file slice", "map", "slice map"];

/// A body with the content given, in one of the states of STORED.
pub fn stored(dir: &PathBuf, want: &[u8], kind: u32) -> BodyImage {
    faultless(|| match kind {
        0 => {
            let mut s = BodySink::with_ram(want.len() as u64);
            s.push(want.to_vec()).unwrap();
            s.prepare().unwrap()
        }
        1 => {
            let mut s = BodySink::with_ram_buffers(4);
            let mut at = 0;
            while at < want.len() {
                let n = (1 + w().below(5000) as usize).min(want.len() - at);
                s.push(Bytes::copy_from_slice(&want[at..at + n])).unwrap();
                at += n;
            }
            s.prepare().unwrap()
        }
        2 | 4 => {
            let mut s = BodySink::with_fs(dir).unwrap();
            s.write_all(want).unwrap();
            let mut b = s.prepare().unwrap();
            if kind == 4 {
                b.mem_map().unwrap();
            }
            b
        }
        _ => {
            let path = dir.join(format!("given{}", sim().io.next_file));
            let off = w().below(9000) as usize;
            let tail = w().below(100) as usize;
            let hole = hole();
            sim::raw(|| {
                let mut v = vec![0xee; off];
                v.extend_from_slice(want);
                v.extend(vec![0xdd; tail]);
                write_after(&path, hole, &v);
            });
            let off = off as u64 + hole;
            let f = std::fs::File::open(&path).unwrap();
            sim::raw(|| std::fs::remove_file(&path).unwrap());
            let rs = ReadSlice::new(Arc::new(f), off, off + want.len() as u64);
            let mut b = unsafe { BodyImage::from_read_slice(rs) };
            if kind == 5 {
                b.mem_map().unwrap();
            }
            b
        }
    })
}

pub fn any_stored(dir: &PathBuf, want: &[u8]) -> BodyImage {
    stored(dir, want, w().below(6))
}

/// The whole content, read without faults and without scheduling.
pub fn content_of(b: &BodyImage) -> io::Result<Vec<u8>> {
    sim::raw(|| {
        let mut v = Vec::new();
        b.reader().read_to_end(&mut v).map(|_| v)
    })
}
