//! C01 and C02: one body, any sequence of collecting, converting and reading.

use std::fs::File;
use std::io::{Cursor, Read, Seek, SeekFrom, Write};
use std::sync::Arc;

use body_image::{BodyImage, BodyReader, BodySink, ExplodedImage};
use bytes::Bytes;
use olio::fs::rc::ReadSlice;

use super::util::*;
use super::Scenario;
use crate::check;
use crate::note;
use crate::sim::{self, cover, sim, w};

pub const C01: Scenario = Scenario {
    id: "C01",
    run: c01,
    quick: 240_000,
    level: "exploration",
    rule: "one run = one random sequence of sink and image operations under a seeded pattern of short, interrupted and torn file operations; non-trivial = at least one content comparison and more than 4 scheduling points; distinct = different hash of the sequence of (thread, operation, file, arguments, result)",
    assumptions: &["short, interrupted and split reads and writes are transparent to a correct caller"],
    notes: &["largest_body"],
    cli: false,
};

pub const C02: Scenario = Scenario {
    id: "C02",
    run: c02,
    quick: 280_000,
    level: "exploration",
    rule: "one run = one random sequence of sink and image operations with failing file system calls (no space after part of a write, I/O error, failed open, failed map); non-trivial = at least one content comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["seeking in a regular file and shortening it do not fail"],
    notes: &["largest_body"],
    cli: false,
};

fn c01() {
    if w().chance(50) {
        cover("asynchronous");
        return super::asy::nothing_left(false);
    }
    set_faults(soft_faults());
    run(false);
    if w().chance(10) {
        long();
    }
}

/// A body whose length needs 32 bits or more, mostly a hole in its file.
fn long() {
    let dir = sim::raw(|| std::path::PathBuf::from(scratch("tmp")));
    let before = u64::from(w().below(2) * w().below(5000));
    let len = *w().pick(&[0x7fff_fff0u64, 0xffff_fff0, 0x1_0000_0000]) + u64::from(w().below(0x3000));
    let first = Content::any().bytes(1 + w().below(9000) as usize);
    let last = Content::any().bytes(first.len());
    let path = dir.join("long");
    crate::orch::allow_hole(before + len + 100);
    sim::raw(|| {
        use std::os::unix::fs::FileExt;
        let f = File::create(&path).unwrap();
        f.set_len(before + len + 100).unwrap();
        f.write_all_at(&first, before).unwrap();
        f.write_all_at(&last, before + len - last.len() as u64).unwrap();
    });
    crate::orch::end_holes();
    let f = File::open(&path).unwrap();
    sim::raw(|| std::fs::remove_file(&path).unwrap());
    let b = unsafe {
        if before == 0 && w().chance(500) {
            BodyImage::from_file(f, len)
        } else {
            BodyImage::from_read_slice(ReadSlice::new(Arc::new(f), before, before + len))
        }
    };
    check!(b.len() == len && !b.is_empty() && !b.is_ram(), "length", "{} instead of {}", b.len(), len);
    let c = b.clone();
    let mut t = Taker::new();
    t.fail_at = Some(w().below(first.len() as u32) as usize);
    let r = b.write_to(&mut t);
    check!(r.is_err() && t.failed, "swallowed-error", "write_to of {} bytes: {:?}", len, r.map_err(|_| ()));
    same("content", "write_to", &t.got, &first[..t.got.len()]);
    let mut ends = |rs: &mut ReadSlice| {
        check!(rs.len() == len, "length", "{} instead of {}", rs.len(), len);
        let mut v = vec![0u8; first.len()];
        for (p, x) in &[(0, &first), (len - last.len() as u64, &last)] {
            let r = rs.seek(SeekFrom::Start(*p)).and_then(|_| rs.read_exact(&mut v));
            check!(r.is_ok(), "unexpected-error", "read at {} of {}: {:?}", p, len, r);
            same("content", "long body", &v, x);
        }
        loop {
            match rs.read(&mut v) {
                Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                r => {
                    check!(matches!(r, Ok(0)), "content", "read at the end: {:?}", r);
                    break;
                }
            }
        }
    };
    if let BodyReader::FileSlice(mut rs) = c.reader() {
        ends(&mut rs);
    }
    if let ExplodedImage::FsRead(mut rs) = c.explode() {
        ends(&mut rs);
    }
    cover("body beyond 2 GiB");
}

fn c02() {
    if w().chance(100) {
        cover("asynchronous");
        return super::asy::nothing_left(true);
    }
    let mut fl = soft_faults();
    hard_faults(&mut fl, HARD_FS);
    if sim().f.below(6) == 1 {
        fl.quota = Some(u64::from(sim().f.below(20000)));
    }
    set_faults(fl);
    run(true);
}

pub struct Img {
    pub b: BodyImage,
    pub want: Vec<u8>,
}

fn run(hard: bool) {
    let dir = temp_dir();
    let tune = tunables(&dir);
    let anchors = [tune.ram, 1024, 4096, 8192, tune.t.buffer_size_fs() as u64];
    let n = 1 + w().below(3);
    let mut imgs: Vec<Img> = Vec::new();
    for _ in 0..n {
        if let Some(i) = make(&dir, &anchors, hard) {
            imgs.push(i);
        }
    }
    let mut total = 0;
    for i in &imgs {
        total = total.max(i.want.len());
    }
    sim::note_max(0, total as u64);
    let ops = 1 + w().below(6);
    for _ in 0..ops {
        if imgs.is_empty() {
            break;
        }
        let k = w().below(imgs.len() as u32) as usize;
        image_op(&mut imgs, k, hard);
    }
    // Whatever failed before, what is left is whole.
    if hard {
        no_faults();
    }
    let left = imgs.len();
    for i in imgs {
        full_check(i, hard);
    }
    describe(format!("{} images, largest {} bytes, tunables ram={} fs_buf={}", left, total,
                     tune.ram, tune.t.buffer_size_fs()));
}

/// Collect a body. None if a fault ended it.
pub fn make(dir: &std::path::PathBuf, anchors: &[u64], hard: bool) -> Option<Img> {
    let c = Content::any();
    match w().weighted(&[12, 1, 2, 2]) {
        1 => {
            cover("image from slice");
            let want = c.bytes(length(anchors, true));
            return Some(Img { b: BodyImage::from_slice(want.clone()), want });
        }
        2 => {
            cover("image from file");
            return from_file(dir, &c, anchors, false);
        }
        3 => {
            cover("image from part of a file");
            return from_file(dir, &c, anchors, true);
        }
        _ => {}
    }
    let mut want: Vec<u8> = Vec::new();
    let mut sink = match w().below(4) {
        0 => BodySink::empty(),
        1 => BodySink::with_ram(u64::from(w().below(50_000))),
        2 => BodySink::with_ram_buffers(w().below(5) as usize),
        _ => match BodySink::with_fs(dir) {
            Ok(s) => {
                check!(!s.is_ram(), "state", "with_fs sink says it is in RAM");
                s
            }
            Err(e) => {
                check!(hard, "unexpected-error", "with_fs: {}", e);
                cover("sink creation failed");
                return None;
            }
        },
    };
    // Sometimes of very many small pieces.
    let many = w().chance(30);
    let ops = if many { 10 + w().below(600) } else { w().below(9) };
    let mut at = 0u64;
    for _ in 0..ops {
        let k = if many && !w().chance(2) { w().below(2) } else { w().weighted(&[5, 5, 2, 1]) as u32 };
        match k {
            0 | 1 | 3 => {
                let l = if many { w().below(60) as usize } else { length(anchors, w().chance(60)) };
                let mut piece = vec![0u8; l];
                c.fill(at, &mut piece);
                at += l as u64;
                let r = match k {
                    0 => match w().below(3) {
                        0 => sink.push(piece.clone()),
                        1 => sink.push(Bytes::from(piece.clone())),
                        _ => sink.push(Bytes::from(piece.clone()).slice(..)),
                    },
                    1 => sink.write_all(&piece[..]),
                    #[allow(deprecated)]
                    _ => sink.save(piece.clone()).map_err(|e| match e {
                        body_image::BodyError::Io(e) => e,
                        _ => std::io::Error::new(std::io::ErrorKind::Other, "?"),
                    }),
                };
                match r {
                    Ok(()) => want.extend_from_slice(&piece),
                    Err(e) => {
                        check!(hard, "unexpected-error", "push of {} bytes: {}", l, e);
                        cover("push failed");
                        check!(!sink.is_ram(), "unexpected-error", "push to RAM failed: {}", e);
                    }
                }
                note!("push {} -> {:?} len {}", l, k, sink.len());
            }
            _ => {
                let was = sink.is_ram();
                match sink.write_back(dir) {
                    Ok(_) => {
                        if was {
                            cover("moved to file");
                        }
                        check!(!sink.is_ram(), "state", "still in RAM after being moved to a file");
                    }
                    Err(e) => {
                        check!(hard, "unexpected-error", "write_back: {}", e);
                        cover("move to file failed");
                        check!(sink.is_ram(), "state", "sink not in RAM after failed move");
                        check!(sink.len() == 0 && sink.is_empty(), "length",
                               "sink has length {} after failed move", sink.len());
                        want.clear();
                    }
                }
            }
        }
        check!(sink.len() == want.len() as u64, "length", "sink length {} but {} accepted",
               sink.len(), want.len());
        check!(sink.is_empty() == want.is_empty(), "length", "sink is_empty wrong");
    }
    let was_ram = sink.is_ram();
    match sink.prepare() {
        Ok(b) => {
            check!(b.len() == want.len() as u64, "length", "image length {} but {} accepted",
                   b.len(), want.len());
            if was_ram {
                check!(b.is_ram(), "state", "RAM sink became a file image");
            }
            Some(Img { b, want })
        }
        Err(e) => {
            check!(hard, "unexpected-error", "prepare: {}", e);
            None
        }
    }
}

fn from_file(dir: &std::path::PathBuf, c: &Content, anchors: &[u64], part: bool) -> Option<Img> {
    let l = length(anchors, true);
    let all = c.bytes(l);
    let path = dir.join("given");
    let hole = if part { hole() } else { 0 };
    sim::raw(|| write_after(&path, hole, &all));
    let f = match File::open(&path) {
        Ok(f) => f,
        Err(_) => {
            sim::raw(|| std::fs::remove_file(&path).unwrap());
            return None;
        }
    };
    sim::raw(|| std::fs::remove_file(&path).unwrap());
    if part {
        let a = w().below(l as u32 + 1) as usize;
        let e = a + w().below((l - a) as u32 + 1) as usize;
        let mut rs = ReadSlice::new(Arc::new(f), hole + a as u64, hole + e as u64);
        if w().chance(150) {
            // The position of the slice given is not part of the body.
            let _ = rs.seek(SeekFrom::Start(u64::from(w().below((e - a) as u32 + 1))));
        }
        let want = all[a..e].to_vec();
        Some(Img { b: unsafe { BodyImage::from_read_slice(rs) }, want })
    } else {
        let len = if w().chance(300) { w().below(l as u32 + 1) as usize } else { l };
        Some(Img { b: unsafe { BodyImage::from_file(f, len as u64) }, want: all[..len].to_vec() })
    }
}

/// Read to the end in arbitrary pieces. Err if a fault was reported.
pub fn read_all(r: &mut dyn Read, hard: bool, want: &[u8], what: &str) -> bool {
    let step = *w().pick(&[8192usize, 1, 2, 7, 100, 1000, 4096, 65536]);
    read_by(r, hard, want, what, step)
}

pub fn read_by(r: &mut dyn Read, hard: bool, want: &[u8], what: &str, step: usize) -> bool {
    let step = if want.len() / step > 500 { 4096 } else { step };
    let mut buf = vec![0u8; step];
    let mut pos = 0;
    loop {
        match r.read(&mut buf) {
            Ok(0) => break,
            Ok(n) => {
                check!(n <= buf.len(), "read-count", "{}: read returned {} of {}", what, n, buf.len());
                let ok = pos + n <= want.len() && buf[..n] == want[pos..pos + n];
                check!(ok, "content", "{}: wrong bytes at {} (+{}) of {}", what, pos, n, want.len());
                pos += n;
            }
            Err(ref e) if e.kind() == std::io::ErrorKind::Interrupted => {}
            Err(e) => {
                check!(hard, "unexpected-error", "{}: {}", what, e);
                cover("read failed");
                return false;
            }
        }
    }
    check!(pos == want.len(), "short-body", "{}: {} of {} bytes", what, pos, want.len());
    true
}

pub fn check_write_to(b: &BodyImage, want: &[u8], hard: bool) {
    let mut t = Taker::new();
    t.jitter = jitter();
    if want.len() < 100_000 && w().chance(100) {
        t.fail_at = Some(w().below(want.len() as u32 + 20) as usize);
    }
    // The file may turn out shorter than the body.
    let short = hard && sim().f.chance(300);
    if short {
        sim().fl.p[sim::Fk::EofRead as usize] = 300;
    }
    let r = b.write_to(&mut t);
    if short {
        sim().fl.p[sim::Fk::EofRead as usize] = 0;
    }
    match r {
        Ok(n) => {
            check!(!t.failed, "swallowed-error", "write_to succeeded although the writer failed");
            check!(n == want.len() as u64, "length", "write_to returned {} of {}", n, want.len());
            same("content", "write_to", &t.got, want);
        }
        Err(e) => {
            check!(hard || t.failed, "unexpected-error", "write_to: {}", e);
            check!(t.got.len() <= want.len() && t.got[..] == want[..t.got.len()], "content",
                   "failed write_to wrote bytes that are not a prefix of the body");
            cover("write_to failed");
        }
    }
}

pub fn check_explode(b: BodyImage, want: &[u8], hard: bool) {
    match b.explode() {
        ExplodedImage::Ram(v) => {
            cover("exploded RAM");
            let mut all = Vec::new();
            for x in &v {
                all.extend_from_slice(x);
            }
            same("content", "exploded buffers", &all, want);
        }
        ExplodedImage::FsRead(mut rs) => {
            cover("exploded file");
            check!(rs.len() == want.len() as u64, "length", "exploded slice length {} of {}",
                   rs.len(), want.len());
            read_all(&mut rs, hard, want, "exploded slice");
        }
        ExplodedImage::MemMap(m) => {
            cover("exploded map");
            same("content", "exploded map", &m[..], want);
        }
    }
}

pub fn image_op(imgs: &mut Vec<Img>, k: usize, hard: bool) {
    match w().below(9) {
        0 => {
            let i = &imgs[k];
            let mut r = i.b.reader();
            read_all(&mut r, hard, &i.want, "reader");
        }
        1 => check_write_to(&imgs[k].b, &imgs[k].want, hard),
        2 => {
            let b = imgs[k].b.clone();
            let want = imgs[k].want.clone();
            if imgs.len() < 5 {
                imgs.push(Img { b, want });
            }
        }
        3 => {
            let i = &mut imgs[k];
            i.b.gather();
            cover("gathered");
            if i.b.is_ram() {
                let ok = matches!(i.b.reader(), BodyReader::Contiguous(_));
                check!(ok, "state", "gathered body is still scattered");
            }
        }
        4 => {
            let i = &mut imgs[k];
            let ram = i.b.is_ram();
            match i.b.mem_map() {
                Ok(_) => {
                    if !ram {
                        check!(i.b.is_mem_map(), "state", "body not mapped after mem_map");
                        cover("mapped");
                    }
                    check!(i.b.is_ram() == ram, "state", "mem_map changed RAM state");
                }
                Err(e) => {
                    check!(hard, "unexpected-error", "mem_map: {}", e);
                    cover("map failed");
                }
            }
        }
        5 => {
            let b = imgs[k].b.clone();
            check_explode(b, &imgs[k].want, hard);
        }
        6 => {
            // Two readers, interleaved.
            let i = &imgs[k];
            let mut a = i.b.reader();
            let mut b = i.b.reader();
            let mut tmp = [0u8; 10];
            if let Ok(n) = a.read(&mut tmp) {
                let ok = n <= i.want.len() && tmp[..n] == i.want[..n];
                check!(ok, "content", "first bytes wrong");
            }
            read_all(&mut b, hard, &i.want, "second reader");
        }
        7 => {
            if imgs.len() > 1 {
                imgs.remove(k);
                cover("image dropped");
            }
        }
        _ => {
            // Collect again from the reader.
            let want = imgs[k].want.clone();
            let mut s = BodySink::empty();
            let r = {
                let mut r = imgs[k].b.reader();
                let mut v = Vec::new();
                r.read_to_end(&mut v).map(|_| v)
            };
            match r {
                Ok(v) => {
                    same("content", "read_to_end", &v, &want);
                    s.push(v).unwrap();
                    imgs[k] = Img { b: s.prepare().unwrap(), want };
                }
                Err(e) => check!(hard, "unexpected-error", "read_to_end: {}", e),
            }
        }
    }
    let i = imgs.get(k);
    if let Some(i) = i {
        check!(i.b.len() == i.want.len() as u64, "length", "image length {} instead of {}",
               i.b.len(), i.want.len());
        check!(i.b.is_empty() == i.want.is_empty(), "length", "is_empty wrong");
    }
}

/// Every way of reading, on an image and on a mapped and gathered clone.
pub fn full_check(i: Img, hard: bool) {
    let _ = hard;
    let soft = false;
    {
        let mut r = i.b.reader();
        read_all(&mut r, soft, &i.want, "reader");
    }
    let mut t = Cursor::new(Vec::new());
    match i.b.write_to(&mut t) {
        Ok(n) => check!(n == i.want.len() as u64, "length", "write_to returned {} of {}", n, i.want.len()),
        Err(e) => check!(false, "unexpected-error", "write_to: {}", e),
    }
    same("content", "write_to", t.get_ref(), &i.want);
    let _ = t.flush();
    let mut m = i.b.clone();
    m.gather();
    if let Err(e) = m.mem_map() {
        check!(false, "unexpected-error", "mem_map: {}", e);
    }
    match m.reader() {
        BodyReader::Contiguous(c) => same("content", "contiguous", c.into_inner(), &i.want),
        _ => check!(false, "state", "mapped or gathered body is not contiguous"),
    }
    let mut t = Cursor::new(Vec::new());
    match m.write_to(&mut t) {
        Ok(_) => same("content", "mapped write_to", t.get_ref(), &i.want),
        Err(e) => check!(false, "unexpected-error", "mapped write_to: {}", e),
    }
    drop(m);
    if w().chance(500) {
        check_explode(i.b.clone(), &i.want, soft);
    }
    check_explode(i.b, &i.want, soft);
}
