//! C22: the archive format on disk, by a reader and a writer of it that are
//! independent of the library.

use std::convert::TryFrom;
use std::io::{Read, Write};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;
use std::thread;

use barc::{BarcFile, BrotliCompressStrategy, GzipCompressStrategy, NoCompressStrategy, Record};
use body_image::{Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded};
use http::header::{HeaderMap, HeaderName, HeaderValue};

use super::arc::*;
use super::util::*;
use super::Scenario;
use crate::check;
use crate::note;
use crate::sim::{self, choose_policy, cover, sim, w, Fk};
use crate::tape::{mix, Rng};

pub const C22: Scenario = Scenario {
    id: "C22",
    run: c22,
    quick: 60_000,
    level: "exploration",
    rule: "one run = an archive of 1 to 7 records, each appended by the library or by an independent writer of the format, read by the library in order and by offset and by an independent reader, also at chosen points within appends, under short, interrupted and torn file operations; non-trivial = at least one record comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &[
        "header values do not begin or end with white space (not representable in the format)",
        "gzip and brotli streams are checked with the same libraries that the code under test uses",
    ],
    notes: &["records", "largest_body", "looks_within_appends"],
    cli: false,
};

// ---------------------------------------------------- independent reader

fn hex(b: &[u8]) -> Result<usize, String> {
    let mut v = 0usize;
    for c in b {
        let d = match c {
            b'0'..=b'9' => c - b'0',
            b'a'..=b'f' => c - b'a' + 10,
            _ => return Err(format!("digit {:?} in the head", *c as char)),
        };
        v = v << 4 | d as usize;
    }
    Ok(v)
}

fn block(mut b: &[u8], ended: bool, what: &str) -> Result<HeaderMap, String> {
    let mut h = HeaderMap::new();
    if b.is_empty() {
        return Ok(h);
    }
    if ended {
        if !b.ends_with(b"\r\n\r\n") {
            return Err(format!("{} block without empty line", what));
        }
        b = &b[..b.len() - 2];
    }
    while !b.is_empty() {
        let n = b.windows(2).position(|x| x == b"\r\n").ok_or_else(|| format!("{} line without end", what))?;
        let l = &b[..n];
        b = &b[n + 2..];
        let c = l.iter().position(|x| *x == b':').ok_or_else(|| format!("{} line without colon", what))?;
        let mut v = &l[c + 1..];
        while v.first() == Some(&b' ') {
            v = &v[1..];
        }
        let name = HeaderName::from_bytes(&l[..c]).map_err(|e| format!("{} name: {}", what, e))?;
        let value = HeaderValue::from_bytes(v).map_err(|e| format!("{} value: {}", what, e))?;
        h.append(name, value);
    }
    Ok(h)
}

fn body(b: &[u8], ended: bool, what: &str) -> Result<Vec<u8>, String> {
    if b.is_empty() || !ended {
        return Ok(b.to_vec());
    }
    if b.len() < 3 || !b.ends_with(b"\r\n") {
        return Err(format!("{} body of {} without its end", what, b.len()));
    }
    Ok(b[..b.len() - 2].to_vec())
}

/// The record at `at`: itself and where it ends. None if there is none that
/// is complete.
fn parse(f: &[u8], at: usize) -> Result<Option<(Rec, usize, u8)>, String> {
    if f.len() < at + 54 {
        return Ok(None);
    }
    let h = &f[at..at + 54];
    if h[19] == b'R' {
        return Ok(None);
    }
    for (i, c) in &[(18, b' '), (21, b' '), (27, b' '), (33, b' '), (44, b' '), (50, b'\r'), (51, b'\n'), (52, b'\r'), (53, b'\n')] {
        if h[*i] != *c {
            return Err(format!("byte {} of the head is {:?}", i, h[*i] as char));
        }
    }
    if &h[..6] != b"BARC2 " || h[19] != b'D' {
        return Err(format!("head {:?}", String::from_utf8_lossy(h)));
    }
    let len = hex(&h[6..18])?;
    let sizes = [hex(&h[22..27])?, hex(&h[28..33])?, hex(&h[34..44])?, hex(&h[45..50])?];
    let end = at + 54 + len;
    if f.len() < end {
        return Err(format!("record of {} bytes, {} there", len, f.len() - at - 54));
    }
    let p = &f[at + 54..end];
    let mut all = Vec::new();
    let plain = match h[20] {
        b'P' => {
            all.extend_from_slice(p);
            true
        }
        b'Z' => {
            let mut d = flate2::bufread::GzDecoder::new(p);
            d.read_to_end(&mut all).map_err(|e| format!("gzip: {}", e))?;
            if !d.into_inner().is_empty() {
                return Err("bytes after the gzip stream".into());
            }
            false
        }
        b'B' => {
            brotli::Decompressor::new(p, 4096).read_to_end(&mut all).map_err(|e| format!("brotli: {}", e))?;
            false
        }
        c => return Err(format!("compression {:?}", c as char)),
    };
    let sum: usize = sizes.iter().sum();
    if sum > all.len() {
        return Err(format!("parts of {} in a record of {}", sum, all.len()));
    }
    let mut parts = Vec::new();
    let mut i = 0;
    for n in &sizes {
        parts.push(&all[i..i + n]);
        i += n;
    }
    let rec = Rec {
        meta: block(parts[0], plain, "meta")?,
        req_h: block(parts[1], plain, "request header")?,
        req_b: body(parts[2], plain, "request")?,
        res_h: block(parts[3], plain, "response header")?,
        res_b: body(&all[i..], plain, "response")?,
    };
    Ok(Some((rec, end, h[20])))
}

// ---------------------------------------------------- independent writer

/// The record in the format, with everything left open by it chosen by `r`.
fn compose(rec: &Rec, r: &mut Rng) -> Vec<u8> {
    let mode = [b'P', b'Z', b'B'][r.below(3) as usize];
    let plain = mode == b'P';
    let lines = |h: &HeaderMap, r: &mut Rng| {
        let mut o = Vec::new();
        let odd = r.below(4) == 0;
        for (k, v) in h.iter() {
            for c in k.as_str().bytes() {
                o.push(if odd && r.below(3) == 0 { c.to_ascii_uppercase() } else { c });
            }
            o.extend_from_slice(b": ");
            o.extend_from_slice(v.as_bytes());
            o.extend_from_slice(b"\r\n");
        }
        if plain && !o.is_empty() {
            o.extend_from_slice(b"\r\n");
        }
        o
    };
    let bytes = |b: &[u8]| {
        let mut o = b.to_vec();
        if plain && !o.is_empty() {
            o.extend_from_slice(b"\r\n");
        }
        o
    };
    let parts = [lines(&rec.meta, r), lines(&rec.req_h, r), bytes(&rec.req_b), lines(&rec.res_h, r), bytes(&rec.res_b)];
    let payload = match mode {
        b'P' => parts.concat(),
        b'Z' => {
            let mut b = flate2::GzBuilder::new();
            if r.below(3) == 0 {
                b = b.filename("record").comment("by another").mtime(1_500_000_000);
            }
            if r.below(4) == 0 {
                b = b.extra(vec![1, 2, 3]);
            }
            let mut e = b.write(Vec::new(), flate2::Compression::new(r.below(10) as u32));
            for p in &parts {
                e.write_all(p).unwrap();
                if r.below(4) == 0 {
                    e.flush().unwrap();
                }
            }
            e.finish().unwrap()
        }
        _ => {
            let mut v = Vec::new();
            {
                let q = 2 + r.below(5) as u32;
                let mut e = brotli::CompressorWriter::new(&mut v, 4096, q, 18 + r.below(5) as u32);
                for p in &parts {
                    e.write_all(p).unwrap();
                }
            }
            v
        }
    };
    let mut o = format!(
        "BARC2 {:012x} D{} {:05x} {:05x} {:010x} {:05x}\r\n\r\n",
        payload.len(), mode as char, parts[0].len(), parts[1].len(), parts[2].len(), parts[3].len()
    )
    .into_bytes();
    o.extend_from_slice(&payload);
    o
}

// ---------------------------------------------------------- the scenario

/// What a dialog says besides headers and bodies.
struct Talk {
    method: http::Method,
    url: http::Uri,
    version: http::Version,
    status: http::StatusCode,
    decoded: Vec<Encoding>,
}

struct Item {
    rec: Rec,
    talk: Option<Talk>,
    /// By the independent writer.
    other: bool,
    seed: u64,
    how: How,
}

/// How the library is to compress: with what, and what it is told.
#[derive(Clone, Copy, PartialEq, Debug)]
struct How {
    mode: u8,
    min: u64,
    check: bool,
    level: u32,
}

impl How {
    fn any() -> How {
        let t = w();
        let mode = *t.pick(&[b'P', b'Z', b'B']);
        let level = if mode == b'Z' { t.below(10) } else { 2 + t.below(5) };
        How { mode, min: *t.pick(&[0u64, 1, 100, 1024, 4096, 20_000]), check: t.chance(400), level }
    }

    /// Bytes that count as compressible, at least and at most, and bytes of
    /// bodies that do not.
    fn counted(&self, r: &Rec) -> (u64, u64, u64) {
        let easy = |h: &HeaderMap| h.get("content-type").map_or(false, |v| {
            let s = v.to_str().unwrap_or("").to_lowercase();
            s.starts_with("text/") || s.starts_with("font/")
                || (s.starts_with("application/") && s != "application/octet-stream" && s != "application/zip")
                || s.starts_with("image/svg")
        });
        let known = !self.check || r.meta.get("response-decoded").map_or(false, |v| v.as_bytes().ends_with(b"identity"));
        let (mut least, mut most, mut not) = (0, 0, 0);
        for h in &[&r.meta, &r.req_h, &r.res_h] {
            for (k, v) in h.iter() {
                least += k.as_str().len() + v.len();
                most += k.as_str().len() + v.len() + 4;
            }
            most += 2;
        }
        for (b, yes) in &[(&r.req_b, easy(&r.req_h)), (&r.res_b, known && easy(&r.res_h))] {
            if *yes {
                least += b.len();
                most += b.len();
            } else {
                not += b.len();
            }
        }
        (least as u64, most as u64, not as u64)
    }

    fn judge(&self, k: usize, mode: u8, r: &Rec) {
        let (least, most, not) = sim::raw(|| self.counted(r));
        let what = format!("record {} of {} to {} compressible and {} other bytes: {:?} by {:?}", k, least, most, not, mode as char, self);
        check!(mode == b'P' || mode == self.mode, "compression", "{}", what);
        let need = self.min + not / 2;
        if most < need {
            check!(mode == b'P', "compression", "{}", what);
            cover("too little to compress");
        } else if least > need || least == need && not == 0 {
            check!(mode == self.mode, "compression", "{}", what);
        }
    }
}

fn talk(rec: &mut Rec) -> Talk {
    let t = w();
    let (method, url) = (
        *t.pick(&["GET", "POST", "PUT", "HEAD", "X-ODD"]),
        *t.pick(&["http://host/", "https://u@host:8080/a/b?c=d&e=%20f", "/only/path?q", "*", "host:80", "http://[::1]:3000/x;y=z"]),
    );
    let (vt, version) = *t.pick(&[
        ("HTTP/1.1", http::Version::HTTP_11), ("HTTP/1.0", http::Version::HTTP_10), ("HTTP/2.0", http::Version::HTTP_2),
        ("HTTP/0.9", http::Version::HTTP_09), ("HTTP/3.0", http::Version::HTTP_3),
    ]);
    let (st, status) = *t.pick(&[("200 OK", 200u16), ("204 No Content", 204), ("404 Not Found", 404), ("500 Failed", 500),
                                 ("599 Other", 599), ("299 As You Like It", 299)]);
    let names = [
        ("chunked", Encoding::Chunked), ("deflate", Encoding::Deflate), ("gzip", Encoding::Gzip), ("br", Encoding::Brotli),
        ("compress", Encoding::Compress), ("identity", Encoding::Identity),
    ];
    let (mut words, mut decoded) = (Vec::new(), Vec::new());
    for (n, e) in &names {
        if t.chance(250) {
            words.push(*n);
            decoded.push(*e);
        }
    }
    sim::raw(|| {
        let mut m = HeaderMap::new();
        m.insert("url", url.parse().unwrap());
        m.insert("method", method.parse().unwrap());
        m.insert("response-version", vt.parse().unwrap());
        m.insert("response-status", st.parse().unwrap());
        if !words.is_empty() {
            m.insert("response-decoded", words.join(", ").parse().unwrap());
        }
        rec.meta = m;
        Talk {
            method: http::Method::from_bytes(method.as_bytes()).unwrap(),
            url: url.parse().unwrap(),
            version,
            status: http::StatusCode::from_u16(status).unwrap(),
            decoded,
        }
    })
}

fn item() -> Item {
    let mut rec = any_rec(&[64, 1024, 4096, 2, 54, 300], w().chance(60));
    let talk = if w().chance(300) { Some(talk(&mut rec)) } else { None };
    sim::note_max(1, rec.res_b.len() as u64);
    Item { rec, talk, other: w().chance(450), seed: u64::from(w().below(1 << 30)), how: How::any() }
}

/// Append by the library.
fn append(bf: &BarcFile, it: &Item, dir: &PathBuf) -> u64 {
    let rec = match &it.talk {
        None => to_record(&it.rec, dir),
        Some(k) => {
            let d = Dialog::new(
                Prolog { method: k.method.clone(), url: k.url.clone(), req_headers: it.rec.req_h.clone(),
                         req_body: any_stored(dir, &it.rec.req_b) },
                Epilog { version: k.version, status: k.status, res_headers: it.rec.res_h.clone(),
                         res_body: any_stored(dir, &it.rec.res_b), res_decoded: k.decoded.clone() },
            );
            match Record::try_from(d) {
                Ok(r) => r,
                Err(e) => {
                    check!(false, "convert", "dialog to record: {}", e);
                    panic!()
                }
            }
        }
    };
    let h = it.how;
    let st = match h.mode {
        b'P' => Strat::Plain(NoCompressStrategy::default()),
        b'Z' => Strat::Gzip(GzipCompressStrategy::default().set_min_len(h.min).set_compression_level(h.level).set_check_identity(h.check)),
        _ => Strat::Brotli(BrotliCompressStrategy::default().set_min_len(h.min).set_compression_level(h.level).set_check_identity(h.check)),
    };
    match bf.writer().and_then(|mut wr| wr.write(&rec, st.get())) {
        Ok(o) => o,
        Err(e) => {
            check!(false, "unexpected-error", "append: {}", e);
            0
        }
    }
}

/// A record found by the independent reader is the item.
fn judge(k: usize, got: &Rec, it: &Item) {
    let what = format!("record {} in the file", k);
    let mut meta = got.meta.clone();
    if it.talk.is_some() && !it.other {
        // The reason is for human readers.
        let want = &it.rec.meta["response-status"];
        let ok = sim::raw(|| {
            meta.get("response-status").map_or(false, |v| {
                let v = v.as_bytes();
                v.len() > 3 && v[..3] == want.as_bytes()[..3] && v[3] == b' '
            })
        });
        check!(ok, "headers", "{}: status {:?}", what, meta.get("response-status"));
        sim::raw(|| meta.insert("response-status", want.clone()));
    }
    same_headers(&what, &meta, &it.rec.meta);
    same_headers(&what, &got.req_h, &it.rec.req_h);
    same_headers(&what, &got.res_h, &it.rec.res_h);
    same("content", &what, &got.req_b, &it.rec.req_b);
    same("content", &what, &got.res_b, &it.rec.res_b);
}

/// The records in the file from `at` on; `from` is the number of that there.
fn walk(path: &PathBuf, mut at: usize, from: usize, items: &[Item], whole: bool) -> (usize, usize) {
    let f = sim::raw(|| std::fs::read(path).unwrap_or_default());
    let mut k = from;
    while at < f.len() {
        match sim::raw(|| parse(&f, at)) {
            Ok(Some((rec, end, mode))) => {
                check!(k < items.len(), "extra-record", "record {} of {} in the file", k + 1, items.len());
                judge(k, &rec, &items[k]);
                if !items[k].other {
                    items[k].how.judge(k, mode, &rec);
                }
                if whole && !items[k].other {
                    cover(match mode {
                        b'P' => "written plain",
                        b'Z' => "written with gzip",
                        _ => "written with brotli",
                    });
                }
                at = end;
                k += 1;
            }
            Ok(None) => {
                check!(!whole, "incomplete", "the file ends within record {}", k);
                break;
            }
            Err(e) => check!(false, "format", "record {} at {}: {}", k, at, e),
        }
    }
    (at, k)
}

/// Read by the library.
fn read_all(bf: &BarcFile, items: &[Item], offs: &[u64], dir: &PathBuf) {
    let mut rd = open(bf);
    let tune = reader_tune(dir);
    let mut k = 0;
    if w().chance(300) {
        k = w().below(offs.len() as u32) as usize;
        rd.seek(offs[k]).unwrap();
        cover("read by offset");
    }
    loop {
        let off = rd.offset();
        match rd.read(&tune) {
            Ok(Some(rec)) => {
                check!(k < items.len(), "extra-record", "record after the last");
                check!(off == offs[k], "offset", "record {} at {} instead of {}", k, off, offs[k]);
                let it = &items[k];
                if it.other || it.talk.is_none() {
                    same_record(&rec, &it.rec, false, "read");
                }
                if it.other {
                    cover("other record read");
                }
                if let Some(t) = &it.talk {
                    match Dialog::try_from(rec) {
                        Ok(d) => {
                            check!(*d.method() == t.method, "convert", "method {} instead of {}", d.method(), t.method);
                            check!(*d.url() == t.url, "convert", "url {} instead of {}", d.url(), t.url);
                            check!(d.res_version() == t.version, "convert", "version {:?} instead of {:?}", d.res_version(), t.version);
                            check!(d.res_status() == t.status, "convert", "status {} instead of {}", d.res_status(), t.status);
                            check!(*d.res_decoded() == t.decoded, "convert", "decoded {:?} instead of {:?}", d.res_decoded(), t.decoded);
                            same_headers("dialog", d.req_headers(), &it.rec.req_h);
                            same_headers("dialog", d.res_headers(), &it.rec.res_h);
                            cover("dialog read");
                        }
                        Err(e) => check!(false, "convert", "record to dialog: {}", e),
                    }
                }
                k += 1;
            }
            Ok(None) => {
                check!(k == items.len(), "missing-record", "end of archive after {} of {} records", k, items.len());
                break;
            }
            Err(e) => {
                check!(false, "unexpected-error", "read of record {}: {}", k, e);
                break;
            }
        }
    }
}

/// A record by another writer with bodies whose lengths need 32 bits or more,
/// mostly a hole in the file, and a record after it.
fn huge(bf: &BarcFile, path: &PathBuf, dir: &PathBuf) {
    let t = w();
    let len = || *w().pick(&[0x7fff_fff0u64, 0xffff_fff0, 0x1_0000_0000]) + u64::from(w().below(0x20));
    let res_n = if t.chance(800) { len() } else { u64::from(t.below(60)) };
    let req_n = if res_n < 60 || t.chance(300) { len() } else { u64::from(t.below(60)) };
    let head: &[u8] = if t.chance(500) { b"k: v\r\n\r\n" } else { b"" };
    let start = sim::raw(|| std::fs::metadata(path).unwrap().len());
    let padded = |n: u64| if n > 0 { n + 2 } else { 0 };
    let req_at = start + 54 + head.len() as u64;
    let res_at = req_at + padded(req_n) + head.len() as u64;
    let end = res_at + padded(res_n);
    crate::orch::allow_hole(end);
    let spots: Vec<(u64, u64)> = [(req_at, req_n), (res_at, res_n)].iter()
        .filter(|x| x.1 >= 60)
        .flat_map(|&(a, n)| vec![(a, 0), (a, n / 3), (a, n - 16)])
        .collect();
    sim::raw(|| {
        use std::os::unix::fs::FileExt;
        let f = std::fs::OpenOptions::new().write(true).open(path).unwrap();
        f.set_len(end).unwrap();
        let h = format!(
            "BARC2 {:012x} DP {:05x} {:05x} {:010x} {:05x}\r\n\r\n",
            end - start - 54, head.len(), 0, padded(req_n), head.len()
        );
        f.write_all_at(h.as_bytes(), start).unwrap();
        f.write_all_at(head, start + 54).unwrap();
        f.write_all_at(head, req_at + padded(req_n)).unwrap();
        for &(a, n) in &[(req_at, req_n), (res_at, res_n)] {
            if n > 0 {
                f.write_all_at(b"\r\n", a + n).unwrap();
            }
        }
        for (a, p) in &spots {
            f.write_all_at(format!("{:016x}", mix(*a, *p)).as_bytes(), a + p).unwrap();
        }
    });
    note!("record at {} with bodies of {} and {}", start, req_n, res_n);
    let next = item();
    sim::raw(|| {
        use std::os::unix::fs::FileExt;
        let b = compose(&next.rec, &mut Rng::new(mix(next.seed, 22)));
        let f = std::fs::OpenOptions::new().write(true).open(path).unwrap();
        f.write_all_at(&b, end).unwrap();
    });
    crate::orch::end_holes();
    let tune = reader_tune(dir);
    let mut rd = open(bf);
    rd.seek(start).unwrap();
    match rd.read(&tune) {
        Ok(Some(rec)) => {
            for &(a, n, b) in &[(req_at, req_n, rec.req_body()), (res_at, res_n, rec.res_body())] {
                check!(b.len() == n, "length", "body of {} instead of {}", b.len(), n);
                if let body_image::BodyReader::FileSlice(mut rs) = b.reader() {
                    for (_, p) in spots.iter().filter(|s| s.0 == a) {
                        use std::io::{Seek, SeekFrom};
                        let mut got = [0u8; 16];
                        let r = rs.seek(SeekFrom::Start(*p)).and_then(|_| rs.read_exact(&mut got));
                        check!(r.is_ok(), "unexpected-error", "read at {} of {}: {:?}", p, n, r);
                        same("content", "part of a long body", &got, format!("{:016x}", mix(a, *p)).as_bytes());
                    }
                }
            }
            cover("body beyond 2 GiB");
        }
        r => check!(false, "unexpected-error", "read of a long record: {:?}", r.map(|r| r.is_some())),
    }
    check!(rd.offset() == end, "offset", "reader at {} instead of {}", rd.offset(), end);
    match rd.read(&tune) {
        Ok(Some(rec)) => {
            same_record(&rec, &next.rec, false, "after a long record");
        }
        r => check!(false, "unexpected-error", "read after a long record: {:?}", r.map(|r| r.is_some())),
    }
}

fn c22() {
    let dir = temp_dir();
    let path = scratch("a.barc");
    choose_policy();
    let mut fl = soft_faults();
    if w().chance(500) {
        fl.p[Fk::TornWrite as usize] = [100, 300, 20][sim().f.below(3) as usize];
    }
    set_faults(fl);
    let n = 1 + w().below(7) as usize;
    let items: Arc<Vec<Item>> = Arc::new((0..n).map(|_| item()).collect());
    let done = Arc::new(AtomicUsize::new(0));
    let watcher = if w().chance(400) {
        let (items, done, path) = (items.clone(), done.clone(), path.clone());
        Some(thread::spawn(move || {
            // As another process would see it, at any point of an append.
            let (mut at, mut k, mut looks) = (0, 0, 0);
            loop {
                let before = done.load(SeqCst);
                let (a, b) = walk(&path, at, k, &items, false);
                at = a;
                k = b;
                looks += 1;
                check!(k >= before, "missing-record", "{} of {} records in the file", k, before);
                check!(k <= done.load(SeqCst) + 1, "extra-record", "record {} not yet written", k);
                if k > done.load(SeqCst) {
                    cover("seen before the writer returned");
                }
                sim::note_max(2, looks);
                if before == items.len() || looks > 300 {
                    break;
                }
                sim::point();
            }
        }))
    } else {
        None
    };
    let mut bf = BarcFile::new(&path);
    let mut offs = Vec::new();
    for (k, it) in items.iter().enumerate() {
        let want = sim::raw(|| std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0));
        if it.other {
            sim::raw(|| {
                let b = compose(&it.rec, &mut Rng::new(mix(it.seed, 22)));
                let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&path).unwrap();
                f.write_all(&b).unwrap();
            });
            note!("record {} appended by another writer at {}", k, want);
            offs.push(want);
        } else {
            let o = append(&bf, it, &dir);
            note!("record {} appended at {}", k, o);
            check!(o == want, "offset", "record {} at {} instead of {}", k, o, want);
            offs.push(o);
        }
        done.store(k + 1, SeqCst);
        if w().chance(150) {
            walk(&path, 0, 0, &items[..=k], true);
        }
        if w().chance(150) {
            read_all(&bf, &items[..=k], &offs, &dir);
        }
        if w().chance(150) {
            bf = BarcFile::new(&path);
        }
    }
    if let Some(h) = watcher {
        h.join().unwrap();
    }
    let (_, k) = walk(&path, 0, 0, &items, true);
    check!(k == n, "missing-record", "{} of {} records in the file", k, n);
    read_all(&bf, &items, &offs, &dir);
    if w().chance(30) {
        huge(&bf, &path, &dir);
    }
    sim::note_max(0, n as u64);
    describe(format!("{} records, {} by another writer", n, items.iter().filter(|i| i.other).count()));
}
