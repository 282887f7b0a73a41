//! Archives: the record model, its generator and comparison, and C07.

use std::convert::TryFrom;
use std::path::PathBuf;

use barc::{
    BarcFile, BarcReader, BarcWriter, BrotliCompressStrategy, CompressStrategy, GzipCompressStrategy,
    NoCompressStrategy, Record, RecordType,
};
use body_image::{BodyImage, Dialog, Encoding, Epilog, Prolog, Recorded, RequestRecorded, Tunables, Tuner};
use http::header::{HeaderMap, HeaderName, HeaderValue};

use super::body::{full_check, Img};
use super::util::*;
use super::Scenario;
use crate::check;
use crate::note;
use crate::sim::{self, cover, w};
use crate::tape::{mix, Rng};

pub const C07: Scenario = Scenario {
    id: "C07",
    run: c07,
    quick: 28_000,
    level: "exploration",
    rule: "one run = a history of writes (records, strategies), sequential and random reads, re-opens, copies and conversions under seeded short, interrupted and torn file operations; non-trivial = at least one record comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["header values do not begin or end with white space (not representable in the format)"],
    notes: &["records", "largest_body", "most_headers"],
    cli: false,
};

/// A record as written.
#[derive(Clone)]
pub struct Rec {
    pub meta: HeaderMap,
    pub req_h: HeaderMap,
    pub res_h: HeaderMap,
    pub req_b: Vec<u8>,
    pub res_b: Vec<u8>,
}

fn token(r: &mut Rng, n: u64) -> Vec<u8> {
    const T: &[u8] = b"abcdefghijklmnopqrstuvwxyz0123456789-_!#$%&'*+.^`|~";
    (0..n).map(|_| T[r.below(T.len() as u64) as usize]).collect()
}

fn value(r: &mut Rng, n: u64) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n)
        .map(|_| match r.below(20) {
            0 => b' ',
            1 => b'\t',
            2 => 0x80 + r.below(128) as u8,
            3 => b':',
            _ => 0x21 + r.below(0x5e) as u8,
        })
        .collect();
    // The ends are not white space.
    if let Some(b) = v.first_mut() {
        if *b == b' ' || *b == b'\t' {
            *b = b'x';
        }
    }
    if let Some(b) = v.last_mut() {
        if *b == b' ' || *b == b'\t' {
            *b = b'x';
        }
    }
    v
}

/// Some header block. `rich` allows many and large ones.
pub fn headers(rich: bool) -> HeaderMap {
    let t = w();
    let (n, long) = match t.weighted(&[4, 8, 3, if rich { 1 } else { 0 }, if rich { 1 } else { 0 }]) {
        0 => (0, 0),
        1 => (1 + t.below(4), 0),
        2 => (1 + t.below(20), 0),
        3 if t.chance(80) => (*t.pick(&[1025, 3000, 16_384, 16_390, 24_000, 50_000]), 0),
        3 => (*t.pick(&[127, 128, 129, 130, 200, 500]), 0),
        _ => (1 + t.below(3), *t.pick(&[5000u64, 100, 70_000, 300_000])),
    };
    let seed = u64::from(t.below(1 << 30));
    sim::raw(|| {
        let mut r = Rng::new(mix(seed, 5));
        let mut h = HeaderMap::new();
        let mut names: Vec<HeaderName> = Vec::new();
        // What a map can hold is limited by the distinct names.
        let (same, short) = (n > 1000 && (n > 24_000 || r.below(2) == 0), n > 1000);
        for i in 0..n {
            let name = if same && names.len() > 20 {
                names[r.below(20) as usize].clone()
            } else if short && !same {
                HeaderName::from_bytes(format!("x{:x}", i).as_bytes()).unwrap()
            } else if !names.is_empty() && r.below(4) == 0 {
                names[r.below(names.len() as u64) as usize].clone()
            } else if r.below(3) == 0 {
                HeaderName::from_bytes(
                    [&b"accept"[..], b"cookie", b"set-cookie", b"etag", b"via", b"x", b"age"]
                        [r.below(7) as usize],
                )
                .unwrap()
            } else {
                let k = 1 + r.below(12);
                HeaderName::from_bytes(&token(&mut r, k)).unwrap()
            };
            let l = if long > 0 && i == 0 { long } else if short { r.below(7) } else {
                match r.below(6) {
                    0 => 0,
                    1 => 1,
                    2 => r.below(80),
                    _ => r.below(20),
                }
            };
            names.push(name.clone());
            h.append(name, HeaderValue::from_bytes(&value(&mut r, l)).unwrap());
        }
        h
    })
}

pub fn any_rec(anchors: &[u64], rich: bool) -> Rec {
    let c = Content::any();
    let d = Content::any();
    let t = w();
    let mut res_h = headers(rich);
    let mut req_h = headers(rich && t.chance(100));
    let mut meta = headers(rich && t.chance(100));
    sim::raw(|| {
        if t.chance(600) {
            let ty = *t.pick(&[
                "text/plain", "text/html; charset=utf-8", "image/png", "application/json", "junk", "application/javascript",
                "application/xml", "application/xhtml+xml", "application/rss+xml", "image/svg+xml", "font/otf",
                "application/octet-stream", "video/mp4", "application/zip", "TEXT/CSS", "application/x-font-ttf",
            ]);
            res_h.insert("content-type", ty.parse().unwrap());
        }
        if t.chance(500) {
            meta.insert("response-decoded", t.pick(&["identity", "chunked, gzip, identity", "chunked"]).parse().unwrap());
        }
        if t.chance(200) {
            req_h.insert("content-type", "text/plain".parse().unwrap());
        }
    });
    let req_len = if t.chance(400) { length(anchors, t.chance(60)) } else { 0 };
    let res_len = if t.chance(850) { length(anchors, t.chance(100)) } else { 0 };
    Rec { meta, req_h, res_h, req_b: c.bytes(req_len), res_b: d.bytes(res_len) }
}

/// The record to write, with its bodies in some state.
pub fn to_record(r: &Rec, dir: &PathBuf) -> Record {
    Record {
        rec_type: RecordType::Dialog,
        meta: r.meta.clone(),
        req_headers: r.req_h.clone(),
        req_body: any_stored(dir, &r.req_b),
        res_headers: r.res_h.clone(),
        res_body: any_stored(dir, &r.res_b),
    }
}

pub fn same_headers(what: &str, got: &HeaderMap, want: &HeaderMap) {
    let ok = sim::raw(|| got == want);
    check!(ok, "headers", "{}: {} headers instead of {}: {}", what, got.len(), want.len(),
           sim::raw(|| {
               for k in want.keys() {
                   let a: Vec<_> = got.get_all(k).iter().collect();
                   let b: Vec<_> = want.get_all(k).iter().collect();
                   if a != b {
                       return format!("{}: {:?} instead of {:?}", k, a, b);
                   }
               }
               String::from("more headers than written")
           }));
}

/// Bodies are read under the fault pattern in force; `hard` if reads may fail.
pub fn same_record(got: &Record, want: &Rec, hard: bool, what: &str) {
    check!(got.rec_type == RecordType::Dialog, "type", "{}: wrong type", what);
    same_headers(what, &got.meta, &want.meta);
    same_headers(what, &got.req_headers, &want.req_h);
    same_headers(what, &got.res_headers, &want.res_h);
    check!(got.req_body.len() == want.req_b.len() as u64, "length", "{}: request body of {} instead of {}",
           what, got.req_body.len(), want.req_b.len());
    check!(got.res_body.len() == want.res_b.len() as u64, "length", "{}: response body of {} instead of {}",
           what, got.res_body.len(), want.res_b.len());
    super::body::read_by(&mut got.req_body.reader(), hard, &want.req_b, what, 4000);
    super::body::read_by(&mut got.res_body.reader(), hard, &want.res_b, what, 8192);
}

pub enum Strat {
    Plain(NoCompressStrategy),
    Gzip(GzipCompressStrategy),
    Brotli(BrotliCompressStrategy),
}

impl Strat {
    pub fn any() -> Strat {
        let t = w();
        let min = *t.pick(&[0u64, 1, 100, 1024, 4096]);
        let id = t.chance(300);
        match t.weighted(&[4, 4, 3]) {
            0 => Strat::Plain(NoCompressStrategy::default()),
            1 => {
                let l = t.below(10);
                Strat::Gzip(GzipCompressStrategy::default().set_min_len(min).set_compression_level(l).set_check_identity(id))
            }
            _ => {
                let l = [6, 2, 3, 4, 5, 0, 1, 9][t.weighted(&[6, 3, 3, 3, 3, 2, 2, 1])];
                Strat::Brotli(BrotliCompressStrategy::default().set_min_len(min).set_compression_level(l).set_check_identity(id))
            }
        }
    }
    pub fn get(&self) -> &dyn CompressStrategy {
        match self {
            Strat::Plain(s) => s,
            Strat::Gzip(s) => s,
            Strat::Brotli(s) => s,
        }
    }
}

/// Tunables of a reader that never rejects by size.
pub fn reader_tune(dir: &PathBuf) -> Tunables {
    let t = tunables(dir);
    sim::raw(|| {
        let mut b = Tuner::new();
        b.set_temp_dir(dir.as_path());
        b.set_max_body_ram(t.ram);
        b.set_buffer_size_ram(t.t.buffer_size_ram().max(32));
        b.set_buffer_size_fs(t.t.buffer_size_fs().max(64));
        b.finish()
    })
}

pub fn write(wr: &mut BarcWriter<'_>, r: &Rec, dir: &PathBuf, strat: &Strat) -> Result<u64, barc::BarcError> {
    let rec = to_record(r, dir);
    let x = wr.write(&rec, strat.get());
    note!("write of {} + {} bytes -> {:?}", r.req_b.len(), r.res_b.len(), x);
    x
}

pub const ANCHORS: [u64; 8] = [64, 1024, 4096, 8192, 2, 65536, 100, 54];

fn c07() {
    let dir = temp_dir();
    let path = scratch("a.barc");
    set_faults(soft_faults());
    // Records after an unrelated sparse beginning are reached by offset.
    let base = hole();
    if base > 0 {
        sim::raw(|| write_after(&path, base, &[]));
    }
    let mut bf = BarcFile::new(&path);
    let mut recs: Vec<(u64, Rec)> = Vec::new();
    let mut reader: Option<(BarcReader, usize)> = None;
    let ops = 2 + w().below(12);
    for _ in 0..ops {
        match w().weighted(&[8, 5, 3, 1, 1]) {
            0 => {
                let n = 1 + w().below(3);
                let mut wr = match bf.writer() {
                    Ok(wr) => wr,
                    Err(e) => {
                        check!(false, "unexpected-error", "writer: {}", e);
                        return;
                    }
                };
                for _ in 0..n {
                    let r = any_rec(&ANCHORS, true);
                    sim::note_max(1, r.res_b.len() as u64);
                    sim::note_max(2, r.res_h.len() as u64);
                    let st = Strat::any();
                    match write(&mut wr, &r, &dir, &st) {
                        Ok(off) => {
                            if let Some((o, _)) = recs.last() {
                                check!(off > *o, "offset", "offset {} after {}", off, o);
                            } else {
                                check!(off == base, "offset", "first offset {}", off);
                            }
                            recs.push((off, r));
                        }
                        Err(e) => check!(false, "unexpected-error", "write: {}", e),
                    }
                }
            }
            1 => {
                // Continue with the sequential reader.
                if recs.is_empty() && reader.is_none() {
                    continue;
                }
                if reader.is_none() {
                    reader = Some((open_at(&bf, base), 0));
                }
                let tune = reader_tune(&dir);
                let n = 1 + w().below(4);
                if let Some((ref mut rd, ref mut at)) = reader {
                    for _ in 0..n {
                        read_next(rd, at, &recs, &tune);
                    }
                }
            }
            2 => {
                if !recs.is_empty() {
                    let mut rd = open(&bf);
                    let tune = reader_tune(&dir);
                    let k = w().below(recs.len() as u32) as usize;
                    let r = rd.seek(recs[k].0);
                    check!(r.is_ok(), "unexpected-error", "seek");
                    let mut at = k;
                    let n = 1 + w().below(3);
                    for _ in 0..n {
                        read_next(&mut rd, &mut at, &recs, &tune);
                    }
                    cover("random access");
                }
            }
            3 => {
                bf = BarcFile::new(&path);
                cover("re-opened");
            }
            _ => {
                reader = None;
            }
        }
    }
    if !recs.is_empty() {
        let tune = reader_tune(&dir);
        copy_all(&bf, &recs, &dir, &tune);
    }
    convert(&dir);
    sim::note_max(0, recs.len() as u64);
    describe(format!("{} records, {} bytes", recs.len(), sim::raw(|| std::fs::metadata(&path).map(|m| m.len()).unwrap_or(0))));
}

pub fn open(bf: &BarcFile) -> BarcReader {
    match bf.reader() {
        Ok(r) => r,
        Err(e) => {
            check!(false, "unexpected-error", "reader: {}", e);
            panic!()
        }
    }
}

fn open_at(bf: &BarcFile, base: u64) -> BarcReader {
    let mut rd = open(bf);
    if base > 0 {
        let r = rd.seek(base);
        check!(r.is_ok(), "unexpected-error", "seek");
    }
    rd
}

/// Read one record with an intact archive of `recs`.
pub fn read_next(rd: &mut BarcReader, at: &mut usize, recs: &[(u64, Rec)], tune: &Tunables) {
    let off = rd.offset();
    if *at < recs.len() {
        check!(off == recs[*at].0, "offset", "reader at {} before record {} at {}", off, at, recs[*at].0);
    }
    match rd.read(tune) {
        Ok(Some(rec)) => {
            check!(*at < recs.len(), "extra-record", "record after the last");
            let want = &recs[*at].1;
            same_record(&rec, want, false, "read");
            for b in &[&rec.req_body, &rec.res_body] {
                check!(!b.is_ram() || b.len() <= tune.max_body_ram(), "ram-limit", "body of {} held in RAM, limit {}",
                       b.len(), tune.max_body_ram());
            }
            states(rec, want);
            *at += 1;
        }
        Ok(None) => {
            check!(*at == recs.len(), "missing-record", "end of archive after {} of {} records", at, recs.len());
            check!(rd.offset() == off, "offset", "offset moved at the end");
        }
        Err(e) => check!(false, "unexpected-error", "read of record {} of {}: {}", at, recs.len(), e),
    }
}

/// Now and then, every way of reading the bodies.
fn states(rec: Record, want: &Rec) {
    if w().chance(200) {
        full_check(Img { b: rec.req_body, want: want.req_b.clone() }, false);
        full_check(Img { b: rec.res_body, want: want.res_b.clone() }, false);
    }
}

/// Copy the archive record by record, then compare the copy.
fn copy_all(bf: &BarcFile, recs: &[(u64, Rec)], dir: &PathBuf, tune: &Tunables) {
    let to = BarcFile::new(scratch("b.barc"));
    let mut rd = open_at(bf, recs[0].0);
    let mut offs = Vec::new();
    {
        let mut wr = match to.writer() {
            Ok(wr) => wr,
            Err(e) => {
                check!(false, "unexpected-error", "writer: {}", e);
                return;
            }
        };
        let st = Strat::any();
        loop {
            match rd.read(tune) {
                Ok(Some(mut r)) => {
                    if w().chance(300) {
                        if let Err(e) = r.res_body.mem_map() {
                            check!(false, "unexpected-error", "mem_map: {}", e);
                        }
                    }
                    match wr.write(&r, st.get()) {
                        Ok(o) => offs.push(o),
                        Err(e) => check!(false, "unexpected-error", "copy: {}", e),
                    }
                }
                Ok(None) => break,
                Err(e) => check!(false, "unexpected-error", "read for copy: {}", e),
            }
        }
    }
    check!(offs.len() == recs.len(), "missing-record", "{} of {} records copied", offs.len(), recs.len());
    let copy: Vec<(u64, Rec)> = offs.into_iter().zip(recs.iter().map(|r| r.1.clone())).collect();
    let mut rd = open(&to);
    let mut at = 0;
    let tune2 = reader_tune(dir);
    for _ in 0..=copy.len() {
        read_next(&mut rd, &mut at, &copy, &tune2);
    }
    cover("copied");
}

/// Dialog to record, archive, and back.
fn convert(dir: &PathBuf) {
    if !w().chance(300) {
        return;
    }
    cover("dialog converted");
    let c = Content::any();
    let t = w();
    let want_req = c.bytes(if t.chance(300) { length(&ANCHORS, false) } else { 0 });
    let want_res = c.bytes(length(&ANCHORS, false));
    let method = t.pick(&[http::Method::GET, http::Method::POST, http::Method::PUT,
                          http::Method::from_bytes(b"X-ODD").unwrap()]).clone();
    let url: http::Uri = t.pick(&["http://host/", "https://u@host:8080/a/b?c=d&e=%20f", "/only/path?q", "*", "host:80",
                                 "http://[::1]:3000/x;y=z"]).parse().unwrap();
    let version = *t.pick(&[http::Version::HTTP_11, http::Version::HTTP_10, http::Version::HTTP_2, http::Version::HTTP_09,
                            http::Version::HTTP_3]);
    let status = http::StatusCode::from_u16(*t.pick(&[200, 204, 404, 500, 100, 599, 299, 999])).unwrap();
    let encs = [Encoding::Chunked, Encoding::Deflate, Encoding::Gzip, Encoding::Brotli, Encoding::Compress, Encoding::Identity];
    let mut decoded = Vec::new();
    for e in &encs {
        if t.chance(250) {
            decoded.push(*e);
        }
    }
    let req_headers = headers(false);
    let res_headers = headers(false);
    let d = Dialog::new(
        Prolog { method: method.clone(), url: url.clone(), req_headers: req_headers.clone(), req_body: any_stored(dir, &want_req) },
        Epilog { version, status, res_headers: res_headers.clone(), res_body: any_stored(dir, &want_res), res_decoded: decoded.clone() },
    );
    let rec = match Record::try_from(d) {
        Ok(r) => r,
        Err(e) => {
            check!(false, "convert", "dialog to record: {}", e);
            return;
        }
    };
    let bf = BarcFile::new(scratch("d.barc"));
    let st = Strat::any();
    let off = {
        let mut wr = bf.writer().unwrap();
        match wr.write(&rec, st.get()) {
            Ok(o) => o,
            Err(e) => {
                check!(false, "unexpected-error", "write: {}", e);
                return;
            }
        }
    };
    let mut rd = open(&bf);
    rd.seek(off).unwrap();
    let tune = reader_tune(dir);
    let rec = match rd.read(&tune) {
        Ok(Some(r)) => r,
        Ok(None) => {
            check!(false, "missing-record", "dialog not found");
            return;
        }
        Err(e) => {
            check!(false, "unexpected-error", "read: {}", e);
            return;
        }
    };
    let d = match Dialog::try_from(rec) {
        Ok(d) => d,
        Err(e) => {
            check!(false, "convert", "record to dialog: {}", e);
            return;
        }
    };
    check!(*d.method() == method, "convert", "method {} instead of {}", d.method(), method);
    check!(*d.url() == url, "convert", "url {} instead of {}", d.url(), url);
    check!(d.res_version() == version, "convert", "version {:?} instead of {:?}", d.res_version(), version);
    check!(d.res_status() == status, "convert", "status {} instead of {}", d.res_status(), status);
    check!(*d.res_decoded() == decoded, "convert", "decoded {:?} instead of {:?}", d.res_decoded(), decoded);
    same_headers("dialog", d.req_headers(), &req_headers);
    same_headers("dialog", d.res_headers(), &res_headers);
    let (p, e) = d.explode();
    full_check(Img { b: p.req_body, want: want_req }, false);
    full_check(Img { b: e.res_body, want: want_res }, false);
}

pub fn empty_body() -> BodyImage {
    BodyImage::empty()
}
