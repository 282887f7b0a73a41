//! C03 and C04: collecting from byte sources, and the limits.

use std::io::Write;

use body_image::{BodyError, BodyImage, Encoding};
use body_image_futio::{decode_res_body, FutioError};

use super::decode::dialog;

use super::body::{full_check, Img};
use super::util::*;
use super::Scenario;
use crate::check;
use crate::sim::{self, cover, w};

pub const C03: Scenario = Scenario {
    id: "C03",
    run: c03,
    quick: 280_000,
    level: "exploration",
    rule: "one run = one collection from a simulated source (length, content, piece sizes, interruptions, failure position), tunables and length estimate, with failing or split file operations; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["a source that returned its end is not read again with a different result"],
    notes: &["longest_source"],
    cli: false,
};

pub const C04: Scenario = Scenario {
    id: "C04",
    run: c04,
    quick: 100_000,
    level: "exploration",
    rule: "one run = one collection (from a source, by decompression, or by an asynchronous sink) of a length around or far beyond the limits, with the heap measured; non-trivial = at least one oracle comparison; distinct = different event hash",
    assumptions: &["memory is measured as heap bytes requested by the code under test; a decompressor's own window (up to 18 MB for brotli, 0.5 MB for gzip and deflate) is allowed on top"],
    notes: &["longest_source", "peak_heap", "peak_over_bound_permille"],
    cli: false,
};

/// A length estimate: none, right, or wrong either way.
pub fn estimate(len: u64, tune: &Tune) -> u64 {
    match w().below(7) {
        0 => 0,
        1 => len,
        2 => len / 2,
        3 => len * 2 + 1,
        4 => tune.ram,
        5 => tune.ram + 1,
        _ => u64::from(w().below(100_000)),
    }
}

/// Source lengths around the limits and around multiples of the buffers.
pub fn source_len(tune: &Tune, big: bool) -> u64 {
    let br = tune.t.buffer_size_ram() as u64;
    let bf = tune.t.buffer_size_fs() as u64;
    let mut a = vec![tune.ram, tune.ram + br, tune.ram + bf, br, bf, 2 * br, tune.ram + 1024, 1024];
    if tune.max < 1 << 20 {
        a.push(tune.max);
        a.push(tune.max);
    }
    let l = length(&a, big) as u64;
    // One operation per byte is enough of a short source.
    if br.min(bf) < 64 { l.min(tune.ram + 3 * br + 20_000) } else { l }
}

/// What the outcome must be, by the limits alone.
pub fn judge(r: &Result<BodyImage, BodyError>, len: u64, tune: &Tune, fault: bool, what: &str) {
    match r {
        Ok(b) => {
            check!(len <= tune.max, "too-long", "{}: body of {} accepted, maximum {}", what, len, tune.max);
            check!(b.len() == len, "length", "{}: body of {} from a source of {}", what, b.len(), len);
            if b.is_ram() {
                check!(len <= tune.ram, "ram-limit", "{}: {} bytes in RAM, limit {}", what, len, tune.ram);
                cover("kept in RAM");
            } else {
                cover("in a file");
            }
        }
        Err(BodyError::BodyTooLong(n)) => {
            check!(len > tune.max || (fault && *n > tune.max), "wrong-reject",
                   "{}: source of {} rejected as too long ({}), maximum {}", what, len, n, tune.max);
            cover("rejected as too long");
        }
        Err(e) => {
            check!(fault, "unexpected-error", "{}: {}", what, e);
            cover("failed");
        }
    }
}

fn c03() {
    let dir = temp_dir();
    let tune = tunables(&dir);
    let c = Content::any();
    let len = source_len(&tune, true).min(if w().chance(700) { tune.max } else { u64::MAX });
    let est = estimate(len, &tune);
    let mut src = Source::new(c, len);
    let mut fl = soft_faults();
    src.jitter = jitter();
    let mut hard = false;
    if w().chance(300) {
        hard = true;
        hard_faults(&mut fl, HARD_FS);
    }
    if w().chance(300) {
        src.fail_at = Some(if w().chance(300) { len } else { u64::from(w().below(len as u32 + 1)) });
        src.kind = w().below(SOURCE_ERRS.len() as u32) as usize;
        src.once = w().chance(500);
    }
    let may_fail = src.fail_at.is_some();
    set_faults(fl);
    sim::note_max(0, len);
    let r = BodyImage::read_from(&mut src, est, &tune.t);
    if src.failed {
        check!(r.is_err(), "partial-body", "source failed at {} but a body of {} was returned",
               src.pos, r.as_ref().map(|b| b.len()).unwrap_or(0));
        if let (Err(BodyError::Io(e)), false) = (&r, hard) {
            check!(e.kind() == SOURCE_ERRS[src.kind], "wrong-error", "source failed as {:?} but {} was returned",
                   SOURCE_ERRS[src.kind], e);
        }
        cover("source failed");
    }
    judge(&r, len, &tune, hard || may_fail, "read_from");
    if let Ok(b) = r {
        check!(src.pos == len, "partial-body", "only {} of {} bytes were taken", src.pos, len);
        if !hard && w().chance(300) {
            // Once more, from the body itself.
            let mut rd = b.reader();
            let r2 = BodyImage::read_from(&mut rd, est, &tune.t);
            judge(&r2, len, &tune, false, "read_from of a body");
            drop(rd);
            if let Ok(b2) = r2 {
                full_check(Img { b: b2, want: c.bytes(len as usize) }, false);
                cover("collected from a body");
            }
        }
        no_faults();
        full_check(Img { b, want: c.bytes(len as usize) }, false);
    }
    describe(format!("source of {} estimate {} ram {} max {} buffers {} {}", len, est, tune.ram,
                     tune.max, tune.t.buffer_size_ram(), tune.t.buffer_size_fs()));
}

fn c04() {
    let way = w().weighted(&[6, 4, 4, 2, 2]);
    if way == 2 {
        return super::asy::limits_sink();
    }
    let dir = temp_dir();
    let tune = tunables(&dir);
    if way == 3 {
        return super::net::limits_http(&dir, &tune);
    }
    set_faults(soft_faults());
    match way {
        0 => limits_source(&tune),
        1 => limits_decode(&tune),
        _ => limits_archive(&dir, &tune),
    }
}

/// Heap that a collection may use beside what it was given.
fn bound(tune: &Tune, extra: u64) -> u64 {
    // Each buffer kept costs some bookkeeping.
    let each = 160 * (tune.ram / tune.t.buffer_size_ram() as u64 + 1);
    2 * tune.ram
        + each
        + 8 * (tune.t.buffer_size_ram() as u64 + tune.t.buffer_size_fs() as u64)
        + 64 * 1024
        + extra
}

pub fn measure(peak: u64, tune: &Tune, extra: u64, what: &str) {
    let b = bound(tune, extra);
    sim::note_max(1, peak);
    sim::note_max(2, peak * 1000 / b);
    check!(peak <= b, "memory", "{}: {} bytes of heap used, {} allowed (RAM limit {}, buffers {} and {})",
           what, peak, b, tune.ram, tune.t.buffer_size_ram(), tune.t.buffer_size_fs());
}

fn limits_source(tune: &Tune) {
    let c = Content::any();
    // Now and then far beyond every limit.
    let len = if tune.t.buffer_size_fs() > 1000 && w().chance(60) {
        2_000_000 + u64::from(w().below(3_000_000))
    } else {
        source_len(tune, true)
    };
    let est = estimate(len, tune);
    let mut src = Source::new(c, len);
    // Tiny pieces into small buffers use a buffer per piece, by design.
    src.jitter = if tune.t.buffer_size_ram() >= 2048 && len < 200_000 { jitter() } else { 0 };
    sim::note_max(0, len);
    let (r, peak) = crate::alloc::peak(|| BodyImage::read_from(&mut src, est, &tune.t));
    judge(&r, len, tune, false, "read_from");
    measure(peak, tune, 0, "read_from");
    if let Err(_) = r {
        // A source that is too long is not read to its end.
        let slack = (tune.t.buffer_size_ram() + tune.t.buffer_size_fs()) as u64 + 70_000;
        check!(src.pos <= tune.max + slack, "memory", "{} bytes taken from the source, maximum {}",
               src.pos, tune.max);
    }
    describe(format!("source of {} estimate {} ram {} max {} buffers {} {} peak {}", len, est,
                     tune.ram, tune.max, tune.t.buffer_size_ram(), tune.t.buffer_size_fs(), peak));
}

pub fn encode(enc: Encoding, data: &[u8], level: u32) -> Vec<u8> {
    sim::raw(|| match enc {
        Encoding::Gzip => {
            let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        Encoding::Deflate => {
            let mut e = flate2::write::DeflateEncoder::new(Vec::new(), flate2::Compression::new(level.min(9)));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        _ => {
            let mut v = Vec::new();
            {
                // Not below 2: that version of the encoder is broken there.
                let mut e = brotli::CompressorWriter::new(&mut v, 4096, level.max(2).min(6), 18);
                e.write_all(data).unwrap();
            }
            v
        }
    })
}

/// Bodies of a compressed record, read under limits.
fn limits_archive(dir: &std::path::PathBuf, tune: &Tune) {
    use barc::{BarcError, BarcFile, BrotliCompressStrategy, CompressStrategy, GzipCompressStrategy, Record};
    let brotli = w().chance(300);
    let mut c = Content::any();
    let len = if tune.t.buffer_size_fs() > 1000 && w().chance(60) {
        c.style = 3;
        2_000_000 + w().below(3_000_000) as usize
    } else {
        source_len(tune, true) as usize
    };
    let req = if w().chance(500) { Content::any().bytes(w().below(2 * tune.ram.min(50_000) as u32 + 2) as usize) } else { Vec::new() };
    let data = c.bytes(len);
    let bf = BarcFile::new(scratch("c04.barc"));
    sim::raw(|| {
        let gz = GzipCompressStrategy::default().set_min_len(0).set_compression_level(1).set_check_identity(false);
        let br = BrotliCompressStrategy::default().set_min_len(0).set_compression_level(1).set_check_identity(false);
        let st: &dyn CompressStrategy = if brotli { &br } else { &gz };
        let mut r = Record {
            rec_type: barc::RecordType::Dialog,
            req_body: BodyImage::from_slice(req.clone()),
            res_body: BodyImage::from_slice(data.clone()),
            ..Record::default()
        };
        for h in [&mut r.req_headers, &mut r.res_headers].iter_mut() {
            h.insert("content-type", "text/plain".parse().unwrap());
        }
        bf.writer().unwrap().write(&r, st).unwrap();
    });
    sim::note_max(0, len as u64);
    let mut rd = bf.reader().unwrap();
    let (r, peak) = crate::alloc::peak(|| rd.read(&tune.t));
    let r = match r {
        Ok(Some(r)) => {
            check!(!r.req_body.is_ram() || req.len() as u64 <= tune.ram, "ram-limit",
                   "archive: request body of {} in RAM, limit {}", req.len(), tune.ram);
            full_check(Img { b: r.req_body, want: req }, false);
            Ok(r.res_body)
        }
        Ok(None) => {
            check!(false, "unexpected-error", "archive: record not found");
            return;
        }
        Err(BarcError::Body(e)) => Err(e),
        Err(e) => {
            check!(false, "unexpected-error", "archive: {}", e);
            return;
        }
    };
    judge(&r, len as u64, tune, false, "archive");
    let extra = tune.ram + if brotli { 18 << 20 } else { 512 << 10 };
    measure(peak, tune, extra, "archive");
    if let Ok(b) = r {
        full_check(Img { b, want: data }, false);
    }
    cover("read from an archive");
    describe(format!("record of {} (brotli {}) ram {} max {} peak {}", len, brotli, tune.ram, tune.max, peak));
}

fn limits_decode(tune: &Tune) {
    let enc = *w().pick(&[Encoding::Gzip, Encoding::Deflate, Encoding::Brotli]);
    let mut c = Content::any();
    let len = if tune.t.buffer_size_fs() > 1000 && w().chance(60) {
        c.style = 3;
        2_000_000 + w().below(3_000_000) as usize
    } else {
        source_len(tune, true) as usize
    };
    let data = c.bytes(len);
    let z = encode(enc, &data, 1);
    let mut d = dialog(BodyImage::from_slice(z), &[("content-encoding", &enc.to_string())]);
    sim::note_max(0, len as u64);
    let (r, peak) = crate::alloc::peak(|| decode_res_body(&mut d, &tune.t));
    let r = match r {
        Ok(_) => Ok(d.explode().1.res_body),
        Err(FutioError::Body(e)) => Err(e),
        Err(e) => {
            check!(false, "unexpected-error", "decompress: {}", e);
            return;
        }
    };
    judge(&r, len as u64, tune, false, "decompress");
    let extra = if enc == Encoding::Brotli { 18 << 20 } else { 512 << 10 };
    measure(peak, tune, extra, "decompress");
    if let Ok(b) = r {
        full_check(Img { b, want: data }, false);
    }
    describe(format!("{:?} of {} ram {} max {} peak {}", enc, len, tune.ram, tune.max, peak));
}
