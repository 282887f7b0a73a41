//! C05 and C06: bodies shared by threads, and what is left of them.

use std::io::Read;
use std::sync::Arc;
use std::thread;

use body_image::{BodyImage, BodySink};

use super::body::*;
use super::source::{estimate, source_len};
use super::util::*;
use super::Scenario;
use crate::check;
use crate::sim::{self, choose_policy, cover, w};
use crate::tape::Rng;

pub const C05: Scenario = Scenario {
    id: "C05",
    run: c05,
    quick: 200_000,
    level: "exploration",
    rule: "one run = 2 to 6 threads reading, converting and dropping shared bodies and clones, every file operation, lock and thread switch decided by the seeded scheduler; non-trivial = at least one content comparison, more than 4 scheduling points; distinct = different hash of the sequence of (thread, operation, file, arguments, result), that is a different interleaving of observable operations",
    assumptions: &["threads switch at system calls, locks and thread operations; interleavings between two plain memory accesses are not explored"],
    notes: &["threads", "largest_body"],
    cli: false,
};

pub const C06: Scenario = Scenario {
    id: "C06",
    run: c06,
    quick: 150_000,
    level: "exploration",
    rule: "one run = a history of collecting, converting, failing and dropping bodies on one or more threads, then an audit of directory entries, descriptors and mappings; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["unlinking a temporary file does not fail"],
    notes: &["threads"],
    cli: false,
};

#[derive(Clone)]
struct Job {
    seed: u64,
    ops: u32,
    shared: bool,
}

fn jobs() -> Vec<Job> {
    let n = 2 + w().below(5);
    (0..n)
        .map(|_| Job { seed: u64::from(w().below(1 << 30)), ops: 1 + w().below(6), shared: w().below(2) == 1 })
        .collect()
}

const STEPS: [usize; 7] = [8192, 3, 100, 1000, 4096, 17, 65536];

/// One thread's work on a body that others use too.
fn reader_thread(j: &Job, own: Option<BodyImage>, shared: &BodyImage, want: &Arc<Vec<u8>>, hard: bool) {
    let mut r = Rng::new(j.seed);
    let mut mine = match own {
        Some(b) => b,
        None => shared.clone(),
    };
    for _ in 0..j.ops {
        let step = STEPS[r.below(7) as usize];
        match r.below(9) {
            0 | 1 => {
                let b = if j.shared { shared } else { &mine };
                read_by(&mut b.reader(), hard, want, "reader", step);
            }
            2 => {
                let b = if j.shared { shared } else { &mine };
                let mut t = Taker::new();
                match b.write_to(&mut t) {
                    Ok(n) => {
                        check!(n == want.len() as u64, "length", "write_to returned {}", n);
                        same("content", "write_to", &t.got, want);
                    }
                    Err(e) => check!(hard, "unexpected-error", "write_to: {}", e),
                }
            }
            3 => {
                mine = shared.clone();
            }
            4 => {
                mine.gather();
                check!(mine.len() == want.len() as u64, "length", "gathered length");
            }
            5 => match mine.mem_map() {
                Ok(_) => cover("mapped by a thread"),
                Err(e) => check!(hard, "unexpected-error", "mem_map: {}", e),
            },
            6 => check_explode(mine.clone(), want, hard),
            7 => {
                // Part of it, then abandon the reader.
                let mut rd = mine.reader();
                let mut buf = vec![0u8; step.min(want.len() + 1)];
                if let Ok(n) = rd.read(&mut buf) {
                    let ok = n <= want.len() && buf[..n] == want[..n];
                    check!(ok, "content", "first bytes of a reader wrong");
                }
            }
            _ => super::asy::stream_once(&mine, want, step.max(want.len() / 300), hard, j.seed),
        }
    }
}

fn run_threads(imgs: Vec<Img>, js: &[Job], hard: bool) {
    let imgs: Vec<(Arc<BodyImage>, Arc<Vec<u8>>)> =
        imgs.into_iter().map(|i| (Arc::new(i.b), Arc::new(i.want))).collect();
    let mut hs = Vec::new();
    for (k, j) in js.iter().enumerate() {
        let (b, want) = imgs[k % imgs.len()].clone();
        let own = if k % 2 == 0 { Some((*b).clone()) } else { None };
        let j = j.clone();
        hs.push(thread::spawn(move || {
            reader_thread(&j, own, &b, &want, hard);
        }));
    }
    // Some bodies are released here first, some by the threads.
    if w().below(2) == 1 {
        drop(imgs);
        for h in hs {
            h.join().unwrap();
        }
    } else {
        for h in hs {
            h.join().unwrap();
        }
        drop(imgs);
    }
}

fn c05() {
    let dir = temp_dir();
    let tune = tunables(&dir);
    let anchors = [tune.ram, 4096, 8192];
    let n = 1 + w().below(3);
    let mut imgs = Vec::new();
    for _ in 0..n {
        if let Some(i) = make(&dir, &anchors, false) {
            sim::note_max(1, i.want.len() as u64);
            imgs.push(i);
        }
    }
    if imgs.is_empty() {
        return;
    }
    let js = jobs();
    sim::note_max(0, js.len() as u64);
    choose_policy();
    set_faults(soft_faults());
    let k = imgs.len();
    run_threads(imgs, &js, false);
    describe(format!("{} bodies, {} threads", k, js.len()));
}

fn c06() {
    if w().chance(300) {
        super::asy::nothing_left(w().chance(400));
        cover("asynchronous");
        let open = sim::sim().io.open_fds().len();
        check!(open == 0, "leak-fd", "at the end: {} files still open", open);
        return;
    }
    let dir = temp_dir();
    let tune = tunables(&dir);
    if w().chance(30) {
        cover("HTTP exchange");
        return super::net::limits_http(&dir, &tune);
    }
    let anchors = [tune.ram, 4096];
    let mut fl = soft_faults();
    let hard = w().chance(600);
    if hard {
        hard_faults(&mut fl, HARD_FS);
    }
    let threads = w().chance(400);
    if threads {
        choose_policy();
    }
    set_faults(fl);
    let mut imgs: Vec<Img> = Vec::new();
    let n = 1 + w().below(5);
    for _ in 0..n {
        match w().below(7) {
            5 => archive_op(&dir, &tune.t, &mut imgs),
            6 => decode_op(&dir, &tune.t, &mut imgs, hard),
            0 | 1 => {
                if let Some(i) = make(&dir, &anchors, hard) {
                    imgs.push(i);
                }
            }
            2 => {
                // A source that fails or is too long.
                let len = source_len(&tune, false);
                let c = Content::any();
                let mut s = Source::new(c, len);
                if w().chance(500) {
                    s.fail_at = Some(u64::from(w().below(len as u32 + 1)));
                }
                let est = estimate(len, &tune);
                match BodyImage::read_from(&mut s, est, &tune.t) {
                    Ok(b) => imgs.push(Img { b, want: c.bytes(len as usize) }),
                    Err(_) => cover("collection failed"),
                }
            }
            3 => {
                // A sink given up before it was prepared.
                if let Ok(mut s) = BodySink::with_fs(&dir) {
                    let _ = s.write_all(&[7u8; 5000][..w().below(5000) as usize]);
                    cover("sink dropped");
                }
            }
            _ => {
                if !imgs.is_empty() {
                    let k = w().below(imgs.len() as u32) as usize;
                    image_op(&mut imgs, k, hard);
                }
            }
        }
        names(&dir);
    }
    if threads && !imgs.is_empty() {
        let js = jobs();
        sim::note_max(0, js.len() as u64);
        run_threads(imgs, &js, hard);
        cover("dropped by threads");
    } else {
        drop(imgs);
    }
    audit_temp(&dir, "at the end");
    // Nor of the files that bodies were made from.
    let open = sim::sim().io.open_fds().len();
    check!(open == 0, "leak-fd", "at the end: {} files still open", open);
    describe(format!("{} steps, hard faults {}, threads {}", n, hard, threads));
}

/// Read a compressed record whose bodies may need temporary files.
fn archive_op(dir: &std::path::PathBuf, tune: &body_image::Tunables, imgs: &mut Vec<Img>) {
    use super::arc::{any_rec, to_record, Strat};
    let r = any_rec(&[tune.max_body_ram(), 1024, 4096], false);
    let rec = to_record(&r, dir);
    let st = Strat::any();
    let bf = barc::BarcFile::new(scratch("c06.barc"));
    let off = match bf.writer() {
        Ok(mut wr) => wr.write(&rec, st.get()),
        Err(e) => Err(e),
    };
    drop(rec);
    if let (Ok(off), Ok(mut rd)) = (off, bf.reader()) {
        if rd.seek(off).is_ok() {
            match rd.read(tune) {
                Ok(Some(rec)) => {
                    cover("archive read");
                    imgs.push(Img { b: rec.req_body, want: r.req_b });
                    imgs.push(Img { b: rec.res_body, want: r.res_b });
                }
                _ => cover("archive read failed"),
            }
        }
    }
}

/// Decode a compressed response body.
fn decode_op(dir: &std::path::PathBuf, tune: &body_image::Tunables, imgs: &mut Vec<Img>, hard: bool) {
    let c = Content::any();
    let len = length(&[tune.max_body_ram(), tune.max_body().min(100_000), 4096], false);
    let data = c.bytes(len);
    let (e, token) = *w().pick(&[
        (body_image::Encoding::Gzip, "gzip"),
        (body_image::Encoding::Deflate, "deflate"),
        (body_image::Encoding::Brotli, "br"),
    ]);
    let mut z = super::source::encode(e, &data, w().below(7));
    let cut = w().chance(250) && !z.is_empty();
    if cut {
        z.truncate(w().below(z.len() as u32) as usize);
    }
    let mut d = super::decode::dialog(any_stored(dir, &z), &[("content-encoding", token)]);
    match body_image_futio::decode_res_body(&mut d, tune) {
        Ok(_) => {
            cover("decoded");
            let b = d.explode().1.res_body;
            if !cut {
                imgs.push(Img { b, want: data });
            }
        }
        Err(_) => {
            check!(hard || cut || len as u64 > tune.max_body(), "unexpected-error", "decoding failed");
            cover("decoding failed");
        }
    }
}

/// No temporary file has a name once the call that created it returned.
fn names(dir: &std::path::PathBuf) {
    let v: Vec<String> = sim::raw(|| match std::fs::read_dir(dir) {
        Ok(d) => d.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect(),
        Err(_) => Vec::new(),
    });
    check!(v.is_empty(), "named", "temporary file has a name: {:?}", v);
}
