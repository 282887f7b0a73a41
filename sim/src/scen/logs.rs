//! C20: the logger, with everything else running.

use std::cell::RefCell;
use std::thread;

use log::Level;

use super::cmd::redirect;
use super::util::*;
use super::{arc, arc2, asy, body, decode, net, share, source, Scenario};
use crate::check;
use crate::sim::{self, choose_policy, cover, sim, w};
use crate::tape::Rng;

pub const C20: Scenario = Scenario {
    id: "C20",
    run: c20,
    quick: 60_000,
    level: "exploration",
    rule: "one run = a run of another property's scenario (bodies, sources, archives, streams and sinks, decoding, HTTP exchanges) with the real logger installed at a level chosen by the seed, next to 0 to 4 threads that log known messages, also as their thread-local data is released; standard error is a file with split and interrupted writes, or fails; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["threads switch at system calls, locks and thread operations; interleavings between two plain memory accesses are not explored"],
    notes: &["threads", "lines"],
    cli: false,
};

const TARGETS: [&str; 8] = [
    "barc", "body_image", "hyper::proto", "barc::inner", "body_image_futio::stream", "blocking_permit::x", "mine", "a b",
];

#[derive(Clone)]
struct Msg {
    level: Level,
    target: &'static str,
    text: String,
}

struct Talker {
    name: Option<&'static str>,
    msgs: Vec<Msg>,
    /// Of those, logged as the thread's local data is released, before or
    /// after that of the logger.
    late: usize,
    early_local: bool,
}

impl Msg {
    fn log(&self) {
        let (a, b) = self.text.split_at(self.text.len() / 2);
        log::log!(target: self.target, self.level, "{}{}", a, b);
    }
    fn enabled(&self, level: Option<u32>) -> bool {
        let level = match level {
            Some(l) => l,
            None => return false,
        };
        let most = [Level::Info, Level::Debug, Level::Debug, Level::Trace][level as usize];
        let ours = ["barc", "body_image", "blocking_permit"].iter().any(|t| self.target.starts_with(t));
        self.level <= most && (level != 1 || ours || self.level <= Level::Info)
    }
}

struct Late(Vec<Msg>);
impl Drop for Late {
    fn drop(&mut self) {
        for m in &self.0 {
            m.log();
        }
    }
}

thread_local! {
    static LATE: RefCell<Late> = RefCell::new(Late(Vec::new()));
}

fn talkers() -> Vec<Talker> {
    let n = w().below(5);
    (0..n)
        .map(|i| {
            let k = w().below(6);
            let msgs: Vec<Msg> = (0..k)
                .map(|j| {
                    let len = *w().pick(&[0usize, 1, 30, 200, 3000]);
                    let mut r = Rng::new(u64::from(w().below(1 << 16)));
                    Msg {
                        level: *w().pick(&[Level::Info, Level::Debug, Level::Trace, Level::Warn, Level::Error]),
                        target: *w().pick(&TARGETS),
                        text: format!("#{}.{} {}", i, j, (0..len).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>()),
                    }
                })
                .collect();
            let late = if w().below(2) == 1 { w().below(k + 1) as usize } else { 0 };
            Talker {
                name: *w().pick(&[None, Some("talker"), Some("tokio-runtime-worker"), Some("a: b")]),
                msgs,
                late,
                early_local: w().below(2) == 1,
            }
        })
        .collect()
}

fn talk(t: &Talker) {
    let now = t.msgs.len() - t.late;
    let keep = || LATE.with(|l| l.borrow_mut().0 = t.msgs[now..].to_vec());
    if t.late > 0 && t.early_local {
        keep();
    }
    for m in &t.msgs[..now] {
        m.log();
        sim::yield_now();
    }
    if t.late > 0 && !t.early_local {
        keep();
    }
}

/// Writes fail from now on: the reader of the pipe is gone.
fn break_output(fd: i32) {
    unsafe {
        if sim().trace_fd == fd {
            sim().trace_fd = libc::fcntl(fd, libc::F_DUPFD, 100);
        }
        let mut p = [0i32; 2];
        libc::pipe(p.as_mut_ptr());
        libc::dup2(p[1], fd);
        libc::close(p[0]);
        libc::close(p[1]);
    }
}

fn c20() {
    sim().io.length_max = 0x3_8000;
    let level = w().below(4);
    let works = w().chance(850);
    sim::raw(|| {
        if works {
            redirect(2, &scratch("stderr"), true);
            sim().io.log_file = sim().io.fds[2].file;
        } else {
            break_output(2);
        }
    });
    // Set up by whoever comes first, as tests do, or here.
    let by_test = w().chance(300);
    let off = by_test && w().chance(150);
    if by_test {
        sim::raw(|| match off {
            false => std::env::set_var("TEST_LOG", (level + 1).to_string()),
            true if w().chance(500) => std::env::set_var("TEST_LOG", "0"),
            true => std::env::remove_var("TEST_LOG"),
        });
        cover(if off { "not set up" } else { "set up by the first thread" });
    } else {
        check!(piccolog::setup_logger(level).is_ok(), "setup", "the first set up of the logger failed");
    }
    if !by_test && w().below(8) == 0 {
        check!(piccolog::setup_logger(w().below(4)).is_err(), "setup", "a second set up of the logger succeeded");
        cover("set up twice");
        // The first logger stays, at the level of the second.
        log::set_max_level([log::LevelFilter::Info, log::LevelFilter::Debug, log::LevelFilter::Debug, log::LevelFilter::Trace][level as usize]);
    }
    let ts: Vec<_> = talkers().into_iter().map(std::sync::Arc::new).collect();
    sim::note_max(0, ts.len() as u64);
    let which = w().below(12) as usize;
    choose_policy();
    set_faults(soft_faults());
    let hs: Vec<_> = ts
        .iter()
        .map(|t| {
            let t = t.clone();
            let mut b = thread::Builder::new();
            if let Some(n) = t.name {
                b = b.name(n.to_string());
            }
            b.spawn(move || {
                if by_test {
                    check!(piccolog::test_logger(), "setup", "the set up for tests returned false");
                }
                talk(&t)
            })
            .unwrap()
        })
        .collect();
    if by_test {
        check!(piccolog::test_logger(), "setup", "the set up for tests returned false");
    }
    let run = [
        None, Some(&body::C01), Some(&body::C02), Some(&source::C03), Some(&share::C05), Some(&arc::C07), Some(&arc2::C09),
        Some(&arc2::C11), Some(&asy::C12), Some(&asy::C13), Some(&decode::C16), Some(&net::C17),
    ][which];
    if let Some(s) = run {
        // With its known findings.
        let p = sim::raw(|| std::mem::replace(&mut sim().property, s.id.to_string()));
        (s.run)();
        sim::raw(|| sim().property = p);
    }
    for h in hs {
        h.join().unwrap();
    }
    no_faults();
    sim::quiesce(false);
    log::logger().flush();
    if works {
        judge(if off { None } else { Some(level) }, &ts);
    } else {
        cover("failing output");
        sim::checked();
    }
    describe(format!("logger level {}, {} talkers, output {}, with {}", level, ts.len(), if works { "works" } else { "fails" },
                     run.map_or("nothing else", |s| s.id)));
}

fn judge(level: Option<u32>, ts: &[std::sync::Arc<Talker>]) {
    let out = sim::raw(|| std::fs::read(scratch("stderr")).unwrap());
    check!(out.is_empty() || out.ends_with(b"\n"), "cut-line", "the last line is not complete");
    let out = match String::from_utf8(out) {
        Ok(s) => s,
        Err(_) => sim::fail("mixed", "output is not text"),
    };
    let mut next = vec![0usize; ts.len()];
    let mut lines = 0;
    for l in out.lines() {
        lines += 1;
        let p = if l.len() > 6 && l.is_char_boundary(6) { l.split_at(6) } else { (l, "") };
        check!(["ERROR ", "WARN  ", "INFO  ", "DEBUG ", "TRACE "].contains(&p.0) && p.1.contains(": "), "mixed",
               "not a line of the log: {:.120}", l);
        let at = match l.find(": #") {
            Some(a) => a,
            None => continue,
        };
        // Of a talker.
        let id = l[at + 3..].split(' ').next().unwrap();
        let mut n = id.split('.').map(|x| x.parse::<usize>().ok());
        let (i, j) = match (n.next().flatten(), n.next().flatten()) {
            (Some(i), Some(j)) if i < ts.len() && j < ts[i].msgs.len() => (i, j),
            _ => sim::fail("mixed", &format!("unknown message: {:.120}", l)),
        };
        let t = &ts[i];
        let m = &t.msgs[j];
        check!(m.enabled(level), "filter", "message {} is not enabled at level {:?}: {:.120}", id, level, l);
        while next[i] < j {
            check!(!t.msgs[next[i]].enabled(level), "lost", "message {}.{} missing before {}", i, next[i], id);
            next[i] += 1;
        }
        check!(next[i] == j, "order", "message {} again or too late", id);
        next[i] += 1;
        let name = &p.1[m.target.len().min(p.1.len())..at - 6];
        check!(p.1.starts_with(m.target) && p.0.trim() == m.level.as_str() && l[at + 2..] == m.text, "mixed",
               "message {} came as: {:.120}", id, l);
        let named = match t.name {
            // The logger's name for the thread may be gone already.
            _ if j >= t.msgs.len() - t.late => true,
            None => name == " -",
            Some("tokio-runtime-worker") => name.starts_with(" tokio-w-ThreadId("),
            Some(n) => name[1..] == *n,
        };
        check!(named, "thread", "message {} of thread {:?} came with name{}", id, t.name, name);
    }
    for (i, t) in ts.iter().enumerate() {
        for m in &t.msgs[next[i]..] {
            check!(!m.enabled(level), "lost", "a message of talker {} at its end missing: {:.40}", i, m.text);
        }
    }
    sim::note_max(1, lines);
    sim::checked();
}
