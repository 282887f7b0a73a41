//! C12 to C15: asynchronous streams and sinks on a simulated executor.

use std::cell::Cell;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll};

use blocking_permit::{deregister_dispatch_pool, dispatch, register_dispatch_pool, DispatchPool, Semaphore, Splittable};
use body_image::{BodyError, BodyImage, BodySink};
use body_image_futio::{
    AsyncBodyImage, AsyncBodySink, BlockingPolicy, DispatchBodyImage, DispatchBodySink, FutioError,
    FutioTunables, FutioTuner, InputBuf, OutputBuf, PermitBodyImage, PermitBodySink, SinkWrapper,
    SplitBodyImage, StreamWrapper, UniBodyBuf, YieldBodyImage,
};
use bytes::{Buf, Bytes};
use futures_core::Stream;
use futures_sink::Sink;
use futures_util::future::poll_fn;
use futures_util::{StreamExt, TryStreamExt};
use http_body::Body;

use super::util::*;
use super::Scenario;
use crate::check;
use crate::exec::{self, Exec};
use crate::sim::{self, choose_policy, cover, sim, w, Fk, Op};
use crate::tape::Rng;

pub const C12: Scenario = Scenario {
    id: "C12",
    run: c12,
    quick: 200_000,
    level: "exploration",
    rule: "one run = 1 to 6 streams of every kind over bodies in every state, polled by 1 to 3 executor threads, with permits, pool threads, spurious polls, task and thread switches and read faults chosen by the seed; non-trivial = at least one content comparison and more than 4 scheduling points; distinct = different hash of the sequence of (thread, operation, object, arguments, result), that is a different interleaving of observable operations",
    assumptions: &["threads switch at system calls, locks, wakes and task polls; interleavings between two plain memory accesses are not explored"],
    notes: &["tasks", "largest_body"],
    cli: false,
};

pub const C13: Scenario = Scenario {
    id: "C13",
    run: c13,
    quick: 200_000,
    level: "exploration",
    rule: "one run = 1 to 6 sinks of every kind fed with buffers or from streams on 1 to 3 executor threads, with permits, pool threads, spurious polls, task and thread switches and write faults chosen by the seed; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["threads switch at system calls, locks, wakes and task polls; interleavings between two plain memory accesses are not explored"],
    notes: &["tasks", "largest_body"],
    cli: false,
};

pub const C14: Scenario = Scenario {
    id: "C14",
    run: c14,
    quick: 200_000,
    level: "exploration",
    rule: "one run = 1 to 6 streams and sinks under the permit or dispatch policy on 1 to 3 executor threads, each file operation checked when it starts against the permits taken, the thread it runs on and the operations in progress; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["file operations are those visible as system calls (open, read, write, seek, map advice); page faults of mapped bodies are not seen", "closing a file is not counted as a blocking operation"],
    notes: &["tasks", "largest_body", "most_at_once"],
    cli: false,
};

pub const C15: Scenario = Scenario {
    id: "C15",
    run: c15,
    quick: 100_000,
    level: "exploration",
    rule: "one run = 2 to 7 streams and sinks, some dropped after a seeded number of polls, then an audit of permits, descriptors, mappings and directory entries and a second round using every permit and pool thread; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &["a file operation already running on a pool thread is let to finish before the audit"],
    notes: &["tasks", "largest_body"],
    cli: false,
};

// ------------------------------------------------------------ kinds

/// (lower bound, upper bound, at end)
type Probe = (u64, Option<u64>, bool);

pub trait AnyStream<B>: Send {
    fn probe(&self) -> Option<Probe>;
    fn poll_any(&mut self, cx: &mut Context<'_>, body: bool) -> Poll<Option<Result<B, io::Error>>>;
}

fn probe_of<T: Body>(b: &T) -> Option<Probe> {
    let h = b.size_hint();
    Some((h.lower(), h.upper(), b.is_end_stream()))
}

macro_rules! body_kind {
    ($t:ident) => {
        impl<B: OutputBuf> AnyStream<B> for $t<B> {
            fn probe(&self) -> Option<Probe> {
                probe_of(self)
            }
            fn poll_any(&mut self, cx: &mut Context<'_>, body: bool) -> Poll<Option<Result<B, io::Error>>> {
                if body {
                    Pin::new(self).poll_data(cx)
                } else {
                    Pin::new(self).poll_next(cx)
                }
            }
        }
    };
}
body_kind!(AsyncBodyImage);
body_kind!(PermitBodyImage);
body_kind!(DispatchBodyImage);

/// A stream that is no body.
struct Plain<S>(S);
impl<B, S: Stream<Item = Result<B, io::Error>> + Unpin + Send> AnyStream<B> for Plain<S> {
    fn probe(&self) -> Option<Probe> {
        None
    }
    fn poll_any(&mut self, cx: &mut Context<'_>, _: bool) -> Poll<Option<Result<B, io::Error>>> {
        Pin::new(&mut self.0).poll_next(cx)
    }
}

pub const DIRECT: u32 = 0;
pub const YIELD: u32 = 1;
pub const SPLIT: u32 = 2;
pub const PERMIT: u32 = 3;
pub const DISPATCH: u32 = 4;
const KIND: [&str; 5] = ["direct", "yield", "split", "permit", "dispatch"];

fn make_stream<B>(kind: u32, b: BodyImage, t: FutioTunables) -> Box<dyn AnyStream<B>>
where
    B: OutputBuf + Splittable,
{
    match kind {
        DIRECT => Box::new(<AsyncBodyImage<B> as StreamWrapper>::new(b, t)),
        YIELD => Box::new(Plain(<YieldBodyImage<B> as StreamWrapper>::new(b, t))),
        SPLIT => Box::new(Plain(<SplitBodyImage<B> as StreamWrapper>::new(b, t))),
        PERMIT => Box::new(<PermitBodyImage<B> as StreamWrapper>::new(b, t)),
        _ => Box::new(<DispatchBodyImage<B> as StreamWrapper>::new(b, t)),
    }
}

struct AsStream<B>(Box<dyn AnyStream<B>>);
impl<B> Stream for AsStream<B> {
    type Item = Result<B, io::Error>;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        self.0.poll_any(cx, false)
    }
}

pub trait AnySink<B>: Send {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>>;
    fn send(&mut self, b: B) -> Result<(), FutioError>;
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>>;
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>>;
    fn finish(self: Box<Self>) -> BodySink;
}

struct Wrap<S>(S);
impl<B, S: SinkWrapper<B> + Sink<B, Error = FutioError> + Unpin + Send> AnySink<B> for Wrap<S> {
    fn ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> {
        Pin::new(&mut self.0).poll_ready(cx)
    }
    fn send(&mut self, b: B) -> Result<(), FutioError> {
        Pin::new(&mut self.0).start_send(b)
    }
    fn flush(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn close(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> {
        Pin::new(&mut self.0).poll_close(cx)
    }
    fn finish(self: Box<Self>) -> BodySink {
        self.0.into_inner()
    }
}

pub(super) fn make_sink<B: InputBuf>(kind: u32, s: BodySink, t: FutioTunables) -> Box<dyn AnySink<B>> {
    match kind {
        PERMIT => Box::new(Wrap(<PermitBodySink<B> as SinkWrapper<B>>::new(s, t))),
        DISPATCH => Box::new(Wrap(<DispatchBodySink<B> as SinkWrapper<B>>::new(s, t))),
        _ => Box::new(Wrap(<AsyncBodySink<B> as SinkWrapper<B>>::new(s, t))),
    }
}

pub(super) struct AsSink<'a, B>(pub(super) &'a mut Box<dyn AnySink<B>>);
impl<'a, B> Sink<B> for AsSink<'a, B> {
    type Error = FutioError;
    fn poll_ready(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> {
        self.0.ready(cx)
    }
    fn start_send(mut self: Pin<&mut Self>, b: B) -> Result<(), FutioError> {
        self.0.send(b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> {
        self.0.flush(cx)
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), FutioError>> {
        self.0.close(cx)
    }
}

/// Return to the executor once.
async fn pause() {
    let mut first = true;
    poll_fn(|cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

// ------------------------------------------------------- environment

pub struct Env {
    pub dir: std::path::PathBuf,
    pub tune: Tune,
    pub item: usize,
    pub sem: &'static Semaphore,
    pub permits: u32,
    pub pool: Option<DispatchPool>,
    pub pool_size: u32,
    /// Limit of the pool's queue.
    pub queue: Option<u32>,
    pub workers: u32,
}

static mut POOL_THREADS: Vec<usize> = Vec::new();
#[allow(static_mut_refs)]
fn pool_threads() -> &'static mut Vec<usize> {
    unsafe { &mut POOL_THREADS }
}

pub fn make_pool(queue: Option<u32>, size: u32) -> DispatchPool {
    let mut b = DispatchPool::builder();
    b.pool_size(size as usize);
    if let Some(q) = queue {
        b.queue_length(q as usize);
    }
    b.ignore_panics(w().below(2) == 1);
    b.after_start(|_| sim::raw(|| pool_threads().push(sim().cur)));
    b.create()
}

pub(super) fn environment(need_pool: bool) -> Env {
    let dir = temp_dir();
    let tune = tunables(&dir);
    let item = *w().pick(&[512 * 1024usize, 1, 3, 100, 1000, 4096, 5000]);
    let permits = *w().pick(&[1u32, 2, 3]);
    let sem: &'static Semaphore = sim::raw(|| Box::leak(Box::new(Semaphore::new(permits as usize))));
    let queue = *w().pick(&[None, None, Some(0u32), Some(1), Some(2)]);
    let size = 1 + w().below(3);
    let pool = if need_pool { Some(make_pool(queue, size)) } else { None };
    let workers = 1 + w().below(3);
    Env { dir, tune, item, sem, permits, pool, pool_size: size, queue, workers }
}

impl Env {
    pub fn futio(&self, kind: u32) -> FutioTunables {
        let mut t = FutioTuner::new();
        t.set_image(self.tune.t.clone());
        // The default is taken as it is.
        if self.item != 512 * 1024 {
            t.set_stream_item_size(self.item);
        }
        t.set_blocking_policy(match kind {
            PERMIT => BlockingPolicy::Permit(self.sem),
            DISPATCH => BlockingPolicy::Dispatch,
            _ => BlockingPolicy::Direct,
        });
        t.finish()
    }

    /// Longest body that does not need too many steps.
    pub(super) fn cap(&self, kind: u32) -> usize {
        let mut per = self.tune.t.buffer_size_fs();
        if kind == SPLIT {
            per = per.min(self.item);
        }
        per.saturating_mul(300).max(100)
    }

    pub(super) fn data(&self, cap: usize) -> Vec<u8> {
        let c = Content::any();
        let bf = self.tune.t.buffer_size_fs() as u64;
        let mut a = vec![self.tune.ram, bf, 2 * bf, 4096];
        if self.tune.max < 1 << 20 {
            a.push(self.tune.max);
        }
        let n = length(&a, true).min(cap);
        c.bytes(n)
    }

    /// What the watcher expects of file operations of the kind.
    fn tag(&self, kind: u32) -> u32 {
        match kind {
            PERMIT => TAG_PERMIT,
            DISPATCH if self.queue.is_none() => TAG_POOL,
            DISPATCH => TAG_QUEUE,
            _ => TAG_FREE,
        }
    }
}

const TAG_FREE: u32 = 0;
const TAG_PERMIT: u32 = 1;
const TAG_POOL: u32 = 2;
const TAG_QUEUE: u32 = 3;

// ----------------------------------------------------------- watcher

struct Watch {
    sem: Option<&'static Semaphore>,
    permits: usize,
    /// Permit operations in progress.
    busy: usize,
    /// Streams and sinks under the permit policy still alive.
    holders: usize,
    files: Vec<(u32, u32)>,
}

static mut WATCH: Watch = Watch { sem: None, permits: 0, busy: 0, holders: 0, files: Vec::new() };
#[allow(static_mut_refs)]
fn watch() -> &'static mut Watch {
    unsafe { &mut WATCH }
}

thread_local! {
    static IN_PERMIT: Cell<u32> = const { Cell::new(0) };
}

fn taken() -> usize {
    let wt = watch();
    wt.permits - wt.sem.map_or(0, |s| s.available_permits())
}

fn on_file_op(before: bool, op: Op, file: u32) {
    let wt = watch();
    let name = sim::OP_NAMES[op as usize];
    let tag = exec::current_tag();
    if !before {
        if IN_PERMIT.with(|c| c.replace(0)) == 1 {
            wt.busy -= 1;
        }
        if let Some(f) = wt.files.iter_mut().find(|f| f.0 == file) {
            f.1 -= f.1.min(1);
        }
        return;
    }
    match tag {
        Some(TAG_PERMIT) => {
            wt.busy += 1;
            IN_PERMIT.with(|c| c.set(1));
            sim::note_max(2, wt.busy as u64);
            let t = taken();
            check!(wt.busy <= t, "no-permit", "{} started: {} operations in progress, {} of {} permits taken",
                   name, wt.busy, t, wt.permits);
        }
        Some(TAG_POOL) => {
            let me = sim().cur;
            let ok = pool_threads().contains(&me);
            check!(ok, "not-dispatched", "{} ran on the thread polling a dispatching stream or sink", name);
        }
        _ => {}
    }
    if file != 0 {
        if let Some(f) = wt.files.iter_mut().find(|f| f.0 == file) {
            f.1 += 1;
            check!(f.1 <= 1, "overlap", "{} started while another operation on the same body was in progress", name);
        } else {
            wt.files.push((file, 1));
        }
    }
}

/// Writes of a body that a client collects under a policy.
fn on_write(before: bool, op: Op, _file: u32) {
    if op != Op::Write && op != Op::Pwrite {
        return;
    }
    let wt = watch();
    if !before {
        if IN_PERMIT.with(|c| c.replace(0)) == 1 {
            wt.busy -= 1;
        }
        return;
    }
    let name = sim::OP_NAMES[op as usize];
    if wt.sem.is_some() {
        wt.busy += 1;
        IN_PERMIT.with(|c| c.set(1));
        let t = taken();
        check!(wt.busy <= t, "no-permit", "{} of a response started: {} in progress, {} of {} permits taken", name, wt.busy, t, wt.permits);
        cover("response written with a permit");
    } else {
        let ok = pool_threads().contains(&sim().cur);
        check!(ok, "not-dispatched", "{} of a response ran on a thread of the runtime", name);
        cover("response written by the pool");
    }
}

/// Watch the writes of responses, under a permit policy if a semaphore is
/// given, else under the dispatch policy.
pub(super) fn watch_writes(sem: Option<(&'static Semaphore, usize)>) {
    let wt = watch();
    wt.sem = sem.map(|s| s.0);
    wt.permits = sem.map_or(0, |s| s.1);
    sim().io.watch = Some(on_write);
}

/// A stream or sink of the permit kind just finished an operation.
fn permit_returned(tag: u32, what: &str) {
    let wt = watch();
    if tag == TAG_PERMIT && wt.sem.is_some() {
        let t = taken();
        check!(t < wt.holders.max(1), "permit-kept", "{}: {} permits taken, {} permit streams and sinks exist",
               what, t, wt.holders);
    }
}

struct Holder(u32);
impl Holder {
    fn new(tag: u32, n: usize) -> Holder {
        let n = if tag == TAG_PERMIT { n } else { 0 };
        watch().holders += n;
        Holder(n as u32)
    }
}
impl Drop for Holder {
    fn drop(&mut self) {
        watch().holders -= self.0 as usize;
    }
}

// -------------------------------------------------------------- jobs

#[derive(Clone)]
struct Job {
    kind: u32,
    tag: u32,
    seed: u64,
    hard: bool,
    item: usize,
    file: bool,
    ram: u64,
    max: u64,
    /// The largest item allowed.
    limit: usize,
    what: &'static str,
}

/// Poll a stream to its end.
async fn drink<B: Buf + AsRef<[u8]>>(h: Holder, mut s: Box<dyn AnyStream<B>>, want: Arc<Vec<u8>>, j: Job) {
    let mut r = Rng::new(j.seed);
    let body = r.below(2) == 1;
    let mut got = 0usize;
    let mut errs = 0u32;
    let mut kept: Vec<(usize, B)> = Vec::new();
    let hints = |s: &dyn AnyStream<B>, got: usize| {
        if let Some((lo, hi, end)) = s.probe() {
            let left = (want.len() - got) as u64;
            let ok = lo <= left && hi.map_or(true, |h| h >= left);
            check!(ok, "size-hint", "{} stream: size hint {} to {:?} with {} bytes left", j.what, lo, hi, left);
            check!(!(end && left > 0), "end-hint", "{} stream: says it is at its end with {} bytes left", j.what, left);
        }
    };
    loop {
        if errs == 0 {
            hints(&*s, got);
        }
        if r.below(5) == 0 {
            pause().await;
        }
        let x = poll_fn(|cx| {
            let x = s.poll_any(cx, body);
            if x.is_pending() && errs == 0 {
                hints(&*s, got);
            }
            x
        });
        match x.await {
            Some(Ok(b)) => {
                permit_returned(j.tag, "after an item");
                let n = b.remaining();
                let ok = n <= want.len() - got && b.as_ref() == &want[got..got + n];
                check!(ok, "content", "{} stream: item of {} bytes at {} of {} is wrong", j.what, n, got, want.len());
                check!(n <= j.limit, "item-size", "{} stream: item of {} bytes, limit {}", j.what, n, j.limit);
                if kept.len() < 4 && r.below(4) == 0 {
                    kept.push((got, b));
                } else {
                    let mut b = b;
                    if n > 0 && r.below(4) == 0 {
                        let k = r.below(n as u64 + 1) as usize;
                        b.advance(k);
                        let ok = b.remaining() == n - k && b.chunk() == &want[got + k..got + n][..b.chunk().len()];
                        check!(ok, "content", "{} stream: item of {} advanced by {} is wrong", j.what, n, k);
                    }
                    // What the consumer does with an item is its own affair.
                    exec::untagged(|| drop(b));
                }
                got += n;
            }
            Some(Err(e)) => {
                permit_returned(j.tag, "after an error");
                check!(j.hard, "unexpected-error", "{} stream: {}", j.what, e);
                cover("stream error delivered");
                errs += 1;
                if errs > 3 || r.below(2) == 0 {
                    break;
                }
            }
            None => {
                check!(got == want.len() || errs > 0, "early-end", "{} stream: ended after {} of {} bytes",
                       j.what, got, want.len());
                cover("stream completed");
                break;
            }
        }
    }
    drop(s);
    drop(h);
    for (at, b) in &kept {
        let ok = b.as_ref() == &want[*at..*at + b.remaining()];
        check!(ok, "content", "{} stream: item kept from {} changed", j.what, at);
    }
    exec::untagged(|| drop(kept));
}

/// The beginning of a very long body: `want`, and then nothing but zeros.
async fn sip<B: Buf + AsRef<[u8]>>(h: Holder, mut s: Box<dyn AnyStream<B>>, want: Vec<u8>, total: u64, j: Job) {
    let mut got = 0usize;
    for _ in 0..8 {
        if let Some((lo, hi, end)) = s.probe() {
            let left = total - got as u64;
            let ok = lo <= left && hi.map_or(true, |h| h >= left) && !end;
            check!(ok, "size-hint", "{} stream: size hint {} to {:?} with {} bytes left", j.what, lo, hi, left);
        }
        match poll_fn(|cx| s.poll_any(cx, false)).await {
            Some(Ok(b)) => {
                let n = b.remaining();
                let v = b.as_ref();
                let k = n.min(want.len().saturating_sub(got));
                let ok = v[..k] == want[got.min(want.len())..][..k] && v[k..].iter().all(|b| *b == 0);
                check!(ok, "content", "{} stream: item of {} bytes at {} of {} is wrong", j.what, n, got, total);
                check!(n <= j.limit, "item-size", "{} stream: item of {} bytes, limit {}", j.what, n, j.limit);
                got += n;
            }
            Some(Err(e)) => {
                check!(j.hard, "unexpected-error", "{} stream: {}", j.what, e);
                break;
            }
            None => check!(false, "early-end", "{} stream: ended after {} of {} bytes", j.what, got, total),
        }
    }
    cover("body beyond 2 GiB");
    drop(s);
    drop(h);
}

pub struct Feed {
    want: Vec<u8>,
    /// Bytes in the sink before, and what to do with the pieces.
    start: usize,
    start_ram: bool,
    flush: u32,
    close: bool,
}

fn judge_sink(r: Result<(), FutioError>, sent: u64, f: &Feed, j: &Job) -> bool {
    match r {
        Ok(()) => true,
        Err(FutioError::Body(BodyError::BodyTooLong(n))) => {
            check!(n > j.max && sent > j.max, "wrong-reject", "{} sink: {} bytes rejected as too long ({}), maximum {}",
                   j.what, sent, n, j.max);
            cover("sink rejected too long");
            let _ = f;
            false
        }
        Err(e) => {
            check!(j.hard, "unexpected-error", "{} sink: {:?}", j.what, e);
            cover("sink error delivered");
            false
        }
    }
}

fn check_sunk(b: BodySink, sent: usize, f: &Feed, j: &Job) {
    check!(b.len() == sent as u64, "length", "{} sink: holds {} of {} bytes sent", j.what, b.len(), sent);
    check!(b.len() <= j.max || sent == f.start, "too-long", "{} sink: holds {} bytes, maximum {}", j.what, b.len(), j.max);
    let ram = f.start_ram && (sent as u64 <= j.ram || sent == f.start);
    check!(b.is_ram() == ram, "ram-limit", "{} sink: {} bytes, RAM limit {}, started in {}, now in {}",
           j.what, sent, j.ram, if f.start_ram { "RAM" } else { "file" }, if b.is_ram() { "RAM" } else { "file" });
    if !b.is_ram() && f.start_ram {
        cover("sink moved to file");
    }
    match b.prepare() {
        Ok(b) => {
            match content_of(&b) {
                Ok(v) => same("content", j.what, &v, &f.want[..sent]),
                Err(e) => check!(j.hard, "unexpected-error", "{} sink: reading back: {}", j.what, e),
            }
            cover("sink completed");
        }
        Err(e) => check!(j.hard, "unexpected-error", "{} sink: prepare: {:?}", j.what, e),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum How {
    Long,
    Storage,
    Other,
}

fn how(r: &Result<(), FutioError>) -> How {
    match r {
        Err(FutioError::Body(BodyError::BodyTooLong(_))) => How::Long,
        Err(FutioError::Body(BodyError::Io(_))) => How::Storage,
        _ => How::Other,
    }
}

/// A sink that failed still holds the pieces before, or nothing if these were
/// to be moved to a file.
fn rejected<B>(h: Holder, s: Box<dyn AnySink<B>>, how: How, kept: usize, f: &Feed, j: &Job) {
    permit_returned(j.tag, "after an error");
    drop(h);
    match how {
        How::Long => {
            cover("sink kept what came before");
            exec::untagged(|| check_sunk(s.finish(), kept, f, j));
        }
        How::Storage => exec::untagged(|| {
            let b = s.finish();
            check!(b.len() == kept as u64 || (b.is_empty() && b.is_ram()), "length",
                   "{} sink: holds {} of {} bytes sent before a failure", j.what, b.len(), kept);
            if let Ok(b) = b.prepare() {
                let n = b.len() as usize;
                if let Ok(v) = content_of(&b) {
                    cover("sink read after a failure");
                    same("content", j.what, &v, &f.want[..n]);
                }
            }
        }),
        How::Other => {}
    }
}

/// Send pieces to a sink.
async fn feed<B: InputBuf + From<Bytes>>(h: Holder, mut s: Box<dyn AnySink<B>>, pieces: Vec<B>, f: Feed, j: Job) {
    let mut r = Rng::new(j.seed);
    let mut sent = f.start;
    // What was in the sink before the piece on its way.
    let mut kept = sent;
    for p in pieces {
        if r.below(5) == 0 {
            pause().await;
        }
        let x = poll_fn(|cx| s.ready(cx)).await;
        let end = how(&x);
        if !judge_sink(x, sent as u64, &f, &j) {
            return rejected(h, s, end, kept, &f, &j);
        }
        permit_returned(j.tag, "after sending");
        kept = sent;
        sent += p.remaining();
        if !judge_sink(s.send(p), sent as u64, &f, &j) {
            return;
        }
        if r.below(100) < u64::from(f.flush) {
            let x = poll_fn(|cx| s.flush(cx)).await;
            let end = how(&x);
            if !judge_sink(x, sent as u64, &f, &j) {
                return rejected(h, s, end, kept, &f, &j);
            }
            kept = sent;
            check!(sent as u64 <= j.max || sent == f.start, "too-long", "{} sink: flushed {} bytes, maximum {}",
                   j.what, sent, j.max);
            permit_returned(j.tag, "after a flush");
        }
    }
    let x = if f.close { poll_fn(|cx| s.close(cx)).await } else { poll_fn(|cx| s.flush(cx)).await };
    let end = how(&x);
    if !judge_sink(x, sent as u64, &f, &j) {
        return rejected(h, s, end, kept, &f, &j);
    }
    permit_returned(j.tag, "at the end");
    drop(h);
    exec::untagged(|| check_sunk(s.finish(), sent, &f, &j));
}

/// Forward a stream to a sink.
async fn forward<B: InputBuf + OutputBuf>(h: Holder, st: Box<dyn AnyStream<B>>, mut s: Box<dyn AnySink<B>>, f: Feed, j: Job) {
    let total = f.want.len();
    let x = AsStream(st).map_err(FutioError::from).forward(AsSink(&mut s)).await;
    if !judge_sink(x, total as u64, &f, &j) {
        return;
    }
    permit_returned(j.tag, "after forwarding");
    drop(h);
    cover("forwarded");
    exec::untagged(|| check_sunk(s.finish(), total, &f, &j));
}

/// As forward, from a source that makes its pieces when they are asked for.
async fn lean<B: InputBuf + OutputBuf + From<Bytes>>(mut s: Box<dyn AnySink<B>>, f: Arc<Feed>, piece: usize, j: Job, tune: Tune) {
    let total = f.want.len();
    let at = Arc::new(AtomicUsize::new(0));
    let (a, g) = (at.clone(), f.clone());
    let src = futures_util::stream::poll_fn(move |_| {
        let p = a.load(Relaxed);
        if p == g.want.len() {
            return Poll::Ready(None);
        }
        let n = piece.min(g.want.len() - p);
        a.store(p + n, Relaxed);
        Poll::Ready(Some(Ok::<B, FutioError>(Bytes::from(g.want[p..p + n].to_vec()).into())))
    });
    crate::alloc::start();
    let x = src.forward(AsSink(&mut s)).await;
    let peak = crate::alloc::stop();
    // What a piece kept costs beside its content.
    let extra = 160 * (tune.ram / piece as u64 + 1) + 8 * piece as u64;
    super::source::measure(peak, &tune, extra, "sink");
    let taken = at.load(Relaxed) as u64;
    check!(x.is_ok() || taken <= tune.max.saturating_add(4 * piece as u64), "memory",
           "{} bytes taken from the source, maximum {}", taken, tune.max);
    if !judge_sink(x, total as u64, &f, &j) {
        return;
    }
    cover("lean sink");
    exec::untagged(|| check_sunk(s.finish(), total, &f, &j));
}

/// The limits kept by a sink.
pub fn limits_sink() {
    let env = environment(true);
    let kind = w().below(3);
    let kind = [DIRECT, PERMIT, DISPATCH][kind as usize];
    let piece = *w().pick(&[5000usize, 100, 1000, 20_000, 64 * 1024]);
    let data = if w().chance(150) {
        Content::any().bytes(500_000 + w().below(2_000_000) as usize)
    } else {
        env.data(200_000)
    };
    let piece = piece.max(data.len() / 300);
    let n = data.len();
    let sink = faultless(|| BodySink::with_ram_buffers(w().below(3) as usize));
    let f = Arc::new(Feed { want: data, start: 0, start_ram: true, flush: 0, close: false });
    let j = job(&env, kind, false, false);
    let t = env.futio(kind);
    let tune = Tune { t: env.tune.t.clone(), ram: env.tune.ram, max: env.tune.max };
    sim::note_max(0, n as u64);
    describe(format!("sink of {} in pieces of {} ram {} max {} policy {}", n, piece, tune.ram, tune.max, j.what));
    let x = Exec::new();
    if w().below(2) == 0 {
        x.spawn(j.tag, None, lean(make_sink::<UniBodyBuf>(kind, sink, t), f, piece, j, tune));
    } else {
        x.spawn(j.tag, None, lean(make_sink::<Bytes>(kind, sink, t), f, piece, j, tune));
    }
    set_watch(&env);
    choose_policy();
    set_faults(soft_faults());
    spurious();
    x.run(env.workers, env.pool.clone());
    finish(env);
}

// --------------------------------------------------------- generation

fn job(env: &Env, kind: u32, hard: bool, file: bool) -> Job {
    let mut limit = usize::MAX;
    if file {
        limit = env.tune.t.buffer_size_fs();
    }
    if kind == SPLIT {
        limit = limit.min(env.item);
    }
    Job {
        kind,
        tag: env.tag(kind),
        seed: u64::from(w().below(1 << 30)),
        hard,
        item: env.item,
        file,
        ram: env.tune.ram,
        max: env.tune.max,
        limit,
        what: KIND[kind as usize],
    }
}

fn add_stream(x: &Exec, env: &Env, kind: u32, hard: bool, dropped: Option<u32>, shared: &mut Vec<(BodyImage, Arc<Vec<u8>>, u32)>, ram_only: bool, own: bool) {
    let again = !own && !shared.is_empty() && w().below(3) == 1;
    let (b, want, st) = if again {
        let k = w().below(shared.len() as u32) as usize;
        let e = &shared[k];
        if e.1.len() > env.cap(kind) {
            return;
        }
        (e.0.clone(), e.1.clone(), e.2)
    } else {
        let data = env.data(env.cap(kind));
        let mut st = if ram_only { w().below(2) } else { w().below(6) };
        if st >= 4 && data.is_empty() {
            st -= 2;
        }
        let mut b = stored(&env.dir, &data, st);
        let mut st = st;
        if st == 1 && w().below(3) == 1 {
            b.gather();
            st = 0;
        }
        let want = Arc::new(data);
        if !own {
            shared.push((b.clone(), want.clone(), st));
        }
        (b, want, st)
    };
    sim::note_max(1, want.len() as u64);
    let j = job(env, kind, hard, st == 2 || st == 3);
    let t = env.futio(kind);
    let h = Holder::new(j.tag, 1);
    if w().below(2) == 0 {
        x.spawn(j.tag, dropped, drink(h, make_stream::<Bytes>(kind, b, t), want, j));
    } else {
        x.spawn(j.tag, dropped, drink(h, make_stream::<UniBodyBuf>(kind, b, t), want, j));
    }
}

/// A stream of a body whose length needs 32 bits or more.
fn add_long(x: &Exec, env: &Env, kind: u32, hard: bool) {
    let chunk = env.tune.t.buffer_size_fs() as u32;
    let data = env.data(chunk as usize * 3);
    let total = *w().pick(&[0x7fff_ffffu64, 0xffff_ffff, 0x1_0000_0000]) + u64::from(w().below(3 * chunk + 1));
    crate::orch::allow_hole(total);
    sim::raw(|| {
        let path = env.dir.join("long");
        std::fs::write(&path, &data).unwrap();
        std::fs::OpenOptions::new().write(true).open(&path).unwrap().set_len(total).unwrap();
    });
    let f = std::fs::File::open(env.dir.join("long"));
    sim::raw(|| std::fs::remove_file(env.dir.join("long")).unwrap());
    crate::orch::end_holes();
    let b = match f {
        Ok(f) => unsafe { BodyImage::from_file(f, total) },
        Err(_) => return,
    };
    let j = job(env, kind, hard, true);
    let h = Holder::new(j.tag, 1);
    x.spawn(j.tag, None, sip(h, make_stream::<Bytes>(kind, b, env.futio(kind)), data, total, j));
}

fn add_sink(x: &Exec, env: &Env, kind: u32, hard: bool, dropped: Option<u32>, ram_only: bool) {
    let kind = if kind == PERMIT || kind == DISPATCH { kind } else { DIRECT };
    let mut cap = 150_000;
    if ram_only {
        cap = cap.min(env.tune.ram as usize);
    }
    let data = env.data(cap);
    let n = data.len();
    sim::note_max(1, n as u64);
    let from_stream = !ram_only && w().below(3) == 1 && n <= env.cap(SPLIT);
    let start = if !from_stream && w().below(3) == 1 { (w().below(1 + n as u32) as usize).min(n) } else { 0 };
    let start_ram = ram_only || w().below(4) != 0;
    let sink = faultless(|| {
        let mut s = if start_ram {
            if w().below(2) == 0 {
                BodySink::with_ram_buffers(w().below(3) as usize)
            } else {
                BodySink::with_ram(env.tune.ram.min(10_000))
            }
        } else {
            BodySink::with_fs(&env.dir).unwrap()
        };
        if start > 0 {
            s.write_all(&data[..start]).unwrap();
        }
        s
    });
    let j = job(env, kind, hard, false);
    let f = Feed { want: data, start, start_ram, flush: [0, 20, 100][w().below(3) as usize], close: w().below(2) == 1 };
    let t = env.futio(kind);
    let h = Holder::new(j.tag, if from_stream { 2 } else { 1 });
    let uni = w().below(2) == 1;
    if from_stream {
        let mut st = w().below(6);
        if st >= 4 && n == 0 {
            st -= 2;
        }
        let b = stored(&env.dir, &f.want, st);
        // The stream follows the sink's policy.
        let sk = if kind == DIRECT { w().below(3) } else { kind };
        if uni {
            x.spawn(j.tag, dropped, forward(h, make_stream::<UniBodyBuf>(sk, b, t.clone()), make_sink::<UniBodyBuf>(kind, sink, t), f, j));
        } else {
            x.spawn(j.tag, dropped, forward(h, make_stream::<Bytes>(sk, b, t.clone()), make_sink::<Bytes>(kind, sink, t), f, j));
        }
        return;
    }
    if uni {
        let p = uni_pieces(&env.dir, &f.want[start..]);
        x.spawn(j.tag, dropped, feed(h, make_sink::<UniBodyBuf>(kind, sink, t), p, f, j));
    } else {
        let p = pieces(&f.want[start..]);
        x.spawn(j.tag, dropped, feed(h, make_sink::<Bytes>(kind, sink, t), p, f, j));
    }
}

fn pieces(v: &[u8]) -> Vec<Bytes> {
    let mut out = Vec::new();
    let mut at = 0;
    let step = *w().pick(&[5000u32, 2, 30, 700, 20_000]);
    while at < v.len() && out.len() < 40 {
        let mut n = w().below(step + 1) as usize;
        if out.len() == 39 {
            n = v.len();
        }
        let n = n.min(v.len() - at);
        let skip = if w().below(4) == 0 { w().below(9) as usize } else { 0 };
        let mut x = vec![0xcc; skip];
        x.extend_from_slice(&v[at..at + n]);
        let mut b = Bytes::from(x);
        b.advance(skip);
        out.push(b);
        at += n;
    }
    out
}

/// Buffers on the heap or parts of a memory map, some advanced.
fn uni_pieces(dir: &std::path::PathBuf, v: &[u8]) -> Vec<UniBodyBuf> {
    if v.is_empty() || w().below(2) == 0 {
        return pieces(v).into_iter().map(UniBodyBuf::from).collect();
    }
    cover("mapped buffers sent");
    let skip = w().below(20) as usize;
    let mut x = vec![0xab; skip];
    x.extend_from_slice(v);
    let b = stored(dir, &x, 4);
    let mut s = <AsyncBodyImage<UniBodyBuf> as StreamWrapper>::new(b, FutioTunables::default());
    let mut whole = faultless(|| exec::block_on(s.next())).unwrap().unwrap();
    whole.advance(skip);
    let mut out = Vec::new();
    while out.len() < 30 {
        match whole.split_if(1 + w().below(5000) as usize) {
            Some(l) => out.push(l),
            None => break,
        }
    }
    out.push(whole);
    out
}

pub(super) fn spurious() {
    let f = &mut sim().f;
    sim().fl.p[Fk::SpuriousPoll as usize] = [0, 0, 100, 500][f.below(4) as usize];
}

fn any_kind() -> u32 {
    w().below(5)
}

pub(super) fn set_watch(env: &Env) {
    let wt = watch();
    wt.sem = Some(env.sem);
    wt.permits = env.permits as usize;
}

pub(super) fn finish(mut env: Env) {
    no_faults();
    drop(env.pool.take());
    sim::quiesce(true);
    check!(env.sem.available_permits() == env.permits as usize, "permit-lost", "{} of {} permits left at the end",
           env.sem.available_permits(), env.permits);
}

fn c12() {
    let env = environment(true);
    let hard = w().chance(350);
    let x = Exec::new();
    let mut shared = Vec::new();
    let n = 1 + w().below(6);
    for _ in 0..n {
        add_stream(&x, &env, any_kind(), hard, None, &mut shared, false, false);
    }
    if w().chance(15) {
        add_long(&x, &env, any_kind(), hard);
    }
    drop(shared);
    sim::note_max(0, u64::from(n));
    set_watch(&env);
    choose_policy();
    let mut fl = soft_faults();
    if hard {
        hard_faults(&mut fl, &[Fk::EioRead, Fk::EofRead, Fk::FailMadvise]);
    }
    set_faults(fl);
    spurious();
    x.run(env.workers, env.pool.clone());
    describe(format!("{} streams, {} workers, {} permits, queue {:?}, hard faults {}", n, env.workers, env.permits, env.queue, hard));
    finish(env);
}

fn c13() {
    let env = environment(true);
    let hard = w().chance(350);
    let x = Exec::new();
    let n = 1 + w().below(6);
    for _ in 0..n {
        add_sink(&x, &env, any_kind(), hard, None, false);
    }
    sim::note_max(0, u64::from(n));
    set_watch(&env);
    choose_policy();
    let mut fl = soft_faults();
    if hard {
        hard_faults(&mut fl, HARD_FS);
        if sim().f.below(6) == 1 {
            fl.quota = Some(u64::from(sim().f.below(20000)));
        }
    }
    set_faults(fl);
    spurious();
    x.run(env.workers, env.pool.clone());
    describe(format!("{} sinks, {} workers, {} permits, queue {:?}, hard faults {}", n, env.workers, env.permits, env.queue, hard));
    let dir = env.dir.clone();
    finish(env);
    audit_temp(&dir, "at the end");
}

fn c14() {
    if w().chance(80) {
        return super::net::policy_http();
    }
    // Without a permit to be had and without a pool, RAM bodies still flow.
    let starved = w().chance(200);
    let mut env = environment(!starved);
    let hard = w().chance(250);
    let held: Vec<_> = if starved {
        (0..env.permits).map(|_| env.sem.try_acquire().unwrap()).collect()
    } else {
        Vec::new()
    };
    let x = Exec::new();
    let n = 1 + w().below(6);
    for _ in 0..n {
        let kind = if w().below(2) == 0 { PERMIT } else { DISPATCH };
        if w().below(2) == 0 {
            add_stream(&x, &env, kind, hard, None, &mut Vec::new(), starved, true);
        } else {
            add_sink(&x, &env, kind, hard, None, starved);
        }
    }
    sim::note_max(0, u64::from(n));
    choose_policy();
    let mut fl = soft_faults();
    if hard {
        hard_faults(&mut fl, HARD_FS);
    }
    set_faults(fl);
    spurious();
    if starved {
        cover("no permit and no pool");
    } else {
        set_watch(&env);
        sim().io.watch = Some(on_file_op);
    }
    let pool = env.pool.take();
    x.run(env.workers, pool);
    sim().io.watch = None;
    drop(held);
    describe(format!("{} tasks, {} workers, {} permits, queue {:?}, starved {}, hard faults {}", n, env.workers, env.permits, env.queue, starved, hard));
    finish(env);
}

fn c15() {
    let env = environment(true);
    let hard = w().chance(250);
    let mut shared = Vec::new();
    let x = Exec::new();
    let n = 2 + w().below(6);
    for _ in 0..n {
        let dropped = if w().below(2) == 1 { Some(w().below(8)) } else { None };
        let kind = *w().pick(&[PERMIT, DISPATCH, DIRECT, YIELD, SPLIT, PERMIT, DISPATCH]);
        if w().below(2) == 0 {
            add_stream(&x, &env, kind, hard, dropped, &mut shared, false, false);
        } else {
            add_sink(&x, &env, kind, hard, dropped, false);
        }
    }
    drop(shared);
    sim::note_max(0, u64::from(n));
    set_watch(&env);
    choose_policy();
    let mut fl = soft_faults();
    if hard {
        hard_faults(&mut fl, HARD_FS);
    }
    set_faults(fl);
    spurious();
    x.run(env.workers, env.pool.clone());
    // A dispatched operation of a dropped stream may still run.
    sim::quiesce(true);
    no_faults();
    check!(env.sem.available_permits() == env.permits as usize, "permit-lost", "{} of {} permits left after the first round",
           env.sem.available_permits(), env.permits);
    if w().chance(300) {
        abandon_busy(&env);
    }
    let x = Exec::new();
    let mut shared = Vec::new();
    for k in 0..env.permits + 2 {
        let kind = if k % 2 == 0 { PERMIT } else { DISPATCH };
        if w().below(2) == 0 {
            add_stream(&x, &env, kind, false, None, &mut shared, false, false);
        } else {
            add_sink(&x, &env, kind, false, None, false);
        }
    }
    drop(shared);
    x.run(env.workers, env.pool.clone());
    cover("second round");
    describe(format!("{} tasks, {} workers, {} permits, queue {:?}, hard faults {}", n, env.workers, env.permits, env.queue, hard));
    let dir = env.dir.clone();
    finish(env);
    audit_temp(&dir, "at the end");
}

/// Streams and sinks used to their ends, failing or given up, after which
/// nothing of their bodies remains.
pub(super) fn nothing_left(hard: bool) {
    let env = environment(true);
    let mut shared = Vec::new();
    let x = Exec::new();
    let n = 1 + w().below(4);
    for _ in 0..n {
        let dropped = if w().below(2) == 1 { Some(w().below(8)) } else { None };
        if w().below(3) == 0 {
            add_stream(&x, &env, any_kind(), hard, dropped, &mut shared, false, false);
        } else {
            add_sink(&x, &env, any_kind(), hard, dropped, false);
        }
    }
    drop(shared);
    sim::note_max(0, u64::from(n));
    set_watch(&env);
    choose_policy();
    let mut fl = soft_faults();
    if hard {
        hard_faults(&mut fl, HARD_FS);
    }
    set_faults(fl);
    spurious();
    x.run(env.workers, env.pool.clone());
    sim::quiesce(true);
    if w().chance(200) {
        no_faults();
        abandon_busy(&env);
    }
    describe(format!("{} streams and sinks, {} workers, {} permits, queue {:?}, hard faults {}", n, env.workers, env.permits, env.queue, hard));
    let dir = env.dir.clone();
    finish(env);
    audit_temp(&dir, "at the end");
}

/// Streams and sinks given up while every permit is taken and every pool
/// thread is busy, until all of them are gone.
fn abandon_busy(env: &Env) {
    let held: Vec<_> = (0..env.permits).map(|_| env.sem.try_acquire().unwrap()).collect();
    watch().holders += held.len();
    let gate = Arc::new((Mutex::new(false), Condvar::new()));
    register_dispatch_pool(env.pool.clone().unwrap());
    for _ in 0..env.pool_size {
        let gate = gate.clone();
        dispatch(move || {
            if sim::raw(|| pool_threads().contains(&sim().cur)) {
                let mut open = gate.0.lock().unwrap();
                while !*open {
                    open = gate.1.wait(open).unwrap();
                }
            }
        });
    }
    deregister_dispatch_pool();
    let x = Exec::new().impatient();
    for _ in 0..1 + w().below(4) {
        let dropped = Some(w().below(2));
        let kind = if w().below(2) == 0 { PERMIT } else { DISPATCH };
        if w().below(2) == 0 {
            add_stream(&x, env, kind, false, dropped, &mut Vec::new(), false, true);
        } else {
            add_sink(&x, env, kind, false, dropped, false);
        }
    }
    x.run(env.workers, env.pool.clone());
    cover("abandoned while all is busy");
    watch().holders -= held.len();
    drop(held);
    *gate.0.lock().unwrap() = true;
    gate.1.notify_all();
    sim::quiesce(true);
    check!(env.sem.available_permits() == env.permits as usize, "permit-lost", "{} of {} permits left after giving up waiting operations",
           env.sem.available_permits(), env.permits);
}

/// Poll a direct asynchronous stream of a clone to its end on this thread.
pub fn stream_once(b: &BodyImage, want: &Arc<Vec<u8>>, step: usize, hard: bool, seed: u64) {
    let mut t = body_image::Tuner::new();
    t.set_buffer_size_fs(step);
    let mut ft = FutioTuner::new();
    ft.set_image(t.finish());
    ft.set_stream_item_size(step.max(64));
    let kind = (seed % 3) as u32;
    let s = make_stream::<UniBodyBuf>(kind, b.clone(), ft.finish());
    let j = Job {
        kind, tag: TAG_FREE, seed, hard, item: step.max(64), file: false, ram: 0, max: u64::MAX,
        limit: if kind == SPLIT { step.max(64) } else { usize::MAX }, what: KIND[kind as usize],
    };
    exec::block_on(drink(Holder(0), s, want.clone(), j));
    cover("streamed by a thread");
}
