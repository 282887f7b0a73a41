//! C17 and C19: HTTP exchanges, by the library and by the record command. The client is hyper on a tokio runtime, both real, on
//! simulated threads and virtual time; the peer and the wire are simulated.

use std::collections::VecDeque;
use std::convert::TryFrom;
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use std::time::Duration;

use blocking_permit::{deregister_dispatch_pool, register_dispatch_pool, DispatchPool, Semaphore};
use body_image::{BodyError, BodyImage, Dialog, Encoding, Recorded, RequestRecorded, Tunables};
use body_image_futio::{
    fetch, request_dialog, AsyncBodyImage, BlockingPolicy, DispatchBodyImage, Flaw, FutioError,
    FutioTunables, FutioTuner, PermitBodyImage, RequestRecord, RequestRecorder, UniBodyBuf,
};
use bytes::Bytes;
use futures_util::future::poll_fn;
use hyper::client::connect::{Connected, Connection};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use super::util::*;
use super::Scenario;
use crate::check;
use crate::note;
use crate::tape::mix;
use crate::sim::{self, choose_policy, count_fault, cover, ev, sim, w, Fk, Op};

pub const C17: Scenario = Scenario {
    id: "C17",
    run: c17,
    quick: 150_000,
    level: "exploration",
    rule: "one run = 1 to 3 exchanges over one client, or one use of the all-in-one call, with a simulated peer: request and response content, framing, splitting, delays, cuts, stalls, time-outs, limits, blocking policy, runtime kind, storage faults and abandonment chosen by the seed; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &[
        "the connection is the simulated wire; name resolution, TCP and TLS are not simulated (the TLS connector is a stand-in)",
        "a response without length or chunks that ends early cannot be told from a complete one",
    ],
    notes: &["exchanges", "largest_response", "largest_request", "virtual_ms"],
    cli: false,
};

pub const C19: Scenario = Scenario {
    id: "C19",
    run: c19,
    quick: 80_000,
    level: "exploration",
    rule: "one run = one invocation of the record command, with a simulated peer, content, encoding, framing, splitting, delays, cuts, stalls, an earlier archive or none, options, and either failing storage operations or a kill at a mutating operation, all chosen by the seed; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &[
        "the connection is the simulated wire; name resolution, TCP and TLS are not simulated (the TLS connector is a stand-in)",
        "a response without length or chunks that ends early cannot be told from a complete one",
        "the process stops, not the machine: completed writes persist in order",
        "shrinking the archive file does not fail",
    ],
    notes: &["old_records", "largest_response", "largest_content", "virtual_ms"],
    cli: true,
};

// ---------------------------------------------------------------- the wire

#[derive(Default)]
pub(super) struct Pipe {
    buf: VecDeque<u8>,
    pub(super) cap: usize,
    /// The writing side ended in order.
    closed: bool,
    /// The connection broke.
    reset: bool,
    /// The reading side is gone.
    deaf: bool,
    reader: Option<Waker>,
    writer: Option<Waker>,
    sent: bool,
}

pub(super) struct Link {
    pub(super) up: Mutex<Pipe>,
    pub(super) down: Mutex<Pipe>,
    pub(super) id: u32,
    pub(super) split: u32,
    pub(super) stutter: u32,
}

fn wake(x: &mut Option<Waker>) -> Option<Waker> {
    x.take()
}

/// Change a pipe as harness code, then wake whom that concerns as simulated
/// code.
fn with<T>(p: &Mutex<Pipe>, f: impl FnOnce(&mut Pipe) -> (T, Option<Waker>)) -> T {
    let (v, k) = sim::raw(|| f(&mut p.lock().unwrap()));
    if let Some(k) = k {
        k.wake();
    }
    v
}

impl Link {
    /// Now and then the peer or the system is not ready although it could be.
    pub(super) fn stutters(&self, cx: &mut Context<'_>) -> bool {
        if self.stutter > 0 && sim().f.chance(self.stutter) {
            count_fault(Fk::SpuriousPoll);
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }

    fn piece(&self, n: usize) -> usize {
        if n > 1 && self.split > 0 && sim().f.chance(self.split) {
            count_fault(Fk::NetSplit);
            1 + sim().f.below(n.min(1 << 16) as u32) as usize
        } else {
            n
        }
        .min(n)
    }

    pub(super) fn read(&self, p: &Mutex<Pipe>, out: &mut [u8], cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let have = sim::raw(|| p.lock().unwrap().buf.len());
        let n = self.piece(have.min(out.len()));
        with(p, |p| {
            if n > 0 {
                for b in out[..n].iter_mut() {
                    *b = p.buf.pop_front().unwrap();
                }
                return (Poll::Ready(Ok(n)), wake(&mut p.writer));
            }
            if out.is_empty() {
                return (Poll::Ready(Ok(0)), None);
            }
            if p.reset {
                return (Poll::Ready(Err(io::ErrorKind::ConnectionReset.into())), None);
            }
            if p.closed {
                return (Poll::Ready(Ok(0)), None);
            }
            p.reader = Some(cx.waker().clone());
            (Poll::Pending, None)
        })
    }

    pub(super) fn write(&self, p: &Mutex<Pipe>, b: &[u8], cx: &mut Context<'_>) -> Poll<io::Result<usize>> {
        let room = sim::raw(|| {
            let p = p.lock().unwrap();
            p.cap.saturating_sub(p.buf.len())
        });
        let n = self.piece(room.min(b.len()));
        with(p, |p| {
            if p.reset || p.deaf {
                return (Poll::Ready(Err(io::ErrorKind::BrokenPipe.into())), None);
            }
            if n > 0 || b.is_empty() {
                p.buf.extend(&b[..n]);
                return (Poll::Ready(Ok(n)), wake(&mut p.reader));
            }
            p.writer = Some(cx.waker().clone());
            (Poll::Pending, None)
        })
    }

    pub(super) fn close(&self, p: &Mutex<Pipe>) {
        with(p, |p| {
            p.closed = true;
            ((), wake(&mut p.reader))
        })
    }

    pub(super) fn deafen(&self, p: &Mutex<Pipe>) {
        with(p, |p| {
            p.deaf = true;
            ((), wake(&mut p.writer))
        })
    }

    pub(super) fn reset(&self) {
        for p in &[&self.up, &self.down] {
            with(p, |p| {
                p.reset = true;
                ((), wake(&mut p.reader))
            });
            with(p, |p| ((), wake(&mut p.writer)));
        }
    }
}

/// The client's end.
/// A connection, and whether it takes vectored writes.
pub struct Conn(Arc<Link>, bool);

impl AsyncRead for Conn {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let l = &self.0;
        // Not while the client may spin, waiting for the connection's start.
        if !world().all_in_one || l.up.lock().unwrap().sent {
            sim::point();
        }
        if l.stutters(cx) {
            return Poll::Pending;
        }
        let out = buf.initialize_unfilled();
        match l.read(&l.down, out, cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => {
                ev(Op::Net, l.id as u64, 1, -1);
                note!("net {}: receive: {}", l.id, e);
                Poll::Ready(Err(e))
            }
            Poll::Ready(Ok(n)) => {
                ev(Op::Net, l.id as u64, 1, n as i64);
                note!("net {}: receive {}", l.id, n);
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
        }
    }
}

impl AsyncWrite for Conn {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        sim::point();
        let l = &self.0;
        if l.stutters(cx) {
            return Poll::Pending;
        }
        l.up.lock().unwrap().sent = true;
        let r = l.write(&l.up, b, cx);
        if let Poll::Ready(ref r) = r {
            ev(Op::Net, l.id as u64, 2, r.as_ref().map(|n| *n as i64).unwrap_or(-1));
            note!("net {}: send {:?} of {}", l.id, r, b.len());
        }
        r
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let all: Vec<u8> = b.iter().flat_map(|s| s.iter().copied()).collect();
        self.poll_write(cx, &all)
    }
    fn is_write_vectored(&self) -> bool {
        self.1
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        note!("net {}: shut down", self.0.id);
        self.0.close(&self.0.up);
        Poll::Ready(Ok(()))
    }
}

impl Drop for Conn {
    fn drop(&mut self) {
        note!("net {}: dropped", self.0.id);
        self.0.close(&self.0.up);
        self.0.deafen(&self.0.down);
    }
}

impl Connection for Conn {
    fn connected(&self) -> Connected {
        Connected::new()
    }
}
impl hyper_tls::Io for Conn {}

// ---------------------------------------------------------------- the peer

#[derive(Clone, Debug)]
enum Step {
    Bytes(Arc<Vec<u8>>),
    Delay(u64),
    Close,
    Reset,
    Stall,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Framing {
    Length,
    Chunked,
    ToEnd,
    NoBody,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Cut {
    None,
    Close,
    Reset,
    Stall,
    Garbage,
}

/// One exchange: what is sent, what the peer does, and what must come of it.
struct Plan {
    method: http::Method,
    target: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    body_image: Option<BodyImage>,
    /// The peer answers without reading the request's body.
    early: bool,
    read_delay: u64,
    steps: Vec<Step>,
    /// The peer ends the connection after the response.
    close: bool,
    status: u16,
    version: http::Version,
    res_headers: Vec<(String, String)>,
    framing: Framing,
    res_body: Vec<u8>,
    expect: Expect,
    res_timeout: Option<u64>,
    body_timeout: Option<u64>,
    abandon_at: Option<u64>,
    /// The peer ends the connection unannounced after a complete response, so
    /// another exchange that uses it again can fail.
    loose: bool,
    seen: Vec<Seen>,
}

#[derive(Clone, Debug)]
struct Expect {
    /// A dialog may result; with this number of body bytes.
    ok: Option<usize>,
    /// An error may result.
    err: bool,
    /// Which time-out, if one must fire.
    timeout: Option<&'static str>,
    too_long: bool,
    /// Virtual milliseconds after the start by which it must have ended.
    by: Option<u64>,
}

struct Seen {
    method: String,
    target: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    complete: bool,
}

#[derive(Default)]
struct World {
    plans: Vec<Plan>,
    conns: u32,
    connect_delay: u64,
    refuse: bool,
    cap: usize,
    split: u32,
    stutter: u32,
    all_in_one: bool,
}

static mut WORLD: *mut World = std::ptr::null_mut();
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

async fn pause(ms: u64) {
    if ms > 0 {
        count_fault(Fk::NetDelay);
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
}

type Dialing = Pin<Box<dyn Future<Output = io::Result<Conn>> + Send>>;

fn dial() -> Dialing {
    Box::pin(async {
        pause(world().connect_delay).await;
        let wd = world();
        if wd.refuse {
            count_fault(Fk::NetCut);
            return Err(io::ErrorKind::ConnectionRefused.into());
        }
        wd.conns += 1;
        let l = Arc::new(Link {
            up: Mutex::new(Pipe { cap: wd.cap, ..Pipe::default() }),
            down: Mutex::new(Pipe { cap: wd.cap, ..Pipe::default() }),
            id: wd.conns,
            split: wd.split,
            stutter: wd.stutter,
        });
        note!("net {}: connected", l.id);
        tokio::spawn(serve(l.clone()));
        Ok(Conn(l, sim().f.below(2) == 1))
    })
}

fn dial_boxed(_: http::Uri) -> hyper_tls::Dialing {
    Box::pin(async { dial().await.map(|c| Box::new(c) as Box<dyn hyper_tls::Io>) })
}

#[derive(Clone)]
struct Connector;
impl tower_service::Service<http::Uri> for Connector {
    type Response = Conn;
    type Error = io::Error;
    type Future = Dialing;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, _: http::Uri) -> Dialing {
        dial()
    }
}

struct Peer {
    l: Arc<Link>,
    got: Vec<u8>,
    delay: u64,
}

impl Peer {
    /// More bytes from the client; false at the end.
    async fn more(&mut self) -> bool {
        let mut b = vec![0u8; 16384];
        let l = self.l.clone();
        let r = poll_fn(|cx| l.read(&l.up, &mut b, cx)).await;
        sim::point();
        match r {
            Ok(0) | Err(_) => false,
            Ok(n) => {
                pause(self.delay).await;
                self.got.extend_from_slice(&b[..n]);
                true
            }
        }
    }
    async fn line(&mut self) -> Option<Vec<u8>> {
        loop {
            if let Some(i) = self.got.windows(2).position(|x| x == b"\r\n") {
                let l = self.got.drain(..i + 2).collect::<Vec<u8>>();
                return Some(l[..i].to_vec());
            }
            if !self.more().await {
                return None;
            }
        }
    }
    async fn exact(&mut self, n: usize) -> (Vec<u8>, bool) {
        while self.got.len() < n {
            if !self.more().await {
                return (std::mem::take(&mut self.got), false);
            }
        }
        (self.got.drain(..n).collect(), true)
    }
    async fn send(&mut self, b: &[u8]) -> bool {
        let mut at = 0;
        while at < b.len() {
            let l = self.l.clone();
            match poll_fn(|cx| l.write(&l.down, &b[at..], cx)).await {
                Ok(n) => at += n,
                Err(_) => return false,
            }
        }
        true
    }
}

impl Drop for Peer {
    fn drop(&mut self) {
        self.l.close(&self.l.down);
        self.l.deafen(&self.l.up);
    }
}

async fn serve(l: Arc<Link>) {
    let mut p = Peer { l, got: Vec::new(), delay: 0 };
    while serve_one(&mut p).await == Some(true) {}
    note!("net {}: peer ends", p.l.id);
}

/// Read a request and act on it; Some(true) to go on with the connection.
async fn serve_one(p: &mut Peer) -> Option<bool> {
    let first = String::from_utf8_lossy(&p.line().await?).into_owned();
    let mut f = first.split(' ');
    let method = f.next().unwrap_or("").to_string();
    let target = f.next().unwrap_or("").to_string();
    let mut headers = Vec::new();
    loop {
        let l = p.line().await?;
        if l.is_empty() {
            break;
        }
        let s = String::from_utf8_lossy(&l).into_owned();
        let i = s.find(':')?;
        headers.push((s[..i].to_ascii_lowercase(), s[i + 1..].trim().to_string()));
    }
    let i: usize = target.trim_start_matches("/x").split('?').next()?.parse().ok()?;
    let (early, delay) = {
        let pl = &mut world().plans[i];
        pl.seen.push(Seen { method, target, headers: headers.clone(), body: Vec::new(), complete: false });
        (pl.early, pl.read_delay)
    };
    let at = world().plans[i].seen.len() - 1;
    note!("net {}: request {} head", p.l.id, i);
    if !early {
        p.delay = delay;
        let get = |k: &str| headers.iter().find(|h| h.0 == k).map(|h| h.1.clone());
        let mut complete = true;
        if get("transfer-encoding").map_or(false, |v| v.ends_with("chunked")) {
            loop {
                let l = match p.line().await {
                    Some(l) => l,
                    None => {
                        complete = false;
                        break;
                    }
                };
                let n = usize::from_str_radix(&String::from_utf8_lossy(&l), 16).ok()?;
                let (b, all) = p.exact(n + 2).await;
                let k = b.len().min(n);
                world().plans[i].seen[at].body.extend_from_slice(&b[..k]);
                complete = all;
                if n == 0 || !all {
                    break;
                }
            }
        } else if let Some(v) = get("content-length") {
            let (b, all) = p.exact(v.parse().ok()?).await;
            world().plans[i].seen[at].body = b;
            complete = all;
        }
        p.delay = 0;
        world().plans[i].seen[at].complete = complete;
        note!("net {}: request {} complete {}", p.l.id, i, complete);
        if !complete {
            return None;
        }
    }
    let steps = world().plans[i].steps.clone();
    for s in steps {
        match s {
            Step::Bytes(b) => {
                if !p.send(&b).await {
                    return None;
                }
            }
            Step::Delay(ms) => pause(ms).await,
            Step::Close => {
                count_fault(Fk::NetCut);
                return None;
            }
            Step::Reset => {
                count_fault(Fk::NetCut);
                p.l.reset();
                return None;
            }
            Step::Stall => {
                count_fault(Fk::SlowPeer);
                futures_util::future::pending::<()>().await;
            }
        }
    }
    Some(!early && !world().plans[i].close)
}

// ---------------------------------------------------------------- plans

fn any_headers(n: u32) -> Vec<(String, String)> {
    let t = w();
    (0..t.below(n + 1))
        .map(|_| {
            let k = format!("x-{}", ["a", "b", "long-name", "c"][t.below(4) as usize]);
            let v = match t.below(5) {
                0 => String::new(),
                1 => "v".to_string(),
                2 => format!("v{}", t.below(100)),
                3 => "a, b;q=0.5".to_string(),
                _ => "z".repeat(1 + t.below(300) as usize),
            };
            (k, v)
        })
        .collect()
}

fn body_len(tune: &Tune) -> usize {
    length(&[tune.ram, tune.max.min(100_000), 8192, 4096], w().chance(60)).min(300_000)
}

/// Content bytes and whether the framing is complete, in the first n bytes of
/// a framed body.
fn content_in(framing: Framing, framed: &[u8], n: usize) -> (usize, bool) {
    if framing != Framing::Chunked {
        return (n.min(framed.len()), n >= framed.len());
    }
    let mut at = 0;
    let mut c = 0;
    while at < framed.len() {
        let i = at + framed[at..].windows(2).position(|x| x == b"\r\n").unwrap();
        let l = String::from_utf8_lossy(&framed[at..i]).into_owned();
        let k = usize::from_str_radix(l.split(';').next().unwrap(), 16).unwrap();
        at = i + 2;
        if k == 0 {
            return (c, n >= framed.len());
        }
        if at + k > n {
            return (c + n.saturating_sub(at), false);
        }
        c += k;
        at += k + 2;
    }
    (c, n >= framed.len())
}

const MARGIN: u64 = 60;

/// What the plan of a single, given request is bound to.
struct Shape {
    /// Milliseconds for the response and for its body.
    timeouts: (Option<u64>, Option<u64>),
    content: Vec<u8>,
    headers: Vec<(String, String)>,
}

fn any_plan(i: usize, dir: &std::path::PathBuf, tune: &Tune, shape: Option<Shape>) -> Plan {
    let method = if shape.is_some() { http::Method::GET } else { match w().weighted(&[6, 2, 5, 2, 1]) {
        0 => http::Method::GET,
        1 => http::Method::HEAD,
        2 => http::Method::POST,
        3 => http::Method::PUT,
        _ => http::Method::DELETE,
    } };
    let bodied = shape.is_none() && method != http::Method::HEAD && w().chance(if method == http::Method::GET { 100 } else { 800 });
    let body = if bodied { Content::any().bytes(body_len(tune).min(tune.t.buffer_size_fs() * 1000)) } else { Vec::new() };
    let body_image = if bodied && w().chance(750) { Some(any_stored(dir, &body)) } else { None };
    let target = format!("/x{}?q={}", i, w().below(10));
    let headers = if shape.is_some() { Vec::new() } else { any_headers(4) };

    // The response.
    let status = *w().pick(&[200u16, 200, 200, 200, 404, 500, 206, 301, 204, 304]);
    let mut framing = [Framing::Length, Framing::Chunked, Framing::ToEnd][w().weighted(&[4, 4, 2])];
    let head_only = method == http::Method::HEAD || status == 204 || status == 304;
    let http10 = w().chance(100);
    if http10 && framing == Framing::Chunked {
        framing = Framing::ToEnd;
    }
    let mut res_headers = any_headers(6);
    let want = match shape {
        Some(ref s) => {
            res_headers.extend(s.headers.iter().cloned());
            s.content.clone()
        }
        None => Content::any().bytes(body_len(tune)),
    };
    let mut framed = Vec::new();
    let mut close = w().chance(300) || http10;
    match framing {
        Framing::Length => {
            if status != 204 {
                res_headers.push(("content-length".into(), want.len().to_string()));
            }
            framed = want.clone();
        }
        Framing::Chunked => {
            if status != 204 {
                let v = if w().chance(100) { "Chunked" } else { "chunked" };
                res_headers.push(("transfer-encoding".into(), v.into()));
            }
            let mut at = 0;
            while at < want.len() {
                let most = [1u32, 10, 1000, 70_000][w().below(4) as usize];
                let most = if want.len() > 5000 { most.max(1000) } else { most };
                let n = (1 + w().below(most) as usize).min(want.len() - at);
                let ext = if w().chance(50) { ";x=y" } else { "" };
                framed.extend(format!("{:x}{}\r\n", n, ext).as_bytes());
                framed.extend(&want[at..at + n]);
                framed.extend(b"\r\n");
                at += n;
            }
            framed.extend(b"0\r\n\r\n");
        }
        _ => {
            close = true;
            framed = want.clone();
            if !http10 && status != 204 && w().chance(100) {
                res_headers.push(("transfer-encoding".into(), "identity".into()));
            }
        }
    }
    let named_len = framing == Framing::Length && status != 204;
    if head_only {
        framed.clear();
    }
    let announced = close && w().chance(600);
    if announced {
        res_headers.push(("connection".into(), "close".into()));
    }
    if w().chance(500) {
        let k = w().below(res_headers.len() as u32 + 1) as usize;
        res_headers.insert(k, ("content-type".into(), "text/plain".into()));
    }
    let mut raw = Vec::new();
    let interim = !http10 && w().chance(80);
    if interim {
        raw.extend(b"HTTP/1.1 100 Continue\r\n\r\n");
    }
    raw.extend(format!("HTTP/1.{} {} Some Reason\r\n", if http10 { 0 } else { 1 }, status).as_bytes());
    for (k, v) in &res_headers {
        raw.extend(format!("{}: {}\r\n", k, v).as_bytes());
    }
    raw.extend(b"\r\n");
    let head_end = raw.len();
    raw.extend(&framed);
    let end = raw.len();

    // Time-outs, then what goes wrong.
    let res_timeout = if w().chance(500) { Some([1000u64, 200, 5000][w().below(3) as usize]) } else { None };
    let body_timeout = if w().chance(650) {
        Some([60_000u64, 5000, 6000][w().below(3) as usize].max(res_timeout.unwrap_or(0)))
    } else {
        None
    };
    let (res_timeout, body_timeout) = shape.map_or((res_timeout, body_timeout), |s| s.timeouts);
    let mut cut = Cut::None;
    let mut at = end;
    if w().chance(450) {
        cut = [Cut::Close, Cut::Reset, Cut::Stall, Cut::Garbage][w().weighted(&[3, 3, 4, 1])];
        at = match w().below(4) {
            0 => w().below(head_end as u32 + 1) as usize,
            1 => end - (w().below(8) as usize).min(end),
            _ => head_end + w().below((end - head_end) as u32 + 1) as usize,
        };
        if cut == Cut::Garbage {
            at = if w().chance(500) || framing != Framing::Chunked || head_only { 0 } else { at.max(head_end) };
        }
        if cut == Cut::Stall {
            // Only where a time-out ends the wait.
            let head = at < head_end;
            if (head && res_timeout.is_none()) || (!head && body_timeout.is_none()) {
                cut = Cut::Close;
            }
        }
    }
    // The client may use the connection again once the response is complete,
    // so the peer is not to pause or stall there.
    let to_end = framing == Framing::ToEnd && !head_only;
    let whole = |p: usize| p >= end && !to_end;
    if whole(at) && cut == Cut::Stall {
        cut = Cut::None;
    }

    // Delays: either clearly short or clearly long.
    let mut steps = Vec::new();
    let mut t_head = 0u64;
    let mut t_body = 0u64;
    let mut delays = 0u64;
    let n_delay = if w().chance(500) { 1 + w().below(4) } else { 0 };
    let mut spots: Vec<(usize, u64)> = (0..n_delay)
        .map(|_| {
            let p = if w().chance(300) { w().below(head_end as u32 + 1) as usize } else { w().below(end as u32 + 1) as usize };
            let head = p < head_end;
            let limit = if head { res_timeout } else { body_timeout };
            let ms = match w().below(4) {
                0 => 0,
                1 => 1 + u64::from(w().below(20)),
                2 => limit.unwrap_or(1000) / 10,
                _ => match limit {
                    Some(l) if w().chance(300) => l * 2,
                    Some(l) => l / 3,
                    None => u64::from(w().below(100_000)),
                },
            };
            (p, ms)
        })
        .filter(|s| s.0 <= at && !whole(s.0))
        .collect();
    spots.sort_unstable();
    let mut pos = 0;
    for (p, ms) in &spots {
        if *p > pos {
            steps.push(Step::Bytes(Arc::new(raw[pos..*p].to_vec())));
            pos = *p;
        }
        if *ms > 0 {
            steps.push(Step::Delay(*ms));
            delays += 1;
            if *p < head_end {
                t_head += ms;
            } else {
                t_body += ms;
            }
        }
    }
    if at > pos {
        steps.push(Step::Bytes(Arc::new(raw[pos..at].to_vec())));
    }
    match cut {
        Cut::None => {
            if framing == Framing::Length && !head_only && w().chance(50) {
                // More than announced.
                steps.push(Step::Bytes(Arc::new(b"HTTP/1.1 200 superfluous".to_vec())));
                close = true;
            }
        }
        Cut::Close => steps.push(Step::Close),
        Cut::Reset => steps.push(Step::Reset),
        Cut::Stall => steps.push(Step::Stall),
        Cut::Garbage => {
            steps.push(Step::Bytes(Arc::new(b"\x01\xff zz\r\n\r\n".to_vec())));
            close = true;
        }
    }
    let early = bodied && cut != Cut::Garbage && w().chance(80);
    // A connection that ends, and was not said to, may be chosen for another
    // exchange before hyper notes the end; also after a body up to the end.
    let loose = early || (whole(at) && cut != Cut::None) || ((close || to_end) && !announced && !http10);
    let read_delay = if w().chance(150) && !early { 1 + u64::from(w().below(8)) } else { 0 };
    let wd = world();
    t_head += wd.connect_delay;

    // What must come of it: events in the order of their time.
    let mut ex = Expect { ok: None, err: true, timeout: None, too_long: false, by: None };
    let near = |t: u64, limit: Option<u64>| limit.map_or(false, |l| t <= l + MARGIN && t + MARGIN >= l);
    let late = |t: u64, limit: Option<u64>| limit.map_or(false, |l| t > l);
    let long = want.len() as u64 > tune.max;
    let (lo, _) = content_in(framing, &framed, at.saturating_sub(head_end));
    // Reading the request slowly takes unknown time.
    let mut sure = !(early || read_delay > 0 && res_timeout.is_some() || near(t_head, res_timeout)
                     || near(t_body, body_timeout));
    if wd.refuse || (cut == Cut::Garbage && at < head_end) {
        // An error of any kind, any time.
    } else if late(t_head, res_timeout) {
        ex.timeout = Some("response");
    } else if at < head_end {
        if cut == Cut::Stall {
            ex.timeout = Some("response");
        }
    } else if named_len && long {
        ex.too_long = true;
    } else if head_only {
        ex.ok = Some(0);
        ex.err = false;
    } else if long && (late(t_body, body_timeout) || cut != Cut::None) {
        // The limit, the time-out or the cut, whichever is met first; but a
        // cut can leave a shorter body that has no other end.
        if to_end && (cut == Cut::None || cut == Cut::Close) && lo as u64 <= tune.max {
            ex.ok = Some(lo);
            ex.err = late(t_body, body_timeout);
            if ex.err {
                ex.ok = None;
                ex.timeout = Some("body");
            }
        }
    } else if long {
        ex.too_long = true;
    } else if late(t_body, body_timeout) {
        ex.timeout = Some("body");
    } else if at == end && !to_end {
        // Anything after a complete response does not matter.
        ex.ok = Some(want.len());
        ex.err = false;
    } else {
        match cut {
            Cut::None | Cut::Close if to_end => {
                ex.ok = Some(lo);
                ex.err = false;
            }
            Cut::Stall => ex.timeout = Some("body"),
            Cut::Garbage if to_end => {
                // Cannot be told from content.
                ex.ok = Some(usize::MAX);
                sure = true;
            }
            _ => {
                // The content may be complete while the framing is not.
                if framing == Framing::Chunked && lo == want.len() {
                    ex.ok = Some(lo);
                }
            }
        }
    }
    if !sure {
        ex.err = true;
        ex.timeout = None;
        ex.too_long = false;
        if ex.ok.is_none() && !wd.refuse && !(named_len && long) && at >= head_end {
            if head_only {
                ex.ok = Some(0);
            } else if !long && at == end && (!to_end || cut == Cut::None || cut == Cut::Close) {
                ex.ok = Some(want.len());
            } else if to_end && (cut == Cut::None || cut == Cut::Close) && lo as u64 <= tune.max {
                ex.ok = Some(lo);
            }
        }
    }
    if read_delay == 0 && !early {
        let stall = cut == Cut::Stall;
        let head = match res_timeout {
            Some(r) if stall && at < head_end => r,
            Some(r) => r.min(t_head),
            None => t_head,
        };
        let body = match body_timeout {
            Some(r) if stall && at >= head_end => r,
            Some(r) => r.min(t_body),
            None => t_body,
        };
        ex.by = Some(head + body + MARGIN + 3 * delays);
    }
    note!(
        "plan {}: {} {} body {} -> {} {:?} {} bytes, head {} raw {}, cut {:?} at {}, delays head {} body {}, timeouts {:?} {:?}, early {} read_delay {} close {}: {:?}",
        i, method, target, body.len(), status, framing, want.len(), head_end, end, cut, at, t_head, t_body,
        res_timeout, body_timeout, early, read_delay, close, ex
    );
    Plan {
        method,
        target,
        headers,
        body,
        body_image,
        early,
        read_delay,
        steps,
        close,
        status,
        version: if http10 { http::Version::HTTP_10 } else { http::Version::HTTP_11 },
        res_headers,
        framing: if head_only { Framing::NoBody } else { framing },
        res_body: want,
        expect: ex,
        res_timeout,
        body_timeout,
        abandon_at: None,
        loose,
        seen: Vec::new(),
    }
}

fn record<B>(p: &Plan, tune: &FutioTunables) -> RequestRecord<B>
where
    B: http_body::Body + Send,
    http::request::Builder: RequestRecorder<B>,
{
    let mut b = http::Request::builder()
        .method(p.method.clone())
        .uri(format!("http://host.example{}", p.target));
    for (k, v) in &p.headers {
        b = b.header(k.as_str(), v.as_str());
    }
    let r = if let Some(ref i) = p.body_image {
        b.record_body_image(i.clone(), tune.clone())
    } else if p.body.is_empty() && w().chance(500) {
        b.record()
    } else {
        b.record_body(Bytes::from(p.body.clone()))
    };
    r.unwrap()
}

fn tune_of(p: &Plan, t: &Tune, policy: BlockingPolicy) -> FutioTunables {
    let mut f = FutioTuner::new();
    f.set_image(t.t.clone());
    f.set_blocking_policy(policy);
    // The defaults, where they are what is wanted, may be left as they are.
    let default = w().chance(500);
    match p.res_timeout {
        Some(r) => f.set_res_timeout(Duration::from_millis(r)),
        None if default => &mut f,
        None => f.unset_res_timeout(),
    };
    match p.body_timeout {
        Some(60_000) if default => &mut f,
        Some(r) => f.set_body_timeout(Duration::from_millis(r)),
        None => f.unset_body_timeout(),
    };
    f.finish()
}

type Outcome = (Result<Dialog, FutioError>, u64);

async fn timed(f: impl Future<Output = Result<Dialog, FutioError>>) -> Outcome {
    let mut f = Box::pin(f);
    let mut polls = 0;
    let r = poll_fn(move |cx| {
        // The client may wait for another thread by waking itself.
        polls += 1;
        if polls > 30 {
            std::thread::yield_now();
        } else {
            sim::point();
        }
        f.as_mut().poll(cx)
    })
    .await;
    (r, sim::now())
}

fn go<B>(policy: BlockingPolicy, multi: bool, all_in_one: bool, tune: &Tune, pool: Option<DispatchPool>)
    -> Vec<(Option<Outcome>, u64)>
where
    B: http_body::Body + Send + 'static,
    B::Data: Send + Unpin,
    B::Error: Into<Flaw>,
    http::request::Builder: RequestRecorder<B>,
{
    let n = world().plans.len();
    if all_in_one {
        hyper_tls::set_dial(dial_boxed);
        return (0..n)
            .map(|i| {
                let p = &world().plans[i];
                let t = tune_of(p, tune, policy);
                let rr = record::<B>(p, &t);
                let t0 = sim::now();
                let r = fetch(rr, t);
                (Some((r, sim::now())), t0)
            })
            .collect();
    }
    let mut b = if multi {
        let mut b = tokio::runtime::Builder::new_multi_thread();
        b.worker_threads(1 + w().below(2) as usize).max_blocking_threads(3);
        b
    } else {
        tokio::runtime::Builder::new_current_thread()
    };
    b.enable_time();
    if let Some(p) = pool.clone() {
        if multi {
            b.on_thread_start(move || {
                register_dispatch_pool(p.clone());
            });
            b.on_thread_stop(|| {
                deregister_dispatch_pool();
            });
        } else {
            register_dispatch_pool(p);
        }
    }
    let rt = b.build().unwrap();
    let client = hyper::Client::builder().build::<_, B>(Connector);
    let parallel = n > 1 && w().chance(600);
    let pause_between = w().chance(200);
    let res = rt.block_on(async {
        let mut res = Vec::new();
        let mut joins = Vec::new();
        for i in 0..n {
            let p = &world().plans[i];
            let t = tune_of(p, tune, policy);
            let rr = record::<B>(p, &t);
            let t0 = sim::now();
            let abandon = p.abandon_at;
            let j = tokio::spawn(timed(request_dialog(&client, rr, t)));
            if parallel {
                joins.push((j, t0, abandon));
            } else {
                res.push((finish(j, abandon).await, t0));
                if pause_between {
                    tokio::time::sleep(Duration::from_millis(200)).await;
                }
            }
        }
        for (j, t0, abandon) in joins {
            res.push((finish(j, abandon).await, t0));
        }
        res
    });
    drop(client);
    drop(rt);
    if pool.is_some() && !multi {
        deregister_dispatch_pool();
    }
    res
}

async fn finish(j: tokio::task::JoinHandle<Outcome>, abandon: Option<u64>) -> Option<Outcome> {
    if let Some(ms) = abandon {
        tokio::time::sleep(Duration::from_millis(ms)).await;
        count_fault(Fk::Abandon);
        j.abort();
    }
    match j.await {
        Ok(o) => Some(o),
        Err(e) => {
            check!(e.is_cancelled(), "panic", "the exchange panicked");
            None
        }
    }
}

fn multimap(h: &http::HeaderMap) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut v: Vec<(String, Vec<Vec<u8>>)> = h
        .keys()
        .map(|k| (k.as_str().to_string(), h.get_all(k).iter().map(|v| v.as_bytes().to_vec()).collect()))
        .collect();
    v.sort();
    v
}

fn group(h: &[(String, String)]) -> Vec<(String, Vec<Vec<u8>>)> {
    let mut v: Vec<(String, Vec<Vec<u8>>)> = Vec::new();
    for (k, x) in h {
        let x = x.trim().as_bytes().to_vec();
        match v.iter_mut().find(|e| e.0 == *k) {
            Some(e) => e.1.push(x),
            None => v.push((k.clone(), vec![x])),
        }
    }
    v.sort();
    v
}

fn judge(i: usize, o: &Option<Outcome>, t0: u64, tune: &Tune, faulted: bool, steps: u64, wrapped: bool) {
    let _c = sim::ctx(format!("exchange {}", i));
    let p = &world().plans[i];
    // The peer never gets a complete request that differs from the record.
    for s in p.seen.iter() {
        check!(s.method == p.method.as_str(), "request", "method {} sent as {}", p.method, s.method);
        check!(s.target == p.target, "request", "target {} sent as {}", p.target, s.target);
        for (k, v) in group(&p.headers) {
            let got: Vec<Vec<u8>> =
                s.headers.iter().filter(|h| h.0 == k).map(|h| h.1.as_bytes().to_vec()).collect();
            check!(got == v, "request", "header {} sent as {:?} instead of {:?}", k, got.len(), v.len());
        }
        if s.complete && s.body.is_empty() && p.method == http::Method::GET && p.body_image.is_some() && wrapped {
            if !p.body.is_empty() {
                sim::known("get-body-dropped", "the body of a GET request was not sent".to_string());
            }
        } else if s.complete {
            same("request", "request body received by the peer", &s.body, &p.body);
        } else {
            check!(p.body.starts_with(&s.body), "request", "wrong partial request body");
        }
    }
    let (r, t1) = match o {
        Some(o) => (&o.0, o.1),
        None => {
            cover("abandoned");
            return;
        }
    };
    let ex = &p.expect;
    let ms = (t1 - t0) / 1_000_000;
    sim::note_max(3, ms);
    if let Some(by) = ex.by {
        let by = by + steps / 1000;
        check!(ms <= by, "late", "ended after {} ms, must within {} ms ({:?})", ms, by, r.as_ref().map(|_| ()));
    }
    match r {
        Ok(d) => {
            let whole = ex.ok.unwrap_or(p.res_body.len());
            if p.early && p.framing == Framing::Chunked && d.res_body().len() < whole as u64 {
                let b = content_of(d.res_body());
                check!(b.is_ok(), "body", "response body not readable");
                let b = b.unwrap();
                same("body", "response body", &b, &p.res_body[..b.len()]);
                sim::known("early-answer-cut",
                           format!("{} of {} bytes of a chunked response taken as all", b.len(), whole));
                return;
            }
            let want = match ex.ok {
                Some(usize::MAX) => {
                    cover("undetectable");
                    return;
                }
                Some(n) => &p.res_body[..n],
                None => {
                    if p.early && p.framing == Framing::ToEnd {
                        cover("undetectable");
                        return;
                    }
                    check!(false, "not-error", "a dialog with {} body bytes, but an error was due ({:?})",
                           d.res_body().len(), ex);
                    return;
                }
            };
            check!(*d.method() == p.method, "dialog", "method {}", d.method());
            check!(d.url().to_string() == format!("http://host.example{}", p.target), "dialog", "url {}", d.url());
            check!(multimap(d.req_headers()) == group(&p.headers), "dialog", "request headers {:?}", d.req_headers());
            let b = content_of(d.req_body());
            check!(b.is_ok(), "dialog", "request body not readable");
            same("dialog", "request body of the dialog", &b.unwrap(), &p.body);
            check!(d.res_status().as_u16() == p.status, "dialog", "status {} instead of {}", d.res_status(), p.status);
            check!(d.res_version() == p.version, "dialog", "version {:?}", d.res_version());
            check!(multimap(d.res_headers()) == group(&p.res_headers), "dialog", "response headers {:?} instead of {:?}",
                   d.res_headers(), p.res_headers);
            let want = if p.early && p.framing == Framing::ToEnd && d.res_body().len() < want.len() as u64 {
                &want[..d.res_body().len() as usize]
            } else {
                want
            };
            check!(d.res_body().len() == want.len() as u64, "body", "response body of {} bytes instead of {} ({:?})",
                   d.res_body().len(), want.len(), ex);
            let b = content_of(d.res_body());
            check!(b.is_ok(), "body", "response body not readable");
            same("body", "response body", &b.unwrap(), want);
            check!(d.res_body().len() <= tune.max, "limit", "body of {} over the limit {}", d.res_body().len(), tune.max);
            check!(!d.res_body().is_ram() || d.res_body().len() <= tune.ram, "limit", "body of {} in RAM, limit {}",
                   d.res_body().len(), tune.ram);
            let chunked = p.res_headers.iter().any(|h| h.0 == "transfer-encoding" && h.1 != "identity");
            let dec = if chunked { vec![Encoding::Chunked] } else { vec![] };
            check!(*d.res_decoded() == dec, "dialog", "decoded list {:?} instead of {:?}", d.res_decoded(), dec);
            if !p.early {
                check!(p.seen.iter().any(|s| s.complete), "dialog", "a dialog without a complete request");
            }
            cover("dialog");
        }
        Err(e) => {
            let late = match e {
                FutioError::ResponseTimeout(_) => Some("response"),
                FutioError::BodyTimeout(_) => Some("body"),
                _ => None,
            };
            if !faulted {
                check!(ex.err, "unexpected-error", "{} ({:?} after {} ms)", e, ex, ms);
            }
            match late {
                Some("response") => {
                    check!(p.res_timeout.map_or(false, |r| ms >= r), "early-timeout", "{} after {} ms", e, ms);
                    cover("response-timeout");
                }
                Some(_) => {
                    check!(p.body_timeout.map_or(false, |r| ms >= r), "early-timeout", "{} after {} ms", e, ms);
                    cover("body-timeout");
                }
                None => {}
            }
            if let Some(k) = ex.timeout {
                if !faulted {
                    check!(late == Some(k), "wrong-error", "{} instead of the {} time-out", e, k);
                }
            }
            let long = matches!(e, FutioError::ContentLengthTooLong(_) | FutioError::Body(BodyError::BodyTooLong(_)));
            if long {
                check!(p.res_body.len() as u64 > tune.max, "limit", "{} with a body of {}, limit {}", e,
                       p.res_body.len(), tune.max);
                cover("too-long");
            } else if ex.too_long && !faulted {
                check!(false, "wrong-error", "{} instead of the size limit", e);
            }
            cover("error");
        }
    }
}

/// Exchanges may suffer from loose ones sharing their connections.
fn loosen() {
    let ps = &mut world().plans;
    for i in 0..ps.len() {
        if (0..ps.len()).any(|j| j != i && ps[j].loose) {
            let ex = &mut ps[i].expect;
            ex.err = true;
            ex.timeout = None;
            ex.too_long = false;
        }
    }
}

fn c17() {
    let dir = temp_dir();
    let tune = tunables(&dir);
    sim::raw(|| unsafe { WORLD = Box::into_raw(Box::new(World::default())) });
    let wd = world();
    wd.connect_delay = if w().chance(200) { u64::from(w().below(50)) } else { 0 };
    wd.refuse = w().chance(25);
    wd.cap = [65536usize, 1 << 24, 5000][w().below(3) as usize];
    wd.split = [0u32, 100, 500][sim().f.below(3) as usize];
    wd.stutter = [0u32, 30, 200][sim().f.below(3) as usize];
    let all_in_one = w().chance(250);
    wd.all_in_one = all_in_one;
    let multi = w().chance(400) || all_in_one;
    let n = if all_in_one { 1 } else { 1 + w().weighted(&[4, 2, 1]) };
    sim::note_max(0, n as u64);
    for i in 0..n {
        let mut p = any_plan(i, &dir, &tune, None);
        sim::note_max(1, p.res_body.len() as u64);
        sim::note_max(2, p.body.len() as u64);
        if !all_in_one && w().chance(80) {
            p.abandon_at = Some(u64::from(w().below(50)));
        }
        sim::raw(|| world().plans.push(p));
    }
    loosen();
    let policy = match w().weighted(&[3, if multi { 3 } else { 0 }, if all_in_one { 0 } else { 2 }]) {
        0 => BlockingPolicy::Direct,
        1 => BlockingPolicy::Permit(sim::raw(|| Box::leak(Box::new(Semaphore::new(1 + w().below(2) as usize))))),
        _ => BlockingPolicy::Dispatch,
    };
    let pool = if let BlockingPolicy::Dispatch = policy {
        Some(
            DispatchPool::builder()
                .pool_size(1 + w().below(2) as usize)
                .queue_length([4usize, 1, 0][w().below(3) as usize])
                .create(),
        )
    } else {
        None
    };
    let kind = w().below(4);
    sim().io.rnd = mix(u64::from(w().below(1000)), 5) | 1;
    choose_policy();
    // The time-outs are judged against an undisturbed clock.
    sim().jump = 0;
    let mut fl = soft_faults();
    let hard = w().chance(200);
    if hard {
        hard_faults(&mut fl, &[Fk::EnospcWrite, Fk::EioWrite, Fk::EioRead, Fk::FailOpen, Fk::EofRead]);
    }
    set_faults(fl);
    let s0 = sim().steps;
    let left = sim().fl.hard_left;
    let res = match (policy, kind) {
        (BlockingPolicy::Permit(_), 2) => go::<PermitBodyImage<Bytes>>(policy, multi, all_in_one, &tune, pool.clone()),
        (BlockingPolicy::Permit(_), 3) => go::<PermitBodyImage<UniBodyBuf>>(policy, multi, all_in_one, &tune, pool.clone()),
        (BlockingPolicy::Dispatch, 2) => go::<DispatchBodyImage<Bytes>>(policy, multi, all_in_one, &tune, pool.clone()),
        (BlockingPolicy::Dispatch, 3) => go::<DispatchBodyImage<UniBodyBuf>>(policy, multi, all_in_one, &tune, pool.clone()),
        (_, 0) => go::<hyper::Body>(policy, multi, all_in_one, &tune, pool.clone()),
        (_, 1) | (_, 2) => go::<AsyncBodyImage<Bytes>>(policy, multi, all_in_one, &tune, pool.clone()),
        _ => go::<AsyncBodyImage<UniBodyBuf>>(policy, multi, all_in_one, &tune, pool.clone()),
    };
    let faulted = hard && sim().fl.hard_left != left;
    no_faults();
    sim().fl.full_next = false;
    drop(pool);
    let steps = sim().steps - s0;
    for (i, (o, t0)) in res.iter().enumerate() {
        note!("exchange {}: {:?}", i, o.as_ref().map(|o| o.0.as_ref().map(|d| d.res_body().len())));
        judge(i, o, *t0, &tune, faulted, steps, kind == 0);
    }
    drop(res);
    let p: Vec<Plan> = world().plans.drain(..).collect();
    let d = format!(
        "{} exchanges, {:?}, multi {} all-in-one {}, first: {} {} -> {} {:?} {} bytes expect {:?}",
        n, policy_name(policy), multi, all_in_one, p[0].method, p[0].body.len(), p[0].status, p[0].framing,
        p[0].res_body.len(), p[0].expect
    );
    drop(p);
    sim::quiesce(false);
    audit_temp(&dir, "after the exchanges");
    describe(d);
}

/// The limits kept by a client.
pub fn limits_http(dir: &std::path::PathBuf, tune: &Tune) {
    sim::raw(|| unsafe { WORLD = Box::into_raw(Box::new(World::default())) });
    let wd = world();
    wd.cap = 65536;
    wd.split = [0u32, 100, 500][sim().f.below(3) as usize];
    let big = tune.t.buffer_size_fs() > 1000 && w().chance(250);
    let n = if big { 3_000_000 + w().below(3_000_000) as usize } else { body_len(tune) };
    let shape = Shape { timeouts: (None, None), content: Content::any().bytes(n), headers: Vec::new() };
    let p = any_plan(0, dir, tune, Some(shape));
    sim::note_max(0, n as u64);
    let d = format!("HTTP response of {} {:?} ram {} max {}", n, p.framing, tune.ram, tune.max);
    sim::raw(|| world().plans.push(p));
    sim().io.rnd = mix(u64::from(w().below(1000)), 5) | 1;
    choose_policy();
    sim().jump = 0;
    set_faults(soft_faults());
    let s0 = sim().steps;
    let (res, peak) = crate::alloc::peak(|| go::<hyper::Body>(BlockingPolicy::Direct, false, false, tune, None));
    no_faults();
    sim().fl.full_next = false;
    // With what a client, its connection and the runtime need.
    super::source::measure(peak, tune, 1 << 20, "response");
    judge(0, &res[0].0, res[0].1, tune, false, sim().steps - s0, true);
    drop(res);
    sim::raw(|| world().plans.clear());
    sim::quiesce(false);
    audit_temp(dir, "after the exchange");
    describe(format!("{} peak {}", d, peak));
}

/// The blocking policy kept by a client.
pub fn policy_http() {
    let dir = temp_dir();
    let tune = tunables(&dir);
    sim::raw(|| unsafe { WORLD = Box::into_raw(Box::new(World::default())) });
    let wd = world();
    wd.cap = 65536;
    wd.split = [0u32, 100, 500][sim().f.below(3) as usize];
    let n = 1 + w().below(3) as usize;
    for i in 0..n {
        let shape = Shape { timeouts: (None, None), content: Content::any().bytes(body_len(&tune)), headers: Vec::new() };
        let p = any_plan(i, &dir, &tune, Some(shape));
        sim::raw(|| world().plans.push(p));
    }
    loosen();
    let permits = 1 + w().below(2) as usize;
    let sem: &'static Semaphore = sim::raw(|| Box::leak(Box::new(Semaphore::new(permits))));
    let permit = w().chance(500);
    let (policy, pool) = if permit {
        (BlockingPolicy::Permit(sem), None)
    } else {
        (BlockingPolicy::Dispatch, Some(super::asy::make_pool(None, 1 + w().below(2))))
    };
    let multi = permit || w().chance(400);
    sim::note_max(0, n as u64);
    sim().io.rnd = mix(u64::from(w().below(1000)), 5) | 1;
    choose_policy();
    sim().jump = 0;
    set_faults(soft_faults());
    let s0 = sim().steps;
    super::asy::watch_writes(if permit { Some((sem, permits)) } else { None });
    let res = go::<hyper::Body>(policy, multi, false, &tune, pool.clone());
    sim().io.watch = None;
    no_faults();
    sim().fl.full_next = false;
    drop(pool);
    let steps = sim().steps - s0;
    for (i, (o, t0)) in res.iter().enumerate() {
        judge(i, o, *t0, &tune, false, steps, true);
    }
    drop(res);
    sim::raw(|| world().plans.clear());
    sim::quiesce(false);
    check!(sem.available_permits() == permits, "permit-lost", "{} of {} permits left after the exchanges", sem.available_permits(), permits);
    audit_temp(&dir, "after the exchanges");
    describe(format!("{} responses, {}, ram {} max {}", n, policy_name(policy), tune.ram, tune.max));
}

fn policy_name(p: BlockingPolicy) -> &'static str {
    match p {
        BlockingPolicy::Direct => "direct",
        BlockingPolicy::Permit(_) => "permit",
        BlockingPolicy::Dispatch => "dispatch",
    }
}

// ------------------------------------------------- C19: the record command

struct Taken {
    url: String,
    accept: Option<String>,
    decode: bool,
    enc: Option<Encoding>,
    plain: Vec<u8>,
    /// The encoded content is not whole.
    damaged: bool,
    misuse: bool,
    /// The output can not be opened.
    nowhere: bool,
    old: Option<super::cmd::Archive>,
}

fn c19() {
    let dir = temp_dir();
    let t = w();
    let tune = Tune { t: Tunables::default(), ram: 192 * 1024, max: 1 << 30 };
    sim::raw(|| unsafe { WORLD = Box::into_raw(Box::new(World::default())) });
    let wd = world();
    wd.connect_delay = if t.chance(200) { u64::from(t.below(50)) } else { 0 };
    wd.refuse = t.chance(25);
    wd.cap = [65536usize, 1 << 24, 5000][t.below(3) as usize];
    wd.split = [0u32, 100, 500][sim().f.below(3) as usize];
    wd.stutter = [0u32, 30, 200][sim().f.below(3) as usize];
    wd.all_in_one = true;
    hyper_tls::set_dial(dial_boxed);

    let out = "out.barc";
    let old = if t.chance(500) { Some(super::cmd::archive(out, &dir, t.below(3))) } else { None };
    let enc = match t.weighted(&[4, 3, 2, 2, 1]) {
        0 => None,
        1 => Some(Encoding::Gzip),
        2 => Some(Encoding::Deflate),
        3 => Some(Encoding::Brotli),
        _ => Some(Encoding::Compress),
    };
    let plain = Content::any().bytes(body_len(&tune));
    let mut content = match enc {
        None | Some(Encoding::Compress) => plain.clone(),
        Some(e) => super::source::encode(e, &plain, t.below(7)),
    };
    let mut damaged = false;
    if enc.is_some() && enc != Some(Encoding::Compress) && t.chance(100) {
        content.truncate(t.below(content.len() as u32) as usize);
        damaged = true;
    }
    let mut headers = Vec::new();
    if let Some(e) = enc {
        headers.push(("content-encoding".to_string(), e.to_string()));
    }
    let mut plan = any_plan(0, &dir, &tune, Some(Shape { timeouts: (None, Some(60_000)), content, headers }));
    sim::note_max(0, old.as_ref().map_or(0, |a| a.recs.len() as u64));
    sim::note_max(1, plan.res_body.len() as u64);
    sim::note_max(2, plain.len() as u64);

    let mut args = vec!["record".to_string()];
    let mut opts: Vec<String> = Vec::new();
    match t.weighted(&[4, 3, 2]) {
        0 => {}
        1 => opts.push(t.pick(&["-z", "--gzip"]).to_string()),
        _ => opts.push(t.pick(&["-b", "--brotli"]).to_string()),
    }
    let decode = !t.chance(300);
    if !decode {
        opts.push("--no-decode".into());
    }
    let accept = if t.chance(300) { Some(t.pick(&["*/*", "text/html;q=0.5, x/y"]).to_string()) } else { None };
    if let Some(ref a) = accept {
        if t.chance(500) {
            opts.push(format!("--accept={}", a));
        } else {
            opts.extend(vec!["--accept".to_string(), a.clone()]);
        }
    }
    let mut url = format!("{}://{}{}", t.pick(&["http", "https"]), t.pick(&["host.example", "host.example:8080", "[::1]:81"]),
                          plan.target);
    let (mut misuse, mut nowhere) = (false, false);
    if t.chance(40) {
        misuse = true;
        match t.below(4) {
            0 => url = t.pick(&["http://", "x y", "/x0?q=1", "http://ho st/x0"]).to_string(),
            1 => opts.push("--no-such".into()),
            2 => opts.extend(vec!["-z".to_string(), "-b".to_string()]),
            _ => opts = vec!["--accept=a\nb".to_string()],
        }
    }
    let mut outname = out.to_string();
    if old.is_none() && t.chance(40) {
        nowhere = true;
        outname = t.pick(&["no/such/dir.barc", "tmp"]).to_string();
    }
    let first = t.chance(700);
    if first {
        args.extend(opts.iter().cloned());
    }
    args.push(url.clone());
    args.push(outname);
    if !first {
        args.extend(opts);
    }
    super::cmd::verbose(&mut args);
    plan.expect.by = plan.expect.by.map(|b| b + 10);
    sim::raw(|| world().plans.push(plan));

    sim().io.rnd = mix(u64::from(w().below(1000)), 5) | 1;
    choose_policy();
    sim().jump = 0;
    let mut fl = soft_faults();
    match sim().f.weighted(&[5, 2, 2, 1]) {
        0 => {}
        1 => {
            hard_faults(&mut fl, HARD_FS);
            fl.p[Fk::EnospcTruncate as usize] = 0;
        }
        2 => {
            let span = [6, 3, 12, 60][sim().f.below(4) as usize];
            fl.crash_at = Some(sim().mut_ops + 1 + u64::from(sim().f.below(span)));
        }
        _ => fl.quota = Some(u64::from(sim().f.below(200_000))),
    }
    set_faults(fl);
    let line = args.join(" ");
    describe(line.clone());
    let hard0 = super::cmd::hard_count();
    let (s0, t0) = (sim().steps, sim::now());
    let k = Taken { url, accept, decode, enc, plain, damaged, misuse, nowhere, old };
    super::cmd::command(&args, move |code| {
        let hard = super::cmd::hard_count() > hard0;
        judge_record(k, code, hard, (sim::now() - t0) / 1_000_000, sim().steps - s0, &line)
    });
}

fn judge_record(k: Taken, code: i32, hard: bool, ms: u64, steps: u64, line: &str) {
    use super::cmd::text;
    let killed = sim().dead;
    sim().dead = false;
    no_faults();
    sim().fl.full_next = false;
    let p = &world().plans[0];
    let ex = &p.expect;
    let err = text("stderr");
    let _c = sim::ctx(sim::raw(|| format!("record, status {}{}{}", code, if killed { ", killed" } else { "" },
                                          if hard { ", with failing operations" } else { "" })));
    note!("exit {} of `barc {}` after {} ms: {}", code, line, ms, err);
    sim::note_max(3, ms);
    check!(sim::raw(|| std::fs::read(scratch("stdout")).unwrap()).is_empty(), "output", "something printed");
    check!(!err.contains("panicked"), "panic", "{}", err);

    // What of the response remains to be recorded.
    let got_all = ex.ok == Some(p.res_body.len()) && p.framing != Framing::NoBody;
    let compressed = k.enc.is_some() && k.decode;
    let refused = k.misuse || k.nowhere;
    let must_fail = refused
        || ex.ok.is_none()
        || (compressed && p.framing != Framing::NoBody && ex.ok != Some(usize::MAX)
            && (k.enc == Some(Encoding::Compress) || k.damaged || !got_all));
    // The encoding of a body that is not there can not be undone.
    let may_fail = must_fail || ex.err || hard || (compressed && (p.framing == Framing::NoBody || ex.ok == Some(usize::MAX)));
    if killed {
        cover("killed");
    } else if code == 0 {
        check!(!must_fail, "status", "success although it can not be ({:?})", ex);
    } else {
        check!(may_fail, "status", "failure without a reason: {} ({:?})", err, ex);
        check!(!err.is_empty(), "silent", "failure without a message");
        cover(if k.misuse { "misuse refused" } else { "failure reported" });
    }
    if k.misuse {
        check!(p.seen.is_empty(), "request", "a request in spite of misuse");
    } else if let Some(by) = ex.by {
        let by = by + steps / 1000;
        check!(ms <= by, "late", "ended after {} ms, must within {} ms", ms, by);
    }
    for s in p.seen.iter() {
        check!(s.method == "GET" && s.target == p.target && s.body.is_empty(), "request", "{} {} sent", s.method, s.target);
        if let Some(ref a) = k.accept {
            let v: Vec<&str> = s.headers.iter().filter(|h| h.0 == "accept").map(|h| h.1.as_str()).collect();
            check!(v == vec![a.as_str()], "request", "accept {:?} instead of {}", v, a);
        }
        for n in &["accept", "accept-encoding", "accept-language", "user-agent", "host"] {
            check!(s.headers.iter().filter(|h| h.0 == *n && !h.1.is_empty()).count() == 1, "request", "header {}", n);
        }
    }

    // The archive: the old records, and one if all went well.
    let n_old = k.old.as_ref().map_or(0, |a| a.recs.len());
    if let Some(ref a) = k.old {
        let now = sim::raw(|| std::fs::read(scratch("out.barc")).unwrap_or_default());
        check!(now.starts_with(&a.bytes), "output", "content of the output lost");
        if code != 0 && !killed {
            check!(now.len() == a.bytes.len(), "output", "{} bytes more after a failure", now.len() - a.bytes.len());
        }
    }
    if k.old.is_none() && code != 0 && !killed && !hard {
        check!(!sim::raw(|| scratch("out.barc").exists()), "output", "an archive made in spite of the failure");
    }
    let (got, e) = super::cmd::read_all("out.barc");
    if let Some(e) = e {
        check!(killed, "output", "the archive does not read after {} records: {}", got.len(), e);
    }
    check!(got.len() >= n_old, "missing-record", "{} of {} old records", got.len(), n_old);
    if let Some(ref a) = k.old {
        for (g, r) in got.iter().zip(&a.recs) {
            super::arc::same_record(g, &r.1, false, "output");
        }
    }
    let new = got.len() - n_old;
    check!(new <= 1, "extra-record", "{} new records", new);
    if !killed {
        check!(new == if code == 0 { 1 } else { 0 }, "missing-record", "{} new records", new);
        sim::quiesce(false);
        audit_names(&scratch("tmp"), "at exit");
    }
    if new == 0 {
        return;
    }
    check!(!must_fail, "status", "recorded although it can not be ({:?})", ex);
    let d = match Dialog::try_from(got.into_iter().last().unwrap()) {
        Ok(d) => d,
        Err(e) => return check!(false, "record", "no dialog: {}", e),
    };
    check!(*d.method() == p.method, "record", "method {}", d.method());
    check!(d.url().to_string() == k.url, "record", "url {} instead of {}", d.url(), k.url);
    check!(d.res_status().as_u16() == p.status, "record", "status {} instead of {}", d.res_status(), p.status);
    check!(d.res_version() == p.version, "record", "version {:?}", d.res_version());
    check!(d.req_body().is_empty(), "record", "request body");
    check!(multimap(d.res_headers()) == group(&p.res_headers), "record", "response headers {:?} instead of {:?}",
           d.res_headers(), p.res_headers);
    let sent = match p.seen.iter().find(|s| s.complete) {
        Some(s) => s,
        None => return check!(false, "record", "recorded without a complete request"),
    };
    let sent: Vec<(String, String)> = sent.headers.iter().filter(|h| h.0 != "host").cloned().collect();
    check!(multimap(d.req_headers()) == group(&sent), "record", "request headers {:?} instead of {:?}", d.req_headers(), sent);
    let n = match ex.ok {
        Some(usize::MAX) | None => {
            cover("undetectable");
            return;
        }
        Some(n) => n,
    };
    let mut want = &p.res_body[..n];
    let mut dec = Vec::new();
    if p.res_headers.iter().any(|h| h.0 == "transfer-encoding" && h.1 != "identity") {
        dec.push(Encoding::Chunked);
    }
    if k.decode {
        if let Some(e) = k.enc {
            if p.framing == Framing::NoBody {
                cover("no body to decode");
                return;
            }
            dec.push(e);
            want = &k.plain;
        }
        dec.push(Encoding::Identity);
    }
    check!(*d.res_decoded() == dec, "record", "decoded list {:?} instead of {:?}", d.res_decoded(), dec);
    check!(d.res_body().len() == want.len() as u64, "body", "response body of {} bytes instead of {} ({:?})",
           d.res_body().len(), want.len(), ex);
    let b = content_of(d.res_body());
    check!(b.is_ok(), "body", "response body not readable");
    same("body", "response body", &b.unwrap(), want);
    cover("recorded");
}
