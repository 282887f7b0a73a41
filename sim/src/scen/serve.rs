//! C21: bodies served and collected by an HTTP server. The server is hyper,
//! real, on the seeded executor; the client and the wire are simulated.

use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

use body_image::{BodyError, BodyImage, BodySink};
use body_image_futio::{
    AsyncBodyImage, DispatchBodyImage, Flaw, FutioError, FutioTunables, OutputBuf, PermitBodyImage,
    SplitBodyImage, StreamWrapper, UniBodyBuf, YieldBodyImage,
};
use bytes::Bytes;
use futures_util::future::poll_fn;
use futures_util::{StreamExt, TryStreamExt};
use http::{HeaderMap, Method, Request, Response};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

use super::asy::{self, AsSink, DIRECT, DISPATCH, PERMIT, SPLIT};
use super::net::{Link, Pipe};
use super::util::*;
use super::Scenario;
use crate::check;
use crate::exec::Exec;
use crate::note;
use crate::sim::{self, choose_policy, count_fault, cover, ev, sim, w, Fk, Op};

pub const C21: Scenario = Scenario {
    id: "C21",
    run: c21,
    quick: 80_000,
    level: "exploration",
    rule: "one run = 1 to 3 connections to an HTTP server on 1 to 3 executor threads, each with 1 to 4 requests to get, to head or to store and return a body, with body states, stream and sink kinds, framing, pipelining, splitting, stalls, disconnections, abandonment, spurious polls, thread switches and storage faults chosen by the seed; non-trivial = at least one oracle comparison and more than 4 scheduling points; distinct = different event hash",
    assumptions: &[
        "the connection is the simulated wire; TCP and TLS are not simulated",
        "a response without length or chunks that ends early cannot be told from a complete one",
    ],
    notes: &["connections", "largest_body", "requests"],
    cli: false,
};

// ------------------------------------------------------------ the wire

/// The server's end.
struct Conn {
    l: Arc<Link>,
    vectored: bool,
}

impl AsyncRead for Conn {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        sim::point();
        let l = &self.l;
        if l.stutters(cx) {
            return Poll::Pending;
        }
        let out = buf.initialize_unfilled();
        l.read(&l.up, out, cx).map(|r| {
            ev(Op::Net, l.id as u64, 1, r.as_ref().map(|n| *n as i64).unwrap_or(-1));
            note!("net {}: receive {:?}", l.id, r);
            r.map(|n| buf.advance(n))
        })
    }
}

impl AsyncWrite for Conn {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        sim::point();
        let l = &self.l;
        if l.stutters(cx) {
            return Poll::Pending;
        }
        let r = l.write(&l.down, b, cx);
        if let Poll::Ready(ref r) = r {
            ev(Op::Net, l.id as u64, 2, r.as_ref().map(|n| *n as i64).unwrap_or(-1));
            note!("net {}: send {:?} of {}", l.id, r, b.len());
        }
        r
    }
    fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
        let all: Vec<u8> = b.iter().flat_map(|s| s.iter().copied()).collect();
        self.poll_write(cx, &all)
    }
    fn is_write_vectored(&self) -> bool {
        self.vectored
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        note!("net {}: shut down", self.l.id);
        self.l.close(&self.l.down);
        Poll::Ready(Ok(()))
    }
}

impl Drop for Conn {
    fn drop(&mut self) {
        note!("net {}: dropped", self.l.id);
        self.l.close(&self.l.down);
        self.l.deafen(&self.l.up);
    }
}

// ---------------------------------------------------------- the server

/// A response body of any kind.
enum Out<B: OutputBuf> {
    Direct(AsyncBodyImage<B>),
    Permit(PermitBodyImage<B>),
    Dispatch(DispatchBodyImage<B>),
    Wrapped(hyper::Body),
}

impl<B: OutputBuf> http_body::Body for Out<B> {
    type Data = B;
    type Error = Flaw;
    fn poll_data(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<B, Flaw>>> {
        match self.get_mut() {
            Out::Direct(b) => Pin::new(b).poll_data(cx).map_err(Flaw::from),
            Out::Permit(b) => Pin::new(b).poll_data(cx).map_err(Flaw::from),
            Out::Dispatch(b) => Pin::new(b).poll_data(cx).map_err(Flaw::from),
            Out::Wrapped(b) => Pin::new(b).poll_data(cx).map_ok(B::from).map_err(Flaw::from),
        }
    }
    fn poll_trailers(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Option<HeaderMap>, Flaw>> {
        match self.get_mut() {
            Out::Direct(b) => Pin::new(b).poll_trailers(cx).map_err(Flaw::from),
            Out::Permit(b) => Pin::new(b).poll_trailers(cx).map_err(Flaw::from),
            Out::Dispatch(b) => Pin::new(b).poll_trailers(cx).map_err(Flaw::from),
            Out::Wrapped(b) => Pin::new(b).poll_trailers(cx).map_err(Flaw::from),
        }
    }
    fn size_hint(&self) -> http_body::SizeHint {
        match self {
            Out::Direct(b) => b.size_hint(),
            Out::Permit(b) => b.size_hint(),
            Out::Dispatch(b) => b.size_hint(),
            Out::Wrapped(b) => b.size_hint(),
        }
    }
    fn is_end_stream(&self) -> bool {
        match self {
            Out::Direct(b) => b.is_end_stream(),
            Out::Permit(b) => b.is_end_stream(),
            Out::Dispatch(b) => b.is_end_stream(),
            Out::Wrapped(b) => b.is_end_stream(),
        }
    }
}

fn out<B: OutputBuf>(kind: u32, wrapped: bool, b: BodyImage, t: FutioTunables) -> Out<B> {
    use hyper::Body;
    match (kind, wrapped) {
        (DIRECT, false) => Out::Direct(AsyncBodyImage::new(b, t)),
        (PERMIT, false) => Out::Permit(StreamWrapper::new(b, t)),
        (DISPATCH, false) => Out::Dispatch(StreamWrapper::new(b, t)),
        (DIRECT, true) => Out::Wrapped(Body::wrap_stream(AsyncBodyImage::<Bytes>::new(b, t))),
        (PERMIT, true) => Out::Wrapped(Body::wrap_stream(<PermitBodyImage<Bytes> as StreamWrapper>::new(b, t))),
        (DISPATCH, true) => Out::Wrapped(Body::wrap_stream(<DispatchBodyImage<Bytes> as StreamWrapper>::new(b, t))),
        (SPLIT, _) => Out::Wrapped(Body::wrap_stream(<SplitBodyImage<Bytes> as StreamWrapper>::new(b, t))),
        _ => Out::Wrapped(Body::wrap_stream(<YieldBodyImage<Bytes> as StreamWrapper>::new(b, t))),
    }
}

/// What the server holds and does.
struct Site {
    items: Vec<(BodyImage, Arc<Vec<u8>>)>,
    /// Kind of stream, as a plain stream or not, for each connection.
    tune: FutioTunables,
    kind: u32,
    wrapped: bool,
    sink: u32,
    sink_ram: bool,
}

fn reply<B: OutputBuf>(code: u16, o: Out<B>) -> Response<Out<B>> {
    Response::builder().status(code).body(o).unwrap()
}

async fn handle<B: OutputBuf>(site: Arc<Site>, req: Request<hyper::Body>) -> Result<Response<Out<B>>, Flaw> {
    let (parts, body) = req.into_parts();
    if parts.method != Method::POST {
        let k: usize = parts.uri.path().trim_start_matches("/i").parse().unwrap();
        return Ok(reply(200, out(site.kind, site.wrapped, site.items[k].0.clone(), site.tune.clone())));
    }
    let sink = if site.sink_ram {
        Ok(BodySink::with_ram(0))
    } else {
        BodySink::with_fs(site.tune.image().temp_dir())
    };
    let r = match sink {
        Ok(s) => {
            let mut s = asy::make_sink::<Bytes>(site.sink, s, site.tune.clone());
            match body.map_err(FutioError::from).forward(AsSink(&mut s)).await {
                Ok(()) => s.finish().prepare().map_err(FutioError::from),
                Err(e) => Err(e),
            }
        }
        Err(e) => Err(e.into()),
    };
    note!("collected: {:?}", r.as_ref().map(|b| b.len()));
    match r {
        Ok(b) => Ok(reply(200, out(site.kind, site.wrapped, b, site.tune.clone()))),
        Err(FutioError::Body(BodyError::BodyTooLong(_))) => Ok(reply(413, Out::Wrapped(hyper::Body::empty()))),
        // The client went away within its request.
        Err(FutioError::Hyper(e)) => Err(e.into()),
        Err(_) => Ok(reply(500, Out::Wrapped(hyper::Body::empty()))),
    }
}

// ---------------------------------------------------------- the client

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verb {
    Get,
    Head,
    Post,
}

struct Ask {
    verb: Verb,
    wire: Vec<u8>,
    want: Arc<Vec<u8>>,
    old: bool,
}

struct Client {
    l: Arc<Link>,
    asks: Vec<Ask>,
    /// Send requests without waiting for responses.
    pipelined: bool,
    /// Disconnect at this many bytes received.
    cut: Option<usize>,
    /// Disconnect at this many bytes sent.
    short: Option<usize>,
    slow: u32,
    max: u64,
    hard: bool,
    /// The connection may be given up by the server.
    loose: bool,
}

struct Input {
    l: Arc<Link>,
    got: Vec<u8>,
    total: usize,
    cut: Option<usize>,
    slow: u32,
}

async fn rest() {
    let mut first = true;
    poll_fn(|cx| {
        if first {
            first = false;
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}

impl Input {
    async fn more(&mut self) -> bool {
        if self.slow > 0 && sim().f.chance(self.slow) {
            count_fault(Fk::SlowPeer);
            for _ in 0..1 + sim().f.below(5) {
                rest().await;
            }
        }
        let mut b = vec![0u8; 16384];
        let mut n = b.len();
        if let Some(c) = self.cut {
            n = n.min(c - self.total);
            if n == 0 {
                return false;
            }
        }
        let l = self.l.clone();
        let r = poll_fn(|cx| l.read(&l.down, &mut b[..n], cx)).await;
        sim::point();
        match r {
            Ok(0) | Err(_) => false,
            Ok(n) => {
                self.total += n;
                self.got.extend_from_slice(&b[..n]);
                true
            }
        }
    }
    async fn line(&mut self) -> Option<String> {
        loop {
            if let Some(i) = self.got.windows(2).position(|x| x == b"\r\n") {
                let l: Vec<u8> = self.got.drain(..i + 2).collect();
                return Some(String::from_utf8_lossy(&l[..i]).into_owned());
            }
            if !self.more().await {
                return None;
            }
        }
    }
    async fn exact(&mut self, n: usize) -> (Vec<u8>, bool) {
        while self.got.len() < n {
            if !self.more().await {
                return (std::mem::take(&mut self.got), false);
            }
        }
        (self.got.drain(..n).collect(), true)
    }
}

struct Reply {
    status: u32,
    length: Option<u64>,
    body: Vec<u8>,
    /// All of it is there, as far as can be told.
    complete: bool,
    /// Delimited by the end of the connection only.
    open: bool,
    last: bool,
}

async fn response(p: &mut Input, verb: Verb) -> Option<Reply> {
    let first = p.line().await?;
    let status = first.split(' ').nth(1).and_then(|s| s.parse().ok()).unwrap_or(0);
    let (mut length, mut chunked, mut close) = (None, false, first.starts_with("HTTP/1.0"));
    loop {
        let l = p.line().await?;
        if l.is_empty() {
            break;
        }
        let l = l.to_ascii_lowercase();
        if let Some(i) = l.find(':') {
            let v = l[i + 1..].trim();
            match &l[..i] {
                "content-length" => length = v.parse().ok(),
                "transfer-encoding" => chunked = v.ends_with("chunked"),
                "connection" => close = v == "close",
                _ => {}
            }
        }
    }
    let mut r = Reply { status, length, body: Vec::new(), complete: true, open: false, last: close };
    if verb == Verb::Head {
        return Some(r);
    }
    if chunked {
        loop {
            let n = match p.line().await.and_then(|l| usize::from_str_radix(l.trim(), 16).ok()) {
                Some(n) => n,
                None => {
                    r.complete = false;
                    break;
                }
            };
            let (b, all) = p.exact(n + 2).await;
            r.body.extend_from_slice(&b[..b.len().min(n)]);
            r.complete = all;
            if n == 0 || !all {
                break;
            }
        }
    } else if let Some(n) = length {
        let (b, all) = p.exact(n as usize).await;
        r.body = b;
        r.complete = all;
    } else {
        while p.more().await {}
        r.body = std::mem::take(&mut p.got);
        r.open = true;
        r.last = true;
        r.complete = p.cut.map_or(true, |c| p.total < c);
    }
    Some(r)
}

fn judge(i: usize, a: &Ask, r: &Reply, c: &Client) {
    let what = format!("request {} {:?}", i, a.verb);
    let long = a.verb == Verb::Post && a.want.len() as u64 > c.max;
    if r.status == 500 {
        check!(c.hard, "unexpected-error", "{}: failed", what);
        cover("failure answered");
        return;
    }
    if r.status == 413 {
        check!(long, "wrong-reject", "{}: {} bytes rejected as too long, maximum {}", what, a.want.len(), c.max);
        cover("too long answered");
        return;
    }
    check!(r.status == 200, "status", "{}: status {}", what, r.status);
    check!(!long, "too-long", "{}: {} bytes accepted, maximum {}", what, a.want.len(), c.max);
    if let Some(n) = r.length {
        check!(n == a.want.len() as u64, "length", "{}: length {} announced for {} bytes", what, n, a.want.len());
    }
    if a.verb == Verb::Head {
        cover("head answered");
        return;
    }
    let n = r.body.len();
    if r.complete && !(r.open && (c.hard || c.loose)) {
        same("content", &what, &r.body, &a.want);
        cover(if r.open { "ended by close" } else if r.length.is_some() { "of known length" } else { "in chunks" });
        if a.verb == Verb::Post {
            cover("body returned");
        }
        if n == 0 {
            cover("empty body");
        }
    } else {
        check!(c.hard || c.loose || c.cut.is_some() || c.short.is_some(), "incomplete", "{}: {} of {} bytes received",
               what, n, a.want.len());
        check!(n <= a.want.len() && r.body[..] == a.want[..n], "content", "{}: the part received is wrong", what);
        cover("visibly incomplete");
    }
}

async fn client(c: Client) {
    let done = AtomicUsize::new(0);
    let stop = AtomicUsize::new(0);
    let write = async {
        let mut total = 0;
        for (i, a) in c.asks.iter().enumerate() {
            if !c.pipelined {
                poll_fn(|_| if done.load(Relaxed) >= i { Poll::Ready(()) } else { Poll::Pending }).await;
            }
            if stop.load(Relaxed) == 1 {
                return;
            }
            let mut at = 0;
            while at < a.wire.len() {
                let mut n = a.wire.len() - at;
                if let Some(s) = c.short {
                    n = n.min(s - total);
                    if n == 0 {
                        count_fault(Fk::NetCut);
                        c.l.close(&c.l.up);
                        return;
                    }
                }
                if c.slow > 0 && sim().f.chance(c.slow) {
                    count_fault(Fk::SlowPeer);
                    rest().await;
                }
                let x = poll_fn(|cx| {
                    if stop.load(Relaxed) == 1 {
                        return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
                    }
                    c.l.write(&c.l.up, &a.wire[at..at + n], cx)
                });
                match x.await {
                    Ok(n) => {
                        at += n;
                        total += n;
                    }
                    Err(_) => return,
                }
            }
        }
    };
    let read = async {
        let mut p = Input { l: c.l.clone(), got: Vec::new(), total: 0, cut: c.cut, slow: c.slow };
        for (i, a) in c.asks.iter().enumerate() {
            match response(&mut p, a.verb).await {
                Some(r) => {
                    judge(i, a, &r, &c);
                    let ended = r.last || !r.complete;
                    if ended && i + 1 < c.asks.len() {
                        let ok = c.hard || c.loose || c.cut.is_some() || c.short.is_some()
                            || r.status == 413 || a.old;
                        check!(ok, "incomplete", "connection ended after request {} of {}", i + 1, c.asks.len());
                    }
                    if ended {
                        break;
                    }
                }
                None => {
                    // A server may close on a body it does not read, even
                    // before its answer is sent.
                    let ok = c.hard || c.loose || c.cut.is_some() || c.short.is_some()
                        || c.asks[..=i].iter().any(|a| a.verb == Verb::Post && a.want.len() as u64 > c.max);
                    check!(ok, "incomplete", "no answer to request {} of {}", i + 1, c.asks.len());
                    cover("no answer");
                    break;
                }
            }
            done.store(i + 1, Relaxed);
            rest().await;
        }
        if p.cut.map_or(false, |n| p.total >= n) {
            count_fault(Fk::NetCut);
        }
        stop.store(1, Relaxed);
        done.store(usize::MAX, Relaxed);
        rest().await;
    };
    futures_util::future::join(write, read).await;
    c.l.close(&c.l.up);
    c.l.deafen(&c.l.down);
}

// -------------------------------------------------------- the scenario

fn ask(verb: Verb, item: usize, want: Arc<Vec<u8>>, old: bool, last: bool) -> Ask {
    let t = w();
    let mut h = match verb {
        Verb::Get => format!("GET /i{} ", item),
        Verb::Head => format!("HEAD /i{} ", item),
        Verb::Post => "POST / ".to_string(),
    };
    h.push_str(if old { "HTTP/1.0\r\n" } else { "HTTP/1.1\r\n" });
    h.push_str("host: sim\r\n");
    if last && t.chance(300) {
        h.push_str("connection: close\r\n");
    }
    let mut wire = h.into_bytes();
    if verb == Verb::Post {
        if old || t.chance(500) {
            wire.extend_from_slice(format!("content-length: {}\r\n\r\n", want.len()).as_bytes());
            wire.extend_from_slice(&want);
        } else {
            wire.extend_from_slice(b"transfer-encoding: chunked\r\n\r\n");
            let mut at = 0;
            let step = *t.pick(&[5000u32, 100, 70_000]);
            while at < want.len() {
                let n = (1 + t.below(step) as usize).min(want.len() - at).max((want.len() - at).min(want.len() / 50));
                wire.extend_from_slice(format!("{:x}\r\n", n).as_bytes());
                wire.extend_from_slice(&want[at..at + n]);
                wire.extend_from_slice(b"\r\n");
                at += n;
            }
            wire.extend_from_slice(b"0\r\n\r\n");
        }
    } else {
        wire.extend_from_slice(b"\r\n");
    }
    Ask { verb, wire, want, old }
}

fn pipe(cap: usize) -> Mutex<Pipe> {
    let mut p = Pipe::default();
    p.cap = cap;
    Mutex::new(p)
}

fn c21() {
    let env = asy::environment(true);
    let t = w();
    let kind = t.below(5);
    let wrapped = t.chance(300);
    let hard = t.chance(300);
    let sink = *t.pick(&[DIRECT, PERMIT, DISPATCH]);
    let policy = if sink == DIRECT { kind } else { sink };
    // One policy for both, as these are configured together.
    let (kind, sink) = match policy {
        PERMIT => (PERMIT, PERMIT),
        DISPATCH => (DISPATCH, DISPATCH),
        k => (k, DIRECT),
    };
    let cap = env.cap(kind).min(150_000);
    let n = 1 + t.below(3) as usize;
    let items: Vec<_> = (0..n)
        .map(|_| {
            let data = env.data(cap);
            let mut st = w().below(6);
            if st >= 4 && data.is_empty() {
                st -= 2;
            }
            sim::note_max(1, data.len() as u64);
            (stored(&env.dir, &data, st), Arc::new(data))
        })
        .collect();
    let site = Arc::new(Site {
        items,
        tune: env.futio(kind),
        kind,
        wrapped,
        sink,
        sink_ram: t.chance(700),
    });
    let x = Exec::new();
    let conns = 1 + t.below(3);
    let mut total = 0;
    for id in 0..conns {
        let n = 1 + t.below(4);
        let asks: Vec<Ask> = (0..n)
            .map(|i| {
                let old = i + 1 == n && w().chance(150);
                let verb = *w().pick(&[Verb::Get, Verb::Post, Verb::Get, Verb::Head]);
                let k = w().below(site.items.len() as u32) as usize;
                let want = match verb {
                    Verb::Post => Arc::new(env.data(cap)),
                    _ => site.items[k].1.clone(),
                };
                ask(verb, k, want, old, i + 1 == n)
            })
            .collect();
        total += asks.len();
        let cap = *t.pick(&[65536usize, 1 << 24, 3000]);
        let l = Arc::new(Link {
            up: pipe(cap),
            down: pipe(*t.pick(&[65536usize, 1 << 24, 3000])),
            id,
            split: [0u32, 100, 500][sim().f.below(3) as usize],
            stutter: [0u32, 30, 200][sim().f.below(3) as usize],
        });
        let sent: usize = asks.iter().map(|a| a.wire.len()).sum();
        let (mut cut, mut short, mut dropped) = (None, None, None);
        match t.below(12) {
            1 => cut = Some(*t.pick(&[0usize, 10, 200, 1000]) + t.below(cap.min(30_000) as u32) as usize),
            2 => short = Some(t.below(sent as u32) as usize),
            3 => dropped = Some(t.below(30)),
            _ => {}
        }
        let c = Client {
            l: l.clone(),
            asks,
            pipelined: t.chance(400),
            cut,
            short,
            slow: [0u32, 0, 100][sim().f.below(3) as usize],
            max: env.tune.max,
            hard,
            loose: dropped.is_some(),
        };
        let conn = Conn { l, vectored: t.chance(500) };
        let quiet = !hard && cut.is_none() && short.is_none() && c.asks.iter().all(|a| a.want.len() as u64 <= c.max);
        x.spawn(0, None, client(c));
        if w().below(2) == 0 {
            x.spawn(0, dropped, server::<Bytes>(conn, site.clone(), quiet));
        } else {
            x.spawn(0, dropped, server::<UniBodyBuf>(conn, site.clone(), quiet));
        }
    }
    sim::note_max(0, u64::from(conns));
    sim::note_max(2, total as u64);
    drop(site);
    asy::set_watch(&env);
    choose_policy();
    let mut fl = soft_faults();
    if hard {
        hard_faults(&mut fl, &[Fk::EnospcWrite, Fk::EioWrite, Fk::EioRead, Fk::FailOpen, Fk::EofRead]);
    }
    set_faults(fl);
    asy::spurious();
    x.run(env.workers, env.pool.clone());
    describe(format!("{} connections, {} requests, kind {} wrapped {} sink {}, hard faults {}", conns, total, kind, wrapped, sink, hard));
    let dir = env.dir.clone();
    asy::finish(env);
    audit_temp(&dir, "after the connections");
    let open = sim().io.open_fds().len();
    check!(open == 0, "leak-fd", "after the connections: {} files still open", open);
}

async fn server<B: OutputBuf>(conn: Conn, site: Arc<Site>, quiet: bool) {
    let id = conn.l.id;
    let svc = hyper::service::service_fn(move |r| handle::<B>(site.clone(), r));
    let r = hyper::server::conn::Http::new().http1_only(true).serve_connection(conn, svc).await;
    note!("net {}: server ends: {:?}", id, r);
    if let Err(e) = r {
        check!(!quiet, "unexpected-error", "connection ended: {}", e);
        cover("connection failed");
    }
}
