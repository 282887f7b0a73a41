//! Stand-in so that body-image-futio's hyper-http feature compiles and runs
//! without OpenSSL and a network: connections come from a function set by the
//! simulator.

use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Mutex;
use std::task::{Context, Poll};

use hyper::client::connect::{Connected, Connection};
use hyper::client::HttpConnector;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

pub trait Io: AsyncRead + AsyncWrite + Send + Unpin {}
pub type Dialing = Pin<Box<dyn Future<Output = io::Result<Box<dyn Io>>> + Send>>;
pub type Dial = fn(http::Uri) -> Dialing;

static DIAL: Mutex<Option<Dial>> = Mutex::new(None);

pub fn set_dial(d: Dial) {
    *DIAL.lock().unwrap() = Some(d);
}

#[derive(Clone)]
pub struct HttpsConnector<T>(std::marker::PhantomData<T>);

impl HttpsConnector<HttpConnector> {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        HttpsConnector(std::marker::PhantomData)
    }
}

impl<T> tower_service::Service<http::Uri> for HttpsConnector<T> {
    type Response = Stream;
    type Error = io::Error;
    type Future = Pin<Box<dyn Future<Output = io::Result<Stream>> + Send>>;

    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn call(&mut self, uri: http::Uri) -> Self::Future {
        let d = DIAL.lock().unwrap().expect("no connection function set");
        Box::pin(async move { d(uri).await.map(Stream) })
    }
}

pub struct Stream(Box<dyn Io>);

impl AsyncRead for Stream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_read(cx, b)
    }
}
impl AsyncWrite for Stream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.0).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.0).poll_shutdown(cx)
    }
}
impl Connection for Stream {
    fn connected(&self) -> Connected {
        Connected::new()
    }
}
