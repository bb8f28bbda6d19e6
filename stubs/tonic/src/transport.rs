use crate::body::BoxBody;
use crate::codegen::{Body, BoxFuture, Bytes, Service};
use crate::Status;
use std::cell::{RefCell, UnsafeCell};
use std::collections::BTreeMap;
use std::convert::Infallible;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// what happens to one call
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Fault { None, /** never reaches the server */ Refused, /** the server handles it, the answer is lost */ Lost }
/// what happens to the frames of an answer: after so many frames, an error or a plain end
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cut { None, Error(usize), End(usize) }
/// decisions about the network
pub trait Net {
    fn connect(&self, _addr: &str) -> bool { true }
    fn call(&self, _addr: &str, _path: &str) -> Fault { Fault::None }
    fn cut(&self, _addr: &str, _path: &str) -> Cut { Cut::None }
    /// how many moments a call is on its way before it reaches the server
    fn delay(&self, _addr: &str, _path: &str) -> usize { 0 }
    /// true: answers are moved as soon as they are there; false: only when asked for
    fn eager(&self) -> bool { false }
}
struct Plain;
impl Net for Plain {}
type Handler = Box<dyn FnMut(http::Request<BoxBody>) -> BoxFuture<http::Response<BoxBody>, Infallible>>;
pub struct World {
    pub net: RefCell<Box<dyn Net>>,
    servers: RefCell<BTreeMap<String, Handler>>,
    /// servers that were killed
    pub dead: RefCell<Vec<String>>,
    wakers: RefCell<Vec<Waker>>,
    /// every call made: address, path, reached the server
    pub calls: RefCell<Vec<(String, String, bool)>>,
}
struct Cell(UnsafeCell<Option<Box<World>>>);
unsafe impl Sync for Cell {}
static W: Cell = Cell(UnsafeCell::new(None));
pub fn world() -> &'static World {
    unsafe { &mut *W.0.get() }.get_or_insert_with(|| Box::new(World { net: RefCell::new(Box::new(Plain)), servers: Default::default(), dead: Default::default(), wakers: Default::default(), calls: Default::default() }))
}
/// the server is gone: its open answers fail, later calls are refused
pub fn kill(addr: &str) {
    world().dead.borrow_mut().push(addr.to_string());
    let ws: Vec<Waker> = world().wakers.borrow_mut().drain(..).collect();
    for w in ws { w.wake(); }
}
fn dead(addr: &str) -> bool { world().dead.borrow().iter().any(|d| d == addr) }

#[derive(Debug)]
pub struct Error(String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
impl From<Infallible> for Error { fn from(x: Infallible) -> Self { match x {} } }

// ------------------------------------------------------------------ client side
#[derive(Clone, Debug)]
pub struct Endpoint { addr: String }
impl Endpoint {
    pub fn new<D>(dst: D) -> Result<Self, Error> where D: TryInto<Endpoint>, D::Error: Into<crate::codegen::StdError> {
        dst.try_into().map_err(|e| Error(e.into().to_string()))
    }
    pub async fn connect(&self) -> Result<Channel, Error> {
        tokio::task::yield_now().await;
        if dead(&self.addr) || !world().net.borrow().connect(&self.addr) || !world().servers.borrow().contains_key(&self.addr) { return Err(Error("transport error".into())); }
        Ok(Channel { addr: self.addr.clone() })
    }
}
fn parse(s: &str) -> Result<Endpoint, Error> {
    let a = s.strip_prefix("http://").or_else(|| s.strip_prefix("https://")).unwrap_or(s);
    let a = a.split('/').next().unwrap_or("");
    if a.is_empty() || a.bytes().any(|b| b <= b' ') { return Err(Error("invalid URI".into())); }
    Ok(Endpoint { addr: a.to_string() })
}
impl TryFrom<String> for Endpoint { type Error = Error; fn try_from(s: String) -> Result<Self, Error> { parse(&s) } }
impl TryFrom<&str> for Endpoint { type Error = Error; fn try_from(s: &str) -> Result<Self, Error> { parse(s) } }

#[derive(Clone, Debug)]
pub struct Channel { addr: String }
impl Service<http::Request<BoxBody>> for Channel {
    type Response = http::Response<BoxBody>;
    type Error = Error;
    type Future = Pin<Box<dyn Future<Output = Result<http::Response<BoxBody>, Error>> + Send>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), Error>> { Poll::Ready(Ok(())) }
    fn call(&mut self, req: http::Request<BoxBody>) -> Self::Future {
        let addr = self.addr.clone();
        let path = req.uri().path().to_string();
        Box::pin(async move {
            tokio::task::yield_now().await;
            let late = world().net.borrow().delay(&addr, &path);
            for _ in 0..late { tokio::task::yield_now().await; }
            let f = if dead(&addr) { Fault::Refused } else { world().net.borrow().call(&addr, &path) };
            world().calls.borrow_mut().push((addr.clone(), path.clone(), f != Fault::Refused));
            if f == Fault::Refused { return Err(Error("transport error".into())); }
            let fut = match world().servers.borrow_mut().get_mut(&addr) { Some(h) => h(req), None => return Err(Error("transport error".into())) };
            let r = match tokio::spawn(fut).await { Ok(Ok(r)) => r, _ => return Err(Error("transport error".into())) };
            if f == Fault::Lost || dead(&addr) { return Err(Error("transport error".into())); }
            let cut = world().net.borrow().cut(&addr, &path);
            let (parts, body) = r.into_parts();
            let body = if world().net.borrow().eager() { eager(body) } else { body };
            Ok(http::Response::from_parts(parts, Wire { body, addr, cut, n: 0 }.boxed_unsync()))
        })
    }
}
/// the answer on its way
struct Wire { body: BoxBody, addr: String, cut: Cut, n: usize }
impl Body for Wire {
    type Data = Bytes;
    type Error = Status;
    fn poll_data(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Bytes, Status>>> {
        if dead(&self.addr) { return Poll::Ready(Some(Err(Status::unavailable("connection lost")))); }
        match self.cut {
            Cut::Error(k) if self.n >= k => return Poll::Ready(Some(Err(Status::unavailable("connection lost")))),
            Cut::End(k) if self.n >= k => return Poll::Ready(None),
            _ => {}
        }
        world().wakers.borrow_mut().push(cx.waker().clone());
        let r = Pin::new(&mut self.body).poll_data(cx);
        if let Poll::Ready(Some(Ok(_))) = &r { self.n += 1; }
        r
    }
    fn poll_trailers(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<Option<http::HeaderMap>, Status>> {
        if let Cut::End(_) = self.cut { return Poll::Ready(Ok(None)); }
        Pin::new(&mut self.body).poll_trailers(cx)
    }
}
/// a task that moves the answer into a queue as fast as it comes
fn eager(body: BoxBody) -> BoxBody {
    let (tx, rx) = tokio::sync::mpsc::unbounded_channel::<Item>();
    tokio::spawn(async move {
        let mut body = body;
        loop {
            let d = std::future::poll_fn(|cx| Pin::new(&mut body).poll_data(cx)).await;
            match d {
                Some(x) => { let bad = x.is_err(); if tx.send(Item::Data(x)).is_err() || bad { return; } }
                None => { let t = std::future::poll_fn(|cx| Pin::new(&mut body).poll_trailers(cx)).await; let _ = tx.send(Item::End(t)); return; }
            }
        }
    });
    Queue { rx, end: None }.boxed_unsync()
}
enum Item { Data(Result<Bytes, Status>), End(Result<Option<http::HeaderMap>, Status>) }
struct Queue { rx: tokio::sync::mpsc::UnboundedReceiver<Item>, end: Option<Result<Option<http::HeaderMap>, Status>> }
impl Body for Queue {
    type Data = Bytes;
    type Error = Status;
    fn poll_data(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Result<Bytes, Status>>> {
        if self.end.is_some() { return Poll::Ready(None); }
        match self.rx.poll_recv(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(Item::Data(d))) => Poll::Ready(Some(d)),
            Poll::Ready(Some(Item::End(t))) => { self.end = Some(t); Poll::Ready(None) }
            Poll::Ready(None) => Poll::Ready(Some(Err(Status::unavailable("connection lost")))),
        }
    }
    fn poll_trailers(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Result<Option<http::HeaderMap>, Status>> { Poll::Ready(self.end.take().unwrap_or(Ok(None))) }
}

// ------------------------------------------------------------------ server side
#[derive(Clone, Debug, Default)]
pub struct Server;
impl Server {
    pub fn builder() -> Self { Server }
    pub fn add_service<S>(&mut self, svc: S) -> Router
    where S: Service<http::Request<BoxBody>, Response = http::Response<BoxBody>, Error = Infallible> + Send + 'static, S::Future: Send + 'static {
        let mut svc = svc;
        Router { h: Box::new(move |r| { let f = svc.call(r); Box::pin(f) }) }
    }
}
pub struct Router { h: Handler }
unsafe impl Send for Router {}
impl Router {
    pub async fn serve(self, addr: std::net::SocketAddr) -> Result<(), Error> { self.serve_with_shutdown(addr, std::future::pending()).await }
    pub async fn serve_with_shutdown(self, addr: std::net::SocketAddr, stop: impl Future<Output = ()>) -> Result<(), Error> {
        let a = addr.to_string();
        if world().servers.borrow().contains_key(&a) { return Err(Error("address in use".into())); }
        world().servers.borrow_mut().insert(a.clone(), self.h);
        stop.await;
        world().servers.borrow_mut().remove(&a);
        Ok(())
    }
}
