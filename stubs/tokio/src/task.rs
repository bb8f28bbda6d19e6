//! One engine thread per task.
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

struct Cell_<T> { out: Option<T>, done: bool, waker: Option<Waker>, abort: bool, tid: usize }
pub struct JoinHandle<T> { c: Rc<RefCell<Cell_<T>>> }
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinHandle") } }

pub struct JoinError { cancelled: bool }
impl JoinError {
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> { Err(self) }
    pub fn is_cancelled(&self) -> bool { self.cancelled }
    pub fn is_panic(&self) -> bool { false }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> { Box::new(()) }
}
impl fmt::Debug for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinError::Cancelled") } }
impl fmt::Display for JoinError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("task was cancelled") } }
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error { fn from(_: JoinError) -> Self { std::io::Error::new(std::io::ErrorKind::Other, "task was cancelled") } }

impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let mut c = self.c.borrow_mut();
        if c.done { return; }
        c.abort = true;
        sym::rt::unpark(c.tid);
    }
    pub fn is_finished(&self) -> bool { self.c.borrow().done }
    pub fn abort_handle(&self) -> AbortHandle where T: 'static {
        let (a, b) = (self.c.clone(), self.c.clone());
        AbortHandle { abort: Rc::new(move || { let mut c = a.borrow_mut(); if !c.done { c.abort = true; sym::rt::unpark(c.tid); } }), done: Rc::new(move || b.borrow().done) }
    }
}
/// a handle that can only abort its task
#[derive(Clone)]
pub struct AbortHandle { abort: Rc<dyn Fn()>, done: Rc<dyn Fn() -> bool> }
unsafe impl Send for AbortHandle {}
unsafe impl Sync for AbortHandle {}
impl fmt::Debug for AbortHandle { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("AbortHandle") } }
impl AbortHandle {
    pub fn abort(&self) { (self.abort)() }
    pub fn is_finished(&self) -> bool { (self.done)() }
}
/// tasks whose results are taken in the order they end; dropping it aborts them
pub struct JoinSet<T> { v: Vec<JoinHandle<T>> }
impl<T> Default for JoinSet<T> { fn default() -> Self { JoinSet { v: vec![] } } }
impl<T> fmt::Debug for JoinSet<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinSet") } }
impl<T> JoinSet<T> {
    pub fn new() -> Self { Self::default() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn abort_all(&mut self) { for h in &self.v { h.abort(); } }
    pub fn detach_all(&mut self) { self.v.clear(); }
}
impl<T: 'static> JoinSet<T> {
    #[track_caller]
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle where F: Future<Output = T> + Send + 'static, T: Send {
        let h = spawn(f);
        let a = h.abort_handle();
        self.v.push(h);
        a
    }
    #[track_caller]
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle where F: FnOnce() -> T + Send + 'static, T: Send { self.spawn(async move { f() }) }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.v.is_empty() { return Poll::Ready(None); }
        for i in 0..self.v.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.v[i]).poll(cx) { self.v.remove(i); return Poll::Ready(Some(r)); }
        }
        Poll::Pending
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> { std::future::poll_fn(|cx| self.poll_join_next(cx)).await }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let i = self.v.iter().position(|h| h.is_finished())?;
        let h = self.v.remove(i);
        let r = h.c.borrow_mut().out.take();
        Some(r.ok_or(JoinError { cancelled: true }))
    }
    pub async fn join_all(mut self) -> Vec<T> { let mut v = vec![]; while let Some(r) = self.join_next().await { v.push(r.unwrap()); } v }
    pub async fn shutdown(&mut self) { self.abort_all(); while self.join_next().await.is_some() {} }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { for h in &self.v { h.abort(); } } }
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut c = self.c.borrow_mut();
        if c.done {
            return Poll::Ready(match c.out.take() { Some(v) => Ok(v), None => Err(JoinError { cancelled: true }) });
        }
        c.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
#[track_caller]
pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let c = Rc::new(RefCell::new(Cell_ { out: None, done: false, waker: None, abort: false, tid: usize::MAX }));
    let c2 = c.clone();
    let mut f = Box::pin(f);
    let tid = sym::rt::spawn_thread("task", Box::new(move || {
        let w = sym::rt::waker(sym::rt::current());
        let mut cx = Context::from_waker(&w);
        loop {
            if c2.borrow().abort { drop(f); break; }
            if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { drop(f); c2.borrow_mut().out = Some(v); break; }
            sym::rt::park();
        }
        let w = { let mut c = c2.borrow_mut(); c.done = true; c.waker.take() };
        if let Some(w) = w { w.wake(); }
    }));
    c.borrow_mut().tid = tid;
    sym::rt::preempt();
    JoinHandle { c }
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn(async move { f() })
}
pub fn block_in_place<F, R>(f: F) -> R where F: FnOnce() -> R { f() }
pub mod coop { pub async fn consume_budget() {} pub fn unconstrained<F>(f: F) -> F { f } }
pub async fn consume_budget() {}
pub fn unconstrained<F>(f: F) -> F { f }
pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| {
        if done { return Poll::Ready(()); }
        done = true;
        cx.waker().wake_by_ref();
        sym::rt::yield_now();
        Poll::Pending
    })
    .await
}
