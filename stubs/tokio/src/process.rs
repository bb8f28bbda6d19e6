//! Child processes follow a script given by the harness.
use crate::sx::{world, Ev, ProcLog};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::ffi::OsStr;
use std::io;
use std::path::Path;
use std::pin::Pin;
use std::process::{ExitStatus, Output, Stdio};
use std::rc::Rc;
use std::task::{Context, Poll, Waker};

#[derive(Default)]
struct Pipe { q: VecDeque<u8>, closed: bool, gone: bool, w: Option<Waker>, full: Option<Waker> }
impl Pipe {
    fn wake(&mut self) { if let Some(w) = self.w.take() { w.wake(); } }
}
struct Proc { out: Pipe, err: Pipe, exit: Option<Option<i32>>, w: Option<Waker>, hang: Option<Waker>, idx: usize }
type P = Rc<RefCell<Proc>>;
pub struct Command { program: String, args: Vec<String>, envs: Vec<(String, String)>, dir: Option<String>, kill_on_drop: bool, piped: (bool, bool) }
fn s(x: impl AsRef<OsStr>) -> String { x.as_ref().to_string_lossy().into_owned() }
/// `Stdio` tells nothing about itself: its first word is compared with that of a pipe
fn is_pipe(x: Stdio) -> bool {
    fn tag(x: &Stdio) -> u32 { unsafe { *(x as *const Stdio as *const u32) } }
    tag(&x) == tag(&Stdio::piped())
}
impl Command {
    pub fn new(p: impl AsRef<OsStr>) -> Command { Command { program: s(p), args: vec![], envs: vec![], dir: None, kill_on_drop: false, piped: (false, false) } }
    pub fn arg(&mut self, a: impl AsRef<OsStr>) -> &mut Self { self.args.push(s(a)); self }
    pub fn args<I, S>(&mut self, a: I) -> &mut Self where I: IntoIterator<Item = S>, S: AsRef<OsStr> { for x in a { self.args.push(s(x)); } self }
    pub fn env(&mut self, k: impl AsRef<OsStr>, v: impl AsRef<OsStr>) -> &mut Self { self.envs.push((s(k), s(v))); self }
    pub fn envs<I, K, V>(&mut self, a: I) -> &mut Self where I: IntoIterator<Item = (K, V)>, K: AsRef<OsStr>, V: AsRef<OsStr> { for (k, v) in a { self.env(k, v); } self }
    pub fn current_dir(&mut self, p: impl AsRef<Path>) -> &mut Self { self.dir = Some(p.as_ref().to_string_lossy().into_owned()); self }
    pub fn env_remove(&mut self, k: impl AsRef<OsStr>) -> &mut Self { let k = s(k); self.envs.retain(|e| e.0 != k); self.envs.push((format!("-{}", k), "<removed>".into())); self }
    pub fn env_clear(&mut self) -> &mut Self { self.envs.clear(); self.envs.push(("-".into(), "<cleared>".into())); self }
    pub fn process_group(&mut self, _: i32) -> &mut Self { self }
    pub fn arg0(&mut self, _: impl AsRef<OsStr>) -> &mut Self { self }
    pub fn get_kill_on_drop(&self) -> bool { self.kill_on_drop }
    pub fn stdout(&mut self, x: impl Into<Stdio>) -> &mut Self { self.piped.0 = is_pipe(x.into()); self }
    pub fn stderr(&mut self, x: impl Into<Stdio>) -> &mut Self { self.piped.1 = is_pipe(x.into()); self }
    pub fn stdin(&mut self, _: impl Into<Stdio>) -> &mut Self { self }
    pub fn kill_on_drop(&mut self, k: bool) -> &mut Self { self.kill_on_drop = k; self }
    fn start(&mut self) -> io::Result<P> {
        let w = world();
        let chosen = match &*w.script_for.borrow() { Some(f) => f(&self.program, &self.args), None => None };
        let script = match chosen { Some(s) => s, None => { let mut q = w.scripts.borrow_mut(); if q.is_empty() { sym::fail("harness: no script for a child process") } else { q.remove(0) } } };
        let idx = w.procs.borrow().len();
        let log = ProcLog { program: self.program.clone(), args: self.args.clone(), envs: self.envs.clone(), dir: self.dir.clone(), killed: false, ended: script.is_none(), spawned: script.is_some() };
        if let Some(f) = &*w.on_spawn.borrow() { f(&log); }
        w.procs.borrow_mut().push(log);
        let script = match script { Some(s) => s, None => return Err(io::Error::new(io::ErrorKind::NotFound, "injected spawn error")) };
        let p: P = Rc::new(RefCell::new(Proc { out: Pipe::default(), err: Pipe::default(), exit: None, w: None, hang: None, idx }));
        let p2 = p.clone();
        sym::rt::spawn_thread("child", Box::new(move || {
            for e in script {
                if p2.borrow().exit.is_some() { break; } // killed
                match e {
                    Ev::Out(b) => put(&p2, b, |p| &mut p.out),
                    Ev::Err(b) => put(&p2, b, |p| &mut p.err),
                    Ev::Hang => { let p3 = SendRc(p2.clone()); sym::rt::block_on(std::future::poll_fn(move |cx| { let p3 = &p3; let mut p = p3.0.borrow_mut(); if p.exit.is_some() { Poll::Ready(()) } else { p.hang = Some(cx.waker().clone()); Poll::Pending } })) }
                    Ev::CloseOut => { let mut p = p2.borrow_mut(); p.out.closed = true; p.out.wake(); }
                    Ev::CloseErr => { let mut p = p2.borrow_mut(); p.err.closed = true; p.err.wake(); }
                    Ev::Sleep(ns) => sym::rt::block_on(crate::time::sleep(std::time::Duration::from_nanos(ns))),
                    Ev::Exit(c) => { end(&p2, c); }
                }
                sym::rt::preempt();
            }
            if p2.borrow().exit.is_none() { end(&p2, Some(0)); }
        }));
        Ok(p)
    }
    pub fn spawn(&mut self) -> io::Result<Child> {
        let p = self.start()?;
        let (o, e) = (ChildStdout(p.clone()), ChildStderr(p.clone()));
        Ok(Child { stdout: if self.piped.0 { Some(o) } else { None }, stderr: if self.piped.1 { Some(e) } else { None }, stdin: None, p, kod: self.kill_on_drop, waited: false })
    }
    pub async fn output(&mut self) -> io::Result<Output> {
        self.piped = (true, true);
        self.spawn()?.wait_with_output().await
    }
    pub async fn status(&mut self) -> io::Result<ExitStatus> { let mut c = self.spawn()?; c.wait().await }
}
/// write to a pipe: waits while the pipe is full, ends the process when nobody can read it any more
fn put(p: &P, b: Vec<u8>, f: fn(&mut Proc) -> &mut Pipe) {
    let cap = *world().pipe.borrow();
    let mut b: VecDeque<u8> = b.into();
    while !b.is_empty() {
        if p.borrow().exit.is_some() { return; }
        if f(&mut p.borrow_mut()).gone { end(p, None); return; }
        {
            let mut g = p.borrow_mut();
            let x = f(&mut g);
            while x.q.len() < cap { match b.pop_front() { Some(c) => x.q.push_back(c), None => break } }
            x.wake();
        }
        if b.is_empty() { return; }
        let p3 = SendRc(p.clone());
        sym::rt::block_on(std::future::poll_fn(move |cx| {
            let p3 = &p3;
            let mut g = p3.0.borrow_mut();
            if g.exit.is_some() { return Poll::Ready(()); }
            let x = f(&mut g);
            if x.gone || x.q.len() < *world().pipe.borrow() { Poll::Ready(()) } else { x.full = Some(cx.waker().clone()); Poll::Pending }
        }));
    }
}
fn end(p: &P, c: Option<i32>) {
    let mut p = p.borrow_mut();
    p.exit = Some(c);
    if let Some(w) = p.hang.take() { w.wake(); }
    if let Some(w) = p.out.full.take() { w.wake(); }
    if let Some(w) = p.err.full.take() { w.wake(); }
    world().procs.borrow_mut()[p.idx].ended = true;
    p.out.closed = true;
    p.err.closed = true;
    p.out.wake();
    p.err.wake();
    if let Some(w) = p.w.take() { w.wake(); }
}
impl Drop for ChildStdout { fn drop(&mut self) { gone(&mut self.0.borrow_mut().out) } }
impl Drop for ChildStderr { fn drop(&mut self) { gone(&mut self.0.borrow_mut().err) } }
fn gone(p: &mut Pipe) { p.gone = true; if let Some(w) = p.full.take() { w.wake(); } }
pub struct ChildStdin;
pub struct ChildStdout(P);
pub struct ChildStderr(P);
unsafe impl Send for ChildStdout {}
unsafe impl Send for ChildStderr {}
unsafe impl Sync for ChildStdout {}
unsafe impl Sync for ChildStderr {}
impl std::fmt::Debug for ChildStdout { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("ChildStdout") } }
impl std::fmt::Debug for ChildStderr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("ChildStderr") } }
fn rd(p: &mut Pipe, cx: &mut Context<'_>, b: &mut real_tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
    if p.q.is_empty() {
        if p.closed { return Poll::Ready(Ok(())); }
        p.w = Some(cx.waker().clone());
        return Poll::Pending;
    }
    let n = p.q.len().min(b.remaining());
    for _ in 0..n { let x = p.q.pop_front().unwrap(); b.put_slice(&[x]); }
    if let Some(w) = p.full.take() { w.wake(); }
    Poll::Ready(Ok(()))
}
impl real_tokio::io::AsyncRead for ChildStdout {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut real_tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> { rd(&mut self.0.borrow_mut().out, cx, b) }
}
impl real_tokio::io::AsyncRead for ChildStderr {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &mut real_tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> { rd(&mut self.0.borrow_mut().err, cx, b) }
}
pub struct Child { pub stdin: Option<ChildStdin>, pub stdout: Option<ChildStdout>, pub stderr: Option<ChildStderr>, p: P, kod: bool, waited: bool }
unsafe impl Send for Child {}
unsafe impl Sync for Child {}
unsafe impl Send for Command {}
impl std::fmt::Debug for Child { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Child") } }
fn status(c: Option<i32>) -> ExitStatus {
    use std::os::unix::process::ExitStatusExt;
    match c { Some(c) => ExitStatus::from_raw((c & 0xff) << 8), None => ExitStatus::from_raw(9) }
}
impl Child {
    pub fn id(&self) -> Option<u32> { if self.waited { None } else { Some(1000 + self.p.borrow().idx as u32) } }
    pub async fn wait(&mut self) -> io::Result<ExitStatus> {
        let p = SendRc(self.p.clone());
        let c = std::future::poll_fn(move |cx| {
            let p = &p;
            let mut p = p.0.borrow_mut();
            match p.exit { Some(c) => Poll::Ready(c), None => { p.w = Some(cx.waker().clone()); Poll::Pending } }
        }).await;
        self.waited = true;
        Ok(status(c))
    }
    pub fn try_wait(&mut self) -> io::Result<Option<ExitStatus>> { Ok(self.p.borrow().exit.map(status)) }
    pub fn start_kill(&mut self) -> io::Result<()> {
        let idx = self.p.borrow().idx;
        world().procs.borrow_mut()[idx].killed = true;
        if self.p.borrow().exit.is_none() { end(&self.p, None); }
        Ok(())
    }
    pub async fn kill(&mut self) -> io::Result<()> { self.start_kill()?; self.wait().await.map(|_| ()) }
    pub async fn wait_with_output(mut self) -> io::Result<Output> {
        let (mut o, mut e) = (self.stdout.take(), self.stderr.take());
        let (mut a, mut b) = (vec![], vec![]);
        use real_tokio::io::AsyncReadExt;
        let (x, y, st) = real_tokio::join!(
            async { match &mut o { Some(o) => o.read_to_end(&mut a).await.map(|_| ()), None => Ok(()) } },
            async { match &mut e { Some(e) => e.read_to_end(&mut b).await.map(|_| ()), None => Ok(()) } },
            self.wait());
        x?; y?;
        Ok(Output { status: st?, stdout: a, stderr: b })
    }
}
struct SendRc(P);
unsafe impl Send for SendRc {}
unsafe impl Sync for SendRc {}
impl Drop for Child { fn drop(&mut self) { if self.kod && self.p.borrow().exit.is_none() { let _ = self.start_kill(); } } }
