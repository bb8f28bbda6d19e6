//! Cooperative scheduler. One baton; every runnable-set choice is `choose`, i.e. a symbolic
//! variable. Tasks are engine threads, so a task can be preempted inside synchronous code at
//! the points the stubs mark (`preempt`).
use crate::*;
use std::cell::UnsafeCell;
use std::future::Future;
use std::pin::Pin;
use std::time::Duration;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

struct Th { ready: bool, token: bool, done: bool, name: &'static str }
struct Timer { at: Duration, seq: u64, waker: Option<Waker> }
struct Rt {
    th: Vec<Th>,
    cur: usize,
    now: Duration,
    tick: u64,
    seq: u64,
    timers: Vec<Timer>,
    preempt: u32,
    early: u32,
    order: u32,
    on_deadlock: Option<fn()>,
}
struct G(UnsafeCell<Rt>);
unsafe impl Sync for G {}
static RT: G = G(UnsafeCell::new(Rt { th: vec![], cur: 0, now: Duration::ZERO, tick: 0, seq: 0, timers: vec![], preempt: 0, early: 0, order: u32::MAX, on_deadlock: None }));
#[allow(clippy::mut_from_ref)]
fn rt() -> &'static mut Rt {
    let r = unsafe { &mut *RT.0.get() };
    if r.th.is_empty() { r.th.push(Th { ready: true, token: false, done: false, name: "main" }); }
    r
}
/// at most `n` preemptions at marked points (switches at blocking points are always free)
pub fn set_preemptions(n: u32) { rt().preempt = n }
/// at most `n` times a timer may fire although some task could still run
pub fn set_early_timers(n: u32) { rt().early = n }
/// at most `n` scheduling decisions (which ready task runs next) are explored; the rest are FIFO
pub fn set_order_choices(n: u32) { rt().order = n }
/// called when no task can run and no timer is pending; default: a violation
pub fn on_deadlock(f: fn()) { rt().on_deadlock = Some(f) }
pub fn now() -> Duration { rt().now }
pub fn advance(d: Duration) { rt().now = rt().now.saturating_add(d) }
pub fn ticks() -> Duration { Duration::from_millis(rt().tick) }
pub fn current() -> usize { rt().cur }
pub fn pending_timers() -> usize { rt().timers.len() }

fn fire_next() -> bool {
    let r = rt();
    if r.timers.is_empty() { return false; }
    let mut b = 0;
    for i in 1..r.timers.len() { if (r.timers[i].at, r.timers[i].seq) < (r.timers[b].at, r.timers[b].seq) { b = i; } }
    let t = r.timers.swap_remove(b);
    r.tick += 1;
    if t.at > r.now { r.now = t.at; }
    if let Some(w) = t.waker { w.wake(); }
    true
}
/// give the baton to some ready thread (possibly the current one)
fn schedule() {
    loop {
        let r = rt();
        // round robin order starting after the current thread
        let n = r.th.len();
        let mut ready: Vec<usize> = vec![];
        for k in 1..=n { let i = (r.cur + k) % n; if r.th[i].ready { ready.push(i); } }
        if ready.is_empty() {
            if fire_next() { continue; }
            match rt().on_deadlock { Some(f) => f(), None => fail("deadlock: no task can run and no timer is pending") }
            fail("deadlock handler returned");
        }
        if r.early > 0 && !r.timers.is_empty() {
            if flip() { rt().early -= 1; fire_next(); continue; }
        }
        let r = rt();
        let k = if ready.len() > 1 && r.order > 0 { if r.order != u32::MAX { r.order -= 1; } choose(ready.len()) } else { 0 };
        let t = ready[k];
        let r = rt();
        if t != r.cur { r.cur = t; unsafe { __sx_switch(t) } }
        return;
    }
}
/// block the current thread until it is woken
pub fn park() {
    loop {
        let r = rt();
        let c = r.cur;
        if r.th[c].token { r.th[c].token = false; r.th[c].ready = true; return; }
        r.th[c].ready = false;
        schedule();
    }
}
/// leave the ready set until `make_ready` (or a wake-up) puts this thread back
pub fn block() {
    let r = rt();
    let c = r.cur;
    r.th[c].ready = false;
    schedule();
}
pub fn make_ready(mask: u64) {
    let r = rt();
    for i in 0..r.th.len() { if mask >> (i & 63) & 1 == 1 && !r.th[i].done { r.th[i].ready = true; } }
}
pub fn unpark(t: usize) {
    let r = rt();
    if r.th[t].done { return; }
    r.th[t].token = true;
    r.th[t].ready = true;
}
/// a point where another thread may run although this one could continue
pub fn preempt() {
    let r = rt();
    if r.preempt == 0 { return; }
    let c = r.cur;
    let mut others: Vec<usize> = vec![];
    for i in 0..r.th.len() { if i != c && r.th[i].ready { others.push(i); } }
    if others.is_empty() { return; }
    let k = choose(others.len() + 1);
    if k == 0 { return; }
    let r = rt();
    r.preempt -= 1;
    r.cur = others[k - 1];
    unsafe { __sx_switch(others[k - 1]) }
}
/// let the others run: the current thread stays ready
pub fn yield_now() { schedule() }

struct Boot { f: Option<Box<dyn FnOnce()>> }
extern "C" fn boot(p: *mut u8) {
    let mut b = unsafe { Box::from_raw(p as *mut Boot) };
    (b.f.take().unwrap())();
    drop(b);
    let r = rt();
    let c = r.cur;
    r.th[c].done = true;
    r.th[c].ready = false;
    schedule();
    // the baton never comes back
    fail("a finished thread was scheduled");
}
pub fn spawn_thread(name: &'static str, f: Box<dyn FnOnce()>) -> usize {
    let r = rt();
    let id = r.th.len();
    r.th.push(Th { ready: true, token: false, done: false, name });
    let t = unsafe { __sx_thread_new(boot, Box::into_raw(Box::new(Boot { f: Some(f) })) as *mut u8) };
    if t != id { fail("thread numbering"); }
    let _ = rt().th[id].name;
    id
}

// ---- wakers ----
static VT: RawWakerVTable = RawWakerVTable::new(|p| RawWaker::new(p, &VT), |p| unpark(p as usize - 1), |p| unpark(p as usize - 1), |_| {});
pub fn waker(t: usize) -> Waker { unsafe { Waker::from_raw(RawWaker::new((t + 1) as *const (), &VT)) } }
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = f;
    let mut f = unsafe { Pin::new_unchecked(&mut f) };
    let w = waker(current());
    let mut cx = Context::from_waker(&w);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) { return v; }
        park();
    }
}
/// run until no other thread can make progress without a timer or input
pub fn settle() {
    loop {
        let r = rt();
        let c = r.cur;
        let mut others = false;
        for i in 0..r.th.len() { if i != c && r.th[i].ready { others = true; } }
        if !others { return; }
        r.th[c].token = false;
        // keep ourselves out of the ready set while the others run: come back when they all park
        r.th[c].ready = false;
        let mut ready: Vec<usize> = vec![];
        let n = r.th.len();
        for k in 1..=n { let i = (r.cur + k) % n; if r.th[i].ready { ready.push(i); } }
        settle_push(c);
        let k = if ready.len() > 1 && r.order > 0 { if r.order != u32::MAX { r.order -= 1; } choose(ready.len()) } else { 0 };
        let t = ready[k];
        rt().cur = t;
        unsafe { __sx_switch(t) }
    }
}
fn settle_push(c: usize) {
    // lowest-priority timer: fires only when nothing else is ready, without moving the clock
    let r = rt();
    r.seq += 1;
    let s = r.seq;
    r.timers.push(Timer { at: Duration::ZERO, seq: s, waker: Some(waker(c)) });
}

// ---- timers ----
pub struct Delay { pub at: Duration, seq: Option<u64>, fired: bool }
impl Delay {
    pub fn new(at: Duration) -> Delay { Delay { at, seq: None, fired: false } }
    pub fn fired(&self) -> bool { self.fired }
    pub fn reset(&mut self, at: Duration) { self.cancel(); self.at = at; self.fired = false; }
    fn cancel(&mut self) {
        if let Some(s) = self.seq.take() { let r = rt(); r.timers.retain(|t| t.seq != s); }
    }
    pub fn poll_at(&mut self, cx: &mut Context<'_>) -> Poll<()> {
        let r = rt();
        if self.fired || r.now >= self.at { self.cancel(); self.fired = true; return Poll::Ready(()); }
        match self.seq {
            Some(s) => { for t in r.timers.iter_mut() { if t.seq == s { t.waker = Some(cx.waker().clone()); } } }
            None => { r.seq += 1; self.seq = Some(r.seq); r.timers.push(Timer { at: self.at, seq: r.seq, waker: Some(cx.waker().clone()) }); }
        }
        Poll::Pending
    }
}
impl Drop for Delay { fn drop(&mut self) { self.cancel() } }
impl Future for Delay {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { self.poll_at(cx) }
}
