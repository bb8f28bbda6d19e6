//! The stream between a runner and a run (S01) and signals (S02): histories of calls and
//! concurrent use from several threads, against small models.
use crate::common::*;
use astro_run::*;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Wake, Waker};

struct Count(AtomicUsize);
impl Wake for Count {
    fn wake(self: Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
    fn wake_by_ref(self: &Arc<Self>) { self.0.fetch_add(1, Ordering::SeqCst); }
}
fn counter() -> (Arc<Count>, Waker) { let c = Arc::new(Count(AtomicUsize::new(0))); (c.clone(), Waker::from(c)) }
fn ch() -> String { any_str(1, |b| (b >= b' ') & (b < 127)) }

/// any sequence of `n` actions on the stream, compared with a list
fn stream_hist(n: usize) {
    let (tx, mut rx) = stream();
    let tx2 = tx.clone();
    let mut sent: Vec<(String, bool)> = vec![];
    let mut got = 0;
    let mut res: Option<RunResult> = None;
    let mut wakers: Vec<(Arc<Count>, Waker)> = vec![];
    let mut pending: Option<usize> = None;
    for _ in 0..n {
        let t = if choose(2) == 0 { &tx } else { &tx2 };
        match choose(4) {
            // what is sent after the end is not specified
            0 | 1 if res.is_some() => {}
            0 => { let m = ch(); t.log(m.clone()); sent.push((m, false)); }
            1 => { let m = ch(); t.error(m.clone()); sent.push((m, true)); }
            2 => { let r = any_result(); t.end(r.clone()); if res.is_none() { res = Some(r); } }
            _ => {
                // the consumer polls; it may be a different task than before
                wakers.push(counter());
                let k = wakers.len() - 1;
                let p = Pin::new(&mut rx);
                let r = StreamPoll::poll(p, &mut Cx::from_waker(&wakers[k].1));
                match r {
                    Poll::Ready(Some(l)) => {
                        check(got < sent.len(), "[S01] the stream yields only what was sent");
                        check(l.message == sent[got].0, "[S01] lines come out unchanged and in the order they were sent");
                        check(l.is_error() == sent[got].1, "[S01] an error line comes out as an error line, a log line as a log line");
                        got += 1;
                        pending = None;
                    }
                    Poll::Ready(None) => { check(got == sent.len(), "[S01] the stream ends only after everything sent has come out"); check(res.is_some(), "[S01] the stream ends only once it was given a result"); pending = None; reach("ended"); }
                    Poll::Pending => { check(got == sent.len() && res.is_none(), "[S01] a poll is pending only if nothing is there and the stream has no result"); pending = Some(k); }
                }
            }
        }
        if let Some(k) = pending {
            if got < sent.len() || res.is_some() { check(wakers[k].0 .0.load(Ordering::SeqCst) > 0, "[S01] a waiting consumer is woken when a line or the end arrives"); reach("woken"); }
        }
        check(rx.result() == res, "[S01] the result of a stream is the one given first");
        check(tx.is_ended() == res.is_some(), "[S01] a sender sees that the stream has ended");
    }
}
use StreamExt as _;
/// poll without naming the Stream trait's crate
struct StreamPoll;
impl StreamPoll {
    fn poll(mut rx: Pin<&mut StreamReceiver>, cx: &mut Cx<'_>) -> Poll<Option<Log>> {
        let mut n = Box::pin(rx.next());
        n.as_mut().poll(cx)
    }
}
#[no_mangle]
pub extern "C" fn sx_stream_hist() { stream_hist(6) }
#[no_mangle]
pub extern "C" fn sx_stream_hist7() { stream_hist(7) }

/// two tasks end the stream (and print) while a third consumes it; preempted at every lock
fn stream_threads(pre: u32) {
    let (tx, rx) = stream();
    let r = [any_result(), any_result()];
    rt::set_preemptions(pre);
    let first: Slot<RunResult> = Slot::new();
    for i in 0..2 {
        let (tx, r) = (tx.clone(), r[i].clone());
        rt::spawn_thread("ender", Box::new(move || { tx.log(format!("t{}", i)); tx.end(r); }));
    }
    let out: Slot<(Vec<String>, RunResult)> = Slot::new();
    let (o2, f2) = (out.clone(), first.clone());
    tokio::spawn(async move {
        let mut rx = rx;
        let mut v = vec![];
        while let Some(l) = rx.next().await { v.push(l.message); }
        let r = match rx.result() { Some(r) => r, None => fail("[S01] a stream that ended has a result") };
        f2.set(r.clone());
        tokio::task::yield_now().await;
        check(rx.result() == Some(r.clone()), "[S01] the result of a stream never changes");
        o2.set((v, r));
    });
    rt::settle();
    rt::settle();
    let (v, res) = match out.take() { Some(x) => x, None => fail("[S01] the consumer of an ended stream gets to its end") };
    // a line sent before the first end is delivered; the winner's own line always is
    check(v.len() <= 2, "[S01] the stream yields only what was sent");
    let w = |i: usize| v.iter().filter(|m| **m == format!("t{}", i)).count();
    check(w(0) <= 1 && w(1) <= 1, "[S01] a line is delivered once");
    if res != r[0] { check(w(1) == 1, "[S01] lines sent before the end are delivered"); check(res == r[1], "[S01] the result is one that was given"); }
    else if res != r[1] { check(w(0) == 1, "[S01] lines sent before the end are delivered"); }
    else { check(w(0) + w(1) >= 1, "[S01] lines sent before the end are delivered"); }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_stream_threads() { stream_threads(2) }
#[no_mangle]
pub extern "C" fn sx_stream_threads4() { stream_threads(4) }

/// the named endings
#[no_mangle]
pub extern "C" fn sx_stream_ends() {
    let (tx, rx) = stream();
    let c = any_u32() as i32;
    let want = match choose(4) {
        0 => { tx.succeeded(); RunResult::Succeeded }
        1 => { tx.cancelled(); RunResult::Cancelled }
        2 => { tx.failed(c); RunResult::Failed { exit_code: c } }
        _ => { tx.timeout(); match rx.result() { Some(RunResult::Failed { exit_code }) => { check(exit_code != 0, "[S01] a step that ended by timeout is failed, not successful"); return; } _ => fail("[S01] a step that ended by timeout is failed") } }
    };
    check(rx.result() == Some(want), "[S01] each way to end a stream records its own outcome");
    reach("completed");
}

// ---------------------------------------------------------------- signals
/// any sequence of calls on a signal and its clones
fn signal_hist(n: usize) {
    let s = AstroRunSignal::new();
    let s2 = s.clone();
    let mut kind: Option<Signal> = None;
    let mut delivered = false;
    let mut wakers: Vec<(Arc<Count>, Waker)> = vec![];
    let mut pending: Option<usize> = None;
    for _ in 0..n {
        let t = if choose(2) == 0 { &s } else { &s2 };
        match choose(3) {
            0 => { let r = t.cancel(); check(r.is_ok() == kind.is_none(), "[S02] only the first signal is accepted"); if kind.is_none() { kind = Some(Signal::Cancel); } }
            1 => { let r = t.timeout(); check(r.is_ok() == kind.is_none(), "[S02] only the first signal is accepted"); if kind.is_none() { kind = Some(Signal::Timeout); } }
            _ => {
                wakers.push(counter());
                let k = wakers.len() - 1;
                let mut f = t.recv();
                match Pin::new(&mut f).poll(&mut Cx::from_waker(&wakers[k].1)) {
                    Poll::Ready(x) => {
                        check(Some(x) == kind, "[S02] the signal received is the first one given");
                        check(!delivered, "[S02] a signal is received at most once");
                        delivered = true;
                        pending = None;
                        reach("received");
                    }
                    Poll::Pending => { check(kind.is_none() || delivered, "[S02] a signal that was given and not yet received is received at once"); if kind.is_none() { pending = Some(k); } }
                }
            }
        }
        if let (Some(k), Some(_)) = (pending, kind) {
            if !delivered { check(wakers[k].0 .0.load(Ordering::SeqCst) > 0, "[S02] a waiting task is woken by the signal"); reach("woken"); }
        }
        check(s.is_cancelled() == (kind == Some(Signal::Cancel)), "[S02] cancelled means that a cancellation came first");
        check(s.is_timeout() == (kind == Some(Signal::Timeout)), "[S02] timed out means that a timeout came first");
    }
}
#[no_mangle]
pub extern "C" fn sx_signal_hist() { signal_hist(6) }
#[no_mangle]
pub extern "C" fn sx_signal_hist8() { signal_hist(8) }

/// a cancellation and a timeout race while a task waits
fn signal_threads(pre: u32) {
    rt::set_preemptions(pre);
    let s = AstroRunSignal::new();
    let wins: Arc<AtomicUsize> = Arc::new(AtomicUsize::new(0));
    let calls = choose(3);
    for i in 0..2 {
        let (s, w) = (s.clone(), wins.clone());
        let cancel = match calls { 0 => i == 0, 1 => true, _ => false };
        rt::spawn_thread("sender", Box::new(move || {
            let r = if cancel { s.cancel() } else { s.timeout() };
            if r.is_ok() {
                w.fetch_add(if cancel { 1 } else { 16 }, Ordering::SeqCst);
                check(s.is_cancelled() == cancel && s.is_timeout() == !cancel, "[S02] an accepted signal stands");
            }
        }));
    }
    let got: Slot<Signal> = Slot::new();
    let (g2, s3) = (got.clone(), s.clone());
    tokio::spawn(async move { let x = s3.recv().await; g2.set(x); });
    rt::settle();
    rt::settle();
    let n = wins.load(Ordering::SeqCst);
    check(n == 1 || n == 16, "[S02] of concurrent signals exactly one is accepted");
    match got.take() {
        None => fail("[S02] a waiting task receives the signal"),
        Some(x) => check((x == Signal::Cancel) == (n == 1), "[S02] the signal received is the one that was accepted"),
    }
    check(s.is_cancelled() == (n == 1) && s.is_timeout() == (n == 16), "[S02] the state of a signal is the one that was accepted");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_signal_threads() { signal_threads(2) }
#[no_mangle]
pub extern "C" fn sx_signal_threads4() { signal_threads(4) }

/// hundreds of lines, the consumer reading at any moment and to any extent in between
#[no_mangle]
pub extern "C" fn sx_stream_long() {
    let (tx, rx) = stream();
    let n = 300;
    let read = choose(4);
    let out: Slot<(Vec<(String, bool)>, RunResult)> = Slot::new();
    let o2 = out.clone();
    tokio::spawn(async move {
        let mut rx = rx;
        let mut v = vec![];
        while let Some(l) = rx.next().await { v.push((l.message.clone(), l.is_error())); if read == 2 && v.len() % 7 == 0 { tokio::task::yield_now().await; } }
        let r = rx.result().unwrap();
        o2.set((v, r));
    });
    let x = ch();
    let at = *pick(&[0usize, 1, 63, 64, 127, 128, 255, 256, 299]);
    for k in 0..n {
        let m = if k == at { x.clone() } else { format!("{}", k) };
        if k % 5 == 4 { tx.error(m) } else { tx.log(m) }
        if read == 1 || (read == 3 && k == at) { rt::settle(); }
    }
    let r = any_result();
    tx.end(r.clone());
    rt::settle();
    let (v, res) = match out.take() { Some(x) => x, None => fail("[S01] the consumer of an ended stream gets to its end") };
    check(v.len() == n, "[S01] the stream yields only what was sent");
    for (k, l) in v.iter().enumerate() { check(l.0 == if k == at { x.clone() } else { format!("{}", k) }, "[S01] lines come out unchanged and in the order they were sent"); check(l.1 == (k % 5 == 4), "[S01] an error line comes out as an error line, a log line as a log line"); }
    check(res == r, "[S01] the result of a stream is the one given first");
    reach("completed");
}

/// more than a thousand lines: all of them arrive, whoever is slower
#[no_mangle]
pub extern "C" fn sx_stream_huge() {
    let (tx, mut rx) = stream();
    let n = 1100;
    let x = ch();
    for k in 0..n { let m = if k % 1000 == 999 { x.clone() } else { String::new() }; if k % 2 == 1 { tx.error(m) } else { tx.log(m) } }
    // the consumer comes late
    tx.succeeded();
    let v = rt::block_on(async move { let mut v = vec![]; while let Some(l) = rx.next().await { v.push((l.message.clone(), l.is_error())); } v });
    check(v.len() == n, "[S01] the stream yields only what was sent");
    for (k, l) in v.iter().enumerate() { check(l.1 == (k % 2 == 1) && if k % 1000 == 999 { l.0 == x } else { l.0.is_empty() }, "[S01] lines come out unchanged and in the order they were sent"); }
    reach("completed");
}
