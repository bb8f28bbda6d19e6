//! Virtual time.
use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant { Instant(sym::rt::now()) }
    pub fn elapsed(&self) -> Duration { sym::rt::now().saturating_sub(self.0) }
    pub fn duration_since(&self, o: Instant) -> Duration { self.0.saturating_sub(o.0) }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration { self.duration_since(o) }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> { Some(*self + d) }
}
impl Add<Duration> for Instant { type Output = Instant; fn add(self, d: Duration) -> Instant { Instant(self.0.saturating_add(d)) } }
impl AddAssign<Duration> for Instant { fn add_assign(&mut self, d: Duration) { *self = *self + d } }
impl Sub<Duration> for Instant { type Output = Instant; fn sub(self, d: Duration) -> Instant { Instant(self.0.saturating_sub(d)) } }
impl SubAssign<Duration> for Instant { fn sub_assign(&mut self, d: Duration) { *self = *self - d } }
impl Sub<Instant> for Instant { type Output = Duration; fn sub(self, o: Instant) -> Duration { self.duration_since(o) } }

pub struct Sleep { d: sym::rt::Delay }
unsafe impl Send for Sleep {}
unsafe impl Sync for Sleep {}
impl fmt::Debug for Sleep { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Sleep") } }
impl Sleep {
    pub fn deadline(&self) -> Instant { Instant(self.d.at) }
    pub fn is_elapsed(&self) -> bool { self.d.fired() }
    pub fn reset(self: Pin<&mut Self>, t: Instant) { self.get_mut().d.reset(t.0) }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> { self.get_mut().d.poll_at(cx) }
}
#[track_caller]
pub fn sleep(d: Duration) -> Sleep { sleep_until(Instant::now() + d) }
#[track_caller]
pub fn sleep_until(t: Instant) -> Sleep { Sleep { d: sym::rt::Delay::new(t.0) } }

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(super) ());
    impl std::fmt::Display for Elapsed { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("deadline has elapsed") } }
    impl std::error::Error for Elapsed {}
}
pub struct Timeout<F> { f: F, s: Sleep }
impl<F> Timeout<F> { pub fn get_ref(&self) -> &F { &self.f } pub fn into_inner(self) -> F { self.f } }
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let me = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut me.f) }.poll(cx) { return Poll::Ready(Ok(v)); }
        match Pin::new(&mut me.s).poll(cx) { Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))), Poll::Pending => Poll::Pending }
    }
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep(d) } }
pub fn timeout_at<F: std::future::IntoFuture>(t: Instant, f: F) -> Timeout<F::IntoFuture> { Timeout { f: f.into_future(), s: sleep_until(t) } }

#[derive(Debug, Clone, Copy, PartialEq, Eq, Default)]
pub enum MissedTickBehavior { #[default] Burst, Delay, Skip }
#[derive(Debug)]
pub struct Interval { s: Pin<Box<Sleep>>, p: Duration, m: MissedTickBehavior }
impl Interval {
    pub async fn tick(&mut self) -> Instant { std::future::poll_fn(|cx| self.poll_tick(cx)).await }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.s.as_mut().poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => { let t = self.s.deadline(); let next = match self.m { MissedTickBehavior::Burst => t + self.p, _ => Instant::now() + self.p }; self.s.as_mut().reset(next); Poll::Ready(t) }
        }
    }
    pub fn reset(&mut self) { let n = Instant::now() + self.p; self.s.as_mut().reset(n) }
    pub fn period(&self) -> Duration { self.p }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) { self.m = m }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior { self.m }
}
pub fn interval(p: Duration) -> Interval { interval_at(Instant::now(), p) }
pub fn interval_at(t: Instant, p: Duration) -> Interval { Interval { s: Box::pin(sleep_until(t)), p, m: MissedTickBehavior::Burst } }
