//! parking_lot's interface over `lock_api` with the raw locks decided by the `sym` scheduler:
//! every acquisition is a point where another task may run first.
use std::cell::Cell;
pub use lock_api;
pub struct RawMutex { held: Cell<bool>, waiters: Cell<u64> }
unsafe impl Sync for RawMutex {}
unsafe impl Send for RawMutex {}
fn wait(w: &Cell<u64>, free: impl Fn() -> bool) {
    while !free() {
        w.set(w.get() | 1u64 << (sym::rt::current() & 63));
        sym::rt::block();
    }
}
fn release(w: &Cell<u64>) {
    let m = w.replace(0);
    if m != 0 { sym::rt::make_ready(m); }
}
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawMutex = RawMutex { held: Cell::new(false), waiters: Cell::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock(&self) {
        sym::rt::preempt();
        wait(&self.waiters, || !self.held.get());
        self.held.set(true);
    }
    fn try_lock(&self) -> bool { sym::rt::preempt(); !self.held.replace(true) }
    unsafe fn unlock(&self) { self.held.set(false); release(&self.waiters); }
    fn is_locked(&self) -> bool { self.held.get() }
}
pub struct RawRwLock { n: Cell<isize>, waiters: Cell<u64> }
unsafe impl Sync for RawRwLock {}
unsafe impl Send for RawRwLock {}
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: RawRwLock = RawRwLock { n: Cell::new(0), waiters: Cell::new(0) };
    type GuardMarker = lock_api::GuardNoSend;
    fn lock_shared(&self) { sym::rt::preempt(); wait(&self.waiters, || self.n.get() >= 0); self.n.set(self.n.get() + 1); }
    fn try_lock_shared(&self) -> bool { sym::rt::preempt(); if self.n.get() >= 0 { self.n.set(self.n.get() + 1); true } else { false } }
    unsafe fn unlock_shared(&self) { self.n.set(self.n.get() - 1); release(&self.waiters); }
    fn lock_exclusive(&self) { sym::rt::preempt(); wait(&self.waiters, || self.n.get() == 0); self.n.set(-1); }
    fn try_lock_exclusive(&self) -> bool { sym::rt::preempt(); if self.n.get() == 0 { self.n.set(-1); true } else { false } }
    unsafe fn unlock_exclusive(&self) { self.n.set(0); release(&self.waiters); }
    fn is_locked(&self) -> bool { self.n.get() != 0 }
}
pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub const fn const_mutex<T>(v: T) -> Mutex<T> { Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, v) }
pub const fn const_rwlock<T>(v: T) -> RwLock<T> { RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, v) }
