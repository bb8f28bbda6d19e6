//! Harness interface: symbolic values, assertions, and a cooperative scheduler whose every
//! choice is a symbolic variable. The same code runs under the symbolic engine (the `__sx_*`
//! functions are engine intrinsics) and natively (feature `native`: values come from a file),
//! so a counterexample is replayed by compiling this very harness for the machine.
pub mod rt;
#[cfg(feature = "native")]
mod native;

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn __sx_any(w: u32) -> u64;
        pub fn __sx_choose(n: u32) -> u64;
        pub fn __sx_assume(c: bool);
        pub fn __sx_check(c: bool, p: *const u8, n: usize);
        pub fn __sx_violation(p: *const u8, n: usize) -> !;
        pub fn __sx_reach(p: *const u8, n: usize);
        pub fn __sx_note(p: *const u8, n: usize);
        pub fn __sx_dbg(p: *const u8, n: usize);
        pub fn __sx_thread_new(f: extern "C" fn(*mut u8), a: *mut u8) -> usize;
        pub fn __sx_switch(t: usize);
        pub fn __sx_concretize(v: u64) -> u64;
        pub fn __sx_end() -> !;
    }
}
#[cfg(feature = "native")]
use native as raw;

/// what has to happen before an entry runs: natively, the recorded values are read
pub fn prepare() { #[cfg(feature = "native")] native::prepare(); }
pub const fn is_native() -> bool { cfg!(feature = "native") }

/// a fresh symbolic value of `w` bits
#[inline(never)]
pub fn any(w: u32) -> u64 { unsafe { raw::__sx_any(w) } }
pub fn any_u8() -> u8 { any(8) as u8 }
pub fn any_u16() -> u16 { any(16) as u16 }
pub fn any_u32() -> u32 { any(32) as u32 }
pub fn any_u64() -> u64 { any(64) }
/// a fresh truth value, split into its two cases at once
pub fn any_bool() -> bool { concretize(any(1)) & 1 == 1 }
/// a fresh truth value that stays symbolic until the code under test branches on it
pub fn any_flag() -> bool { any(1) & 1 == 1 }
/// a fresh value in 0..n that is split into its cases at once
#[inline(never)]
pub fn choose(n: usize) -> usize {
    if n < 2 { return 0; }
    let v = any(8);
    assume(v < n as u64);
    concretize(v) as usize
}
pub fn flip() -> bool { choose(2) == 1 }
#[inline(never)]
pub fn assume(c: bool) { unsafe { raw::__sx_assume(c) } }
#[inline(never)]
pub fn check(c: bool, msg: &str) { unsafe { raw::__sx_check(c, msg.as_ptr(), msg.len()) } }
#[inline(never)]
pub fn fail(msg: &str) -> ! { unsafe { raw::__sx_violation(msg.as_ptr(), msg.len()) } }
#[inline(never)]
pub fn reach(msg: &str) { unsafe { raw::__sx_reach(msg.as_ptr(), msg.len()) } }
#[inline(never)]
pub fn note(msg: &str) { unsafe { raw::__sx_note(msg.as_ptr(), msg.len()) } }
#[inline(never)]
pub fn dbg(msg: &str) { unsafe { raw::__sx_dbg(msg.as_ptr(), msg.len()) } }
#[inline(never)]
pub fn concretize(v: u64) -> u64 { unsafe { raw::__sx_concretize(v) } }
/// end this path here (nothing more to check)
pub fn end() -> ! { unsafe { raw::__sx_end() } }
/// a symbolic byte string of exactly `n` bytes
pub fn any_bytes(n: usize) -> Vec<u8> { (0..n).map(|_| any_u8()).collect() }
/// a symbolic string of exactly `n` characters, each satisfying `ok`
pub fn any_str(n: usize, ok: impl Fn(u8) -> bool) -> String {
    let v = any_bytes(n);
    for b in &v { assume((*b < 128) & ok(*b)); }
    unsafe { String::from_utf8_unchecked(v) }
}
/// one of the given values
pub fn pick<'a, T>(v: &'a [T]) -> &'a T { &v[choose(v.len())] }

pub(crate) use raw::{__sx_switch, __sx_thread_new};

// ---- the environment seen by the standard library ----
#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
static mut WALL: bool = false;
/// let the wall clock advance by a millisecond per wake-up instead of following the virtual time
/// (keeps calendar arithmetic concrete when the virtual time is symbolic)
pub fn own_wall_clock() { unsafe { WALL = true } }
/// virtual clock; CLOCK_REALTIME starts at 2024-01-01T00:00:00Z, CLOCK_MONOTONIC at 1000 s
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, ts: *mut Timespec) -> i32 {
    let t = if clock == 0 && WALL { rt::ticks() } else { rt::now() };
    let base: i64 = if clock == 0 { 1_704_067_200 } else { 1000 };
    (*ts).sec = base + t.as_secs() as i64;
    (*ts).nsec = t.subsec_nanos() as i64;
    0
}
static mut SEED: u64 = 0;
/// choose the hash seed: iteration order of std hash maps depends on it
pub fn set_seed(s: u64) { unsafe { SEED = s } }
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _f: u32) -> isize {
    let mut x: u64 = 0x9e37_79b9_7f4a_7c15u64.wrapping_mul(SEED + 1);
    for i in 0..n {
        x ^= x << 13; x ^= x >> 7; x ^= x << 17;
        *p.add(i) = (x >> 24) as u8;
    }
    SEED = SEED.wrapping_add(0x1000);
    n as isize
}
