//! Native execution of a harness with recorded values (replay of a counterexample).
use std::io::Write;
use std::sync::{Condvar, Mutex, OnceLock};

static VALS: OnceLock<Mutex<(Vec<u64>, usize)>> = OnceLock::new();
fn next() -> u64 {
    let m = VALS.get_or_init(|| {
        let p = std::env::var("SX_VALUES").expect("SX_VALUES");
        let t = std::fs::read_to_string(p).expect("values file");
        Mutex::new((t.split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect(), 0))
    });
    let mut g = m.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    g.0.get(i).copied().unwrap_or(0)
}
fn s(p: *const u8, n: usize) -> String { unsafe { String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned() } }
fn quit(code: i32) -> ! {
    extern "C" { fn _exit(c: i32) -> !; }
    let _ = std::io::stdout().flush();
    unsafe { _exit(code) }
}
pub unsafe fn __sx_any(w: u32) -> u64 { let v = next(); if w >= 64 { v } else { v & ((1 << w) - 1) } }
pub unsafe fn __sx_choose(n: u32) -> u64 { if n <= 1 { 0 } else { let v = next(); if v >= n as u64 { println!("REPLAY-DIVERGED choose({}) = {}", n, v); quit(4) } v } }
pub unsafe fn __sx_assume(c: bool) { if !c { println!("REPLAY-DIVERGED assumption"); quit(4) } }
fn relevant(m: &str) -> bool {
    let p = std::env::var("SX_PROP").unwrap_or_default();
    if p.is_empty() || !m.starts_with('[') { return true; }
    match m.find(']') { Some(e) => m[1..e].split(',').any(|x| x == p), None => true }
}
pub unsafe fn __sx_check(c: bool, p: *const u8, n: usize) { if !c && relevant(&s(p, n)) { println!("VIOLATED {}", s(p, n)); quit(1) } }
pub unsafe fn __sx_violation(p: *const u8, n: usize) -> ! { if !relevant(&s(p, n)) { println!("COMPLETED"); quit(0) } println!("VIOLATED {}", s(p, n)); quit(1) }
pub unsafe fn __sx_reach(_p: *const u8, _n: usize) {}
pub unsafe fn __sx_note(p: *const u8, n: usize) { println!("note: {}", s(p, n)); }
pub unsafe fn __sx_dbg(p: *const u8, n: usize) { println!("dbg: {}", s(p, n)); }
pub unsafe fn __sx_concretize(v: u64) -> u64 { v }
pub unsafe fn __sx_end() -> ! { println!("COMPLETED"); quit(0) }

static BATON: Mutex<usize> = Mutex::new(0);
static CV: Condvar = Condvar::new();
static COUNT: Mutex<usize> = Mutex::new(1);
thread_local! { static ME: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
fn wait_for(me: usize) {
    let mut g = BATON.lock().unwrap();
    while *g != me { g = CV.wait(g).unwrap(); }
}
pub unsafe fn __sx_switch(t: usize) {
    let me = ME.with(|m| m.get());
    if t == me { return; }
    *BATON.lock().unwrap() = t;
    CV.notify_all();
    wait_for(me);
}
struct P(*mut u8);
unsafe impl Send for P {}
pub unsafe fn __sx_thread_new(f: extern "C" fn(*mut u8), a: *mut u8) -> usize {
    let id = { let mut c = COUNT.lock().unwrap(); let i = *c; *c += 1; i };
    let p = P(a);
    std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let p = p;
        ME.with(|m| m.set(id));
        wait_for(id);
        f(p.0);
    }).unwrap();
    id
}
/// read the values now (before rights are given up)
pub fn prepare() { let m = std::env::var("SX_VALUES").is_ok(); if m { let v = next(); let mut g = VALS.get().unwrap().lock().unwrap(); g.1 = 0; let _ = v; } }
