//! What a harness can observe and decide about the simulated environment.
use std::cell::{RefCell, UnsafeCell};
#[derive(Clone, Debug)]
pub struct FsOp { pub kind: &'static str, pub path: String, pub data: Vec<u8>, pub ok: bool }
/// one step of a simulated child process
#[derive(Clone, Debug)]
pub enum Ev { Out(Vec<u8>), Err(Vec<u8>), CloseOut, CloseErr, Sleep(u64), Hang, Exit(Option<i32>) }
#[derive(Clone, Debug)]
pub struct ProcLog { pub program: String, pub args: Vec<String>, pub envs: Vec<(String, String)>, pub dir: Option<String>, pub killed: bool, pub ended: bool, pub spawned: bool }
pub struct World {
    pub fs: RefCell<Vec<FsOp>>,
    pub fs_fail: RefCell<Option<Box<dyn Fn(&str, &str) -> bool>>>,
    pub scripts: RefCell<Vec<Option<Vec<Ev>>>>,
    pub procs: RefCell<Vec<ProcLog>>,
    /// who decides what a child process does, before the queue of scripts is asked
    pub script_for: RefCell<Option<Box<dyn Fn(&str, &[String]) -> Option<Option<Vec<Ev>>>>>>,
    /// called when a child process is started
    pub on_spawn: RefCell<Option<Box<dyn Fn(&ProcLog)>>>,
    /// how much a pipe holds
    pub pipe: RefCell<usize>,
    /// files with an open handle
    pub open: RefCell<Vec<String>>,
    pub select_free: RefCell<u32>,
    pub select_start: RefCell<u32>,
    pub io_yield: RefCell<bool>,
}
struct G(UnsafeCell<Option<Box<World>>>);
unsafe impl Sync for G {}
static W: G = G(UnsafeCell::new(None));
pub fn world() -> &'static World {
    let w = unsafe { &mut *W.0.get() };
    w.get_or_insert_with(|| Box::new(World { fs: RefCell::new(vec![]), fs_fail: RefCell::new(None), scripts: RefCell::new(vec![]), procs: RefCell::new(vec![]), script_for: RefCell::new(None), on_spawn: RefCell::new(None), pipe: RefCell::new(65536), open: RefCell::new(vec![]), select_free: RefCell::new(u32::MAX), select_start: RefCell::new(0), io_yield: RefCell::new(false) }))
}
pub fn fs_op(kind: &'static str, path: &str, data: &[u8], ok: bool) { world().fs.borrow_mut().push(FsOp { kind, path: path.into(), data: data.to_vec(), ok }) }
pub fn fs_fail(k: &str, p: &str) -> bool { match &*world().fs_fail.borrow() { Some(f) => f(k, p), None => false } }
/// a path without `.`, `..` and repeated separators (there are no links)
pub fn fs_norm(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } }
    let mut r = String::new();
    for c in v { r.push('/'); r.push_str(c); }
    if r.is_empty() { r.push('/'); }
    r
}
/// is `b` the path `a` or below it
pub fn fs_below(a: &str, b: &str) -> bool { let (a, b) = (fs_norm(a), fs_norm(b)); a == "/" || a == b || b.len() > a.len() && b.starts_with(&a) && b.as_bytes()[a.len()] == b'/' }
pub fn fs_exists(p: &str) -> bool {
    let mut r = false;
    for o in world().fs.borrow().iter() {
        if !o.ok { continue; }
        if o.kind.starts_with("remove") { if fs_below(&o.path, p) { r = false; } } else if fs_below(p, &o.path) { r = true; }
    }
    r
}
/// what a file holds
pub fn fs_content(p: &str) -> Option<Vec<u8>> {
    let p = fs_norm(p);
    let mut r = None;
    for o in world().fs.borrow().iter() {
        if !o.ok { continue; }
        match o.kind {
            "create_file" => if fs_norm(&o.path) == p { r = Some(vec![]); },
            "write" => if fs_norm(&o.path) == p { r.get_or_insert_with(Vec::new).extend_from_slice(&o.data); },
            k if k.starts_with("remove") => if fs_below(&o.path, &p) { r = None; },
            _ => {}
        }
    }
    r
}
/// may a file be executed
pub fn fs_executable(p: &str) -> bool {
    let p = fs_norm(p);
    let mut r = false;
    for o in world().fs.borrow().iter() {
        if !o.ok { continue; }
        match o.kind {
            "executable" => if fs_norm(&o.path) == p { r = true; },
            "plain" => if fs_norm(&o.path) == p { r = false; },
            k if k.starts_with("remove") => if fs_below(&o.path, &p) { r = false; },
            _ => {}
        }
    }
    r
}
pub fn set_select_fixed(b: bool) { set_select_free(if b { 0 } else { u32::MAX }, 0) }
/// the branch `select!` looks at first is free for the next `n` times, then always `start`
pub fn set_select_free(n: u32, start: u32) { *world().select_free.borrow_mut() = n; *world().select_start.borrow_mut() = start; }
pub fn select_from(n: u32) -> u32 {
    let mut f = world().select_free.borrow_mut();
    if *f == 0 { return *world().select_start.borrow() % n; }
    if *f != u32::MAX { *f -= 1; }
    drop(f);
    sym::choose(n as usize) as u32
}
pub fn set_io_yield(b: bool) { *world().io_yield.borrow_mut() = b }
/// file operations suspend the task when the harness asks for it
pub async fn io_point() { if *world().io_yield.borrow() { crate::task::yield_now().await } }
/// the next spawned child process follows this script; `None` = spawning fails
pub fn push_script(s: Option<Vec<Ev>>) { world().scripts.borrow_mut().push(s) }
