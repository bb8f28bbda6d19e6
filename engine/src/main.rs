//! symx: solver-based symbolic execution of LLVM bitcode compiled from Rust.
#![allow(dead_code)]
mod builtins;
mod exec;
mod ir;
mod llvm;
mod mem;
mod solver;
mod term;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn _exit(c: i32) -> !;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getppid() -> i32;
}
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
#[repr(C)]
struct Shared { active: AtomicI64, stop: AtomicU64, paths: AtomicU64, kids: AtomicU64, viols: AtomicU64 }

struct Cfg { bc: String, entries: Vec<String>, out: String, jobs: i64, max_time: u64, max_instr: u64, timeout_ms: u32, max_viol: u64, trace: bool, profile: bool, list: bool, trail: Option<Vec<u64>>, prop: String }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn jarr<T>(v: impl IntoIterator<Item = T>, f: impl Fn(T) -> String) -> String { format!("[{}]", v.into_iter().map(f).collect::<Vec<_>>().join(",")) }

#[derive(Default)]
struct Outcome { errors: BTreeMap<String, u64>, limits: BTreeMap<String, u64>, samples: Vec<String>, unfinished: u64 }

fn report(ex: &Ex, oc: &Outcome, entry: &str, out: &str) {
    let mut f = BTreeSet::new();
    for i in &ex.md.encoded { f.insert(ex.md.funcs[*i as usize].1.clone()); }
    let s = &ex.sol.st;
    let line = format!(
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"instrs\":{},\"forks\":{},\"choices\":{},\"checks_conc\":{},\"checks_sym\":{},\"max_path\":{},\"vars_max\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"solver_us\":{},\"solver_max_us\":{},\"unfinished\":{},\"errors\":{},\"limits\":{},\"labels\":{},\"checked\":{},\"samples\":{},\"functions\":{},\"violations\":{}}}\n",
        js(entry), ex.ps.paths, ex.ps.infeasible, ex.ps.instrs, ex.ps.forks, ex.ps.choices, ex.ps.checks_conc, ex.ps.checks_sym, ex.ps.max_path, ex.ps.vars_max,
        s.queries, s.sat, s.unsat, s.unknown, s.cache_hits, s.time_us, s.max_us, oc.unfinished,
        jarr(&oc.errors, |(k, v)| format!("[{},{}]", js(k), v)),
        jarr(&oc.limits, |(k, v)| format!("[{},{}]", js(k), v)),
        jarr(&ex.labels, |(k, v)| format!("[{},{}]", js(k), v)),
        jarr(&ex.checked, |(k, v)| format!("[{},{},{}]", js(k), v.0, v.1)),
        jarr(&oc.samples, |k| k.clone()),
        jarr(&f, |k| js(k)),
        jarr(&ex.viols, |v| format!("{{\"kind\":{},\"msg\":{},\"values\":{},\"stack\":{},\"notes\":{}}}", js(&v.kind), js(&v.msg), jarr(&v.values, |(w, x)| format!("[{},{}]", w, x)), jarr(&v.stack, |s| js(s)), jarr(&v.notes, |s| js(s)))),
    );
    let mut fh = std::fs::OpenOptions::new().append(true).create(true).open(out).unwrap();
    fh.write_all(line.as_bytes()).unwrap();
}

fn explore(ex: &mut Ex, cfg: &Cfg, entry: &str, sh: &Shared, t0: Instant) {
    let mut oc = Outcome::default();
    let mut stack: Vec<State> = vec![];
    match ex.start(entry) {
        Ok(s) => stack.push(s),
        Err(e) => { oc.errors.insert(format!("{:?}", e), 1); }
    }
    let mut children: Vec<i32> = vec![];
    let mut worker = false;
    let mut cur: Option<State> = None;
    let mut last_check = Instant::now();
    'outer: loop {
        if sh.stop.load(SeqCst) != 0 || t0.elapsed() > Duration::from_secs(cfg.max_time) {
            oc.unfinished += stack.len() as u64 + cur.is_some() as u64;
            if std::mem::take(&mut oc.unfinished) > 0 { oc.unfinished = 1; *oc.limits.entry(if sh.stop.load(SeqCst) != 0 { "stopped after violations".into() } else { format!("time limit {} s", cfg.max_time) }).or_default() += 1; }
            break;
        }
        let mut st = match cur.take() { Some(s) => s, None => match stack.pop() { Some(s) => s, None => break } };
        // hand half of the pending states to an idle slot
        if !stack.is_empty() && last_check.elapsed() > Duration::from_millis(20) {
            last_check = Instant::now();
            loop {
                let a = sh.active.load(SeqCst);
                if a >= cfg.jobs || stack.is_empty() { break; }
                if sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() { continue; }
                let _ = std::io::stdout().flush();
                let p = unsafe { fork() };
                if p == 0 {
                    unsafe { prctl(1, 9, 0, 0, 0); if getppid() == 1 { _exit(3) } }
                    let n = stack.len();
                    let keep = (n + 1) / 2;
                    stack.truncate(keep);
                    ex.ps = Default::default();
                    ex.sol.st = Default::default();
                    ex.viols.clear();
                    ex.checked.clear();
                    ex.labels.clear();
                    oc = Outcome::default();
                    children.clear();
                    worker = true;
                    cur = None;
                    continue 'outer;
                }
                if p < 0 { sh.active.fetch_sub(1, SeqCst); break; }
                children.push(p);
                sh.kids.fetch_add(1, SeqCst);
                let n = stack.len();
                stack.drain(..(n + 1) / 2);
            }
        }
        let stop = ex.run(&mut st);
        match stop {
            Stop::Fork { c, v, m } => {
                let o = ex.apply_fork(&mut st, c, v, &m);
                stack.push(o);
                cur = Some(st);
                continue;
            }
            Stop::Choose(n) => {
                ex.ps.choices += 1;
                if let Some(tr) = &cfg.trail {
                    let k = st.vars.len();
                    let x = tr.get(k).copied().unwrap_or(0) % n as u64;
                    st.vars.push((32, None, x));
                    st.pending = Some(x);
                    cur = Some(st);
                    continue;
                }
                for k in (1..n as u64).rev() {
                    let mut o = st.clone();
                    o.vars.push((32, None, k));
                    o.pending = Some(k);
                    stack.push(o);
                }
                st.vars.push((32, None, 0));
                st.pending = Some(0);
                cur = Some(st);
                continue;
            }
            Stop::Frame => unreachable!(),
            Stop::Infeasible => { ex.ps.infeasible += 1; continue; }
            Stop::Done => {
                for l in &st.labels { *ex.labels.entry(l.to_string()).or_default() += 1; }
                if oc.samples.len() < 3 || (ex.ps.paths.is_power_of_two() && oc.samples.len() < 8) {
                    let e = Default::default();
                    let vals = ex.values(&st, &e);
                    oc.samples.push(format!("{{\"values\":{},\"notes\":{},\"path_condition_terms\":{},\"instructions\":{}}}", jarr(vals, |(_, v)| v.to_string()), jarr(st.notes.iter().take(40), |s| js(s)), st.pc.len(), st.icount));
                }
            }
            Stop::Violation(k, m) => {
                for l in &st.labels { *ex.labels.entry(l.to_string()).or_default() += 1; }
                ex.record(&st, &k, &m, None);
                if cfg.trace { eprintln!("VIOL {} {} {:#?}", k, m, ex.stack(&st)); }
                if sh.viols.fetch_add(1, SeqCst) + 1 >= cfg.max_viol { sh.stop.store(1, SeqCst); }
            }
            Stop::Engine(m) => {
                if cfg.trace { eprintln!("ENGINE {} {:#?}", m, ex.stack(&st)); }
                let s = ex.stack(&st);
                *oc.errors.entry(format!("{} @ {}", m, s.iter().take(9).cloned().collect::<Vec<_>>().join(" < "))).or_default() += 1;
                if oc.errors.len() > 5 { sh.stop.store(1, SeqCst); }
            }
            Stop::Limit(m) => { let s = ex.stack(&st); if cfg.trace { eprintln!("LIMIT {} {:#?}", m, s); } *oc.limits.entry(m).or_default() += 1; }
        }
        ex.ps.paths += 1;
        sh.paths.fetch_add(1, SeqCst);
        ex.ps.max_path = ex.ps.max_path.max(st.icount);
        ex.ps.vars_max = ex.ps.vars_max.max(st.vars.len() as u64);
        // recorded symbolic check failures count as violations as well
        if !ex.viols.is_empty() && ex.viols.len() as u64 >= cfg.max_viol { sh.stop.store(1, SeqCst); }
    }
    report(ex, &oc, entry, &cfg.out);
    if let Some(p) = &ex.profile {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let mut w: Vec<_> = ex.fork_sites.iter().collect();
        w.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for (f, n) in w.iter().take(12) { eprintln!("fork {:>8} {}", n, f); }
        for (f, n) in v.iter().take(40) { eprintln!("{:>10} {}", n, ex.md.funcs[**f as usize].1); }
    }
    sh.active.fetch_sub(1, SeqCst);
    let mut bad = false;
    for c in children { let mut s = 0; unsafe { waitpid(c, &mut s, 0); } if s != 0 { bad = true; } }
    if worker { unsafe { _exit(if bad { 3 } else { 0 }) } }
    if bad { let mut o2 = Outcome::default(); o2.errors.insert("an exploration worker died".into(), 1); ex.ps = Default::default(); ex.sol.st = Default::default(); ex.viols.clear(); ex.checked.clear(); ex.labels.clear(); report(ex, &o2, entry, &cfg.out); }
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut cfg = Cfg { bc: String::new(), entries: vec![], out: "symx.jsonl".into(), jobs: 8, max_time: 600, max_instr: 200_000_000, timeout_ms: 60_000, max_viol: 6, trace: false, profile: false, list: false, trail: None, prop: String::new() };
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--entry" => { let s = v(); cfg.entries.extend(s.split(',').map(|s| s.to_string())) }
            "--out" => cfg.out = v(),
            "--jobs" => cfg.jobs = v().parse().unwrap(),
            "--max-time" => cfg.max_time = v().parse().unwrap(),
            "--max-instr" => cfg.max_instr = v().parse().unwrap(),
            "--timeout-ms" => cfg.timeout_ms = v().parse().unwrap(),
            "--max-viol" => cfg.max_viol = v().parse().unwrap(),
            "--prop" => cfg.prop = v(),
            "--trace" => cfg.trace = true,
            "--profile" => cfg.profile = true,
            "--list" => cfg.list = true,
            "--trail" => cfg.trail = Some(v().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect()),
            s => cfg.bc = s.to_string(),
        }
    }
    let t0 = Instant::now();
    let md = ir::Module::load(&cfg.bc);
    if std::env::var("SX_DUMP_OPS").is_ok() { ir::dump_ops(&cfg.bc); return; }
    if cfg.list {
        for (_, n, d) in &md.funcs { if !d && n.starts_with("sx_") { println!("{}", n); } }
        return;
    }
    eprintln!("loaded {} functions, {} globals in {:?}; z3 {}", md.funcs.len(), md.globals.len(), t0.elapsed(), solver::z3_version());
    let _ = std::fs::remove_file(&cfg.out);
    let sh: &Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    let mut md = Some(md);
    let t0 = Instant::now();
    if cfg.entries.len() == 1 {
        sh.active.store(1, SeqCst);
        let mut ex = Ex::new(md.take().unwrap(), cfg.timeout_ms);
        ex.max_instr = cfg.max_instr;
        ex.trace = cfg.trace;
        ex.prop = cfg.prop.clone();
        if cfg.profile { ex.profile = Some(Default::default()); }
        explore(&mut ex, &cfg, &cfg.entries[0].clone(), sh, t0);
    } else {
        // one process per entry; entries share the worker budget and each may use the whole time limit
        let mut kids: Vec<i32> = vec![];
        for e in cfg.entries.clone() {
            while sh.active.load(SeqCst) >= cfg.jobs { std::thread::sleep(Duration::from_millis(20)); }
            sh.active.fetch_add(1, SeqCst);
            let p = unsafe { fork() };
            if p == 0 {
                unsafe { prctl(1, 9, 0, 0, 0); }
                let mut ex = Ex::new(md.take().unwrap(), cfg.timeout_ms);
                ex.max_instr = cfg.max_instr;
                ex.trace = cfg.trace;
        ex.prop = cfg.prop.clone();
                explore(&mut ex, &cfg, &e, sh, Instant::now());
                let _ = std::io::stderr().flush();
                unsafe { _exit(0) }
            }
            kids.push(p);
        }
        for k in kids { let mut s = 0; unsafe { waitpid(k, &mut s, 0); } if s != 0 { eprintln!("entry process failed: {}", s); std::process::exit(3); } }
    }
    eprintln!("explored {} paths in {:?}", sh.paths.load(SeqCst), t0.elapsed());
}
