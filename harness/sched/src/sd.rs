//! The default scheduler: capability (D01), affinity (D02), load (D03).
use astro_run::*;
use astro_run_scheduler::*;
use std::time::Duration;
use sym::*;

fn is_os(b: u8) -> bool { (b == b'l') | (b == b'w') | (b == b'L') }
fn is_odd(b: u8) -> bool { (b == b'l') | (b == b'x') | (b == b'-') | (b == b'/') | (b == b' ') }
/// the state a step or a job ended with
fn any_state() -> WorkflowState {
    let b = any_u8();
    assume((b >= WorkflowState::Succeeded as u8) & (b <= WorkflowState::Skipped as u8));
    unsafe { std::mem::transmute(b) }
}
fn is_arch(b: u8) -> bool { (b == b'x') | (b == b'y') }

#[derive(Clone, PartialEq)]
enum Where { Plain, Image, Host(String) }
fn ctx(w: &str, job: &str, n: usize, at: &Where) -> Context {
    let name = match at { Where::Plain => None, Where::Image => Some(["image", "host", "Host/l", "hosted/l", "a/host/l", "HOST/lx", "localhost/l"][n % 7].to_string()), Where::Host(s) => Some(format!("host/{}", s)) };
    let id = StepId::new(w, job, n);
    let container = name.map(|name| ContainerOptions { name, volumes: None, security_opts: None });
    Context { id: id.clone(), signal: AstroRunSignal::new(), command: Command { id, name: None, container, run: "r".into(), continue_on_error: false, environments: Default::default(), secrets: vec![], timeout: Duration::from_secs(60) }, event: None, payload: None }
}
fn step_done(w: &str, job: &str, n: usize) -> StepRunResult { StepRunResult { id: StepId::new(w, job, n), state: any_state(), exit_code: if n % 3 == 0 { Some(n as i32) } else { None }, started_at: None, completed_at: None } }
fn job_done(w: &str, job: &str) -> JobRunResult { JobRunResult { id: JobId::new(w, job), state: any_state(), started_at: None, completed_at: None, steps: vec![] } }
/// can this runner do it
fn able(r: &RunnerMetadata, at: &Where) -> bool {
    match at {
        Where::Host(s) => r.support_host && (*s == r.os || *s == format!("{}-{}", r.os, r.arch)),
        _ => r.support_docker,
    }
}
fn any_host() -> Where {
    if any_bool() { Where::Host(any_str(1, is_os)) } else if any_bool() { Where::Host(any_str(choose(4), is_odd)) } else { Where::Host(format!("{}-{}", any_str(1, is_os), any_str(1, is_arch))) }
}
fn any_where() -> Where { match choose(3) { 0 => Where::Plain, 1 => Where::Image, _ => any_host() } }
fn runner(i: usize) -> RunnerMetadata {
    RunnerMetadata { id: format!("r{}", i), os: any_str(1, is_os), arch: any_str(1, is_arch), support_docker: any_flag(), support_host: any_flag(), version: "1".into(), max_runs: 1 }
}
struct Model { last: [Option<String>; 14], load: Vec<(String, String, usize)>, next: usize }
const JOBS: [(&str, &str); 14] = [("w", "a"), ("w", "ab"), ("w", "b"), ("w", "c"), ("w", "d"), ("w", "e"), ("w", "f"), ("w", "g"), ("w", "h"), ("w", "i"), ("w", "j"), ("w", "k"), ("ww", "a"), ("ww", "b")];

fn schedule(s: &DefaultScheduler, m: &mut Model, rs: &[RunnerMetadata], j: usize, at: &Where) {
    let (w, k) = JOBS[j];
    let n = m.next;
    m.next += 1;
    let c = ctx(w, k, n, at);
    let got = rt::block_on(s.schedule(rs, &c)).cloned();
    let host = matches!(at, Where::Host(_));
    let Some(r) = got else {
        check(!rs.iter().any(|r| able(r, at)), "[D01] a step is scheduled if some runner can run it");
        reach("refused");
        return;
    };
    check(rs.iter().any(|x| x.id == r.id), "[D01] a step is given to one of the connected runners");
    check(able(&r, at), "[D01] a step is given to a runner that can run it");
    let last = m.last[j].clone().filter(|l| rs.iter().any(|x| x.id == *l));
    match last {
        Some(l) if !host => { check(r.id == l, "[D02] the container steps of a job stay on the runner that ran the previous one"); reach("stayed"); }
        Some(l) if rs.iter().any(|x| x.id == l && able(x, at)) => { check(r.id == l, "[D02] a host step stays on the job's runner if that can run it"); reach("host stayed"); }
        None if !host => {
            let n = |id: &str| m.load.iter().filter(|x| x.0 == id).count();
            let mine = n(&r.id);
            check(rs.iter().all(|x| !able(x, at) || n(&x.id) >= mine), "[D03] a job's first container step goes to a runner with the fewest unfinished steps");
            reach("least loaded");
        }
        _ => {}
    }
    if !host { m.last[j] = Some(r.id.clone()); }
    m.load.push((r.id.clone(), format!("{}/{}", w, k), n));
}
fn finish_one(s: &DefaultScheduler, m: &mut Model, i: usize) {
    let x = m.load.remove(i);
    let (w, k) = x.1.split_once('/').unwrap();
    s.on_step_completed(step_done(w, k, x.2));
    // what is reported again has been counted already
    if x.2 % 2 == 0 { s.on_step_completed(step_done(w, k, x.2)); }
}
/// one step, any runners
fn one(n: usize) {
    let rs: Vec<RunnerMetadata> = (0..n).map(runner).collect();
    let s = DefaultScheduler::new();
    let mut m = Model { last: Default::default(), load: vec![], next: 0 };
    schedule(&s, &mut m, &rs, 0, &any_where());
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_one() { one(choose(4)) }
#[no_mangle]
pub extern "C" fn sx_sched_one5() { one(5) }

/// two steps of one job of any kind, the second with any subset of the runners still there
fn two(n: usize) {
    let rs: Vec<RunnerMetadata> = (0..n).map(runner).collect();
    let s = DefaultScheduler::new();
    let mut m = Model { last: Default::default(), load: vec![], next: 0 };
    schedule(&s, &mut m, &rs, 0, &any_where());
    if any_bool() && !m.load.is_empty() { finish_one(&s, &mut m, 0); }
    let keep = choose(1 << n);
    let left: Vec<RunnerMetadata> = rs.iter().enumerate().filter(|x| keep >> x.0 & 1 == 1).map(|x| x.1.clone()).collect();
    schedule(&s, &mut m, &left, 0, &any_where());
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_two() { two(2) }
#[no_mangle]
pub extern "C" fn sx_sched_two3() { two(3) }

/// any history of scheduling, completions and runners that come and go
fn history(n: usize, ops: usize) {
    // all runners can run containers; some are hosts too
    let rs: Vec<RunnerMetadata> = (0..n).map(|i| RunnerMetadata { id: format!("r{}", i), os: "l".into(), arch: "x".into(), support_docker: i < 2 || n > 3, support_host: i != 1, version: "1".into(), max_runs: 1 }).collect();
    let s = DefaultScheduler::new();
    let mut m = Model { last: Default::default(), load: vec![], next: 0 };
    let mut gone: Option<usize> = None;
    for _ in 0..ops {
        let now: Vec<RunnerMetadata> = rs.iter().enumerate().filter(|x| Some(x.0) != gone).map(|x| x.1.clone()).collect();
        match choose(5) {
            0 => schedule(&s, &mut m, &now, 0, &Where::Plain),
            1 => schedule(&s, &mut m, &now, 1, &Where::Image),
            2 => schedule(&s, &mut m, &now, 0, &Where::Host("l".into())),
            3 => {
                // some step finishes, or one that was never scheduled
                let i = choose(m.load.len() + 1);
                if i == m.load.len() { s.on_step_completed(step_done("w", "a", 99)); } else { finish_one(&s, &mut m, i); }
            }
            _ => match choose(3) {
                0 => { m.last[0] = None; s.on_job_completed(job_done("w", "a")); }
                1 => { m.last[1] = None; s.on_job_completed(job_done("w", "ab")); }
                _ => gone = match gone { None => Some(choose(n)), Some(_) => None },
            },
        }
    }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_history() { history(3, 4) }
#[no_mangle]
pub extern "C" fn sx_sched_history6() { history(3, 6) }

/// many steps at once: every runner gets its share, and releases are remembered per runner
#[no_mangle]
pub extern "C" fn sx_sched_load() {
    let rs: Vec<RunnerMetadata> = (0..3).map(|i| RunnerMetadata { id: format!("r{}", i), os: "l".into(), arch: "x".into(), support_docker: true, support_host: true, version: "1".into(), max_runs: 1 }).collect();
    let s = DefaultScheduler::new();
    let mut m = Model { last: Default::default(), load: vec![], next: 0 };
    for i in 0..6 {
        m.last[0] = None;
        s.on_job_completed(job_done("w", "a"));
        schedule(&s, &mut m, &rs, 0, if i % 2 == 0 { &Where::Plain } else { &Where::Image });
    }
    for _ in 0..3 {
        let i = choose(m.load.len());
        finish_one(&s, &mut m, i);
    }
    for _ in 0..2 {
        m.last[0] = None;
        s.on_job_completed(job_done("w", "a"));
        schedule(&s, &mut m, &rs, 0, &Where::Plain);
    }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_history5() { history(3, 5) }
#[no_mangle]
pub extern "C" fn sx_sched_history7() { history(3, 7) }

/// threads that schedule and complete at the same time leave correct counts behind
fn threads(pre: u32, jobs: usize) {
    rt::set_preemptions(pre);
    let s = DefaultScheduler::new();
    let rs = move || (0..2).map(|i| RunnerMetadata { id: format!("r{}", i), os: "l".into(), arch: "x".into(), support_docker: true, support_host: true, version: "1".into(), max_runs: 1 }).collect::<Vec<_>>();
    let rest = choose(3);
    let picked: std::sync::Arc<std::sync::Mutex<Vec<(usize, String)>>> = Default::default();
    for i in 0..2 {
        let (s, p) = (s.clone(), picked.clone());
        rt::spawn_thread("caller", Box::new(move || {
            for k in 0..jobs {
                let n = 10 * i + k;
                let r = rt::block_on(s.schedule(&rs(), &ctx("w", &format!("j{}", n), n, &Where::Plain))).cloned();
                let Some(r) = r else { fail("[D01] a step is scheduled if some runner can run it") };
                // one thread may leave its last step unfinished
                if k + 1 == jobs && rest == i + 1 { p.lock().unwrap().push((n, r.id)); } else { s.on_step_completed(step_done("w", &format!("j{}", n), n)); }
            }
        }));
    }
    rt::settle();
    rt::settle();
    let mut m = Model { last: Default::default(), load: picked.lock().unwrap().iter().map(|x| (x.1.clone(), String::new(), x.0)).collect(), next: 100 };
    check(m.load.len() == (rest != 0) as usize, "[D01] scheduling returns");
    for _ in 0..4 {
        m.last[0] = None;
        s.on_job_completed(job_done("w", "a"));
        schedule(&s, &mut m, &rs(), 0, &Where::Plain);
    }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_threads() { threads(2, 1) }
#[no_mangle]
pub extern "C" fn sx_sched_threads2() { threads(3, 2) }

/// many jobs of two runs, runners that leave and return, in the middle of everything
fn wide(free: usize) {
    let rs: Vec<RunnerMetadata> = (0..5).map(|i| RunnerMetadata { id: if i == 4 { "r".into() } else { format!("r{}", i) }, os: if i == 3 { "w" } else { "l" }.into(), arch: "x".into(), support_docker: i != 3, support_host: i >= 2, version: "1".into(), max_runs: i as i32 }).collect();
    let s = DefaultScheduler::new();
    let mut m = Model { last: Default::default(), load: vec![], next: 0 };
    for j in 0..14 { schedule(&s, &mut m, &rs, j, if j % 2 == 0 { &Where::Plain } else { &Where::Image }); }
    for _ in 0..free { let i = choose(m.load.len()); finish_one(&s, &mut m, i); }
    let gone = choose(6);
    let now: Vec<RunnerMetadata> = rs.iter().enumerate().filter(|x| x.0 != gone).map(|x| x.1.clone()).collect();
    for j in [0, 12, 5, 1, 13, 7, 8] { schedule(&s, &mut m, &now, j, if j == 7 { &Where::Image } else { &Where::Plain }); }
    schedule(&s, &mut m, &now, 3, &Where::Host("w".into()));
    schedule(&s, &mut m, &now, 0, &Where::Host("l-x".into()));
    let k = choose(14);
    let (w, key) = JOBS[k];
    m.last[k] = None;
    s.on_job_completed(job_done(w, key));
    for j in [k, 0, 12, 1, 2, 5] { schedule(&s, &mut m, &rs, j, &Where::Plain); }
    while m.load.len() > 1 { let i = m.load.len() / 2; finish_one(&s, &mut m, i); }
    for j in 0..14 { m.last[j] = None; s.on_job_completed(job_done(JOBS[j].0, JOBS[j].1)); }
    for j in 0..6 { schedule(&s, &mut m, &rs, j, &Where::Image); }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_wide() { wide(1) }
#[no_mangle]
pub extern "C" fn sx_sched_wide2() { wide(2) }

/// steps scheduled (and one completed) by threads at the same moment: there is an order of them in
/// which each goes to a runner with the fewest unfinished steps
fn together(pre: u32, jobs: usize, n: usize) {
    let s = DefaultScheduler::new();
    let rs = move || (0..n).map(|i| RunnerMetadata { id: format!("r{}", i), os: "l".into(), arch: "x".into(), support_docker: true, support_host: true, version: "1".into(), max_runs: 1 }).collect::<Vec<_>>();
    // what runs already
    let before = choose(3);
    let mut load = vec![0usize; n];
    let at = |id: &str| id[1..].parse::<usize>().unwrap();
    let mut first = None;
    for i in 0..before {
        let r = rt::block_on(s.schedule(&rs(), &ctx("w", &format!("b{}", i), 50 + i, &Where::Plain))).cloned();
        let Some(r) = r else { fail("[D01] a step is scheduled if some runner can run it") };
        load[at(&r.id)] += 1;
        if first.is_none() { first = Some(at(&r.id)); }
    }
    let ends = first.is_some() && any_bool();
    rt::set_preemptions(pre);
    let picked: std::sync::Arc<std::sync::Mutex<Vec<Option<usize>>>> = Default::default();
    for i in 0..jobs {
        let (s, p) = (s.clone(), picked.clone());
        rt::spawn_thread("caller", Box::new(move || {
            let r = rt::block_on(s.schedule(&rs(), &ctx("w", &format!("j{}", i), i, &Where::Image))).cloned();
            let Some(r) = r else { fail("[D01] a step is scheduled if some runner can run it") };
            p.lock().unwrap().push(Some(at(&r.id)));
        }));
    }
    if ends {
        let (s, p) = (s.clone(), picked.clone());
        rt::spawn_thread("ender", Box::new(move || { s.on_step_completed(step_done("w", "b0", 50)); p.lock().unwrap().push(None); }));
    }
    rt::settle();
    rt::settle();
    let got = picked.lock().unwrap().clone();
    check(got.len() == jobs + ends as usize, "[D01] scheduling returns");
    fn order(left: &[Option<usize>], load: &mut Vec<usize>, first: usize) -> bool {
        if left.is_empty() { return true; }
        (0..left.len()).any(|i| {
            let mut rest = left.to_vec();
            match rest.remove(i) {
                Some(r) => {
                    if load.iter().any(|l| *l < load[r]) { return false; }
                    load[r] += 1;
                    let ok = order(&rest, load, first);
                    load[r] -= 1;
                    ok
                }
                None => {
                    load[first] -= 1;
                    let ok = order(&rest, load, first);
                    load[first] += 1;
                    ok
                }
            }
        })
    }
    check(order(&got, &mut load, first.unwrap_or(0)), "[D03] steps scheduled at the same moment are spread over the runners");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_sched_together() { together(2, 2, 2) }
#[no_mangle]
pub extern "C" fn sx_sched_together3() { together(3, 3, 3) }
