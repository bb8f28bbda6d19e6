//! Whole workflow runs: dependency order, exactly-once, aggregation, life cycle, logs, timeout, cancel.
use crate::common::*;
use astro_run::*;
use std::time::Duration;

pub fn setup(seeds: usize) {
    rt::set_order_choices(0);
    tokio::sx::set_select_fixed(true);
    if seeds > 1 { set_seed(choose(seeds) as u64); }
}
pub fn started(id: &str) -> usize { events(0).iter().filter(|e| matches!(e, E::Start(s) if s == id)).count() }
pub fn ended(id: &str) -> bool { events(0).iter().any(|e| matches!(e, E::End(s) if s == id)) }
fn job_done(w: &Workflow, key: &str) -> bool { w.jobs[key].steps.iter().all(|s| ended(&s.id.to_string())) }

/// drive a run to its end; at every quiescent point the set of started jobs is exactly the expected one.
/// `order` false: no assertions about which job starts when (used for the exactly-once entries)
fn drive(w: &Workflow, out: &Slot<WorkflowRunResult>, result: impl FnMut(usize) -> RunResult) -> WorkflowRunResult { drive_by(w, out, result, |l| *pick(l)) }
pub fn drive_by(w: &Workflow, out: &Slot<WorkflowRunResult>, mut result: impl FnMut(usize) -> RunResult, mut who: impl FnMut(&[usize]) -> usize) -> WorkflowRunResult {
    let mut n = 0;
    loop {
        rt::settle();
        let mut all = true;
        for (k, j) in &w.jobs {
            let ready = j.depends_on.iter().all(|d| job_done(w, d));
            let first = started(&j.steps[0].id.to_string());
            for s in &j.steps { check(started(&s.id.to_string()) <= 1, "[W02] a step of the run is executed at most once"); }
            if !ready { for s in &j.steps { check(started(&s.id.to_string()) == 0, "[W01] no step of a job starts before all jobs it depends on have finished"); } }
            if ready { check(first == 1, "[W01] a job starts once all jobs it depends on have finished"); }
            if !job_done(w, k) { all = false; }
        }
        check(out.is_set() == all, "[W02] the run returns exactly when all its jobs have finished");
        let l = live();
        if l.is_empty() { break; }
        let i = who(&l);
        let r = result(n);
        n += 1;
        finish(i, r);
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    check(r.jobs.len() == w.jobs.len(), "[W02] the result lists every job");
    for (k, j) in &w.jobs {
        match r.jobs.get(k) {
            None => fail("[W02] the result lists every job"),
            Some(x) => {
                check(x.state.is_terminal(), "[W02] every job of the result has a final state");
                check(x.id == j.id, "[W02] a job's result carries the job's identity");
                check(x.steps.len() == j.steps.len(), "[W02] a job's result lists every step");
                for (a, b) in x.steps.iter().zip(&j.steps) { check(a.id == b.id, "[W02] step results are listed in step order"); check(a.state.is_terminal(), "[W02] every step of the result has a final state"); }
            }
        }
    }
    check(r.state.is_terminal(), "[W02] the result of the run is final");
    r
}
fn go(w: &Workflow, seq: bool) {
    let ar = AstroRun::builder().runner(HRunner { script: None, yielding: seq }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    drive(w, &out, |_| if seq { RunResult::Succeeded } else { any_result() });
    reach("completed");
}
/// three jobs, any acyclic dependency relation, any completion order, any outcome
#[no_mangle]
pub extern "C" fn sx_wf_deps3() {
    setup(3);
    let mut deps: Vec<Vec<&str>> = vec![vec![], vec![], vec![]];
    if any_bool() { deps[1].push("a"); }
    if any_bool() { deps[2].push("a"); }
    if any_bool() { deps[2].push("b"); }
    let names = ["a", "b", "c"];
    go(&workflow("w", (0..3).map(|i| job("w", names[i], 1, &deps[i])).collect()), false);
}
/// four jobs in the shapes where a dependency can be missed
#[no_mangle]
pub extern "C" fn sx_wf_deps4() {
    setup(3);
    let shapes: [[&[&str]; 4]; 6] = [
        [&[], &["a"], &["a"], &["b", "c"]],
        [&[], &["a"], &["b"], &["c"]],
        [&[], &[], &[], &["a", "b", "c"]],
        [&[], &[], &["a"], &["b", "a"]],
        [&[], &["a"], &["a", "b"], &["a", "b", "c"]],
        [&[], &["a", "a"], &[], &["c", "b"]],
    ];
    let s = pick(&shapes);
    let names = ["a", "b", "c", "d"];
    go(&workflow("w", (0..4).map(|i| job("w", names[i], 1, s[i])).collect()), true);
}
/// four jobs, any acyclic relation (thorough)
#[no_mangle]
pub extern "C" fn sx_wf_deps4_all() {
    setup(4);
    let names = ["a", "b", "c", "d"];
    let mut deps: Vec<Vec<&str>> = vec![vec![]; 4];
    for i in 1..4 { for j in 0..i { if any_bool() { deps[i].push(names[j]); } } }
    go(&workflow("w", (0..4).map(|i| job("w", names[i], 1, &deps[i])).collect()), true);
}
/// a job with several steps is finished only after its last step; its dependants wait for that
#[no_mangle]
pub extern "C" fn sx_wf_multistep() {
    setup(2);
    let opts: [&[&str]; 2] = [&["a"], &[]];
    let dep = *pick(&opts);
    let w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 2, dep), job("w", "c", 1, &["b"])]);
    go(&w, true);
}
/// more jobs than any internal queue holds, all finishing at once
#[no_mangle]
pub extern "C" fn sx_wf_many() {
    setup(2);
    let names: Vec<String> = (0..14).map(|i| format!("j{}", i)).collect();
    let all: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut jobs: Vec<Job> = names.iter().map(|n| job("w", n, 1, &[])).collect();
    jobs.push(job("w", "last", 1, &all));
    let w = workflow("w", jobs);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    check(live().len() == 14, "[W01] a job starts once all jobs it depends on have finished");
    let r = any_result();
    for i in live() { finish(i, r.clone()); }
    rt::settle();
    check(live().len() == 1 && started("w/last/0") == 1, "[W01] a job starts once all jobs it depends on have finished");
    check(!out.is_set(), "[W02] the run returns exactly when all its jobs have finished");
    for i in live() { finish(i, RunResult::Succeeded); }
    rt::settle();
    let x = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    check(x.jobs.len() == 15, "[W02] the result lists every job");
    reach("completed");
}
/// two jobs under free scheduling of every task at every suspension point
#[no_mangle]
pub extern "C" fn sx_wf_sched() {
    rt::set_order_choices(if thorough() { 14 } else { 9 });
    tokio::sx::set_select_fixed(true);
    let w = workflow("w", vec![job("w", "a", 1, &[]), job("w", "b", 1, &["a"]), job("w", "c", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner { script: Some(Box::new(AutoEnd)), yielding: false }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    for (k, j) in &w.jobs {
        let id = j.steps[0].id.to_string();
        check(started(&id) == 1, "[W02] each step of the run is executed exactly once");
        let ev = events(0);
        let s = ev.iter().position(|e| matches!(e, E::Start(s) if *s == id)).unwrap();
        for d in &j.depends_on {
            let e = ev.iter().position(|e| matches!(e, E::End(s) if *s == format!("w/{}/0", d)));
            check(e.is_some() && e.unwrap() < s, "[W01] no step of a job starts before all jobs it depends on have finished");
        }
        let _ = k;
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    check(r.jobs.len() == 3, "[W02] the result lists every job");
    reach("completed");
}
/// ends each step from its own task
pub struct AutoEnd;
impl Script for AutoEnd {
    fn run(&self, ctx: &Context) -> Option<RunResponse> {
        let (tx, rx) = stream();
        let id = ctx.id.to_string();
        tokio::spawn(async move { put(0, E::End(id)); tx.succeeded(); });
        Some(Ok(rx))
    }
}
/// a dependency that is skipped by its condition counts as finished
#[no_mangle]
pub extern "C" fn sx_wf_dep_skipped() {
    setup(2);
    nomatch_world();
    let mut a = job("w", "a", 1, &[]);
    a.on = Some(nomatch());
    let w = workflow("w", vec![a, job("w", "b", 1, &["a"]), job("w", "c", 1, &["b"])]);
    let ar = AstroRun::builder().runner(HRunner::new()).github_personal_token("t").build();
    let out = run_workflow(w.clone(), ar.execution_context().event(TriggerEvent::default()).build());
    rt::settle();
    check(started("w/a/0") == 0, "[W01] a skipped job runs no step");
    check(started("w/b/0") == 1, "[W01] a job starts once all jobs it depends on have finished");
    check(started("w/c/0") == 0, "[W01] no step of a job starts before all jobs it depends on have finished");
    for i in live() { finish(i, any_result()); }
    rt::settle();
    check(started("w/c/0") == 1, "[W01] a job starts once all jobs it depends on have finished");
    for i in live() { finish(i, any_result()); }
    rt::settle();
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    check(r.jobs.len() == 3 && r.jobs["a"].state == WorkflowState::Skipped, "[W02] the result lists every job");
    reach("completed");
}

// ---------------------------------------------------------------- verdicts
struct Errs(u32);
impl Script for Errs {
    fn run(&self, ctx: &Context) -> Option<RunResponse> {
        if self.0 >> ctx.id.step_number() & 1 == 1 { put(0, E::End(ctx.id.to_string())); Some(Err(Error::error("refused"))) } else { None }
    }
}
fn job_entry(n: usize, conds: bool) {
    setup(1);
    nomatch_world();
    let mut j = job("w", "a", n, &[]);
    let mut skip = vec![];
    for s in j.steps.iter_mut() {
        s.continue_on_error = any_bool();
        let k = conds && any_bool();
        if k { s.on = Some(nomatch()); }
        skip.push(k);
    }
    let errs: u32 = { let mut m = 0; for i in 0..n { if any_bool() { m |= 1 << i; } } m };
    let w = workflow("w", vec![j.clone()]);
    let ar = AstroRun::builder().runner(HRunner { script: Some(Box::new(Errs(errs))), yielding: false }).github_personal_token("t").build();
    let out = run_workflow(w.clone(), ar.execution_context().event(TriggerEvent::default()).build());
    let mut results: Vec<Option<RunResult>> = vec![None; n];
    loop {
        rt::settle();
        let l = live();
        check(l.len() <= 1, "[W03] the steps of a job run one after another");
        if l.is_empty() { break; }
        let r = any_result();
        let k = rec().borrow().ctxs.last().unwrap().id.step_number();
        results[k] = Some(r.clone());
        finish(l[0], r);
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    let jr = &r.jobs["a"];
    // the specification, written out
    let mut failed = false;
    let mut cancelled = false;
    let mut last: Option<WorkflowState> = None;
    for i in 0..n {
        let id = format!("w/a/{}", i);
        let runs = !cancelled && !(failed && !j.steps[i].continue_on_error) && !skip[i];
        check(started(&id) == runs as usize, "[W03] a step runs unless an earlier step was cancelled, or failed and this step does not continue on error, or its condition does not hold");
        let x = &jr.steps[i];
        if !runs {
            check(x.state == WorkflowState::Skipped && x.exit_code.is_none() && x.started_at.is_none() && x.completed_at.is_none(), "[W03] a step that does not run is reported as skipped");
            continue;
        }
        let (st, code) = if errs >> i & 1 == 1 { (WorkflowState::Failed, Some(1)) } else {
            match results[i].as_ref() { Some(RunResult::Failed { exit_code }) => (WorkflowState::Failed, Some(*exit_code)), Some(r) => (terminal(r), None), None => fail("[W03] a step that should run was not given to the runner") }
        };
        check(x.state == st, "[W03] a step's state is the outcome its runner reported");
        check(x.exit_code == code, "[W03] a step's exit code is the one its runner reported");
        check(x.started_at.is_some() && x.completed_at.is_some() && x.started_at <= x.completed_at, "[W03] a step that ran has its start and end time");
        match st { WorkflowState::Failed => { failed = true; last = Some(st); } WorkflowState::Cancelled => { cancelled = true; last = Some(st); } _ => {} }
    }
    let verdict = if cancelled { WorkflowState::Cancelled } else if failed { WorkflowState::Failed } else { WorkflowState::Succeeded };
    let _ = last;
    check(jr.state == verdict, "[W03] a job is cancelled if a step was cancelled, otherwise failed if a step failed, otherwise succeeded");
    check(r.state == verdict, "[W03] a run with one job has that job's verdict");
    reach(match verdict { WorkflowState::Cancelled => "cancelled", WorkflowState::Failed => "failed", _ => "succeeded" });
}
#[no_mangle]
pub extern "C" fn sx_job_verdict3() { job_entry(3, false) }
#[no_mangle]
pub extern "C" fn sx_job_verdict2c() { job_entry(2, true) }
#[no_mangle]
pub extern "C" fn sx_job_verdict4() { job_entry(4, false) }
#[no_mangle]
pub extern "C" fn sx_job_verdict3c() { job_entry(3, true) }

fn verdict_entry(n: usize) {
    setup(2);
    nomatch_world();
    let names = ["a", "b", "c"];
    let skip: Vec<bool> = (0..n).map(|_| any_bool()).collect();
    let chain = any_bool();
    let mut jobs: Vec<Job> = (0..n).map(|i| job("w", names[i], 1, if chain && i == n - 1 { &["a"] } else { &[] })).collect();
    for i in 0..n { if skip[i] { jobs[i].on = Some(nomatch()); } }
    let w = workflow("w", jobs);
    let ar = AstroRun::builder().runner(HRunner::new()).github_personal_token("t").plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().event(TriggerEvent::default()).build());
    loop {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        let i = *pick(&l);
        finish(i, any_result());
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    let f = r.jobs.values().any(|j| j.state == WorkflowState::Failed);
    let c = r.jobs.values().any(|j| j.state == WorkflowState::Cancelled);
    for i in 0..n { check((r.jobs[names[i]].state == WorkflowState::Skipped) == skip[i], "[W04] a job is skipped exactly when its condition does not hold"); }
    check((r.state == WorkflowState::Succeeded) == (!f && !c), "[W04] a run succeeds exactly when no job failed or was cancelled");
    if r.state == WorkflowState::Failed { check(f, "[W04] a run is failed only if a job failed"); reach("failed"); }
    else if r.state == WorkflowState::Cancelled { check(c, "[W04] a run is cancelled only if a job was cancelled"); reach("cancelled"); }
    else { check(r.state == WorkflowState::Succeeded, "[W04] a run that started ends as succeeded, failed or cancelled"); reach("succeeded"); }
    for who in 0..2 {
        let last = events(who).iter().rev().find_map(|e| if let E::Wf(_, s) = e { Some(s.clone()) } else { None });
        check(last == Some(r.state.clone()), "[W04] the last reported state of a run is its result");
    }
}
#[no_mangle]
pub extern "C" fn sx_wf_verdict2() { verdict_entry(2) }
#[no_mangle]
pub extern "C" fn sx_wf_verdict3() { verdict_entry(3) }

// ---------------------------------------------------------------- life cycle
fn same_step(a: &StepRunResult, b: &StepRunResult) -> bool { a.id == b.id && a.state == b.state && a.exit_code == b.exit_code && a.started_at == b.started_at && a.completed_at == b.completed_at }
fn same_job(a: &JobRunResult, b: &JobRunResult) -> bool { a.id == b.id && a.state == b.state && a.started_at == b.started_at && a.completed_at == b.completed_at && a.steps.len() == b.steps.len() && a.steps.iter().zip(&b.steps).all(|(x, y)| same_step(x, y)) }
pub fn lifecycle(who: usize, w: &Workflow, r: &WorkflowRunResult, refused: impl Fn(&str) -> bool, mine: impl Fn(&E) -> bool) {
    use WorkflowState::*;
    let ev: Vec<E> = events(who).into_iter().filter(|e| mine(e)).collect();
    let wid = w.id.to_string();
    if r.state == Skipped {
        check(ev.len() == 1 && matches!(&ev[0], E::Wf(i, Skipped) if *i == wid), "[W05] a skipped run is reported by a single skipped state");
        return;
    }
    let n = ev.len();
    check(n >= 4 && matches!(&ev[0], E::RunWf(i) if *i == wid) && matches!(&ev[1], E::Wf(i, InProgress) if *i == wid), "[W05] a run is announced and then in progress before anything else");
    check(matches!(&ev[n - 2], E::Wf(i, s) if *i == wid && *s == r.state), "[W05] a run's final state is reported after all its jobs");
    match &ev[n - 1] {
        E::WfDone(x) => {
            check(x.id == r.id && x.state == r.state && x.started_at == r.started_at && x.completed_at == r.completed_at && x.jobs.len() == r.jobs.len() && r.jobs.iter().all(|(k, j)| x.jobs.get(k).map(|y| same_job(j, y)).unwrap_or(false)), "[W05] the completion hook reports the returned result");
        }
        _ => fail("[W05] the completion of a run is reported last"),
    }
    for e in &ev[2..n - 2] { check(!matches!(e, E::RunWf(_) | E::Wf(..) | E::WfDone(_)), "[W05] a run is announced, in progress, final and completed once each"); }
    for (k, j) in &w.jobs {
        let jr = match r.jobs.get(k) { Some(x) => x, None => fail("[W02] the result lists every job") };
        let jid = j.id.to_string();
        let is_step = |s: &str| s.len() > jid.len() && s.starts_with(&jid) && s.as_bytes()[jid.len()] == b'/';
        let mine: Vec<&E> = ev.iter().filter(|e| match e {
            E::Job(i, _) | E::RunJob(i) => *i == jid,
            E::JobDone(x) => x.id == j.id,
            E::Step(i, _) | E::RunStep(i) => is_step(i),
            E::StepDone(x) => x.id.job_id() == j.id,
            E::Log(l) => l.step_id.job_id() == j.id,
            _ => false }).collect();
        if jr.state == Skipped { check(mine.len() == 1 && matches!(mine[0], E::Job(_, Skipped)), "[W05] a skipped job is reported by a single skipped state"); continue; }
        let m = mine.len();
        check(m >= 4 && matches!(mine[0], E::RunJob(_)) && matches!(mine[1], E::Job(_, InProgress)), "[W05] a job is announced and then in progress before its steps");
        check(matches!(mine[m - 2], E::Job(_, s) if *s == jr.state), "[W05] a job's final state is reported after its steps");
        check(matches!(mine[m - 1], E::JobDone(x) if same_job(x, jr)), "[W05] the job completion hook reports the job's result");
        check(jr.started_at.is_some() && jr.completed_at.is_some() && jr.started_at <= jr.completed_at && jr.started_at >= r.started_at && jr.completed_at <= r.completed_at, "[W05] the times of a job lie within those of its run");
        let mut p = 2;
        for s in &jr.steps {
            let sid = s.id.to_string();
            if s.state == Skipped { check(p < m && matches!(mine[p], E::Step(i, Skipped) if *i == sid), "[W05] a skipped step is reported by a single skipped state"); p += 1; continue; }
            check(p + 3 < m && matches!(mine[p], E::RunStep(i) if *i == sid) && matches!(mine[p + 1], E::Step(i, Queued) if *i == sid), "[W05] a step is announced and then queued, in step order");
            p += 2;
            if !refused(&sid) { check(p < m && matches!(mine[p], E::Step(i, InProgress) if *i == sid), "[W05] a step that the runner accepted is then in progress"); p += 1; }
            while p < m && matches!(mine[p], E::Log(l) if l.step_id == s.id) { p += 1; }
            check(p + 1 < m && matches!(mine[p], E::Step(i, st) if *i == sid && *st == s.state), "[W05] a step's final state is its result");
            check(matches!(mine[p + 1], E::StepDone(x) if same_step(x, s)), "[W05] the step completion hook follows and reports the step's result");
            p += 2;
        }
        check(p == m - 2, "[W05] every state is reported once, in order");
    }
}
fn life_entry(extra: bool) {
    setup(1);
    nomatch_world();
    let mut a = job("w", "a", 2, &[]);
    let mut b = job("w", "b", 1, if any_bool() { &["a"] } else { &[] });
    let which = choose(5);
    match which { 1 => a.on = Some(nomatch()), 2 => a.steps[0].on = Some(nomatch()), 3 => b.steps[0].on = Some(nomatch()), _ => {} }
    if extra { a.steps[1].continue_on_error = any_bool(); }
    let mut w = workflow("w", vec![a, b]);
    if which == 4 { w.on = Some(nomatch()); }
    let errs = if extra { choose(3) as u32 } else { choose(2) as u32 };
    let ar = AstroRun::builder().runner(HRunner { script: Some(Box::new(Errs(errs))), yielding: true }).plugin(HPlugin { i: 1 }).plugin(HPlugin { i: 2 }).github_personal_token("t").build();
    let out = run_workflow(w.clone(), ar.execution_context().event(TriggerEvent::default()).build());
    let mut n = 0;
    loop {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        let i = *pick(&l);
        if n < 2 && any_bool() { let tx = rec().borrow().live[i].tx.clone(); tx.log("x"); if any_bool() { rt::settle(); } }
        n += 1;
        rt::advance(Duration::from_millis(1));
        finish(i, any_result());
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    let refused = |s: &str| errs >> (s.as_bytes()[s.len() - 1] - b'0') & 1 == 1;
    // observer 0 is the runner's hooks (its own Start/End marks removed)
    rec().borrow_mut().seen.retain(|e| !matches!(e.1, E::Start(_) | E::End(_)));
    for who in 0..3 { lifecycle(who, &w, &r, refused, |_| true); }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_life() { life_entry(false) }
#[no_mangle]
pub extern "C" fn sx_life_all() { life_entry(true) }

// ---------------------------------------------------------------- logs
fn logs_entry(acts: usize) {
    setup(1);
    let w = workflow("w", vec![job("w", "a", 1, &[]), job("w", "b", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let mut sent: Vec<Vec<(bool, String)>> = vec![vec![], vec![]];
    let mut over = [false, false];
    let ids: Vec<StepId> = rec().borrow().ctxs.iter().map(|c| c.id.clone()).collect();
    for k in 0..acts {
        // 0..: a log line, an error line, or the end of one of the two steps
        let s = choose(2);
        if over[s] { continue; }
        let tx = rec().borrow().live[s].tx.clone();
        match choose(3) {
            0 => { let m = any_str(2, |b| b >= 32); tx.log(m.clone()); sent[s].push((false, m)); }
            1 => { let m = any_str(2, |b| b >= 32); tx.error(m.clone()); sent[s].push((true, m)); }
            _ => { over[s] = true; finish(s, any_result()); }
        }
        if k + 1 < acts && any_bool() { rt::settle(); }
    }
    for s in 0..2 { if !over[s] { finish(s, RunResult::Succeeded); } }
    rt::settle();
    check(out.is_set(), "[W02] the run returns once all its jobs have finished");
    for who in 0..2 {
        let ev = events(who);
        for s in 0..2 {
            let mut got = vec![];
            let mut done = false;
            let mut inp = false;
            for e in &ev {
                match e {
                    E::Log(l) if l.step_id == ids[s] => { check(inp && !done, "[W06] the log lines of a step are delivered while it is in progress"); got.push(l.clone()); }
                    E::Step(i, st) if *i == ids[s].to_string() => { if *st == WorkflowState::InProgress { inp = true; } if st.is_terminal() { done = true; } }
                    _ => {}
                }
            }
            check(got.len() == sent[s].len(), "[W06] every log line is delivered exactly once to every observer");
            for (g, x) in got.iter().zip(&sent[s]) {
                check(g.message == x.1, "[W06] log lines are delivered unchanged and in order");
                check(g.is_error() == x.0, "[W06] log lines keep their kind");
            }
        }
    }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_logs() { logs_entry(4) }
#[no_mangle]
pub extern "C" fn sx_logs_deep() { logs_entry(5) }
/// a long burst of lines before the consumer runs once
#[no_mangle]
pub extern "C" fn sx_logs_burst() {
    setup(1);
    let w = workflow("w", vec![job("w", "a", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let tx = rec().borrow().live[0].tx.clone();
    let n = 70;
    for k in 0..n { if k % 3 == 0 { tx.error(format!("l{}", k)); } else { tx.log(format!("l{}", k)); } }
    finish(0, any_result());
    rt::settle();
    check(out.is_set(), "[W02] the run returns once all its jobs have finished");
    for who in 0..2 {
        let l: Vec<WorkflowLog> = events(who).into_iter().filter_map(|e| if let E::Log(l) = e { Some(l) } else { None }).collect();
        check(l.len() == n, "[W06] every log line is delivered exactly once to every observer");
        for (k, x) in l.iter().enumerate() { check(x.message == format!("l{}", k) && x.is_error() == (k % 3 == 0), "[W06] log lines are delivered unchanged and in order"); }
    }
    reach("completed");
}

// ---------------------------------------------------------------- timeout
/// a step's timeout runs from its start, whatever the step prints
#[no_mangle]
pub extern "C" fn sx_timeout() {
    setup(1);
    own_wall_clock();
    let t = any_u8() as u64;
    assume(t >= 1);
    assume(t <= 100);
    let mut j = job("w", "a", 2, &[]);
    j.steps[0].timeout = Duration::from_secs(t);
    j.steps[1].timeout = Duration::from_secs(t);
    let w = workflow("w", vec![j, job("w", "b", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let base = pick(&[0usize, 1]);
    if *base == 1 {
        // the second step has its own clock
        rt::block_on(tokio::time::sleep(Duration::from_secs(1)));
        rt::settle();
        let i = live().into_iter().find(|i| rec().borrow().live[*i].id == "w/a/0").unwrap();
        finish(i, RunResult::Succeeded);
        rt::settle();
    }
    let i = match live().into_iter().find(|i| rec().borrow().live[*i].id == format!("w/a/{}", base)) { Some(i) => i, None => fail("[W07] the next step starts") };
    let (tx, sig) = { let g = rec().borrow(); (g.live[i].tx.clone(), g.live[i].sig.clone()) };
    let mut el = 0;
    for _ in 0..3 {
        let d = any_u8() as u64;
        assume(d >= 1);
        assume(d <= 100);
        el += d;
        rt::block_on(tokio::time::sleep(Duration::from_secs(d)));
        rt::settle();
        if el < t { check(!sig.is_timeout(), "[W07] no timeout is signalled before the step's timeout has passed"); }
        if el > t { check(sig.is_timeout(), "[W07] a timeout is signalled once the step's timeout has passed since its start"); reach("timed out"); }
        check(!sig.is_cancelled(), "[W07] a timeout is not a cancellation");
        tx.log("still here");
        rt::settle();
    }
    tx.timeout();
    rec().borrow_mut().live[i].done = true;
    rt::settle();
    let b = live().into_iter().find(|i| rec().borrow().live[*i].job == "b").unwrap();
    check(!rec().borrow().live[b].sig.is_timeout(), "[W07] a timeout concerns one step only");
    let sr = events(0).into_iter().find_map(|e| if let E::StepDone(r) = e { if r.id.to_string() == format!("w/a/{}", base) { Some(r) } else { None } } else { None });
    check(sr.map(|r| r.state == WorkflowState::Failed).unwrap_or(false), "[W07] a step that timed out is failed");
    let _ = out;
    reach("completed");
}
/// the configured default and per-step timeouts reach the step unchanged, also very long ones
#[no_mangle]
pub extern "C" fn sx_timeout_long() {
    setup(1);
    let mut j = job("w", "a", 1, &[]);
    j.steps[0].timeout = *pick(&[Duration::from_secs(3600), Duration::from_secs(86400 * 30), Duration::from_secs(u32::MAX as u64 * 4)]);
    let t = j.steps[0].timeout;
    let w = workflow("w", vec![j]);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let _out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let (tx, sig) = { let g = rec().borrow(); (g.live[0].tx.clone(), g.live[0].sig.clone()) };
    let half = t / 2;
    for k in 0..3u32 {
        rt::block_on(tokio::time::sleep(half - Duration::from_secs(1)));
        tx.log("l");
        rt::settle();
        let el = (half - Duration::from_secs(1)) * (k + 1);
        if el < t { check(!sig.is_timeout(), "[W07] no timeout is signalled before the step's timeout has passed"); }
        if el > t { check(sig.is_timeout(), "[W07] a timeout is signalled once the step's timeout has passed since its start"); reach("timed out"); }
    }
}

// ---------------------------------------------------------------- cancellation
struct Slow;
impl Script for Slow { fn run(&self, _: &Context) -> Option<RunResponse> { None } }
fn sig(id: &str) -> Option<AstroRunSignal> { rec().borrow().ctxs.iter().find(|c| c.id.to_string() == id).map(|c| c.signal.clone()) }
/// cancel at any point of a run: reaches the running and all later steps of that job and nothing else
fn cancel_entry(deep: bool) {
    setup(1);
    let mut a = job("w", "a", 3, &[]);
    a.steps[1].continue_on_error = any_bool();
    let w = workflow("w", vec![a, job("w", "ab", 2, &[])]);
    let ar = AstroRun::builder().runner(HRunner { script: Some(Box::new(Slow)), yielding: any_bool() }).build();
    let ctx = ar.execution_context().build();
    let id = JobId::new("w", "a");
    check(ar.cancel_job(&id).is_err(), "[W08] cancelling a job that is not running is an error");
    let out = run_workflow(w.clone(), ctx.clone());
    let via_ctx = any_bool();
    let cancel = || if via_ctx { ctx.cancel_job(&id) } else { ar.cancel_job(&id) };
    let at = choose(4);
    let mut cancelled = false;
    let mut n = 0;
    loop {
        if !(n == 0 && at == 3) { rt::settle(); }
        else {
            // in the middle of the start-up: let some tasks run, then cancel while the step is being queued
            for _ in 0..4 { if started("w/a/0") == 0 { rt::yield_now(); } }
        }
        let running_a = events(0).iter().any(|e| matches!(e, E::RunJob(s) if s == "w/a")) && !events(0).iter().any(|e| matches!(e, E::JobDone(r) if r.id == id));
        if !cancelled && (n == at || at == 3) && running_a {
            let r = cancel();
            check(r.is_ok(), "[W08] a running job can be cancelled");
            check(cancel().is_err(), "[W08] a job is cancelled at most once");
            cancelled = true;
            rt::settle();
            reach("cancelled");
        }
        rt::settle();
        if cancelled {
            for c in &rec().borrow().live { if !c.done {
                if c.job == "a" { check(c.sig.is_cancelled(), "[W08] every step of a cancelled job that is running or starts later is told to cancel"); }
                else { check(!c.sig.is_cancelled() && !c.sig.is_timeout(), "[W08] cancelling a job does not touch the steps of other jobs"); }
            } }
        } else {
            for c in &rec().borrow().live { if !c.done { check(!c.sig.is_cancelled() && !c.sig.is_timeout(), "[W08] no step is told to cancel unless its job was cancelled"); } }
        }
        let l = live();
        if l.is_empty() { break; }
        let i = if deep { *pick(&l) } else { l[0] };
        // a step that was cancelled may still report anything
        let r = if rec().borrow().live[i].job == "a" { any_result() } else { RunResult::Succeeded };
        finish(i, r);
        n += 1;
    }
    rt::settle();
    let r = match out.take() { Some(r) => r, None => fail("[W02] a cancelled run still completes") };
    check(r.jobs["ab"].state == WorkflowState::Succeeded, "[W08] cancelling a job does not touch the steps of other jobs");
    check(ar.cancel_job(&id).is_err() && ar.cancel_job(&JobId::new("w", "nope")).is_err(), "[W08] cancelling a job that is not running is an error");
    let _ = sig;
}
#[no_mangle]
pub extern "C" fn sx_cancel() { cancel_entry(false) }
#[no_mangle]
pub extern "C" fn sx_cancel_deep() { cancel_entry(true) }
/// two runs share one instance: cancelling a job of one does not touch the other
#[no_mangle]
pub extern "C" fn sx_cancel_two_runs() {
    setup(1);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let o1 = run_workflow(workflow("w1", vec![job("w1", "a", 1, &[])]), ar.execution_context().build());
    let o2 = run_workflow(workflow("w2", vec![job("w2", "a", 2, &[])]), ar.execution_context().build());
    rt::settle();
    let first = any_bool();
    if any_bool() {
        let k = live().into_iter().find(|i| rec().borrow().live[*i].id == "w1/a/0").unwrap();
        finish(k, any_result());
        rt::settle();
        check(ar.cancel_job(&JobId::new("w1", "a")).is_err(), "[W08] cancelling a job that is not running is an error");
        check(ar.cancel_job(&JobId::new("w2", "a")).is_ok(), "[W08] a running job can be cancelled");
        rt::settle();
        check(sig("w2/a/0").unwrap().is_cancelled(), "[W08] every step of a cancelled job that is running or starts later is told to cancel");
        reach("one finished");
    } else {
        let t = if first { "w1" } else { "w2" };
        check(ar.cancel_job(&JobId::new(t, "a")).is_ok(), "[W08] a running job can be cancelled");
        rt::settle();
        check(sig("w1/a/0").unwrap().is_cancelled() == first && sig("w2/a/0").unwrap().is_cancelled() == !first, "[W08] cancelling a job does not touch the steps of other jobs");
        reach("both running");
    }
    for _ in 0..3 { for i in live() { finish(i, RunResult::Cancelled); } rt::settle(); }
    check(o1.is_set() && o2.is_set(), "[W02] a cancelled run still completes");
}
