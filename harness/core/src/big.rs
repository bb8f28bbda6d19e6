//! Larger worlds: long jobs, chains and rings of jobs, long and odd lines, concurrent runs, cancellation
//! at any scheduling step. Sizes are fixed, what happens in them is symbolic.
use crate::common::*;
use crate::wf::*;
use astro_run::*;
use std::time::Duration;

/// a job of twenty steps (or seventy): one step, at any position, ends in any way; another continues on error
#[no_mangle]
pub extern "C" fn sx_job_long() {
    setup(1);
    let n = *pick(&[20usize, 70]);
    let at = if n == 20 { choose(n) } else { *pick(&[0usize, 1, 31, 64, 69]) };
    let mut j = job("w", "a", n, &[]);
    let c = [n, at, at + 1, n - 1][choose(4)];
    if c < n { j.steps[c].continue_on_error = true; }
    let w = workflow("w", vec![j]);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    let r = any_result();
    let mut ran = vec![];
    loop {
        rt::settle();
        let l = live();
        check(l.len() <= 1, "[W03] the steps of a job run one after another");
        if l.is_empty() { break; }
        let k = rec().borrow().ctxs.last().unwrap().id.step_number();
        ran.push(k);
        finish(l[0], if k == at { r.clone() } else { RunResult::Succeeded });
    }
    let res = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    let jr = &res.jobs["a"];
    let want: Vec<usize> = match r {
        RunResult::Succeeded => (0..n).collect(),
        RunResult::Cancelled => (0..=at).collect(),
        RunResult::Failed { .. } => (0..n).filter(|k| *k <= at || *k == c).collect(),
    };
    check(ran == want, "[W03] a step runs unless an earlier step was cancelled, or failed and this step does not continue on error, or its condition does not hold");
    check(jr.steps.len() == n, "[W02] a job's result lists every step");
    for (k, s) in jr.steps.iter().enumerate() {
        check(s.id == StepId::new("w", "a", k), "[W02] step results are listed in step order");
        let st = if !want.contains(&k) { WorkflowState::Skipped } else if k == at { terminal(&r) } else { WorkflowState::Succeeded };
        check(s.state == st, "[W03] a step's state is the outcome its runner reported");
        check(s.exit_code == match &r { RunResult::Failed { exit_code } if k == at => Some(*exit_code), _ => None }, "[W03] a step's exit code is the one its runner reported");
    }
    check(jr.state == terminal(&r) && res.state == terminal(&r), "[W03] a job is cancelled if a step was cancelled, otherwise failed if a step failed, otherwise succeeded");
    reach(match r { RunResult::Cancelled => "cancelled", RunResult::Failed { .. } => "failed", _ => "succeeded" });
}

/// chains, ladders and funnels of up to ten jobs; the running jobs end in one of three orders
#[no_mangle]
pub extern "C" fn sx_wf_large() {
    setup(1);
    // ten jobs with names of four kinds, or seventeen
    let odd = choose(5);
    let n = if odd == 4 { 17 } else { 10 };
    let names: Vec<String> = (0..n).map(|i| match odd {
        0 => format!("job{}", i),
        4 => format!("j{}", i),
        // each a prefix of the next
        1 => "a".repeat(i + 1),
        // that differ in one character only
        2 => ["Job", "job", "job ", " job", "j.ob", "j-ob", "j_ob", "joc", "jo", "\u{e9}"][i].to_string(),
        _ => format!("{}{}", "z".repeat(i), i),
    }).collect();
    let shape = choose(7);
    let flip = odd != 4 && any_bool();
    let deps: Vec<Vec<usize>> = (0..n).map(|i| match shape {
        0 => if i > 0 { vec![i - 1] } else { vec![] },
        1 => if i > 1 { vec![i - 1, i - 2] } else { vec![] },
        2 => if i >= 7 { vec![i - 7, i - 5] } else { vec![] },
        3 => if i > 0 { vec![(i - 1) / 2] } else { vec![] },
        // all at once behind one, or behind two
        4 => if i > 0 { vec![0] } else { vec![] },
        5 => if i > 1 { vec![0, 1] } else { vec![] },
        _ => if i == n - 1 { (0..n - 1).collect() } else { vec![] },
    }).collect();
    let name = |i: usize| names[if flip { n - 1 - i } else { i }].as_str();
    let jobs = (0..n).map(|i| { let d: Vec<&str> = deps[i].iter().map(|k| name(*k)).collect(); job("w", name(i), 1, &d) }).collect();
    let w = workflow("w", jobs);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    let order = if odd == 0 { choose(3) } else { flip as usize };
    let bad = if odd == 0 { *pick(&[0, n - 1]) } else { n - 1 };
    drive_by(&w, &out, |k| if k == bad { any_result() } else { RunResult::Succeeded }, |l| match order { 0 => l[0], 1 => l[l.len() - 1], _ => l[l.len() / 2] });
    reach("completed");
}

/// many independent jobs, one of which ends in any way: the verdict of the run
#[no_mangle]
pub extern "C" fn sx_verdict_wide() {
    setup(1);
    let n = *pick(&[12usize, 40]);
    let names: Vec<String> = (0..n).map(|i| format!("j{}", i)).collect();
    let w = workflow("w", names.iter().map(|x| job("w", x, 1, &[])).collect());
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let bad = if n == 12 { choose(n) } else { *pick(&[0usize, 11, 20, 39]) };
    let r = any_result();
    let mut k = 0;
    loop {
        let l = live();
        if l.is_empty() { break; }
        finish(l[0], if k == bad { r.clone() } else { RunResult::Succeeded });
        k += 1;
        if k % 4 == 0 || l.len() == 1 { rt::settle(); }
    }
    rt::settle();
    let x = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    let f = x.jobs.values().any(|j| j.state == WorkflowState::Failed);
    let c = x.jobs.values().any(|j| j.state == WorkflowState::Cancelled);
    check(f == matches!(r, RunResult::Failed { .. }) && c == (r == RunResult::Cancelled), "[W04] each job has the verdict of its own steps");
    check(x.state == terminal(&r), "[W04] a run succeeds exactly when no job failed or was cancelled");
    for who in 0..2 { lifecycle(who, &w, &x, |_| false, |e| !matches!(e, E::Start(_) | E::End(_))); }
    reach("completed");
}

/// long, empty and non-ASCII lines, and hundreds of them
#[no_mangle]
pub extern "C" fn sx_logs_odd() {
    setup(1);
    let w = workflow("w", vec![job("w", "a", 1, &[]), job("w", "b", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let tx: Vec<(StepId, StreamSender)> = { let g = rec().borrow(); g.live.iter().zip(&g.ctxs).map(|(l, c)| (c.id.clone(), l.tx.clone())).collect() };
    let x = any_str(1, |b| b < 128);
    let mut lines: Vec<String> = match choose(7) {
        0 => vec![String::new(), x.clone(), String::new()],
        1 => vec![format!("{}{}", "a".repeat(70000), x), x.clone()],
        2 => vec![format!("\u{1F600}{}ü", x), format!("\r{}\n", x), format!("a\nb{}\n\nc", x)],
        3 => vec![format!("  {}  ", x), format!("\t{}", x), "\u{1b}[31mred\u{1b}[0m".into()],
        4 => (0..300).map(|k| if k % 2 == 0 { x.clone() } else { format!("{}", k / 4) }).collect(),
        5 => vec![x.clone(); 5],
        _ => vec![format!("::set-env {}={{}} %s {{0}}", x), "null".into(), "::".into()],
    };
    if any_bool() { lines.push("last".into()); }
    let err = any_bool();
    for (k, l) in lines.iter().enumerate() {
        for s in 0..2 { if err == (k % 2 == s) { tx[s].1.error(l.clone()); } else { tx[s].1.log(l.clone()); } }
    }
    for i in live() { finish(i, RunResult::Succeeded); }
    rt::settle();
    check(out.is_set(), "[W02] the run returns once all its jobs have finished");
    for who in 0..2 { for s in 0..2 {
        let l: Vec<WorkflowLog> = events(who).into_iter().filter_map(|e| if let E::Log(l) = e { if l.step_id == tx[s].0 { Some(l) } else { None } } else { None }).collect();
        check(l.len() == lines.len(), "[W06] every log line is delivered exactly once to every observer");
        for (k, y) in l.iter().enumerate() { check(y.message == lines[k], "[W06] log lines are delivered unchanged and in order"); check(y.is_error() == (err == (k % 2 == s)), "[W06] log lines keep their kind"); }
    } }
    reach("completed");
}

/// lines of a step that was told to stop: all of them are delivered until it ends
#[no_mangle]
pub extern "C" fn sx_logs_signal() {
    setup(1);
    own_wall_clock();
    let w = workflow("w", vec![job("w", "a", 1, &[]), job("w", "b", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    rt::settle();
    let (id, tx, sig) = { let g = rec().borrow(); let l = g.live.iter().find(|l| l.job == "a").unwrap(); (l.id.clone(), l.tx.clone(), l.sig.clone()) };
    let how = choose(3);
    let mut sent: Vec<(bool, String)> = vec![];
    let x = any_str(1, |b| b < 128);
    for round in 0..3 {
        for k in 0..choose(3) {
            let m = if k == 0 { x.clone() } else { format!("{}-{}", round, k) };
            let e = (round + k) % 2 == 0;
            if e { tx.error(m.clone()) } else { tx.log(m.clone()) }
            sent.push((e, m));
        }
        if any_bool() { rt::settle(); }
        if round == 0 {
            if how == 1 { check(ar.cancel_job(&JobId::new("w", "a")).is_ok(), "[W08] a running job can be cancelled"); }
            if how == 2 { rt::block_on(tokio::time::sleep(Duration::from_secs(4000))); }
            if any_bool() { rt::settle(); }
        }
    }
    if how == 1 { rt::settle(); check(sig.is_cancelled(), "[W08] the running step of a cancelled job is told to cancel"); reach("cancelled"); }
    if how == 2 { rt::settle(); check(sig.is_timeout(), "[W07] a timeout is signalled once the step's timeout has passed since its start"); reach("timed out"); }
    for i in live() { finish(i, any_result()); }
    rt::settle();
    check(out.is_set(), "[W02] the run returns once all its jobs have finished");
    for who in 0..2 {
        let l: Vec<WorkflowLog> = events(who).into_iter().filter_map(|e| if let E::Log(l) = e { if l.step_id.to_string() == id { Some(l) } else { None } } else { None }).collect();
        check(l.len() == sent.len(), "[W06] every log line is delivered exactly once to every observer");
        for (y, z) in l.iter().zip(&sent) { check(y.message == z.1, "[W06] log lines are delivered unchanged and in order"); check(y.is_error() == z.0, "[W06] log lines keep their kind"); }
    }
    reach("completed");
}

/// two runs of one instance at the same time, with the same job names: each is told, logged and judged as if alone
#[no_mangle]
pub extern "C" fn sx_two_runs() {
    setup(1);
    let dep: &[&str] = if any_bool() { &["a"] } else { &[] };
    let ws: Vec<Workflow> = ["w", "w2"].iter().map(|n| workflow(n, vec![job(n, "a", 1, &[]), job(n, "b", 1, dep)])).collect();
    let ar = AstroRun::builder().runner(HRunner { script: None, yielding: true }).plugin(HPlugin { i: 1 }).build();
    let o1 = run_workflow(ws[0].clone(), ar.execution_context().build());
    if any_bool() { rt::settle(); }
    let o2 = run_workflow(ws[1].clone(), ar.execution_context().build());
    let mut want: Vec<(String, RunResult)> = vec![];
    loop {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        let i = *pick(&l);
        let (id, tx) = { let g = rec().borrow(); (g.live[i].id.clone(), g.live[i].tx.clone()) };
        tx.log(format!("line of {}", id));
        rt::advance(Duration::from_millis(1));
        let r = if want.len() < 2 { any_result() } else { RunResult::Succeeded };
        want.push((id, r.clone()));
        finish(i, r);
    }
    for (w, o) in ws.iter().zip([o1, o2]) {
        let r = match o.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
        check(r.id == w.id && r.jobs.len() == 2, "[W02] the result lists every job");
        for (k, j) in &r.jobs {
            let id = format!("{}/{}/0", w.id, k);
            let mine: Vec<&RunResult> = want.iter().filter(|x| x.0 == id).map(|x| &x.1).collect();
            check(mine.len() == 1, "[W02] a step of the run is executed at most once");
            check(j.steps.len() == 1 && j.steps[0].id.to_string() == id, "[W02] a job's result carries the job's identity");
            check(j.state == terminal(mine[0]), "[W04] each job has the verdict of its own steps");
        }
        let f = r.jobs.values().any(|j| j.state == WorkflowState::Failed);
        let c = r.jobs.values().any(|j| j.state == WorkflowState::Cancelled);
        check((r.state == WorkflowState::Succeeded) == (!f && !c), "[W04] a run succeeds exactly when no job failed or was cancelled");
        let own = format!("{}", w.id);
        for who in 0..2 {
            lifecycle(who, w, &r, |_| false, |e| run_of(e).as_deref() == Some(own.as_str()));
            for e in events(who) { if let E::Log(l) = e { check(l.message == format!("line of {}", l.step_id), "[W06] log lines come under the identity of their own step"); } }
        }
    }
    reach("completed");
}
fn run_of(e: &E) -> Option<String> {
    let s = match e { E::Wf(i, _) | E::RunWf(i) | E::Job(i, _) | E::RunJob(i) | E::Step(i, _) | E::RunStep(i) => i.clone(), E::WfDone(r) => r.id.to_string(), E::JobDone(r) => r.id.to_string(), E::StepDone(r) => r.id.to_string(), E::Log(l) => l.step_id.to_string(), _ => return None };
    Some(s.split('/').next().unwrap().to_string())
}

/// cancellation after any scheduling step of a run whose steps end by themselves
fn cancel_steps(moments: usize) {
    setup(1);
    let w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner { script: Some(Box::new(OnSignal)), yielding: any_bool() }).build();
    let out = run_workflow(w, ar.execution_context().build());
    let k = choose(moments + 1);
    for _ in 0..k { rt::yield_now(); }
    let id = JobId::new("w", "a");
    let told = events(0).iter().any(|e| matches!(e, E::Job(i, WorkflowState::InProgress) if i == "w/a"));
    let over = events(0).iter().any(|e| matches!(e, E::JobDone(r) if r.id == id));
    let ok = ar.cancel_job(&id).is_ok();
    if told && !over { check(ok, "[W08] a running job can be cancelled"); }
    if over { check(!ok, "[W08] cancelling a job that is not running is an error"); }
    let before: Vec<String> = rec().borrow().ctxs.iter().map(|c| c.id.to_string()).collect();
    rt::settle();
    for c in rec().borrow().ctxs.iter() {
        let mine = c.id.job_key() == "a";
        if !mine || !ok { check(!c.signal.is_cancelled() && !c.signal.is_timeout(), "[W08] cancelling a job does not touch the steps of other jobs"); }
        else if !before.contains(&c.id.to_string()) || !ended(&c.id.to_string()) { check(c.signal.is_cancelled(), "[W08] every step of a cancelled job that is running or starts later is told to cancel"); }
    }
    // what was told to cancel ends as cancelled
    rt::settle();
    for i in live() { finish(i, RunResult::Succeeded); }
    rt::settle();
    for i in live() { finish(i, RunResult::Succeeded); }
    rt::settle();
    let r = match out.take() { Some(r) => r, None => fail("[W02] a cancelled run still completes") };
    check(r.jobs["b"].state == WorkflowState::Succeeded, "[W08] cancelling a job does not touch the steps of other jobs");
    check((r.jobs["a"].state == WorkflowState::Cancelled) == ok, "[W08] a step that waits for its signal receives the cancellation");
    reach(if ok { "cancelled" } else { "not running" });
}
/// waits for its signal and ends as it says
struct OnSignal;
impl Script for OnSignal {
    fn run(&self, ctx: &Context) -> Option<RunResponse> {
        let (tx, rx) = stream();
        let (id, sig) = (ctx.id.to_string(), ctx.signal.clone());
        rec().borrow_mut().live.push(Live { id: id.clone(), tx: tx.clone(), sig: sig.clone(), done: false, job: ctx.id.job_key() });
        let n = rec().borrow().live.len() - 1;
        tokio::spawn(async move {
            let s = sig.recv().await;
            put(0, E::End(id));
            rec().borrow_mut().live[n].done = true;
            if s == Signal::Cancel { tx.cancelled() } else { tx.timeout() }
        });
        Some(Ok(rx))
    }
}
#[no_mangle]
pub extern "C" fn sx_cancel_moments() { cancel_steps(40) }

/// timeouts and gaps of milliseconds
#[no_mangle]
pub extern "C" fn sx_timeout_ms() {
    setup(1);
    own_wall_clock();
    let t = any_u8() as u64;
    let base = *pick(&[0u64, 1000, 59_000]);
    let mut j = job("w", "a", 1, &[]);
    j.steps[0].timeout = Duration::new(base / 1000, t as u32 * 1_000_000);
    let w = workflow("w", vec![j]);
    let ar = AstroRun::builder().runner(HRunner::new()).build();
    let _out = run_workflow(w, ar.execution_context().build());
    rt::settle();
    let (tx, sig) = { let g = rec().borrow(); (g.live[0].tx.clone(), g.live[0].sig.clone()) };
    let mut el = 0;
    for k in 0..2 {
        let d = *pick(&[1u64, 60, 200]) + if k == 0 { base } else { 0 };
        el += d;
        rt::block_on(tokio::time::sleep(Duration::from_millis(d)));
        if any_bool() { tx.log("l"); }
        rt::settle();
        // timers may have a resolution of a millisecond
        if el < base + t { check(!sig.is_timeout(), "[W07] no timeout is signalled before the step's timeout has passed"); }
        if el > base + t + 1 { check(sig.is_timeout(), "[W07] a timeout is signalled once the step's timeout has passed since its start"); reach("timed out"); }
    }
    reach("completed");
}

/// two runs of the very same workflow at the same time (same identifiers): both are run to their end
#[no_mangle]
pub extern "C" fn sx_same_runs() {
    setup(1);
    let w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &["a"])]);
    let ar = AstroRun::builder().runner(HRunner { script: None, yielding: any_bool() }).plugin(HPlugin { i: 1 }).build();
    let o1 = run_workflow(w.clone(), ar.execution_context().build());
    let late = choose(3);
    let mut second = None;
    if late == 0 { second = Some(run_workflow(w.clone(), ar.execution_context().build())); }
    let mut n = 0;
    let mut results: Vec<(String, RunResult)> = vec![];
    loop {
        rt::settle();
        if n == late && second.is_none() { second = Some(run_workflow(w.clone(), ar.execution_context().build())); rt::settle(); }
        let l = live();
        if l.is_empty() { break; }
        let i = *pick(&l);
        let id = rec().borrow().live[i].id.clone();
        let r = if n == 0 { any_result() } else { RunResult::Succeeded };
        results.push((id, r.clone()));
        finish(i, r);
        n += 1;
    }
    let (Some(x), Some(y)) = (o1.take(), second.and_then(|s| s.take())) else { fail("[W02] the run returns once all its jobs have finished") };
    check(x.jobs.len() == 2 && y.jobs.len() == 2, "[W02] the result lists every job");
    // every step is in one of the two results as often as it was executed, with its outcome
    for s in ["w/a/0", "w/a/1", "w/b/0"] {
        for st in [WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled] {
            let told = [&x, &y].iter().flat_map(|r| r.jobs.values()).flat_map(|j| j.steps.iter()).filter(|t| t.id.to_string() == s && t.state == st).count();
            let ran = results.iter().filter(|r| r.0 == s && terminal(&r.1) == st).count();
            check(told == ran, "[W02] every step is reported as often as it was executed");
        }
    }
    reach("completed");
}

/// jobs of several steps side by side: every job has the verdict of all its steps, the run that of all its jobs
#[no_mangle]
pub extern "C" fn sx_wf_verdict_steps() {
    setup(1);
    let cont = [any_bool(), any_bool()];
    let mut jobs: Vec<Job> = ["a", "b"].iter().map(|k| job("w", k, 2, &[])).collect();
    for i in 0..2 { jobs[i].steps[1].continue_on_error = cont[i]; }
    let w = workflow("w", jobs);
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).build();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    let mut got: Vec<(String, RunResult)> = vec![];
    loop {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        let i = *pick(&l);
        let id = rec().borrow().live[i].id.clone();
        let r = any_result();
        got.push((id, r.clone()));
        finish(i, r);
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] the run returns once all its jobs have finished") };
    let of = |id: String| got.iter().find(|g| g.0 == id).map(|g| g.1.clone());
    let mut all = vec![];
    for (i, k) in ["a", "b"].iter().enumerate() {
        let (x, y) = (of(format!("w/{}/0", k)), of(format!("w/{}/1", k)));
        let first = match &x { Some(x) => x.clone(), None => fail("[W03] the first step of a job is run") };
        let runs = match &first { RunResult::Succeeded => true, RunResult::Failed { .. } => cont[i], RunResult::Cancelled => false };
        check(y.is_some() == runs, "[W03] a step runs unless an earlier step was cancelled, or failed and this step does not continue on error, or its condition does not hold");
        let has = |s: WorkflowState| terminal(&first) == s || y.as_ref().map_or(false, |y| terminal(y) == s);
        let verdict = if has(WorkflowState::Cancelled) { WorkflowState::Cancelled } else if has(WorkflowState::Failed) { WorkflowState::Failed } else { WorkflowState::Succeeded };
        check(r.jobs[*k].state == verdict, "[W03,W04] a job is cancelled if a step was cancelled, otherwise failed if a step failed, otherwise succeeded");
        all.push(verdict);
    }
    let (f, c) = (all.contains(&WorkflowState::Failed), all.contains(&WorkflowState::Cancelled));
    check((r.state == WorkflowState::Succeeded) == (!f && !c), "[W04] a run succeeds exactly when no job failed or was cancelled");
    if r.state == WorkflowState::Failed { check(f, "[W04] a run is failed only if a job failed"); reach("failed"); }
    else if r.state == WorkflowState::Cancelled { check(c, "[W04] a run is cancelled only if a job was cancelled"); reach("cancelled"); }
    else { check(r.state == WorkflowState::Succeeded, "[W04] a run that started ends as succeeded, failed or cancelled"); reach("succeeded"); }
    for who in 0..2 {
        let last = events(who).iter().rev().find_map(|e| if let E::Wf(_, s) = e { Some(s.clone()) } else { None });
        check(last == Some(r.state.clone()), "[W04] the last reported state of a run is its result");
    }
}

/// every history of cancellations and ends of steps over the jobs of two runs
/// tells the harness's runner, and then fails
struct ErrRunner(HRunner);
#[async_trait]
impl Runner for ErrRunner {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { let _ = self.0.on_run_workflow(e).await; Err(Error::error("no")) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { let _ = self.0.on_run_job(e).await; Err(Error::error("no")) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { let _ = self.0.on_run_step(e).await; Err(Error::error("no")) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { let _ = self.0.on_state_change(e).await; Err(Error::error("no")) }
    async fn on_before_run_step(&self, _: Step) -> HookBeforeRunStepResult { Err(Error::error("no")) }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { let _ = self.0.on_log(l).await; Err(Error::error("no")) }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { let _ = self.0.on_step_completed(r).await; Err(Error::error("no")) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { let _ = self.0.on_job_completed(r).await; Err(Error::error("no")) }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { let _ = self.0.on_workflow_completed(r).await; Err(Error::error("no")) }
    async fn run(&self, ctx: Context) -> RunResponse { self.0.run(ctx).await }
}
struct ErrPlugin;
#[async_trait]
impl Plugin for ErrPlugin {
    fn name(&self) -> &'static str { "err" }
    async fn on_run_job(&self, _: RunJobEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_run_step(&self, _: RunStepEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_state_change(&self, _: WorkflowStateEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_before_run_step(&self, _: Step) -> HookBeforeRunStepResult { Err(Error::error("no")) }
    async fn on_step_completed(&self, _: StepRunResult) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_job_completed(&self, _: JobRunResult) -> HookNoopResult { Err(Error::error("no")) }
}
fn cancel_jobs(ops: usize) {
    setup(1);
    // hooks that fail do not matter
    let ar = if any_bool() { AstroRun::builder().runner(HRunner::new()).build() } else { AstroRun::builder().runner(ErrRunner(HRunner::new())).plugin(ErrPlugin).build() };
    let o1 = run_workflow(workflow("w", vec![job("w", "a", 2, &[]), job("w", "ab", 2, &[]), job("w", "b", 1, &["a"])]), ar.execution_context().build());
    let o2 = run_workflow(workflow("wv", vec![job("wv", "a", 2, &[])]), ar.execution_context().build());
    let ids = [("w", "a"), ("w", "ab"), ("w", "b"), ("wv", "a")];
    let mut cancelled = [false; 4];
    rt::settle();
    let running = |i: usize| {
        let n = format!("{}/{}", ids[i].0, ids[i].1);
        let id = JobId::new(ids[i].0, ids[i].1);
        events(0).iter().any(|e| matches!(e, E::RunJob(s) if *s == n)) && !events(0).iter().any(|e| matches!(e, E::JobDone(r) if r.id == id))
    };
    for _ in 0..ops {
        let l = live();
        let k = choose(l.len() + 4);
        if k < l.len() { finish(l[k], match choose(3) { 0 => RunResult::Succeeded, 1 => RunResult::Failed { exit_code: 2 }, _ => RunResult::Cancelled }); }
        else {
            let i = k - l.len();
            let may = running(i) && !cancelled[i];
            let ok = ar.cancel_job(&JobId::new(ids[i].0, ids[i].1)).is_ok();
            check(ok == may, if may { "[W08] a running job can be cancelled" } else { "[W08] cancelling a job that is not running is an error" });
            if ok { cancelled[i] = true; reach("cancelled"); }
        }
        rt::settle();
        for x in &rec().borrow().live { if !x.done {
            let i = ids.iter().position(|d| x.id.starts_with(&format!("{}/{}/", d.0, d.1))).unwrap();
            if cancelled[i] { check(x.sig.is_cancelled(), "[W08] every step of a cancelled job that is running or starts later is told to cancel"); }
            else { check(!x.sig.is_cancelled() && !x.sig.is_timeout(), "[W08] cancelling a job does not touch the steps of other jobs"); }
        } }
    }
    for _ in 0..6 { for i in live() { finish(i, RunResult::Succeeded); } rt::settle(); }
    check(o1.is_set() && o2.is_set(), "[W02] a cancelled run still completes");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_cancel_jobs() { cancel_jobs(4) }
#[no_mangle]
pub extern "C" fn sx_cancel_jobs5() { cancel_jobs(5) }

/// a plugin that cancels a job from within one of its hooks
#[derive(Clone, Default)]
struct Canceller { ar: std::sync::Arc<std::sync::OnceLock<AstroRun>>, at: usize, n: std::sync::Arc<std::sync::atomic::AtomicUsize>, phase: std::sync::Arc<std::sync::atomic::AtomicUsize>, did: std::sync::Arc<std::sync::Mutex<Option<(usize, bool, usize, Vec<String>)>>> }
impl Canceller {
    /// phases of the job: 0 not begun, 1 being announced, 2 running, 3 its end reported, 4 completed
    fn hook(&self, job: Option<(&str, usize)>) -> HookNoopResult {
        if let Some((k, p)) = job { if k == "w/a" { self.phase.fetch_max(p, std::sync::atomic::Ordering::SeqCst); } }
        if self.n.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == self.at {
            let ok = self.ar.get().unwrap().cancel_job(&JobId::new("w", "a")).is_ok();
            *self.did.lock().unwrap() = Some((self.phase.load(std::sync::atomic::Ordering::SeqCst), ok, rec().borrow().ctxs.len(), live().into_iter().map(|i| rec().borrow().live[i].id.clone()).collect()));
        }
        Ok(())
    }
}
#[async_trait]
impl Plugin for Canceller {
    fn name(&self) -> &'static str { "canceller" }
    async fn on_run_workflow(&self, _: RunWorkflowEvent) -> HookNoopResult { self.hook(None) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { self.hook(Some((&e.source.id.to_string(), 1))) }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { self.hook(None)?; Ok(s) }
    async fn on_run_step(&self, _: RunStepEvent) -> HookNoopResult { self.hook(None) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult {
        match e { WorkflowStateEvent::JobStateUpdated { id, state } => self.hook(Some((&id.to_string(), if state == WorkflowState::InProgress { 2 } else { 3 }))), _ => self.hook(None) }
    }
    async fn on_log(&self, _: WorkflowLog) -> HookNoopResult { self.hook(None) }
    async fn on_step_completed(&self, _: StepRunResult) -> HookNoopResult { self.hook(None) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { self.hook(Some((&r.id.to_string(), 4))) }
    async fn on_workflow_completed(&self, _: WorkflowRunResult) -> HookNoopResult { self.hook(None) }
}
#[no_mangle]
pub extern "C" fn sx_cancel_hook() {
    setup(1);
    let c = Canceller { at: choose(72), ..Default::default() };
    let ar = match choose(2) {
        0 => AstroRun::builder().runner(HRunner::new()).plugin(c.clone()).build(),
        _ => AstroRun::builder().runner(ErrRunner(HRunner::new())).plugin(c.clone()).plugin(ErrPlugin).build(),
    };
    let _ = c.ar.set(ar);
    let w = workflow("w", vec![job("w", "a", 3, &[]), job("w", "b", 1, &[]), job("w", "ab", 1, &["a"])]);
    let out = run_workflow(w, c.ar.get().unwrap().execution_context().build());
    rt::settle();
    let how = choose(2);
    for _ in 0..8 {
        for i in live() {
            rec().borrow().live[i].tx.log("line");
            rt::settle();
            // a step may end as it likes, whatever it was told
            let sig = rec().borrow().live[i].sig.clone();
            finish(i, if how == 1 && sig.is_cancelled() { RunResult::Cancelled } else { RunResult::Succeeded });
        }
        rt::settle();
    }
    let r = match out.take() { Some(r) => r, None => fail("[W02] a cancelled run still completes") };
    let did = c.did.lock().unwrap().clone();
    let mut hit = false;
    if let Some((phase, ok, from, running)) = did {
        if phase == 2 { check(ok, "[W08] a running job can be cancelled"); }
        if phase == 0 || phase == 4 { check(!ok, "[W08] cancelling a job that is not running is an error"); }
        hit = ok;
        for (i, x) in rec().borrow().ctxs.iter().enumerate() {
            let mine = x.id.job_id() == JobId::new("w", "a");
            if !ok || !mine { check(!x.signal.is_cancelled() && !x.signal.is_timeout(), "[W08] cancelling a job does not touch the steps of other jobs"); }
            else if i >= from || running.contains(&x.id.to_string()) { check(x.signal.is_cancelled(), "[W08] every step of a cancelled job that is running or starts later is told to cancel"); }
        }
    }
    check(r.jobs.len() == 3 && r.jobs["b"].state == WorkflowState::Succeeded && r.jobs["ab"].state == WorkflowState::Succeeded, "[W08] cancelling a job does not touch the steps of other jobs");
    reach(if hit { "cancelled" } else { "not running" });
}

/// steps that time out before, and jobs that are cancelled after: neither hides the other
#[no_mangle]
pub extern "C" fn sx_timeout_cancel() {
    setup(1);
    own_wall_clock();
    let n = 1 + choose(2);
    let mut j = job("w", "a", 4, &[]);
    for s in &mut j.steps { s.continue_on_error = true; s.timeout = Duration::from_secs(10); }
    let w = workflow("w", vec![j, job("w", "b", 1, &[])]);
    let ar = AstroRun::builder().runner(HRunner { script: None, yielding: any_bool() }).build();
    let out = run_workflow(w, ar.execution_context().build());
    let id = JobId::new("w", "a");
    let find = |id: &str| { rt::settle(); live().into_iter().find(|x| rec().borrow().live[*x].id == id) };
    let late = any_bool();
    for i in 0..=n {
        let Some(x) = find(&format!("w/a/{}", i)) else { fail("[W03] a step that continues on error runs after a failed one") };
        let s = rec().borrow().live[x].sig.clone();
        check(!s.is_timeout() && !s.is_cancelled(), "[W07] a timeout concerns one step only");
        let expire = if i < n { any_bool() } else { late };
        if expire { rt::block_on(tokio::time::sleep(Duration::from_secs(12))); rt::settle(); check(s.is_timeout() && !s.is_cancelled(), "[W07] a timeout is signalled once the step's timeout has passed since its start"); }
        if i == n {
            check(ar.cancel_job(&id).is_ok(), "[W08] a running job can be cancelled, whichever of its steps timed out");
            rt::settle();
            if !late { check(s.is_cancelled() && !s.is_timeout(), "[W08] every step of a cancelled job that is running or starts later is told to cancel"); }
            else { check(s.is_timeout() && !s.is_cancelled(), "[W07] a step that was told to time out stays so"); }
            check(ar.cancel_job(&id).is_err(), "[W08] a job is cancelled at most once");
        }
        finish(x, if expire { RunResult::Failed { exit_code: 123 } } else if i < n { RunResult::Succeeded } else { pick(&[RunResult::Succeeded, RunResult::Failed { exit_code: 2 }]).clone() });
    }
    let Some(x) = find(&format!("w/a/{}", n + 1)) else { fail("[W03] a step that continues on error runs after a failed one") };
    let s = rec().borrow().live[x].sig.clone();
    check(s.is_cancelled() && !s.is_timeout(), "[W08] every step of a cancelled job that is running or starts later is told to cancel");
    rt::block_on(tokio::time::sleep(Duration::from_secs(12)));
    rt::settle();
    check(s.is_cancelled() && !s.is_timeout(), "[W07,W08] a step that was told to cancel stays so");
    finish(x, RunResult::Cancelled);
    let Some(b) = find("w/b/0") else { fail("[W02] every step is run") };
    check(quiet_sig(b), "[W07,W08] a signal concerns its own step or job only");
    finish(b, RunResult::Succeeded);
    rt::settle();
    let r = match out.take() { Some(r) => r, None => fail("[W02] a cancelled run still completes") };
    check(r.jobs["a"].state == WorkflowState::Cancelled && r.jobs["b"].state == WorkflowState::Succeeded, "[W03] a job is cancelled if one of its steps was");
    reach(if late { "after a timeout" } else { "cancelled" });
}
fn quiet_sig(x: usize) -> bool { let g = rec().borrow(); !g.live[x].sig.is_cancelled() && !g.live[x].sig.is_timeout() }

/// observers that take their time: lines of a step that has ended meanwhile still arrive, whatever its timeout
struct Slow(u64, usize);
#[async_trait]
impl Plugin for Slow {
    fn name(&self) -> &'static str { "slow" }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { tokio::time::sleep(Duration::from_secs(self.0)).await; put(self.1, E::Log(l)); Ok(()) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { put(self.1, se(e)); Ok(()) }
}
#[no_mangle]
pub extern "C" fn sx_logs_slow() {
    setup(2);
    own_wall_clock();
    let mut j = job("w", "a", 1, &[]);
    j.steps[0].timeout = Duration::from_secs(10);
    let d = *pick(&[0u64, 4, 30]);
    let ar = AstroRun::builder().runner(HRunner { script: None, yielding: any_bool() }).plugin(Slow(d, 1)).plugin(HPlugin { i: 2 }).build();
    let out = run_workflow(workflow("w", vec![j]), ar.execution_context().build());
    rt::settle();
    let Some(&x) = live().first() else { fail("[W02] every step is run") };
    let tx = rec().borrow().live[x].tx.clone();
    let mut sent = vec![];
    let k = choose(4);
    for i in 0..3 {
        if i == k { rt::block_on(tokio::time::sleep(Duration::from_secs(*pick(&[5u64, 12])))); rt::settle(); }
        let e = any_bool();
        if e { tx.error(format!("l{}", i)) } else { tx.log(format!("l{}", i)) }
        sent.push((format!("l{}", i), e));
        if any_bool() { rt::settle(); }
    }
    let told = { let g = rec().borrow(); g.live[x].sig.is_timeout() };
    let r = if told { RunResult::Failed { exit_code: 123 } } else { any_result() };
    finish(x, r.clone());
    rt::settle();
    for _ in 0..4 { rt::block_on(tokio::time::sleep(Duration::from_secs(31))); rt::settle(); }
    for who in 0..3 {
        let ev = events(who);
        let l: Vec<(String, bool)> = ev.iter().filter_map(|e| if let E::Log(l) = e { Some((l.message.clone(), l.is_error())) } else { None }).collect();
        check(l == sent, "[W06] every line a step emits before its end reaches every observer, however slow they are");
        let end = ev.iter().position(|e| matches!(e, E::Step(_, s) if !matches!(s, WorkflowState::Queued | WorkflowState::InProgress | WorkflowState::Pending)));
        let last = ev.iter().rposition(|e| matches!(e, E::Log(_)));
        check(end.is_some() && end > last, "[W06] all lines arrive before the final state of the step");
    }
    let o = match out.take() { Some(o) => o, None => fail("[W02] the run returns once all its jobs have finished") };
    let s = &o.jobs["a"].steps[0];
    check(match &r { RunResult::Succeeded => s.state == WorkflowState::Succeeded, RunResult::Cancelled => s.state == WorkflowState::Cancelled, RunResult::Failed { exit_code } => s.state == WorkflowState::Failed && s.exit_code == Some(*exit_code) }, "[W03] a step ends as its runner says");
    reach(if told { "timed out" } else { "completed" });
}
