//! Plugins and the runner's hooks: isolation of failures (P01), the before-step chain (P02),
//! trigger event and payload (P03), the closure-based plugin.
use crate::common::*;
use astro_run::*;
use ::typetag;
use std::time::Duration;

pub fn k(e: &E) -> String {
    let st = |s: &StepRunResult| format!("{}:{:?}:{:?}", s.id, s.state, s.exit_code);
    let jb = |j: &JobRunResult| format!("{}:{:?}:{}", j.id, j.state, j.steps.iter().map(st).collect::<Vec<_>>().join(","));
    match e {
        E::Wf(i, s) => format!("wf {} {:?}", i, s), E::Job(i, s) => format!("job {} {:?}", i, s), E::Step(i, s) => format!("step {} {:?}", i, s),
        E::RunWf(i) => format!("runwf {}", i), E::RunJob(i) => format!("runjob {}", i), E::RunStep(i) => format!("runstep {}", i),
        E::WfDone(r) => format!("wfdone {}:{:?}:{}", r.id, r.state, { let mut v: Vec<String> = r.jobs.values().map(jb).collect(); v.sort(); v.join(";") }),
        E::JobDone(j) => format!("jobdone {}", jb(j)), E::StepDone(s) => format!("stepdone {}", st(s)),
        E::Log(l) => format!("log {} {} {}", l.step_id, l.message, l.is_error()),
        E::Start(i) => format!("start {}", i), E::End(i) => format!("end {}", i),
    }
}
/// which hooks of the misbehaving participant fail; free symbolic flags, split when a hook asks
#[derive(Clone, Copy)]
pub struct Mask([bool; 10]);
impl Mask {
    fn any() -> Mask { Mask([any_flag(), any_flag(), any_flag(), any_flag(), any_flag(), any_flag(), any_flag(), any_flag(), any_flag(), false]) }
    fn none() -> Mask { Mask([false; 10]) }
    fn hit(&self, i: usize) -> HookNoopResult { if self.0[i] { Err(Error::error("hook failed")) } else { Ok(()) } }
}
struct Bad { m: Mask, calls: std::sync::Arc<std::sync::atomic::AtomicUsize> }
#[async_trait]
impl Plugin for Bad {
    fn name(&self) -> &'static str { "bad" }
    async fn on_resolve_dynamic_action(&self, _: UserActionStep) -> HookResolveActionResult { self.m.hit(9).map(|_| None) }
    async fn on_run_workflow(&self, _: RunWorkflowEvent) -> HookNoopResult { self.m.hit(0) }
    async fn on_run_job(&self, _: RunJobEvent) -> HookNoopResult { self.m.hit(1) }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { self.m.hit(2).map(|_| s) }
    async fn on_run_step(&self, _: RunStepEvent) -> HookNoopResult { self.m.hit(3) }
    async fn on_state_change(&self, _: WorkflowStateEvent) -> HookNoopResult { self.calls.fetch_add(1, std::sync::atomic::Ordering::SeqCst); self.m.hit(4) }
    async fn on_log(&self, _: WorkflowLog) -> HookNoopResult { self.m.hit(5) }
    async fn on_step_completed(&self, _: StepRunResult) -> HookNoopResult { self.m.hit(6) }
    async fn on_job_completed(&self, _: JobRunResult) -> HookNoopResult { self.m.hit(7) }
    async fn on_workflow_completed(&self, _: WorkflowRunResult) -> HookNoopResult { self.m.hit(8) }
}
fn bad_closures(m: Mask) -> AstroRunPlugin {
    AstroRunPlugin::builder("bad")
        .on_run_workflow(move |_| m.hit(0)).on_run_job(move |_| m.hit(1)).on_before_run_step(move |s| m.hit(2).map(|_| s)).on_run_step(move |_| m.hit(3))
        .on_state_change(move |_| m.hit(4)).on_log(move |_| m.hit(5)).on_step_completed(move |_| m.hit(6)).on_job_completed(move |_| m.hit(7))
        .on_workflow_completed(move |_| m.hit(8)).on_resolve_dynamic_action(move |_| m.hit(9).map(|_| None)).build()
}
/// the runner with failing hooks
struct BadRunner { r: HRunner, m: Mask }
#[async_trait]
impl Runner for BadRunner {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { self.r.on_run_workflow(e).await.ok(); self.m.hit(0) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { self.r.on_run_job(e).await.ok(); self.m.hit(1) }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { self.m.hit(2).map(|_| s) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.r.on_run_step(e).await.ok(); self.m.hit(3) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { self.r.on_state_change(e).await.ok(); self.m.hit(4) }
    async fn on_log(&self, e: WorkflowLog) -> HookNoopResult { self.r.on_log(e).await.ok(); self.m.hit(5) }
    async fn on_step_completed(&self, e: StepRunResult) -> HookNoopResult { self.r.on_step_completed(e).await.ok(); self.m.hit(6) }
    async fn on_job_completed(&self, e: JobRunResult) -> HookNoopResult { self.r.on_job_completed(e).await.ok(); self.m.hit(7) }
    async fn on_workflow_completed(&self, e: WorkflowRunResult) -> HookNoopResult { self.r.on_workflow_completed(e).await.ok(); self.m.hit(8) }
    async fn run(&self, c: Context) -> RunResponse { self.r.run(c).await }
}
fn run_all(ar: &AstroRun, w: &Workflow, rs: &[RunResult]) -> WorkflowRunResult {
    rec().borrow_mut().live.clear();
    rec().borrow_mut().ctxs.clear();
    rec().borrow_mut().seen.clear();
    let out = run_workflow(w.clone(), ar.execution_context().build());
    let mut n = 0;
    loop {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        let tx = rec().borrow().live[l[0]].tx.clone();
        tx.log("x");
        if n == 0 { tx.error("y"); }
        finish(l[0], rs[n].clone());
        n += 1;
    }
    match out.take() { Some(r) => r, None => fail("[P01] a failing hook does not keep the run from completing") }
}
fn isolation(steps: usize, deep: bool) {
    crate::wf::setup(1);
    let w = workflow("w", vec![job("w", "a", steps, &[])]);
    let rs: Vec<RunResult> = (0..steps).map(|i| if i > 0 { RunResult::Succeeded } else if deep { any_result() } else if any_bool() { RunResult::Succeeded } else { RunResult::Failed { exit_code: 3 } }).collect();
    let who = choose(3);
    let closures = if deep { any_bool() } else { who == 1 };
    let m = Mask::any();
    let (mut a, mut b) = (AstroRun::builder(), AstroRun::builder());
    let c = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
    a = a.runner(BadRunner { r: HRunner::new(), m: Mask::none() });
    b = b.runner(BadRunner { r: HRunner::new(), m: if who == 2 { m } else { Mask::none() } });
    if who == 0 { b = if closures { b.plugin(bad_closures(m)) } else { b.plugin(Bad { m, calls: c.clone() }) }; }
    a = a.plugin(HPlugin { i: 1 }).plugin(HPlugin { i: 2 });
    b = b.plugin(HPlugin { i: 1 });
    if who == 1 { b = if closures { b.plugin(bad_closures(m)) } else { b.plugin(Bad { m, calls: c.clone() }) }; }
    b = b.plugin(HPlugin { i: 2 });
    let r1 = run_all(&a.build(), &w, &rs);
    let e1: Vec<Vec<String>> = (0..3).map(|i| events(i).iter().map(k).collect()).collect();
    let r2 = run_all(&b.build(), &w, &rs);
    let e2: Vec<Vec<String>> = (0..3).map(|i| events(i).iter().map(k).collect()).collect();
    check(k(&E::WfDone(r1)) == k(&E::WfDone(r2)), "[P01] a failing hook does not change the result of the run");
    check(e1[0] == e2[0], "[P01] a failing hook does not change what the runner is told");
    check(e1[1] == e2[1] && e1[2] == e2[2], "[P01] a failing hook does not change what the plugins are told");
    check(e1[1].iter().filter(|x| x.starts_with("step")).count() >= 3 && e1[0].len() > 8, "[P01] hooks are called");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_hook_fail() { isolation(1, false) }
#[no_mangle]
pub extern "C" fn sx_hook_fail2() { isolation(2, true) }

/// a hook that fails only at one of its calls (any call of the run), plugin or runner
struct Nth { left: std::sync::atomic::AtomicIsize }
impl Nth { fn hit(&self) -> HookNoopResult { if self.left.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 0 { Err(Error::error("hook failed")) } else { Ok(()) } } }
#[async_trait]
impl Plugin for Nth {
    fn name(&self) -> &'static str { "nth" }
    async fn on_run_workflow(&self, _: RunWorkflowEvent) -> HookNoopResult { self.hit() }
    async fn on_run_job(&self, _: RunJobEvent) -> HookNoopResult { self.hit() }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { self.hit().map(|_| s) }
    async fn on_run_step(&self, _: RunStepEvent) -> HookNoopResult { self.hit() }
    async fn on_state_change(&self, _: WorkflowStateEvent) -> HookNoopResult { self.hit() }
    async fn on_log(&self, _: WorkflowLog) -> HookNoopResult { self.hit() }
    async fn on_step_completed(&self, _: StepRunResult) -> HookNoopResult { self.hit() }
    async fn on_job_completed(&self, _: JobRunResult) -> HookNoopResult { self.hit() }
    async fn on_workflow_completed(&self, _: WorkflowRunResult) -> HookNoopResult { self.hit() }
}
#[no_mangle]
pub extern "C" fn sx_hook_fail_once() {
    crate::wf::setup(1);
    let w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &["a"])]);
    let rs = [any_result(), RunResult::Succeeded, RunResult::Succeeded, RunResult::Succeeded];
    let a = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).plugin(HPlugin { i: 2 }).build();
    let n = choose(32) as isize;
    let b = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).plugin(Nth { left: std::sync::atomic::AtomicIsize::new(n) }).plugin(HPlugin { i: 2 }).build();
    let r1 = run_all(&a, &w, &rs);
    let e1: Vec<Vec<String>> = (0..3).map(|i| events(i).iter().map(k).collect()).collect();
    let r2 = run_all(&b, &w, &rs);
    let e2: Vec<Vec<String>> = (0..3).map(|i| events(i).iter().map(k).collect()).collect();
    check(k(&E::WfDone(r1)) == k(&E::WfDone(r2)), "[P01] a failing hook does not change the result of the run");
    check(e1 == e2, "[P01] a failing hook does not change what the others are told");
    reach("completed");
}

// ---------------------------------------------------------------- before-run-step chain
struct Mod { i: usize, how: usize }
fn modify(i: usize, how: usize, mut s: Step) -> HookBeforeRunStepResult {
    match how { 0 => Ok(s), 1 => { s.run.push((b'A' + i as u8) as char); s.environments.insert(format!("E{}", i), EnvironmentVariable::Boolean(true)); Ok(s) } _ => { s.run.push('!'); Err(Error::error("no")) } }
}
#[async_trait]
impl Plugin for Mod {
    fn name(&self) -> &'static str { "mod" }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { modify(self.i, self.how, s) }
}
struct ModRunner { how: usize }
#[async_trait]
impl Runner for ModRunner {
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { modify(9, self.how, s) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { put(0, E::RunStep(format!("{} {}", e.source.id, e.source.run))); Ok(()) }
    async fn run(&self, ctx: Context) -> RunResponse {
        rec().borrow_mut().ctxs.push(ctx.clone());
        let (tx, rx) = stream();
        tx.end(RunResult::Succeeded);
        Ok(rx)
    }
}
fn chain(n: usize) {
    crate::wf::setup(1);
    let w = workflow("w", vec![job("w", "a", 2, &[])]);
    let how: Vec<usize> = (0..n).map(|_| choose(3)).collect();
    let hr = choose(3);
    let mut b = AstroRun::builder().runner(ModRunner { how: hr });
    for i in 0..n {
        let h = how[i];
        b = if i % 2 == 0 { b.plugin(Mod { i, how: h }) } else { b.plugin(AstroRunPlugin::builder("mod").on_before_run_step(move |s| modify(i, h, s)).build()) };
    }
    let out = run_workflow(w.clone(), b.build().execution_context().build());
    rt::settle();
    check(out.is_set(), "[P02] the run returns once all its jobs have finished");
    let mut want = String::from("r");
    for i in 0..n { if how[i] == 1 { want.push((b'A' + i as u8) as char); } }
    if hr == 1 { want.push((b'A' + 9) as char); }
    let g = rec().borrow();
    check(g.ctxs.len() == 2, "[P02] every step is run");
    for (s, c) in g.ctxs.iter().enumerate() {
        check(c.command.run == want, "[P02] the runner executes the step as changed by the plugins in order, then by the runner; a failing one changes nothing");
        for i in 0..n { check(c.command.environments.contains_key(&format!("E{}", i)) == (how[i] == 1), "[P02] each accepted change is kept"); }
        check(c.id == StepId::new("w", "a", s) && c.command.id == c.id, "[P02] the step keeps its identity");
    }
    drop(g);
    let ev = events(0);
    check(ev.len() == 2, "[P02] every step is announced");
    for (s, e) in ev.iter().enumerate() { if let E::RunStep(x) = e { check(*x == format!("w/a/{} {}", s, want), "[P02] the step is announced as it will be executed"); } }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_before_chain() { chain(3) }
#[no_mangle]
pub extern "C" fn sx_before_chain5() { chain(5) }

/// every field of a step reaches the runner; a changed timeout is the one that counts
struct Rewrite(Step);
#[async_trait]
impl Plugin for Rewrite {
    fn name(&self) -> &'static str { "rewrite" }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { let mut n = self.0.clone(); n.id = s.id; Ok(n) }
}
fn same_env(a: &EnvironmentVariables, b: &EnvironmentVariables) -> bool { a.len() == b.len() && a.iter().all(|(k, v)| b.get(k) == Some(v)) }
#[no_mangle]
pub extern "C" fn sx_step_fields() {
    crate::wf::setup(1);
    own_wall_clock();
    let p = |b: u8| (b >= b' ') & (b < 127);
    let mut s = step("w", "a", 0);
    if any_bool() { s.name = Some(any_str(2, p)); }
    s.run = any_str(2, p);
    let c = any_u8();
    s.continue_on_error = c & 1 == 1;
    if any_bool() { s.container = Some(ContainerOptions { name: any_str(1, p), volumes: if any_bool() { Some(vec![any_str(1, p)]) } else { None }, security_opts: if any_bool() { Some(vec![any_str(1, p)]) } else { None } }); }
    match choose(4) { 1 => { s.environments.insert("S".into(), EnvironmentVariable::String(any_str(1, p))); } 2 => { s.environments.insert("N".into(), EnvironmentVariable::Number(2.0)); } 3 => { s.environments.insert("B".into(), EnvironmentVariable::Boolean(true)); } _ => {} }
    if any_bool() { s.secrets = vec![any_str(1, p), "t".into()]; }
    let t = any_u8() as u64;
    assume((t >= 1) & (t <= 100));
    s.timeout = Duration::from_secs(t);
    let by_plugin = any_bool();
    let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
    let mut b = AstroRun::builder().runner(HRunner::new());
    if by_plugin { b = b.plugin(Rewrite(s.clone())); } else { w.jobs.get_mut("a").unwrap().steps[0] = s.clone(); }
    let out = run_workflow(w, b.build().execution_context().build());
    rt::settle();
    let l = live();
    check(l.len() == 1, "[P02] every step is run");
    let x = rec().borrow().ctxs[0].command.clone();
    check(x.name == s.name && x.run == s.run && x.secrets == s.secrets && x.timeout == s.timeout, "[P02] name, command, secrets and timeout reach the runner");
    check(x.continue_on_error == s.continue_on_error, "[P02] the continue-on-error flag reaches the runner");
    check(same_env(&x.environments, &s.environments), "[P02] environment variables reach the runner");
    check(match (&x.container, &s.container) { (None, None) => true, (Some(a), Some(b)) => a.name == b.name && a.volumes == b.volumes && a.security_opts == b.security_opts, _ => false }, "[P02] container options reach the runner");
    let sig = rec().borrow().live[0].sig.clone();
    rt::block_on(tokio::time::sleep(Duration::from_secs(50)));
    rt::settle();
    if t < 50 { check(sig.is_timeout(), "[P02] the timeout that counts is the one of the step as changed by the plugins"); }
    if t > 50 { check(!sig.is_timeout(), "[P02] the timeout that counts is the one of the step as changed by the plugins"); }
    finish(l[0], RunResult::Succeeded);
    rt::settle();
    check(out.is_set(), "[P02] the run returns once all its jobs have finished");
    reach("completed");
}

/// one of the fields of a step is set, cleared, left alone or not (the hook fails) by two plugins and the runner
#[derive(Clone, Copy)]
struct Field { f: usize, how: usize, i: usize }
impl Field {
    fn put(&self, s: &mut Step, v: usize) {
        let set = v > 0;
        let t = format!("v{}", v);
        match self.f {
            0 => s.name = if set { Some(t) } else { None },
            1 => s.run = if set { t } else { String::new() },
            2 => s.continue_on_error = v % 2 == 1,
            3 => { s.environments.clear(); if set { s.environments.insert(if v % 2 == 0 { "K".into() } else { t.clone() }, EnvironmentVariable::String(t)); } }
            4 => s.secrets = if set { vec![t] } else { vec![] },
            5 => s.container = if set { Some(ContainerOptions { name: t.clone(), volumes: if v % 2 == 0 { Some(vec![t]) } else { None }, security_opts: if v % 2 == 1 { Some(vec![]) } else { None } }) } else { None },
            _ => s.timeout = Duration::from_secs(if set { 30 - 5 * v as u64 } else { 90 }),
        }
    }
    fn hook(&self, mut s: Step) -> HookBeforeRunStepResult {
        match self.how { 0 => Ok(s), 1 => { self.put(&mut s, 0); Ok(s) } 2 => { self.put(&mut s, self.i + 1); Ok(s) } _ => Err(Error::error("")) }
    }
}
#[async_trait]
impl Plugin for Field {
    fn name(&self) -> &'static str { "field" }
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { self.hook(s) }
}
struct FieldRunner { x: Field, told: std::sync::Arc<std::sync::Mutex<Vec<Step>>> }
#[async_trait]
impl Runner for FieldRunner {
    async fn on_before_run_step(&self, s: Step) -> HookBeforeRunStepResult { self.x.hook(s) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.told.lock().unwrap().push(e.source); Ok(()) }
    async fn run(&self, ctx: Context) -> RunResponse { HRunner::new().run(ctx).await }
}
fn same_container(a: &Option<ContainerOptions>, b: &Option<ContainerOptions>) -> bool { match (a, b) { (None, None) => true, (Some(a), Some(b)) => a.name == b.name && a.volumes == b.volumes && a.security_opts == b.security_opts, _ => false } }
#[no_mangle]
pub extern "C" fn sx_before_fields() {
    crate::wf::setup(1);
    own_wall_clock();
    let f = choose(7);
    let x: Vec<Field> = (0..3).map(|i| Field { f, how: choose(4), i: i + 1 }).collect();
    let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
    let first = choose(2);
    {
        let s = &mut w.jobs.get_mut("a").unwrap().steps[0];
        s.timeout = Duration::from_secs(60);
        Field { f, how: 0, i: 0 }.put(s, first);
        if f != 3 { s.environments.insert("E".into(), EnvironmentVariable::Number(1.0)); }
    }
    let mut want = w.jobs["a"].steps[0].clone();
    for y in &x { if y.how == 1 { y.put(&mut want, 0); } else if y.how == 2 { y.put(&mut want, y.i + 1); } }
    let told: std::sync::Arc<std::sync::Mutex<Vec<Step>>> = Default::default();
    let ar = AstroRun::builder().runner(FieldRunner { x: x[2], told: told.clone() }).plugin(x[0]).plugin(x[1]).build();
    let out = run_workflow(w, ar.execution_context().build());
    rt::settle();
    check(live().len() == 1, "[P02] every step is run");
    let c = rec().borrow().ctxs[0].command.clone();
    check(c.name == want.name && c.run == want.run && c.continue_on_error == want.continue_on_error && same_env(&c.environments, &want.environments) && c.secrets == want.secrets && c.timeout == want.timeout && same_container(&c.container, &want.container) && c.id == want.id, "[P02] exactly the resulting step is executed, in all its fields");
    {
        let g = told.lock().unwrap();
        check(g.len() == 1, "[P02] every step is announced");
        let c = &g[0];
        check(c.name == want.name && c.run == want.run && c.continue_on_error == want.continue_on_error && same_env(&c.environments, &want.environments) && c.secrets == want.secrets && c.timeout == want.timeout && same_container(&c.container, &want.container) && c.id == want.id, "[P02] the step is announced as it will be executed");
    }
    if f == 6 {
        let sig = rec().borrow().live[0].sig.clone();
        let mut at = 0;
        for t in [12u64, 17, 22, 27, 40, 75, 100] {
            rt::block_on(tokio::time::sleep(Duration::from_secs(t - at)));
            at = t;
            rt::settle();
            check(sig.is_timeout() == (t > want.timeout.as_secs()), "[P02] the timeout that counts is the one of the step as changed by the plugins");
        }
    }
    finish(0, RunResult::Succeeded);
    rt::settle();
    check(out.is_set(), "[P02] the run returns once all its jobs have finished");
    reach("completed");
}

// ---------------------------------------------------------------- trigger event and payload
#[derive(serde::Serialize, serde::Deserialize, Clone)]
struct Pay { n: u8, s: String }
#[typetag::serde]
impl ContextPayloadExt for Pay { fn as_any(&self) -> &dyn std::any::Any { self } }
type Seen = std::sync::Arc<std::sync::Mutex<Vec<(&'static str, usize, Option<TriggerEvent>, Option<Pay>)>>>;
struct Ev { i: usize, seen: Seen }
impl Ev {
    fn put<T: Clone>(&self, k: &'static str, e: &RunEvent<T>) { self.seen.lock().unwrap().push((k, self.i, e.trigger_event.clone(), e.payload.as_ref().and_then(|p| p.payload::<Pay>().cloned()))); }
}
#[async_trait]
impl Plugin for Ev {
    fn name(&self) -> &'static str { "ev" }
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { self.put("workflow", &e); Ok(()) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { self.put("job", &e); Ok(()) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.put("step", &e); Ok(()) }
}
struct EvRunner { e: Ev }
#[async_trait]
impl Runner for EvRunner {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { self.e.put("workflow", &e); Ok(()) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { self.e.put("job", &e); Ok(()) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.e.put("step", &e); Ok(()) }
    async fn run(&self, ctx: Context) -> RunResponse {
        rec().borrow_mut().ctxs.push(ctx.clone());
        let (tx, rx) = stream();
        tx.end(RunResult::Succeeded);
        Ok(rx)
    }
}
fn same_event(a: &TriggerEvent, b: &TriggerEvent) -> bool { a.event == b.event && a.repo_owner == b.repo_owner && a.repo_name == b.repo_name && a.pr_number == b.pr_number && a.sha == b.sha && a.branch == b.branch && a.ref_name == b.ref_name }
#[no_mangle]
pub extern "C" fn sx_trigger_payload() {
    crate::wf::setup(1);
    let p = |b: u8| (b >= b'a') & (b <= b'z');
    let ev = if any_bool() { Some(TriggerEvent { event: any_str(1, p), repo_owner: any_str(1, p), repo_name: any_str(1, p), pr_number: if any_bool() { Some(any_u32() as i64) } else { None }, sha: any_str(1, p), branch: any_str(1, p), ref_name: any_str(1, p) }) } else { None };
    let pay = if any_bool() { let n = any_u8(); assume(n < 10); Some(Pay { n, s: any_str(1, p) }) } else { None };
    payload_case(ev, pay)
}
/// empty and odd texts in the trigger event and the payload: they are passed on like others
#[no_mangle]
pub extern "C" fn sx_trigger_fields() {
    crate::wf::setup(1);
    let which = choose(9);
    let t = pick(&["", " ", "refs/heads/a b", "A.b-C/d", "\u{e9}\"\\\n", "null", "\u{7f}\u{0}\r\u{2028}\u{10ffff}</x>", "long"]).to_string();
    let t = if t == "long" { "0123456789".repeat(if which == 8 { 7000 } else { 30 }) } else { t };
    let v = |i: usize| if which == i || which == 6 { t.clone() } else { "x".to_string() };
    let ev = TriggerEvent { event: v(0), repo_owner: v(1), repo_name: v(2), pr_number: if which == 7 { *pick(&[None, Some(0), Some(-1), Some(1 << 40), Some(i64::MAX)]) } else { None }, sha: v(3), branch: v(4), ref_name: v(5) };
    let pay = if which == 8 { Some(Pay { n: 3, s: t.clone() }) } else { None };
    payload_case(Some(ev), pay)
}
fn payload_case(ev: Option<TriggerEvent>, pay: Option<Pay>) {
    let w = workflow("w", vec![job("w", "a", 2, &[])]);
    let seen: Seen = Default::default();
    let e = |i| Ev { i, seen: seen.clone() };
    let ar = AstroRun::builder().runner(EvRunner { e: e(0) }).plugin(e(1)).plugin(e(2)).build();
    let mut b = ar.execution_context();
    if let Some(x) = &ev { b = b.event(x.clone()); }
    if let Some(x) = &pay { b = b.payload(x.clone()); }
    let ctx = b.build();
    let own = ctx.payload::<Pay>().cloned();
    check(own.is_some() == pay.is_some() && own.map(|o| pay.as_ref().map(|p| o.n == p.n && o.s == p.s) == Some(true)) != Some(false), "[P03] the run's context gives back its payload");
    let out = run_workflow(w, ctx);
    rt::settle();
    check(out.is_set(), "[P03] the run returns once all its jobs have finished");
    let v = seen.lock().unwrap();
    check(v.len() == 3 * 4, "[P03] every observer is told of the run, its job and its steps");
    for (kind, _, te, pl) in v.iter() {
        check(match (te, &ev) { (None, None) => true, (Some(a), Some(b)) => same_event(a, b), _ => false }, match *kind { "workflow" => "[P03] the trigger event of the run reaches the workflow hooks", "job" => "[P03] the trigger event of the run reaches the job hooks", _ => "[P03] the trigger event of the run reaches the step hooks" });
        check(match (pl, &pay) { (None, None) => true, (Some(a), Some(b)) => a.n == b.n && a.s == b.s, _ => false }, match *kind { "workflow" => "[P03] the payload of the run reaches the workflow hooks", "job" => "[P03] the payload of the run reaches the job hooks", _ => "[P03] the payload of the run reaches the step hooks" });
    }
    let g = rec().borrow();
    for c in &g.ctxs {
        check(match (&c.event, &ev) { (None, None) => true, (Some(a), Some(b)) => same_event(a, b), _ => false }, "[P03] the trigger event of the run reaches the runner with every step");
        match (&c.payload, &pay) {
            (None, None) => {}
            (Some(a), Some(b)) => match serde_json::from_str::<ContextPayload>(a) {
                Ok(x) => check(x.payload::<Pay>().map(|y| y.n == b.n && y.s == b.s) == Some(true), "[P03] the payload of the run reaches the runner with every step"),
                Err(_) => fail("[P03] the payload text given to the runner can be read back"),
            },
            _ => fail("[P03] the runner gets a payload exactly if the run has one"),
        }
    }
    reach("completed");
}

/// a plugin made of closures is told the same as one written as a trait implementation
#[no_mangle]
pub extern "C" fn sx_closure_plugin() {
    crate::wf::setup(1);
    let w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &["a"])]);
    let p = AstroRunPlugin::builder("c")
        .on_run_workflow(|e| { put(2, E::RunWf(e.source.id.to_string())); Ok(()) })
        .on_run_job(|e| { put(2, E::RunJob(e.source.id.to_string())); Ok(()) })
        .on_run_step(|e| { put(2, E::RunStep(e.source.id.to_string())); Ok(()) })
        .on_state_change(|e| { put(2, match e { WorkflowStateEvent::WorkflowStateUpdated { id, state } => E::Wf(id.to_string(), state), WorkflowStateEvent::JobStateUpdated { id, state } => E::Job(id.to_string(), state), WorkflowStateEvent::StepStateUpdated { id, state } => E::Step(id.to_string(), state) }); Ok(()) })
        .on_log(|l| { put(2, E::Log(l)); Ok(()) })
        .on_step_completed(|r| { put(2, E::StepDone(r)); Ok(()) })
        .on_job_completed(|r| { put(2, E::JobDone(r)); Ok(()) })
        .on_workflow_completed(|r| { put(2, E::WfDone(r)); Ok(()) })
        .build();
    check(p.name() == "c", "[P01] a plugin has the name it was given");
    let ar = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 }).plugin(p).build();
    let rs = [any_result(), any_result(), any_result()];
    run_all(&ar, &w, &rs);
    let a: Vec<String> = events(1).iter().map(k).collect();
    let b: Vec<String> = events(2).iter().map(k).collect();
    check(a == b && a.len() > 10, "[P01] a plugin made of closures is told the same as any other plugin");
    reach("completed");
}
