//! Shared pieces: an event recorder, a runner and a plugin whose behaviour the harness decides.
use astro_run::*;
use std::cell::{RefCell, UnsafeCell};
use std::collections::HashMap;
use std::time::Duration;
pub use sym::*;

#[derive(Clone, Debug)]
pub enum E {
    Wf(String, WorkflowState),
    Job(String, WorkflowState),
    Step(String, WorkflowState),
    RunWf(String),
    RunJob(String),
    RunStep(String),
    WfDone(WorkflowRunResult),
    JobDone(JobRunResult),
    StepDone(StepRunResult),
    Log(WorkflowLog),
    /// the runner was asked to run this step / the step's stream was ended
    Start(String),
    End(String),
}
/// a running step as the harness sees it
pub struct Live { pub id: String, pub tx: StreamSender, pub sig: AstroRunSignal, pub done: bool, pub job: String }
#[derive(Default)]
pub struct Rec {
    /// what plugin number `i` saw; index 0 is the runner's own hooks
    pub seen: Vec<(usize, E)>,
    pub live: Vec<Live>,
    pub ctxs: Vec<Context>,
}
struct G(UnsafeCell<Option<Box<RefCell<Rec>>>>);
unsafe impl Sync for G {}
static REC: G = G(UnsafeCell::new(None));
pub fn rec() -> &'static RefCell<Rec> { unsafe { &mut *REC.0.get() }.get_or_insert_with(|| Box::new(RefCell::new(Rec::default()))) }
pub fn put(who: usize, e: E) { rec().borrow_mut().seen.push((who, e)); }
pub fn events(who: usize) -> Vec<E> { rec().borrow().seen.iter().filter(|e| e.0 == who).map(|e| e.1.clone()).collect() }

/// what `Runner::run` does for a step
pub trait Script: Send + Sync { fn run(&self, ctx: &Context) -> Option<RunResponse>; }
/// records every hook as observer 0; steps stay live until the harness ends them
pub struct HRunner { pub script: Option<Box<dyn Script>>, pub yielding: bool }
impl HRunner { pub fn new() -> Self { HRunner { script: None, yielding: false } } }
pub fn se(e: WorkflowStateEvent) -> E {
    match e {
        WorkflowStateEvent::WorkflowStateUpdated { id, state } => E::Wf(id.to_string(), state),
        WorkflowStateEvent::JobStateUpdated { id, state } => E::Job(id.to_string(), state),
        WorkflowStateEvent::StepStateUpdated { id, state } => E::Step(id.to_string(), state),
    }
}
#[async_trait]
impl Runner for HRunner {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { put(0, E::RunWf(e.source.id.to_string())); Ok(()) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { put(0, E::RunJob(e.source.id.to_string())); Ok(()) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { put(0, E::RunStep(e.source.id.to_string())); Ok(()) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { put(0, se(e)); Ok(()) }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { put(0, E::Log(l)); Ok(()) }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { put(0, E::StepDone(r)); Ok(()) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { put(0, E::JobDone(r)); Ok(()) }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { put(0, E::WfDone(r)); Ok(()) }
    async fn run(&self, ctx: Context) -> RunResponse {
        put(0, E::Start(ctx.id.to_string()));
        rec().borrow_mut().ctxs.push(ctx.clone());
        if self.yielding { tokio::task::yield_now().await; }
        if let Some(s) = &self.script { if let Some(r) = s.run(&ctx) { return r; } }
        let (tx, rx) = stream();
        rec().borrow_mut().live.push(Live { id: ctx.id.to_string(), tx, sig: ctx.signal.clone(), done: false, job: ctx.id.job_key() });
        Ok(rx)
    }
}
/// records every hook as observer `i`
pub struct HPlugin { pub i: usize }
#[async_trait]
impl Plugin for HPlugin {
    fn name(&self) -> &'static str { "harness" }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { put(self.i, se(e)); Ok(()) }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { put(self.i, E::Log(l)); Ok(()) }
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { put(self.i, E::RunWf(e.source.id.to_string())); Ok(()) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { put(self.i, E::RunJob(e.source.id.to_string())); Ok(()) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { put(self.i, E::RunStep(e.source.id.to_string())); Ok(()) }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { put(self.i, E::WfDone(r)); Ok(()) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { put(self.i, E::JobDone(r)); Ok(()) }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { put(self.i, E::StepDone(r)); Ok(()) }
}
/// indices of live steps that have not been ended
pub fn live() -> Vec<usize> { rec().borrow().live.iter().enumerate().filter(|x| !x.1.done).map(|x| x.0).collect() }
pub fn finish(i: usize, r: RunResult) {
    let (id, tx) = { let mut g = rec().borrow_mut(); g.live[i].done = true; (g.live[i].id.clone(), g.live[i].tx.clone()) };
    put(0, E::End(id));
    tx.end(r);
}
pub fn step(wf: &str, job: &str, n: usize) -> Step {
    Step { id: StepId::new(wf, job, n), name: None, on: None, container: None, run: "r".into(), continue_on_error: false, environments: HashMap::new(), secrets: vec![], timeout: Duration::from_secs(3600) }
}
pub fn job(wf: &str, key: &str, steps: usize, deps: &[&str]) -> Job {
    Job { id: JobId::new(wf, key), name: None, on: None, steps: (0..steps).map(|i| step(wf, key, i)).collect(), depends_on: deps.iter().map(|s| s.to_string()).collect(), working_directories: vec![] }
}
pub fn workflow(wf: &str, jobs: Vec<Job>) -> Workflow {
    Workflow { id: WorkflowId::new(wf), name: None, on: None, jobs: jobs.into_iter().map(|j| (j.id.job_key(), j)).collect() }
}
/// the outcome of a step: kind and exit code are free symbolic values, decided by the solver only
/// where the code under test looks at them
pub fn any_result() -> RunResult {
    if std::mem::size_of::<RunResult>() == 8 {
        let bits = |r: RunResult| -> (u32, u32) { unsafe { std::mem::transmute_copy(&r) } };
        let t = [bits(RunResult::Succeeded).0, bits(RunResult::Failed { exit_code: 77 }).0, bits(RunResult::Cancelled).0];
        if bits(RunResult::Failed { exit_code: 77 }).1 == 77 && t[0] != t[1] && t[1] != t[2] && t[0] != t[2] {
            let k = any_u8();
            let code = any_u32();
            assume(k < 3);
            let tag = if k == 0 { t[0] } else if k == 1 { t[1] } else { t[2] };
            return unsafe { std::mem::transmute_copy(&(tag, code)) };
        }
    }
    match choose(3) { 0 => RunResult::Succeeded, 1 => RunResult::Failed { exit_code: any_u32() as i32 }, _ => RunResult::Cancelled }
}
pub fn terminal(r: &RunResult) -> WorkflowState {
    match r { RunResult::Succeeded => WorkflowState::Succeeded, RunResult::Failed { .. } => WorkflowState::Failed, RunResult::Cancelled => WorkflowState::Cancelled }
}
/// a slot another task fills in
pub struct Slot<T>(pub std::sync::Arc<std::sync::Mutex<Option<T>>>);
impl<T> Clone for Slot<T> { fn clone(&self) -> Self { Slot(self.0.clone()) } }
impl<T> Slot<T> {
    pub fn new() -> Self { Slot(std::sync::Arc::new(std::sync::Mutex::new(None))) }
    pub fn set(&self, v: T) { *self.0.lock().unwrap() = Some(v); }
    pub fn take(&self) -> Option<T> { self.0.lock().unwrap().take() }
    pub fn is_set(&self) -> bool { self.0.lock().unwrap().is_some() }
}
pub fn run_workflow(w: Workflow, ctx: ExecutionContext) -> Slot<WorkflowRunResult> {
    let s = Slot::new();
    let s2 = s.clone();
    tokio::spawn(async move { let r = w.run(ctx).await; s2.set(r); });
    s
}
pub fn thorough() -> bool { option_env!("SX_THOROUGH").is_some() }
/// a condition that does not hold for the default trigger event in `nomatch_world`
pub fn nomatch() -> Condition { Condition::Event(vec!["never".into()]) }
struct NoFiles;
impl octocrate::Api for NoFiles {
    fn files(&self, _: &octocrate::Req) -> Option<Option<Vec<String>>> { Some(Some(vec!["f".into()])) }
    fn installation(&self, _: &octocrate::Req) -> Option<i64> { Some(1) }
    fn token(&self, _: &octocrate::Req) -> Option<String> { Some("i".into()) }
}
pub fn nomatch_world() { *octocrate::world().api.borrow_mut() = Some(Box::new(NoFiles)); }
