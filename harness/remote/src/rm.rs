//! Coordinator and remote runners over an in-process network.
use crate::common::*;
use astro_run::*;
use astro_run_remote_runner::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tonic::transport as net;

/// the runner behind server `i`; observer 10+i
pub struct SRunner { pub i: usize, pub refuse: bool }
#[async_trait]
impl Runner for SRunner {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { put(10 + self.i, E::RunWf(e.source.id.to_string())); Ok(()) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { put(10 + self.i, E::RunJob(e.source.id.to_string())); Ok(()) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { put(10 + self.i, E::RunStep(e.source.id.to_string())); Ok(()) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { put(10 + self.i, state(e)); Ok(()) }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { put(10 + self.i, E::Log(l)); Ok(()) }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { put(10 + self.i, E::StepDone(r)); Ok(()) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { put(10 + self.i, E::JobDone(r)); Ok(()) }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { put(10 + self.i, E::WfDone(r)); Ok(()) }
    async fn run(&self, ctx: Context) -> RunResponse {
        put(10 + self.i, E::Start(ctx.id.to_string()));
        rec().borrow_mut().ctxs.push(ctx.clone());
        if self.refuse { return Err(Error::error("refused")); }
        let (tx, rx) = stream();
        rec().borrow_mut().live.push(Live { id: ctx.id.to_string(), tx, sig: ctx.signal.clone(), done: false, job: format!("{}", self.i) });
        Ok(rx)
    }
}
pub fn state(e: WorkflowStateEvent) -> E {
    match e {
        WorkflowStateEvent::WorkflowStateUpdated { id, state } => E::Wf(id.to_string(), state),
        WorkflowStateEvent::JobStateUpdated { id, state } => E::Job(id.to_string(), state),
        WorkflowStateEvent::StepStateUpdated { id, state } => E::Step(id.to_string(), state),
    }
}
pub const ADDR: [&str; 6] = ["127.0.0.1:5001", "127.0.0.1:5002", "127.0.0.1:5003", "127.0.0.1:5004", "127.0.0.1:5005", "127.0.0.1:5006"];
pub fn urls(n: usize) -> Vec<String> { (0..n).map(|i| format!("http://{}", ADDR[i])).collect() }
pub fn setup() { rt::set_order_choices(0); let start = choose(2) as u32; tokio::sx::set_select_free(0, start); set_seed(choose(2) as u64); *net::world().net.borrow_mut() = Box::new(Quiet); }
struct Quiet;
impl net::Net for Quiet {}
/// a server with one recording runner and one recording plugin (observer 20+i)
pub fn server(i: usize, refuse: bool) {
    let s = AstroRunRemoteRunnerServer::builder().id(format!("s{}", i)).support_docker(true).runner(SRunner { i, refuse }).plugin(HPlugin { i: 20 + i }).build().ok().unwrap();
    tokio::spawn(async move { let _ = s.serve(ADDR[i]).await; });
    rt::settle();
}
/// remembers what it was told, gives every step to the runner the harness names
#[derive(Clone, Default)]
pub struct Sched { pub to: Arc<Mutex<Vec<String>>>, pub told: Arc<Mutex<Vec<String>>> }
#[async_trait]
impl Scheduler for Sched {
    fn on_run_workflow(&self, w: Workflow) { self.told.lock().unwrap().push(format!("run {}", w.id)) }
    fn on_run_job(&self, j: Job) { self.told.lock().unwrap().push(format!("run {}", j.id)) }
    fn on_run_step(&self, s: Step) { self.told.lock().unwrap().push(format!("run {}", s.id)) }
    fn on_step_completed(&self, r: StepRunResult) { self.told.lock().unwrap().push(format!("done {}", r.id)) }
    fn on_job_completed(&self, r: JobRunResult) { self.told.lock().unwrap().push(format!("done {}", r.id)) }
    fn on_workflow_completed(&self, r: WorkflowRunResult) { self.told.lock().unwrap().push(format!("done {}", r.id)) }
    async fn schedule<'a, 'b: 'a>(&'b self, runners: &'a [RunnerMetadata], ctx: &Context) -> Option<&'a RunnerMetadata> {
        self.told.lock().unwrap().push(format!("schedule {}", ctx.id));
        let mut t = self.to.lock().unwrap();
        let want = if t.is_empty() { return runners.first(); } else { t.remove(0) };
        runners.iter().find(|r| r.id == want)
    }
}
pub struct Coord { pub client: AstroRunRemoteRunnerClient, pub ar: AstroRun, pub sched: Sched, pub stopped: Slot<bool> }
pub fn coordinator(urls: Vec<String>) -> Coord {
    let sched = Sched::default();
    let client = AstroRunRemoteRunnerClient::builder().scheduler(sched.clone()).build().ok().unwrap();
    let stopped = Slot::new();
    let (mut c2, s2) = (client.clone(), stopped.clone());
    tokio::spawn(async move { let r = c2.start(urls).await; s2.set(r.is_ok()); });
    rt::settle();
    let ar = AstroRun::builder().runner(client.clone()).plugin(HPlugin { i: 1 }).build();
    Coord { client, ar, sched, stopped }
}

/// an outcome as it crosses the wire: exit codes from a symbolic digit or from the ends of the range
pub fn result() -> RunResult {
    match choose(5) { 0 => RunResult::Succeeded, 1 => RunResult::Cancelled, 2 => { let c = any_u8(); assume(c < 10); RunResult::Failed { exit_code: c as i32 } }, 3 => RunResult::Failed { exit_code: i32::MIN }, _ => RunResult::Failed { exit_code: i32::MAX } }
}

fn states(who: usize) -> Vec<String> { events(who).iter().filter(|e| !matches!(e, E::Start(_) | E::End(_))).map(key).collect() }
/// an event as comparable text
fn key(e: &E) -> String {
    match e {
        E::Log(l) => format!("log {} {:?} {}", l.step_id, l.log_type, l.message),
        E::WfDone(r) => { let mut v: Vec<String> = r.jobs.iter().map(|j| format!("{}={:?}", j.0, j.1.state)).collect(); v.sort(); format!("WfDone {} {:?} {:?}", r.id, r.state, v) }
        E::JobDone(r) => format!("JobDone {} {:?} {:?}", r.id, r.state, r.steps.iter().map(|s| format!("{:?} {:?}", s.state, s.exit_code)).collect::<Vec<_>>()),
        E::StepDone(r) => format!("StepDone {} {:?} {:?}", r.id, r.state, r.exit_code),
        x => format!("{:?}", x),
    }
}
fn logs(who: usize) -> Vec<(String, WorkflowLogType)> { events(who).iter().filter_map(|e| if let E::Log(l) = e { Some((l.message.clone(), l.log_type.clone())) } else { None }).collect() }
fn step_done(who: usize) -> Vec<StepRunResult> { events(who).iter().filter_map(|e| if let E::StepDone(r) = e { Some(r.clone()) } else { None }).collect() }
fn code(r: &RunResult) -> Option<i32> { match r { RunResult::Failed { exit_code } => Some(*exit_code), _ => None } }
fn same_steps(a: &StepRunResult, r: &RunResult) -> bool { a.state == terminal(r) && (code(r).is_none() || a.exit_code == code(r)) }
/// let the world make `n` steps
fn steps(n: usize) { rt::block_on(async move { for _ in 0..n { tokio::task::yield_now().await; } }) }
fn word() -> String {
    match choose(4) { 0 => String::new(), 1 => any_str(1, |b| b < 128), 2 => format!("a{}", any_str(1, |b| (b == b'"') | (b == b'\\') | (b == b'\n') | (b >= b'a') & (b <= b'z'))), _ => "\u{e9}\u{1f600}\u{2028}".into() }
}

// ---------------------------------------------------------------- one step on a remote runner (R01)
fn one(lines: usize) {
    setup();
    server(0, false);
    let c = coordinator(urls(1));
    let w = workflow("w", vec![job("w", "a", 1, &[])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    let l = live();
    check(l.len() == 1, "[R01] the step is run by the remote runner");
    let tx = rec().borrow().live[l[0]].tx.clone();
    let mut sent = vec![];
    for _ in 0..lines {
        let m = word();
        if any_bool() { tx.error(m.clone()); sent.push((m, WorkflowLogType::Error)); } else { tx.log(m.clone()); sent.push((m, WorkflowLogType::Log)); }
        if any_bool() { rt::settle(); check(logs(1).len() == sent.len(), "[R01] what a remote runner prints arrives as it is printed"); }
    }
    check(!out.is_set(), "[R01] a step goes on until its runner ends it");
    let r = result();
    finish(l[0], r.clone());
    rt::settle();
    check(logs(1) == sent, "[R01] every line of a remote runner arrives once, unchanged, in order and with its kind");
    let d = step_done(1);
    check(d.len() == 1 && same_steps(&d[0], &r), "[R01] the outcome of the step is the one its remote runner gave");
    let Some(x) = out.take() else { fail("[R01] a step executed remotely always ends") };
    check(x.state == terminal(&r), "[R01] the outcome of the step is the one its remote runner gave");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_remote_one() { one(1) }
#[no_mangle]
pub extern "C" fn sx_remote_one2() { one(2) }

/// more lines than any buffer between the two holds
#[no_mangle]
pub extern "C" fn sx_remote_burst() {
    setup();
    struct Eager(bool);
    impl net::Net for Eager { fn eager(&self) -> bool { self.0 } }
    *net::world().net.borrow_mut() = Box::new(Eager(any_bool()));
    server(0, false);
    let c = coordinator(urls(1));
    let w = workflow("w", vec![job("w", "a", 1, &[])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    let l = live();
    check(l.len() == 1, "[R01] the step is run by the remote runner");
    let tx = rec().borrow().live[l[0]].tx.clone();
    let n = 70;
    for i in 0..n { tx.log(format!("line {}", i)); }
    if any_bool() { rt::settle(); }
    finish(l[0], RunResult::Failed { exit_code: 3 });
    rt::settle();
    let got = logs(1);
    check(got.len() == n && got.iter().enumerate().all(|(i, x)| x.0 == format!("line {}", i)), "[R01] every line of a remote runner arrives once, unchanged, in order and with its kind");
    let d = step_done(1);
    check(out.is_set() && d.len() == 1 && d[0].state == WorkflowState::Failed && d[0].exit_code == Some(3), "[R01] the outcome of the step is the one its remote runner gave");
    reach("completed");
}

/// several steps on several runners do not mix
fn many(n: usize) {
    setup();
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    let to: Vec<usize> = (0..n).map(|_| choose(2)).collect();
    *c.sched.to.lock().unwrap() = to.iter().map(|i| format!("s{}", i)).collect();
    let w = workflow("w", ["a", "b", "c"][..n].iter().map(|k| job("w", k, 1, &[])).collect());
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    check(live().len() == n, "[R01] the step is run by the remote runner");
    let order: Vec<String> = c.sched.told.lock().unwrap().iter().filter_map(|t| t.strip_prefix("schedule ").map(|x| x.to_string())).collect();
    for (k, id) in order.iter().enumerate() {
        let g = rec().borrow();
        let x: Vec<&Live> = g.live.iter().filter(|l| l.id == *id).collect();
        check(x.len() == 1 && x[0].job == format!("{}", to[k]), "[R01] a step runs on the runner the scheduler chose, once");
    }
    let mut results = std::collections::HashMap::new();
    while !live().is_empty() {
        let l = live();
        let i = l[choose(l.len())];
        let id = rec().borrow().live[i].id.clone();
        let tx = rec().borrow().live[i].tx.clone();
        tx.log(format!("from {}", id));
        let r = if any_bool() { RunResult::Succeeded } else { RunResult::Failed { exit_code: 7 } };
        finish(i, r.clone());
        results.insert(id, r);
        if any_bool() { rt::settle(); }
    }
    rt::settle();
    for e in events(1) { if let E::Log(l) = e { check(l.message == format!("from {}", l.step_id), "[R01] lines arrive under the step they belong to"); } }
    check(logs(1).len() == n, "[R01] every line of a remote runner arrives once, unchanged, in order and with its kind");
    for d in step_done(1) { check(same_steps(&d, &results[&d.id.to_string()]), "[R01] the outcome of the step is the one its remote runner gave"); }
    check(out.is_set(), "[R01] a step executed remotely always ends");
    reach("completed");
}

#[no_mangle]
pub extern "C" fn sx_remote_many() { many(2) }
#[no_mangle]
pub extern "C" fn sx_remote_many3() { many(3) }

struct Faulty { run: net::Fault, cut: net::Cut, events: net::Fault, eager: bool }
impl net::Net for Faulty {
    fn call(&self, _: &str, path: &str) -> net::Fault { if path.ends_with("/Run") { self.run } else if path.ends_with("/SendEvent") { self.events } else { net::Fault::None } }
    fn cut(&self, _: &str, path: &str) -> net::Cut { if path.ends_with("/Run") { self.cut } else { net::Cut::None } }
    fn eager(&self) -> bool { self.eager }
}
fn any_fault() -> net::Fault { *pick(&[net::Fault::None, net::Fault::Refused, net::Fault::Lost]) }
/// whatever breaks on the way, the step ends
#[no_mangle]
pub extern "C" fn sx_remote_faults() {
    setup();
    let run = any_fault();
    let cut = match choose(3) { 0 => net::Cut::None, 1 => net::Cut::Error(choose(4)), _ => net::Cut::End(choose(4)) };
    let refuse = any_bool();
    let events = any_fault();
    *net::world().net.borrow_mut() = Box::new(Faulty { run, cut, events, eager: any_bool() });
    server(0, refuse);
    let c = coordinator(urls(1));
    let dead = choose(6);
    if dead == 1 { net::kill(ADDR[0]); }
    let w = workflow("w", vec![job("w", "a", 1, &[])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    if dead == 2 { steps(6); net::kill(ADDR[0]); }
    rt::settle();
    if dead == 3 { net::kill(ADDR[0]); }
    let r = if any_bool() { RunResult::Succeeded } else { RunResult::Failed { exit_code: 9 } };
    let ok_net = run == net::Fault::None && cut == net::Cut::None && dead == 0;
    let fine = ok_net && !refuse;
    let l = live();
    if fine { check(l.len() == 1, "[R01] the step is run by the remote runner"); }
    let mut sent = vec![];
    if let Some(&i) = l.first() {
        let tx = rec().borrow().live[i].tx.clone();
        for k in 0..2 { tx.log(format!("l{}", k)); sent.push(format!("l{}", k)); if any_bool() { rt::settle(); } }
        if dead == 4 { net::kill(ADDR[0]); }
        // a runner that never ends its step must not matter once the connection is known to be broken
        if !(dead == 3 || dead == 4) || any_bool() { finish(i, r.clone()); }
        if dead == 5 { net::kill(ADDR[0]); }
    }
    rt::settle();
    let Some(x) = out.take() else { fail("[R01] a step executed remotely always ends") };
    let d = step_done(1);
    check(d.len() == 1, "[R01] a step executed remotely always ends");
    let (lost, kept): (Vec<_>, Vec<_>) = logs(1).into_iter().partition(|x| x.1 == WorkflowLogType::Error);
    let kept: Vec<String> = kept.into_iter().map(|x| x.0).collect();
    check(kept.len() <= sent.len() && kept[..] == sent[..kept.len()], "[R01] what arrives before the connection breaks is what was printed");
    let broken = d[0].state == WorkflowState::Failed && d[0].exit_code == Some(1);
    check(same_steps(&d[0], &r) || broken, "[R01] the outcome is the runner's, or failed if the connection broke");
    if fine { check(same_steps(&d[0], &r) && kept == sent && lost.is_empty(), "[R01] the outcome of the step is the one its remote runner gave"); reach("fine"); }
    if refuse || run != net::Fault::None || dead == 1 || kept.len() < sent.len() { check(broken, "[R01] a step whose runner could not be reached, refused it or was lost is failed"); }
    if broken { check(!lost.is_empty(), "[R01] a step that failed for the connection says so"); reach("broken"); }
    check(x.state == if same_steps(&d[0], &r) && !broken { terminal(&r) } else { WorkflowState::Failed }, "[R01] the outcome is the runner's, or failed if the connection broke");
}
/// no runner for the step
#[no_mangle]
pub extern "C" fn sx_remote_none() {
    setup();
    let n = choose(2);
    if n == 1 { server(0, false); }
    let c = coordinator(urls(n));
    *c.sched.to.lock().unwrap() = vec!["nobody".into(), "s0".into()];
    let w = workflow("w", vec![job("w", "a", 1, &[]), job("w", "b", 1, &["a"])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    let l = live();
    check(l.len() == n, "[R01] a step without a runner does not run");
    if let Some(&i) = l.first() { finish(i, RunResult::Succeeded); }
    rt::settle();
    let Some(x) = out.take() else { fail("[R01] a step executed remotely always ends") };
    check(x.jobs["a"].state == WorkflowState::Failed && x.state == WorkflowState::Failed, "[R01] a step no runner takes is failed");
    check(logs(1).iter().any(|l| l.1 == WorkflowLogType::Error), "[R01] a step no runner takes says so");
    check((x.jobs["b"].state == WorkflowState::Succeeded) == (n == 1), "[R01] one step without a runner does not affect another");
    reach("completed");
}

// ---------------------------------------------------------------- signals (R02)
fn sig(id: &str) -> Option<AstroRunSignal> { rec().borrow().live.iter().find(|l| l.id == id).map(|l| l.sig.clone()) }
fn quiet(id: &str) -> bool { match sig(id) { Some(s) => !s.is_cancelled() && !s.is_timeout(), None => true } }
/// a cancellation at any moment reaches the runner of that job's step, and only that
fn signals(moments: usize) {
    setup();
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    let same = any_bool();
    *c.sched.to.lock().unwrap() = if same { vec!["s0".into(), "s0".into()] } else { vec!["s0".into(), "s1".into()] };
    let w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "aa", 1, &[])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    let k = choose(moments + 1);
    if k == moments { rt::settle() } else { steps(k) }
    let ok = c.ar.cancel_job(&JobId::new("w", "a")).is_ok();
    // some runners end at once, some only when told to
    rt::settle();
    let ids = |j: &str| { let g = rec().borrow(); g.live.iter().filter(|l| l.id.starts_with(&format!("w/{}/", j))).map(|l| l.id.clone()).collect::<Vec<_>>() };
    check(ids("a").len() >= 1 && ids("aa").len() == 1, "[R02] the steps are run by remote runners");
    check(sig("w/a/0").map_or(false, |s| s.is_cancelled()) == ok, "[R02] a cancellation reaches the remote runner of the step");
    check(quiet("w/aa/0"), "[R02] a signal reaches only the step it is meant for");
    if ok { reach("cancelled"); } else { reach("not yet running"); }
    let i = live();
    for x in i { finish(x, RunResult::Cancelled); }
    rt::settle();
    for x in live() { finish(x, RunResult::Succeeded); }
    rt::settle();
    check(out.is_set(), "[R02] the run completes");
}
#[no_mangle]
pub extern "C" fn sx_remote_cancel() { signals(24) }
#[no_mangle]
pub extern "C" fn sx_remote_cancel80() { signals(80) }

/// a timeout reaches the runner of that step, and only that; later steps are reached again
#[no_mangle]
pub extern "C" fn sx_remote_timeout() {
    setup();
    own_wall_clock();
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    let same = any_bool();
    *c.sched.to.lock().unwrap() = if same { vec!["s0".into(); 3] } else { vec!["s0".into(), "s1".into(), "s1".into()] };
    let mut w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &[])]);
    w.jobs.get_mut("a").unwrap().steps[0].timeout = Duration::from_secs(10);
    w.jobs.get_mut("a").unwrap().steps[0].continue_on_error = true;
    w.jobs.get_mut("a").unwrap().steps[1].continue_on_error = true;
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    let early = any_bool();
    rt::block_on(tokio::time::sleep(Duration::from_secs(if early { 5 } else { 20 })));
    rt::settle();
    let (Some(a), Some(_)) = (sig("w/a/0"), sig("w/b/0")) else { fail("[R02] the steps are run by remote runners") };
    check(a.is_timeout() == !early && !a.is_cancelled(), "[R02] a timeout reaches the remote runner of the step");
    check(quiet("w/b/0"), "[R02] a signal reaches only the step it is meant for");
    reach(if early { "in time" } else { "timed out" });
    let i = live().into_iter().find(|i| rec().borrow().live[*i].id == "w/a/0").unwrap();
    finish(i, if early { RunResult::Succeeded } else { RunResult::Failed { exit_code: 1 } });
    rt::settle();
    // the second step of the job can still be cancelled
    let Some(s2) = sig("w/a/1") else { fail("[R02] the steps are run by remote runners") };
    check(quiet("w/a/1"), "[R02] a signal reaches only the step it is meant for");
    check(c.ar.cancel_job(&JobId::new("w", "a")).is_ok(), "[R02] a running job can be cancelled");
    rt::settle();
    check(s2.is_cancelled(), "[R02] a cancellation reaches the remote runner of the step");
    check(quiet("w/b/0"), "[R02] a signal reaches only the step it is meant for");
    for x in live() { finish(x, RunResult::Cancelled); }
    rt::settle();
    check(out.is_set(), "[R02] the run completes");
}

// ---------------------------------------------------------------- registration (R03)
use astro_run_protocol::remote_runner::{RemoteRunnerExt, RemoteRunnerServer};
use astro_run_protocol::{Empty, ProtocolEvent, RunResponse as Reply};
/// a server that answers what the harness says
#[derive(Clone)]
pub struct Fake { pub meta: Option<RunnerMetadata>, pub got: Arc<Mutex<Vec<Context>>>, pub events: Arc<Mutex<Vec<ProtocolEvent>>>, pub commands: Arc<Mutex<Vec<Command>>>, pub replies: Arc<Mutex<Vec<Reply>>> }
impl Fake { pub fn new(meta: Option<RunnerMetadata>) -> Self { Fake { meta, got: Default::default(), events: Default::default(), commands: Default::default(), replies: Default::default() } } }
#[tonic::async_trait]
impl RemoteRunnerExt for Fake {
    type RunStream = tokio_stream::wrappers::ReceiverStream<tonic::Result<Reply>>;
    async fn run(&self, r: tonic::Request<Context>) -> std::result::Result<tonic::Response<Self::RunStream>, tonic::Status> {
        self.got.lock().unwrap().push(r.into_inner());
        let (tx, rx) = tokio::sync::mpsc::channel(64);
        let v: Vec<Reply> = self.replies.lock().unwrap().drain(..).collect();
        for x in v { let _ = tx.try_send(Ok(x)); }
        Ok(tonic::Response::new(tokio_stream::wrappers::ReceiverStream::new(rx)))
    }
    async fn send_event(&self, r: tonic::Request<ProtocolEvent>) -> std::result::Result<tonic::Response<Empty>, tonic::Status> { self.events.lock().unwrap().push(r.into_inner()); Ok(tonic::Response::new(Empty {})) }
    async fn get_runner_metadata(&self, _: tonic::Request<Empty>) -> std::result::Result<tonic::Response<RunnerMetadata>, tonic::Status> { match &self.meta { Some(m) => Ok(tonic::Response::new(m.clone())), None => Err(tonic::Status::internal("no")) } }
    async fn call_before_run_step_hook(&self, r: tonic::Request<Command>) -> std::result::Result<tonic::Response<Command>, tonic::Status> { let c = r.into_inner(); self.commands.lock().unwrap().push(c.clone()); Ok(tonic::Response::new(c)) }
}
fn fake(i: usize, f: Fake) { tokio::spawn(async move { let _ = net::Server::builder().add_service(RemoteRunnerServer::new(f)).serve(ADDR[i].parse().unwrap()).await; }); rt::settle(); }
fn meta(id: &str, version: &str) -> RunnerMetadata { RunnerMetadata { id: id.into(), os: "l".into(), arch: "x".into(), support_docker: true, support_host: true, version: version.into(), max_runs: 3 } }
/// lists what it is offered
#[derive(Clone, Default)]
struct Offer { seen: Arc<Mutex<Vec<RunnerMetadata>>> }
#[async_trait]
impl Scheduler for Offer {
    async fn schedule<'a, 'b: 'a>(&'b self, runners: &'a [RunnerMetadata], _: &Context) -> Option<&'a RunnerMetadata> { *self.seen.lock().unwrap() = runners.to_vec(); None }
}
fn offered(urls: Vec<String>) -> Vec<RunnerMetadata> {
    let o = Offer::default();
    let client = AstroRunRemoteRunnerClient::builder().scheduler(o.clone()).build().ok().unwrap();
    let mut c2 = client.clone();
    tokio::spawn(async move { let _ = c2.start(urls).await; });
    rt::settle();
    let ar = AstroRun::builder().runner(client).build();
    let out = run_workflow(workflow("w", vec![job("w", "a", 1, &[])]), ar.execution_context().build());
    rt::settle();
    check(out.is_set(), "[R03] a step no runner takes ends");
    let mut v = o.seen.lock().unwrap().clone();
    v.sort_by(|a, b| a.id.cmp(&b.id));
    v
}
/// only runners that speak the same version are used
#[no_mangle]
pub extern "C" fn sx_remote_version() {
    setup();
    let good = VERSION.as_bytes();
    let mut v = good.to_vec();
    match choose(4) {
        0 => { let i = choose(v.len()); let b = any_u8(); assume((b >= b' ') & (b < 127)); v[i] = b; }
        1 => { let i = choose(v.len()); v.remove(i); }
        2 => { let i = choose(v.len() + 1); let b = any_u8(); assume((b >= b' ') & (b < 127)); v.insert(i, b); }
        _ => v = match choose(6) { 0 => String::new(), 1 => format!("{}-rc.1", VERSION), 2 => format!("{}+b", VERSION), 3 => format!("0.{}", VERSION), 4 => VERSION.split('.').take(2).collect::<Vec<_>>().join("."), _ => "99.0.0".into() }.into_bytes(),
    }
    let same = v == good;
    let v = String::from_utf8(v).unwrap();
    fake(0, Fake::new(Some(meta("x", &v))));
    fake(1, Fake::new(Some(meta("y", VERSION))));
    let got: Vec<String> = offered(urls(2)).into_iter().map(|r| r.id).collect();
    if same { check(got == ["x", "y"], "[R03] a runner of the same version is used"); reach("same"); }
    else { check(got == ["y"], "[R03] a runner of another version is not used, the others are"); reach("other"); }
}
/// any mixture of good, unreachable, failing, foreign and duplicate runners
#[no_mangle]
pub extern "C" fn sx_remote_register() {
    setup();
    let mut want: Vec<String> = vec![];
    let mut list = vec![];
    for i in 0..3 {
        let id = if i > 0 { match choose(3) { 0 => "s0".to_string(), 1 => ["", "s00", "S0"][i].to_string(), _ => format!("s{}", i) } } else { "s0".to_string() };
        match choose(if i == 0 { 2 } else { 5 }) {
            0 => { fake(i, Fake::new(Some(meta(&id, VERSION)))); if !want.contains(&id) { want.push(id); } list.push(format!("http://{}", ADDR[i])); }
            1 => list.push(format!("http://{}", ADDR[i])),
            2 => { fake(i, Fake::new(None)); list.push(format!("http://{}", ADDR[i])); }
            3 => { fake(i, Fake::new(Some(meta(&id, "0.1.0")))); list.push(format!("http://{}", ADDR[i])); }
            _ => list.push(" not a url".into()),
        }
    }
    let got: Vec<String> = offered(list).into_iter().map(|r| r.id).collect();
    want.sort();
    check(got == want, "[R03] every reachable runner of the right version is used once, whatever happens to the others");
    reach("completed");
}
/// six addresses of which one is bad, or all of which are good: the others are used
#[no_mangle]
pub extern "C" fn sx_remote_six() {
    setup();
    let (at, how) = (choose(6), choose(6));
    let mut list = vec![];
    let mut want = vec![];
    for i in 0..6 {
        let id = if i == at && how == 4 { format!("r{}", (i + 1) % 6) } else { format!("r{}", i) };
        let m = meta(&id, if i == at && how == 3 { "9" } else { VERSION });
        if !(i == at && how == 1) { fake(i, Fake::new(if i == at && how == 2 { None } else { Some(m) })); }
        list.push(if i == at && how == 5 { "::".to_string() } else { format!("http://{}", ADDR[i]) });
        if !(i == at && how > 0) { want.push(format!("r{}", i)); }
    }
    let got: Vec<String> = offered(list).into_iter().map(|r| r.id).collect();
    check(got == want, "[R03] every reachable runner of the right version is used once, whatever happens to the others");
    reach("completed");
}
/// a runner is offered as it describes itself
#[no_mangle]
pub extern "C" fn sx_remote_metadata() {
    setup();
    let (d, h) = (any_bool(), any_bool());
    let max = match choose(4) { 0 => i32::MAX, 1 => i32::MIN, 2 => 1000, _ => { let b = any_u8(); assume(b < 10); b as i32 } };
    let id = pick(&["x", "", "\u{e9} \"1\""]).to_string();
    let s = AstroRunRemoteRunnerServer::builder().id(id.clone()).support_docker(d).support_host(h).max_runs(max).runner(SRunner { i: 0, refuse: false }).build().ok().unwrap();
    tokio::spawn(async move { let _ = s.serve(ADDR[0]).await; });
    rt::settle();
    let v = offered(urls(1));
    check(v.len() == 1, "[R03] a runner of the same version is used");
    let m = &v[0];
    check(m.id == id && m.support_docker == d && m.support_host == h && m.max_runs == max && m.version == VERSION && m.os == std::env::consts::OS && m.arch == std::env::consts::ARCH, "[R03] a runner is offered to the scheduler as it was configured");
    reach("completed");
}

// ---------------------------------------------------------------- events (R04)
/// every connected runner is told what the coordinator's own observers are told
#[no_mangle]
pub extern "C" fn sx_remote_events() {
    setup();
    struct Down(usize);
    impl net::Net for Down { fn call(&self, a: &str, path: &str) -> net::Fault { if self.0 < 2 && path.ends_with("/SendEvent") && a == ADDR[self.0] { net::Fault::Refused } else { net::Fault::None } } }
    let down = choose(3);
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    *net::world().net.borrow_mut() = Box::new(Down(down));
    let mut w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &["a"])]);
    w.jobs.get_mut("a").unwrap().steps[1].continue_on_error = any_bool();
    let out = run_workflow(w, c.ar.execution_context().build());
    loop {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        let tx = rec().borrow().live[l[0]].tx.clone();
        if any_bool() { tx.log("hello"); tx.error("oops"); }
        finish(l[0], if any_bool() { RunResult::Succeeded } else { RunResult::Failed { exit_code: 5 } });
    }
    check(out.is_set(), "[R04] the run completes");
    let mine = states(1);
    for i in 0..2 {
        if i == down { continue; }
        check(states(10 + i) == mine, "[R04] every connected runner is told everything, once and in order");
        check(states(20 + i) == mine, "[R04] the plugins of every connected runner are told everything, once and in order");
    }
    let told: Vec<String> = c.sched.told.lock().unwrap().iter().filter(|t| !t.starts_with("schedule")).cloned().collect();
    let want: Vec<String> = events(1).iter().filter_map(|e| match e { E::RunWf(s) | E::RunJob(s) | E::RunStep(s) => Some(format!("run {}", s)), E::WfDone(r) => Some(format!("done {}", r.id)), E::JobDone(r) => Some(format!("done {}", r.id)), E::StepDone(r) => Some(format!("done {}", r.id)), _ => None }).collect();
    check(told == want, "[R04] the scheduler is told of every run, job and step, and of its end");
    check(!c.stopped.is_set(), "[R04] forwarding goes on");
    reach("completed");
}
/// more events at once than are buffered: what is forwarded is still in order, once, and goes on
#[no_mangle]
pub extern "C" fn sx_remote_lag() {
    setup();
    server(0, false);
    let c = coordinator(urls(1));
    let n = *pick(&[10usize, 29, 30, 31, 45, 100]);
    let id = StepId::new("w", "a", 0);
    let send = |k: usize| { let c = c.client.clone(); let id = id.clone(); rt::block_on(async move { let _ = c.on_log(WorkflowLog { step_id: id, message: format!("{}", k), ..Default::default() }).await; }); };
    // nothing else runs while these are reported
    let burst = { let c = c.client.clone(); let id = id.clone(); async move { for k in 0..n { let _ = c.on_log(WorkflowLog { step_id: id.clone(), message: format!("{}", k), ..Default::default() }).await; } } };
    rt::block_on(burst);
    rt::settle();
    let first: Vec<usize> = logs(10).iter().map(|x| x.0.parse().unwrap()).collect();
    check(first.windows(2).all(|w| w[0] < w[1]), "[R04] events are forwarded in order, each at most once");
    check(first.last() == Some(&(n - 1)), "[R04] the latest events are forwarded");
    if n <= 30 { check(first.len() == n, "[R04] every connected runner is told everything, once and in order"); }
    for k in 0..3 { send(1000 + k); rt::settle(); }
    check(!c.stopped.is_set(), "[R04] forwarding goes on");
    let all = logs(10);
    check(all.len() == first.len() + 3, "[R04] forwarding goes on after a burst of events");
    check(logs(20) == all, "[R04] the plugins of every connected runner are told everything, once and in order");
    if n > 30 { reach("burst"); } else { reach("buffered"); }
}

// ---------------------------------------------------------------- changes by remote runners (R06)
struct Add { i: usize, how: usize, seen: std::sync::Arc<std::sync::Mutex<Vec<Step>>> }
#[async_trait]
impl Plugin for Add {
    fn name(&self) -> &'static str { "add" }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.seen.lock().unwrap().push(e.source); Ok(()) }
    async fn on_before_run_step(&self, mut s: Step) -> HookBeforeRunStepResult {
        match self.how { 0 => Ok(s), 1 => { s.environments.insert(format!("P{}", self.i), EnvironmentVariable::Boolean(true)); Ok(s) } _ => Err(Error::error("plugin not found")) }
    }
}
struct AddRunner { i: usize, how: usize }
#[async_trait]
impl Runner for AddRunner {
    async fn on_before_run_step(&self, mut s: Step) -> HookBeforeRunStepResult {
        match self.how { 0 => Ok(s), 1 => { s.environments.insert(format!("R{}", self.i), EnvironmentVariable::Boolean(true)); s.timeout = Duration::from_secs(77); Ok(s) } k => Err(match k + self.i { 2 => Error::error("Step not found: cancelled, timeout, unimplemented"), 3 if self.i == 1 => Error::workflow_config_error("not found"), _ => Error::error("") }) }
    }
    async fn run(&self, ctx: Context) -> RunResponse {
        rec().borrow_mut().ctxs.push(ctx.clone());
        let (tx, rx) = stream();
        tx.end(RunResult::Succeeded);
        Ok(rx)
    }
}
#[no_mangle]
pub extern "C" fn sx_remote_before() {
    setup();
    struct Down(usize);
    impl net::Net for Down { fn call(&self, a: &str, path: &str) -> net::Fault { if self.0 < 2 && path.ends_with("/CallBeforeRunStepHook") && a == ADDR[self.0] { net::Fault::Refused } else { net::Fault::None } } }
    let how: Vec<(usize, usize)> = (0..2).map(|i| (choose(3), if i == 0 { choose(4) } else { choose(3) })).collect();
    let seen: std::sync::Arc<std::sync::Mutex<Vec<Step>>> = Default::default();
    for i in 0..2 {
        let s = AstroRunRemoteRunnerServer::builder().id(format!("s{}", i)).support_docker(true).runner(AddRunner { i, how: how[i].1 }).plugin(Add { i, how: how[i].0, seen: seen.clone() }).build().ok().unwrap();
        tokio::spawn(async move { let _ = s.serve(ADDR[i]).await; });
        rt::settle();
    }
    let c = coordinator(urls(2));
    let down = choose(3);
    *net::world().net.borrow_mut() = Box::new(Down(down));
    let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
    {
        let s = &mut w.jobs.get_mut("a").unwrap().steps[0];
        let v = choose(3);
        s.name = match v { 0 => None, 1 => Some("n".into()), _ => Some("".into()) };
        s.continue_on_error = v == 1;
        s.container = match v { 0 => None, 1 => Some(ContainerOptions { name: "c".into(), volumes: Some(vec!["v".into()]), security_opts: None }), _ => Some(ContainerOptions { name: " ".into(), volumes: Some(vec![]), security_opts: Some(vec!["".into()]) }) };
        s.secrets = match v { 0 => vec![], 1 => vec!["x".into()], _ => vec!["".into(), " y".into(), "".into()] };
        if v == 1 { s.on = Some(Condition::Event(vec!["push".into()])); }
        if v == 2 { s.run = " ".into(); s.timeout = Duration::from_millis(1500); }
        s.environments.insert("E".into(), EnvironmentVariable::Number(2.0));
    }
    let orig = w.jobs["a"].steps[0].clone();
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    check(out.is_set(), "[R06] a hook that fails does not keep the step from running");
    let g = rec().borrow();
    check(g.ctxs.len() == 1, "[R06] the step is run once");
    let x = &g.ctxs[0].command;
    // one that cannot be asked or refuses makes all remote changes void
    let void = down < 2 || how.iter().any(|h| h.1 >= 2);
    let mut keys: Vec<String> = x.environments.keys().cloned().collect();
    keys.sort();
    let mut want = vec!["E".to_string()];
    for i in 0..2 { if !void && how[i].0 == 1 { want.push(format!("P{}", i)); } }
    for i in 0..2 { if !void && how[i].1 == 1 { want.push(format!("R{}", i)); } }
    want.sort();
    check(keys == want, if void { "[R06] a runner that fails leaves the step as it was" } else { "[R06] the step is run as changed by the plugins and runners of all connected runners" });
    let t = if !void && how.iter().any(|h| h.1 == 1) { Duration::from_secs(77) } else { orig.timeout };
    check(x.timeout == t, "[R06] the step is run as changed by the plugins and runners of all connected runners");
    check(x.id == orig.id && x.name == orig.name && x.run == orig.run && x.secrets == orig.secrets && x.continue_on_error == orig.continue_on_error && format!("{:?}", x.container) == format!("{:?}", orig.container) && x.environments.get("E") == Some(&EnvironmentVariable::Number(2.0)), "[R06] what no one changes stays as it was");
    let seen = seen.lock().unwrap();
    check(seen.len() == 2 && seen.iter().all(|s| same_command(&s.clone().into(), x) && s.on == orig.on), "[R06] the step is announced as it is run, its condition unchanged");
    reach(if void { "void" } else { "applied" });
}

// ---------------------------------------------------------------- messages (R05)
mod pay {
    #[derive(serde::Serialize, serde::Deserialize, Clone)]
    pub struct Pay { pub n: u8, pub s: String }
    #[typetag::serde]
    impl astro_run::ContextPayloadExt for Pay { fn as_any(&self) -> &dyn std::any::Any { self } }
}
use pay::Pay;
fn any_event() -> TriggerEvent { TriggerEvent { event: word(), repo_owner: "o".into(), repo_name: "r".into(), pr_number: *pick(&[None, Some(0), Some(i64::MIN), Some(i64::MAX)]), sha: "s".into(), branch: "b".into(), ref_name: "f".into() } }
fn same_event(a: &TriggerEvent, b: &TriggerEvent) -> bool { a.event == b.event && a.repo_owner == b.repo_owner && a.repo_name == b.repo_name && a.pr_number == b.pr_number && a.sha == b.sha && a.branch == b.branch && a.ref_name == b.ref_name }
fn any_command() -> Command {
    let mut e = EnvironmentVariables::new();
    match choose(5) { 0 => {} 1 => { e.insert("K".into(), EnvironmentVariable::String(word())); } 2 => { e.insert("N".into(), EnvironmentVariable::Number(*pick(&[0.0, -0.5, 1e300, 3.0]))); } 3 => { e.insert("B".into(), EnvironmentVariable::Boolean(any_bool())); } _ => { e.insert("1".into(), EnvironmentVariable::String("1".into())); e.insert("2".into(), EnvironmentVariable::Boolean(false)); } }
    let t = *pick(&[Duration::from_secs(0), Duration::from_millis(1), Duration::from_secs(u64::MAX), Duration::new(5, 999_999_999)]);
    Command { id: StepId::new("w", "a", *pick(&[0usize, usize::MAX])), name: if any_bool() { Some("n".into()) } else { None }, container: match choose(3) { 0 => None, 1 => Some(ContainerOptions { name: "c".into(), volumes: None, security_opts: None }), _ => Some(ContainerOptions { name: "c".into(), volumes: Some(vec!["v:/v".into()]), security_opts: Some(vec![]) }) }, run: "echo \"$X\" > y\n".into(), continue_on_error: any_bool(), environments: e, secrets: if any_bool() { vec!["s".into()] } else { vec![] }, timeout: t }
}
fn same_command(x: &Command, s: &Command) -> bool {
    x.id == s.id && x.name == s.name && x.run == s.run && x.continue_on_error == s.continue_on_error && x.secrets == s.secrets && x.timeout == s.timeout && x.environments == s.environments
        && match (&x.container, &s.container) { (None, None) => true, (Some(a), Some(b)) => a.name == b.name && a.volumes == b.volumes && a.security_opts == b.security_opts, _ => false }
}
fn client() -> astro_run_protocol::remote_runner::RemoteRunnerClient<net::Channel> {
    match rt::block_on(astro_run_protocol::remote_runner::RemoteRunnerClient::connect(format!("http://{}", ADDR[0]))) { Ok(c) => c, Err(_) => fail("[R05] a server can be reached") }
}
/// a step, as it is handed to a remote runner
#[no_mangle]
pub extern "C" fn sx_msg_context() {
    setup();
    let f = Fake::new(None);
    fake(0, f.clone());
    let c = any_command();
    let ctx = Context { id: c.id.clone(), signal: AstroRunSignal::new(), command: c, event: None, payload: None };
    let mut k = client();
    let c2 = ctx.clone();
    check(rt::block_on(async move { k.run(c2).await.is_ok() }), "[R05] a message can be sent");
    let g = f.got.lock().unwrap();
    check(g.len() == 1 && g[0].id == ctx.id && same_command(&g[0].command, &ctx.command), "[R05] a step arrives at its runner as it was sent");
    check(!g[0].signal.is_cancelled() && !g[0].signal.is_timeout(), "[R05] a step arrives at its runner as it was sent");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_msg_context2() {
    setup();
    let f = Fake::new(None);
    fake(0, f.clone());
    let mut c = ctx0();
    c.command.run = word();
    c.payload = if any_bool() { Some(word()) } else { None };
    c.event = if any_bool() { Some(any_event()) } else { None };
    let mut k = client();
    let c2 = c.clone();
    check(rt::block_on(async move { k.run(c2).await.is_ok() }), "[R05] a message can be sent");
    let g = f.got.lock().unwrap();
    check(g.len() == 1 && same_command(&g[0].command, &c.command) && g[0].payload == c.payload && match (&g[0].event, &c.event) { (None, None) => true, (Some(a), Some(b)) => same_event(a, b), _ => false }, "[R05] a step arrives at its runner as it was sent");
    reach("completed");
}
fn ctx0() -> Context { let id = StepId::new("w", "a", 1); Context { id: id.clone(), signal: AstroRunSignal::new(), command: Command { id, run: "r".into(), ..Default::default() }, event: None, payload: None } }
/// the step hook goes there and back
#[no_mangle]
pub extern "C" fn sx_msg_command() {
    setup();
    let f = Fake::new(None);
    fake(0, f.clone());
    let c = any_command();
    let mut k = client();
    let c2 = c.clone();
    let Ok(r) = rt::block_on(async move { k.call_before_run_step_hook(c2).await }) else { fail("[R05] a message can be sent") };
    check(same_command(&f.commands.lock().unwrap()[0], &c) && same_command(&r.into_inner(), &c), "[R05] a step goes to a hook and back unchanged");
    reach("completed");
}
/// lines and outcomes, as they come back
#[no_mangle]
pub extern "C" fn sx_msg_reply() {
    setup();
    let f = Fake::new(None);
    fake(0, f.clone());
    let id = StepId::new("w", "a", 1);
    let log = if any_bool() { Log::error(word()) } else { Log::log(word()) };
    let r = match choose(3) { 0 => RunResult::Succeeded, 1 => RunResult::Cancelled, _ => RunResult::Failed { exit_code: match choose(3) { 0 => any_u8() as i8 as i32, 1 => i32::MIN, _ => i32::MAX } } };
    *f.replies.lock().unwrap() = vec![Reply::log(id.clone(), log.clone()), Reply::result(id.clone(), r.clone())];
    let mut k = client();
    let got = rt::block_on(async move {
        let mut v = vec![];
        let mut s = match k.run(ctx0()).await { Ok(s) => s.into_inner(), Err(_) => fail("[R05] a message can be sent") };
        while let Ok(Some(x)) = s.message().await { v.push(x); }
        v
    });
    check(got.len() == 2, "[R05] every reply arrives");
    match &got[0] { Reply::Log { step_id, log: l } => check(*step_id == id && l.message == log.message && l.is_error() == log.is_error(), "[R05] a line arrives as it was sent"), _ => fail("[R05] a line arrives as it was sent") }
    match &got[1] { Reply::Result { step_id, result } => check(*step_id == id && *result == r, "[R05] an outcome arrives as it was sent"), _ => fail("[R05] an outcome arrives as it was sent") }
    reach("completed");
}
fn time(n: i64) -> Option<astro_run_time::T> { if any_bool() { Some(astro_run_time::at(n)) } else { None } }
mod astro_run_time { pub type T = chrono::DateTime<chrono::Utc>; pub fn at(n: i64) -> T { chrono::DateTime::from_timestamp(1_700_000_000 + n, 123_456_789).unwrap() } }
fn any_state() -> WorkflowState { pick(&[WorkflowState::Pending, WorkflowState::Queued, WorkflowState::InProgress, WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled, WorkflowState::Skipped]).clone() }
fn step_res() -> StepRunResult { StepRunResult { id: StepId::new("w", "a", 3), state: any_state(), exit_code: match choose(3) { 0 => None, 1 => { let b = any_u8(); assume(b < 100); Some(b as i32) } _ => Some(-1) }, started_at: time(1), completed_at: time(2) } }
fn same_sr(a: &StepRunResult, b: &StepRunResult) -> bool { a.id == b.id && a.state == b.state && a.exit_code == b.exit_code && a.started_at == b.started_at && a.completed_at == b.completed_at }
fn same_jr(a: &JobRunResult, b: &JobRunResult) -> bool { a.id == b.id && a.state == b.state && a.started_at == b.started_at && a.completed_at == b.completed_at && a.steps.len() == b.steps.len() && a.steps.iter().zip(&b.steps).all(|(x, y)| same_sr(x, y)) }
fn same_step(x: &Step, s: &Step) -> bool { same_command(&x.clone().into(), &s.clone().into()) && x.on == s.on }
fn same_job(x: &Job, s: &Job) -> bool { x.id == s.id && x.name == s.name && x.depends_on == s.depends_on && x.working_directories == s.working_directories && x.on == s.on && x.steps.len() == s.steps.len() && x.steps.iter().zip(&s.steps).all(|(a, b)| same_step(a, b)) }
fn same_pay(a: &Option<ContextPayload>, n: bool) -> bool { match a { None => !n, Some(x) => n && x.payload::<Pay>().map(|p| p.n == 7 && p.s == "\"x") == Some(true) } }
/// everything a coordinator reports to its runners
#[no_mangle]
pub extern "C" fn sx_msg_event() {
    setup();
    let f = Fake::new(None);
    fake(0, f.clone());
    let mut k = client();
    let sent: ProtocolEvent;
    let sj = || { let mut j = job("w", "a", 2, &["z"]); j.name = if any_bool() { Some(word()) } else { None }; j.working_directories = vec!["/d".into()]; if any_bool() { j.on = Some(Condition::Event(vec!["push".into()])); } j.steps[1].run = "x y".into(); j };
    let te = || if any_bool() { Some(any_event()) } else { None };
    let pays = any_bool();
    let pl = || if pays { Some(ContextPayload::new(Pay { n: 7, s: "\"x".into() })) } else { None };
    match choose(9) {
        0 => { let mut s = step("w", "a", 1); s.name = Some(word()); sent = ProtocolEvent::RunStep(RunStepEvent { source: s, trigger_event: te(), payload: pl() }) }
        1 => sent = ProtocolEvent::RunJob(RunJobEvent { source: sj(), trigger_event: te(), payload: pl() }),
        2 => { let mut w = workflow("w", vec![sj()]); w.name = Some("n".into()); sent = ProtocolEvent::RunWorkflow(RunWorkflowEvent { source: w, trigger_event: te(), payload: pl() }) }
        3 => sent = ProtocolEvent::StepCompleted(step_res()),
        4 => sent = ProtocolEvent::JobCompleted(JobRunResult { id: JobId::new("w", "a"), state: any_state(), started_at: time(1), completed_at: time(2), steps: if any_bool() { vec![step_res()] } else { vec![] } }),
        5 => sent = ProtocolEvent::WorkflowCompleted(WorkflowRunResult { id: WorkflowId::new(word()), state: any_state(), started_at: time(1), completed_at: time(2), jobs: [("a".to_string(), JobRunResult { id: JobId::new("w", "a"), state: any_state(), started_at: None, completed_at: None, steps: vec![] })].into_iter().collect() }),
        6 => sent = ProtocolEvent::StepLog(WorkflowLog { step_id: StepId::new("w", "a", 2), log_type: if any_bool() { WorkflowLogType::Error } else { WorkflowLogType::Log }, message: word(), time: astro_run_time::at(5) }),
        7 => sent = ProtocolEvent::StateChange(match choose(3) { 0 => WorkflowStateEvent::WorkflowStateUpdated { id: WorkflowId::new(word()), state: any_state() }, 1 => WorkflowStateEvent::JobStateUpdated { id: JobId::new("w", word()), state: any_state() }, _ => WorkflowStateEvent::StepStateUpdated { id: StepId::new("w", word(), 4), state: any_state() } }),
        _ => sent = ProtocolEvent::Signal(astro_run_protocol::SignalEvent { step_id: StepId::new(word(), "a", 6), signal: if any_bool() { Signal::Cancel } else { Signal::Timeout } }),
    }
    let s2 = sent.clone();
    check(rt::block_on(async move { k.send_event(s2).await.is_ok() }), "[R05] a message can be sent");
    let g = f.events.lock().unwrap();
    check(g.len() == 1, "[R05] every event arrives");
    let tev = |a: &Option<TriggerEvent>, b: &Option<TriggerEvent>| match (a, b) { (None, None) => true, (Some(a), Some(b)) => same_event(a, b), _ => false };
    let ok = match (&g[0], &sent) {
        (ProtocolEvent::RunStep(a), ProtocolEvent::RunStep(b)) => same_step(&a.source, &b.source) && tev(&a.trigger_event, &b.trigger_event) && same_pay(&a.payload, pays),
        (ProtocolEvent::RunJob(a), ProtocolEvent::RunJob(b)) => same_job(&a.source, &b.source) && tev(&a.trigger_event, &b.trigger_event) && same_pay(&a.payload, pays),
        (ProtocolEvent::RunWorkflow(a), ProtocolEvent::RunWorkflow(b)) => a.source.id == b.source.id && a.source.name == b.source.name && a.source.jobs.len() == 1 && same_job(&a.source.jobs["a"], &b.source.jobs["a"]) && tev(&a.trigger_event, &b.trigger_event) && same_pay(&a.payload, pays),
        (ProtocolEvent::StepCompleted(a), ProtocolEvent::StepCompleted(b)) => same_sr(a, b),
        (ProtocolEvent::JobCompleted(a), ProtocolEvent::JobCompleted(b)) => same_jr(a, b),
        (ProtocolEvent::WorkflowCompleted(a), ProtocolEvent::WorkflowCompleted(b)) => a.id == b.id && a.state == b.state && a.started_at == b.started_at && a.completed_at == b.completed_at && a.jobs.len() == 1 && same_jr(&a.jobs["a"], &b.jobs["a"]),
        (ProtocolEvent::StepLog(a), ProtocolEvent::StepLog(b)) => a.step_id == b.step_id && a.log_type == b.log_type && a.message == b.message && a.time == b.time,
        (ProtocolEvent::StateChange(a), ProtocolEvent::StateChange(b)) => match (a, b) {
            (WorkflowStateEvent::WorkflowStateUpdated { id, state }, WorkflowStateEvent::WorkflowStateUpdated { id: i, state: s }) => id == i && state == s,
            (WorkflowStateEvent::JobStateUpdated { id, state }, WorkflowStateEvent::JobStateUpdated { id: i, state: s }) => id == i && state == s,
            (WorkflowStateEvent::StepStateUpdated { id, state }, WorkflowStateEvent::StepStateUpdated { id: i, state: s }) => id == i && state == s,
            _ => false,
        },
        (ProtocolEvent::Signal(a), ProtocolEvent::Signal(b)) => a.step_id == b.step_id && a.signal == b.signal,
        _ => false,
    };
    check(ok, "[R05] an event arrives as it was sent");
    reach("completed");
}

// ---------------------------------------------------------------- larger worlds
/// several runs, one after another, over the same connections: every step on the runner chosen for it, every line and outcome its own
fn rounds(servers: usize, runs: usize) {
    setup();
    for i in 0..servers { server(i, false); }
    let c = coordinator(urls(servers));
    let long: String = "0123456789abcdef".repeat(128);
    let mut total = 0;
    for k in 0..runs {
        let to: Vec<usize> = (0..3).map(|j| (k + j) % servers).collect();
        *c.sched.to.lock().unwrap() = to.iter().map(|i| format!("s{}", i)).collect();
        let (again, how) = (any_bool(), choose(3));
        let id = if again { "w".to_string() } else { format!("w{}", k) };
        let mut w = workflow(&id, vec![job(&id, "a", 3, &[])]);
        for s in &mut w.jobs.get_mut("a").unwrap().steps { s.continue_on_error = true; }
        let from = events(1).len();
        let out = run_workflow(w, c.ar.execution_context().build());
        let mut results = vec![];
        for n in 0..3 {
            rt::settle();
            let l = live();
            check(l.len() == 1 && rec().borrow().live[l[0]].id == format!("{}/a/{}", id, n) && rec().borrow().live[l[0]].job == format!("{}", to[n]), "[R01] a step runs on the runner the scheduler chose, once");
            let tx = rec().borrow().live[l[0]].tx.clone();
            let lines = n * 2 + k;
            for m in 0..lines { tx.log(if m == 1 { format!("{}{}", long, m) } else { format!("{}.{}", k, m) }); }
            total += lines;
            let r = match (how + n) % 3 { 0 => RunResult::Succeeded, 1 => RunResult::Failed { exit_code: k as i32 + 1 }, _ => RunResult::Failed { exit_code: -1 } };
            finish(l[0], r.clone());
            results.push((lines, r));
        }
        rt::settle();
        let Some(x) = out.take() else { fail("[R01] a step executed remotely always ends") };
        let ev = events(1)[from..].to_vec();
        for (n, (lines, r)) in results.iter().enumerate() {
            check(same_steps(&x.jobs["a"].steps[n], r), "[R01] the outcome of the step is the one its remote runner gave");
            let got: Vec<String> = ev.iter().filter_map(|e| match e { E::Log(l) if l.step_id == StepId::new(id.as_str(), "a", n) => Some(l.message.clone()), _ => None }).collect();
            check(got.len() == *lines && got.iter().enumerate().all(|(m, t)| *t == if m == 1 { format!("{}{}", long, m) } else { format!("{}.{}", k, m) }), "[R01] every line of a remote runner arrives once, unchanged, in order and with its kind");
        }
    }
    check(logs(1).len() == total, "[R01] every line of a remote runner arrives once, unchanged, in order and with its kind");
    for i in 0..servers { check(states(10 + i) == states(1), "[R01,R04] every connected runner is told everything, once and in order"); }
    check(!c.stopped.is_set(), "[R01,R04] forwarding goes on");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_remote_rounds() { rounds(3, 2) }
#[no_mangle]
pub extern "C" fn sx_remote_rounds4() { rounds(3, 3) }

/// steps with the same job of different runs, or of a repeated run, on one runner: a signal is for one of them
#[no_mangle]
pub extern "C" fn sx_remote_signal_runs() {
    setup();
    own_wall_clock();
    server(0, false);
    let c = coordinator(urls(1));
    let mk = |id: &str| { let mut w = workflow(id, vec![job(id, "a", 2, &[]), job(id, "b", 1, &[])]); w.jobs.get_mut("a").unwrap().steps[0].timeout = Duration::from_secs(10); w.jobs.get_mut("a").unwrap().steps[1].continue_on_error = true; w };
    let out1 = run_workflow(mk("w"), c.ar.execution_context().build());
    let out2 = run_workflow(mk("ww"), c.ar.execution_context().build());
    rt::settle();
    check(live().len() == 4, "[R02] the steps are run by remote runners");
    let cancel = any_bool();
    if cancel {
        check(c.ar.cancel_job(&JobId::new("w", "a")).is_ok(), "[R02] a running job can be cancelled");
        rt::settle();
        check(sig("w/a/0").map_or(false, |s| s.is_cancelled() && !s.is_timeout()), "[R02] a cancellation reaches the remote runner of the step");
        check(quiet("ww/a/0") && quiet("w/b/0") && quiet("ww/b/0"), "[R02] a signal reaches only the step it is meant for");
        reach("cancelled");
    } else {
        rt::block_on(tokio::time::sleep(Duration::from_secs(20)));
        rt::settle();
        for w in ["w", "ww"] { check(sig(&format!("{}/a/0", w)).map_or(false, |s| s.is_timeout() && !s.is_cancelled()), "[R02] a timeout reaches the remote runner of the step"); }
        check(quiet("w/b/0") && quiet("ww/b/0"), "[R02] a signal reaches only the step it is meant for");
        reach("timed out");
    }
    for _ in 0..4 { for x in live() { let told = !quiet(&rec().borrow().live[x].id.clone()); finish(x, if told { RunResult::Cancelled } else { RunResult::Succeeded }); } rt::settle(); }
    check(out1.is_set() && out2.is_set(), "[R02] the run completes");
    // the same run again
    rec().borrow_mut().live.clear();
    let out3 = run_workflow(mk("w"), c.ar.execution_context().build());
    rt::settle();
    check(live().len() == 2 && quiet("w/a/0") && quiet("w/b/0"), "[R02] a signal reaches only the step it is meant for");
    let which = *pick(&["a", "b"]);
    let other = if which == "a" { "b" } else { "a" };
    check(c.ar.cancel_job(&JobId::new("w", which)).is_ok(), "[R02] a running job can be cancelled");
    rt::settle();
    check(sig(&format!("w/{}/0", which)).map_or(false, |s| s.is_cancelled()), "[R02] a cancellation reaches the remote runner of the step");
    check(quiet(&format!("w/{}/0", other)), "[R02] a signal reaches only the step it is meant for");
    for x in live() { finish(x, RunResult::Cancelled); }
    rt::settle();
    check(out3.is_set(), "[R02] the run completes");
    reach("completed");
}

/// a long job on one runner: whichever of its steps runs is the one that is told
#[no_mangle]
pub extern "C" fn sx_remote_signal_step() {
    setup();
    own_wall_clock();
    server(0, false);
    let c = coordinator(urls(1));
    let n = 4;
    let mut w = workflow("w", vec![job("w", "a", n, &[]), job("w", "b", 1, &[])]);
    for s in &mut w.jobs.get_mut("a").unwrap().steps { s.continue_on_error = true; s.timeout = Duration::from_secs(10); }
    let at = choose(n);
    let cancel = any_bool();
    let out = run_workflow(w, c.ar.execution_context().build());
    for i in 0..n {
        rt::settle();
        let id = format!("w/a/{}", i);
        let Some(s) = sig(&id) else { fail("[R02] the steps are run by remote runners") };
        check(!s.is_cancelled() && !s.is_timeout(), "[R02] a signal reaches only the step it is meant for");
        if i == at {
            if cancel { check(c.ar.cancel_job(&JobId::new("w", "a")).is_ok(), "[R02] a running job can be cancelled"); } else { rt::block_on(tokio::time::sleep(Duration::from_secs(12))); }
            rt::settle();
            check(s.is_cancelled() == cancel && s.is_timeout() != cancel, "[R02] the signal reaches the remote runner of the step with its kind");
        }
        let x = live().into_iter().find(|x| rec().borrow().live[*x].id == id).unwrap();
        finish(x, if i == at { if cancel { RunResult::Cancelled } else { RunResult::Failed { exit_code: 1 } } } else { RunResult::Succeeded });
        rt::settle();
        check(quiet("w/b/0"), "[R02] a signal reaches only the step it is meant for");
        for j in 0..i { check(quiet(&format!("w/a/{}", j)) || j == at, "[R02] a signal reaches only the step it is meant for"); }
        if i == at && cancel { break; }
    }
    for x in live() { finish(x, RunResult::Succeeded); }
    rt::settle();
    check(out.is_set(), "[R02] the run completes");
    reach(if cancel { "cancelled" } else { "timed out" });
}

/// a run with the identifiers of an earlier one whose last events were lost
#[no_mangle]
pub extern "C" fn sx_remote_signal_again() {
    setup();
    own_wall_clock();
    struct Lossy(Arc<Mutex<bool>>);
    impl net::Net for Lossy { fn call(&self, _: &str, path: &str) -> net::Fault { if *self.0.lock().unwrap() && path.ends_with("/SendEvent") { net::Fault::Refused } else { net::Fault::None } } }
    server(0, false);
    let c = coordinator(urls(1));
    let lost = Arc::new(Mutex::new(false));
    *net::world().net.borrow_mut() = Box::new(Lossy(lost.clone()));
    let n = choose(2) + 1;
    let first = choose(3);
    for k in 0..=n {
        let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
        w.jobs.get_mut("a").unwrap().steps[0].timeout = Duration::from_secs(10);
        let out = run_workflow(w, c.ar.execution_context().build());
        rt::settle();
        let l = live();
        check(l.len() == 1 && l[0] == k, "[R02] the steps are run by remote runners");
        let s = rec().borrow().live[k].sig.clone();
        check(!s.is_cancelled() && !s.is_timeout(), "[R02] a signal reaches only the step it is meant for");
        let how = if k == n { 1 + choose(2) } else { first };
        if how == 1 { check(c.ar.cancel_job(&JobId::new("w", "a")).is_ok(), "[R02] a running job can be cancelled"); }
        if how == 2 { rt::block_on(tokio::time::sleep(Duration::from_secs(12))); }
        rt::settle();
        check(s.is_cancelled() == (how == 1) && s.is_timeout() == (how == 2), "[R02] the signal reaches the remote runner of the step with its kind");
        if k < n { *lost.lock().unwrap() = any_bool(); if *lost.lock().unwrap() { reach("lost"); } }
        finish(k, match how { 0 => RunResult::Succeeded, 1 => RunResult::Cancelled, _ => RunResult::Failed { exit_code: 1 } });
        rt::settle();
        *lost.lock().unwrap() = false;
        check(out.is_set(), "[R02] the run completes");
    }
    reach("completed");
}
/// the end of a run, or of a job of it, leaves the steps of others within reach, whatever their identifiers
#[no_mangle]
pub extern "C" fn sx_remote_signal_ends() {
    setup();
    own_wall_clock();
    server(0, false);
    let c = coordinator(urls(1));
    let (x, y) = *pick(&[("w", "ww"), ("ww", "w"), ("w", "w/a"), ("w", "W"), ("w", ""), ("", "w"), ("w", "v")]);
    let mk = |id: &str| { let mut w = workflow(id, vec![job(id, "a", 1, &[]), job(id, "ab", 1, &[])]); for j in w.jobs.values_mut() { j.steps[0].timeout = Duration::from_secs(100); } w };
    let out1 = run_workflow(mk(x), c.ar.execution_context().build());
    rt::settle();
    let out2 = run_workflow(mk(y), c.ar.execution_context().build());
    rt::settle();
    let of = |w: &str, j: &str| { let id = StepId::new(w, j, 0).to_string(); live().into_iter().find(|i| rec().borrow().live[*i].id == id) };
    for j in ["a", "ab"] { let Some(i) = of(x, j) else { fail("[R02] the steps are run by remote runners") }; finish(i, RunResult::Succeeded); }
    rt::settle();
    check(out1.is_set(), "[R02] the run completes");
    let (j, o) = *pick(&[("a", "ab"), ("ab", "a")]);
    if any_bool() { let Some(i) = of(y, o) else { fail("[R02] the steps are run by remote runners") }; finish(i, RunResult::Succeeded); rt::settle(); }
    let cancel = any_bool();
    if cancel { check(c.ar.cancel_job(&JobId::new(y, j)).is_ok(), "[R02] a running job can be cancelled"); } else { rt::block_on(tokio::time::sleep(Duration::from_secs(101))); }
    rt::settle();
    let Some(i) = of(y, j) else { fail("[R02] the steps are run by remote runners") };
    let s = rec().borrow().live[i].sig.clone();
    check(s.is_cancelled() == cancel && s.is_timeout() != cancel, "[R02] the signal reaches the remote runner of the step with its kind");
    for i in live() { finish(i, RunResult::Cancelled); }
    rt::settle();
    check(out2.is_set(), "[R02] the run completes");
    reach(if cancel { "cancelled" } else { "timed out" });
}
/// jobs of one run on one or two runners that end one after another: each that is still running can be told
#[no_mangle]
pub extern "C" fn sx_remote_signal_jobs() {
    setup();
    own_wall_clock();
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    let split = any_bool();
    let print = split;
    let keys = ["a", "ab", "b", "a-b"];
    *c.sched.to.lock().unwrap() = (0..5).map(|i| if split && i % 2 == 1 { "s1".to_string() } else { "s0".to_string() }).collect();
    let cancel = any_bool();
    let limit = if cancel { Duration::from_secs(10) } else { *pick(&[Duration::from_millis(500), Duration::from_secs(7200)]) };
    let at = choose(4);
    let mut w = workflow("w", keys.iter().map(|k| job("w", k, 1, &[])).collect());
    if !cancel { w.jobs.get_mut(keys[at]).unwrap().steps[0].timeout = limit; }
    let other = if any_bool() { Some(run_workflow(workflow("v", vec![job("v", "a", 1, &[])]), c.ar.execution_context().build())) } else { None };
    let out = run_workflow(w, c.ar.execution_context().build());
    rt::settle();
    let find = |id: &str| live().into_iter().find(|x| rec().borrow().live[*x].id == id);
    let before = choose(2) * 3;
    if let Some(o) = &other { let Some(x) = find("v/a/0") else { fail("[R02] the steps are run by remote runners") }; finish(x, RunResult::Succeeded); rt::settle(); check(o.is_set(), "[R02] the run completes"); }
    // some of the others have ended by then
    let mut ended = 0;
    for k in 0..4 { if k != at && ended < before {
        let Some(x) = find(&format!("w/{}/0", keys[k])) else { fail("[R02] the steps are run by remote runners") };
        finish(x, match k % 3 { 0 => RunResult::Succeeded, 1 => RunResult::Failed { exit_code: 2 }, _ => RunResult::Cancelled });
        ended += 1;
        rt::settle();
    } }
    let id = format!("w/{}/0", keys[at]);
    if print { let Some(x) = find(&id) else { fail("[R02] the steps are run by remote runners") }; let tx = rec().borrow().live[x].tx.clone(); for k in 0..40 { tx.log(format!("{}", k)); } tx.error("e"); rt::settle(); }
    let Some(s) = sig(&id) else { fail("[R02] the steps are run by remote runners") };
    if cancel { check(c.ar.cancel_job(&JobId::new("w", keys[at])).is_ok(), "[R02] a running job can be cancelled"); } else { rt::block_on(tokio::time::sleep(limit + Duration::from_secs(1))); }
    rt::settle();
    check(s.is_cancelled() == cancel && s.is_timeout() != cancel, "[R02] the signal reaches the remote runner of the step with its kind");
    // the other steps may only have come to their own time limit
    for k in keys { if k != keys[at] && (cancel || limit < Duration::from_secs(60)) { check(quiet(&format!("w/{}/0", k)), "[R02] a signal reaches only the step it is meant for"); } }
    for x in live() { finish(x, RunResult::Cancelled); }
    rt::settle();
    check(out.is_set(), "[R02] the run completes");
    reach(if cancel { "cancelled" } else { "timed out" });
}

// everything an observer is given, as comparable values
type Told = Arc<Mutex<Vec<(String, serde_json::Value)>>>;
struct Full(Told);
impl Full {
    fn note(&self, k: &str, v: serde_json::Value) { self.0.lock().unwrap().push((k.into(), v)) }
    fn runs<T: std::fmt::Debug>(&self, k: &str, s: serde_json::Value, e: &Option<TriggerEvent>, p: &Option<ContextPayload>, _: &T) {
        self.note(k, s);
        self.note("event", match e { None => serde_json::Value::Null, Some(e) => serde_json::json!([e.event, e.repo_owner, e.repo_name, e.pr_number, e.sha, e.branch, e.ref_name]) });
        self.note("payload", match p { None => serde_json::Value::Null, Some(p) => p.payload::<Pay>().map(|p| serde_json::json!([p.n, p.s])).into() });
    }
}
fn js<T: serde::Serialize>(t: &T) -> serde_json::Value { serde_json::to_value(t).unwrap_or(serde_json::Value::Null) }
#[async_trait]
impl Plugin for Full {
    fn name(&self) -> &'static str { "full" }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { self.note("state", js(&e)); Ok(()) }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { self.note("log", js(&l)); Ok(()) }
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { self.runs("run", js(&e.source), &e.trigger_event, &e.payload, &()); Ok(()) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { self.runs("run", js(&e.source), &e.trigger_event, &e.payload, &()); Ok(()) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.runs("run", js(&e.source), &e.trigger_event, &e.payload, &()); Ok(()) }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { self.note("done", js(&r)); Ok(()) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { self.note("done", js(&r)); Ok(()) }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { self.note("done", js(&r)); Ok(()) }
}
/// the same, as the hooks of a runner
struct FullRunner { h: Full, at: usize }
#[async_trait]
impl Runner for FullRunner {
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { self.h.on_state_change(e).await }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { self.h.on_log(l).await }
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { self.h.on_run_workflow(e).await }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { self.h.on_run_job(e).await }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { self.h.on_run_step(e).await }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { self.h.on_workflow_completed(r).await }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { self.h.on_job_completed(r).await }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { self.h.on_step_completed(r).await }
    async fn run(&self, ctx: Context) -> RunResponse {
        rec().borrow_mut().ctxs.push(ctx.clone());
        let (tx, rx) = stream();
        tx.error(format!("{} {}", self.at, ctx.id));
        tx.end(RunResult::Failed { exit_code: 9 });
        Ok(rx)
    }
}
fn rich(n: usize) -> Step {
    let mut s = step("w", "a", n);
    s.name = Some(format!("step \"{}\"", n));
    s.on = match n { 0 => None, 1 => Some(Condition::Event(vec!["push".into(), "pull_request".into()])), 2 => Some(Condition::Config(ConditionConfig { push: Some(PushCondition { branches: Some(vec!["m*".into(), "".into()]), paths: None }), pull_request: None })), _ => Some(Condition::Config(ConditionConfig { push: None, pull_request: Some(PullRequestCondition { branches: None, paths: Some(vec!["**/*".into()]) }) })) };
    s.container = match n { 0 => None, 1 => Some(ContainerOptions { name: "host/linux".into(), volumes: None, security_opts: None }), 2 => Some(ContainerOptions { name: "ubuntu".into(), volumes: Some(vec!["v:/v".into(), "w:/w".into(), "v:/v".into()]), security_opts: Some(vec!["a=b".into(), "c".into()]) }), _ => Some(ContainerOptions { name: String::new(), volumes: Some(vec![]), security_opts: Some(vec![]) }) };
    s.run = match n { 0 => String::new(), 1 => "\u{0}\u{7f}\r\n\t\u{feff}".into(), 2 => "line\n".repeat(200), _ => "a \\ b / \u{1f600}".into() };
    s.continue_on_error = n % 2 == 0;
    for (k, v) in [("A", EnvironmentVariable::String("true".into())), ("B", EnvironmentVariable::Boolean(true)), ("C", EnvironmentVariable::Number(-1.0)), ("d e", EnvironmentVariable::String("1".into())), ("", EnvironmentVariable::Number(0.5))].into_iter().take(n + 2) { s.environments.insert(k.into(), v); }
    s.secrets = (0..n).map(|i| format!("S{}", i)).collect();
    s.timeout = Duration::new(n as u64 * 1000, n as u32 * 7);
    s
}
fn same_full(a: &Step, b: &Step) -> bool { same_step(a, b) && a.on == b.on && format!("{:?}", a.container) == format!("{:?}", b.container) }
/// a whole run, from the coordinator's report to the hooks of every runner, and from the step to the runner that executes it
#[no_mangle]
pub extern "C" fn sx_remote_content() {
    setup();
    let told: Vec<Told> = (0..5).map(|_| Told::default()).collect();
    for i in 0..2 {
        let s = AstroRunRemoteRunnerServer::builder().id(format!("s{}", i)).support_docker(true).runner(FullRunner { h: Full(told[1 + 2 * i].clone()), at: i }).plugin(Full(told[2 + 2 * i].clone())).build().ok().unwrap();
        tokio::spawn(async move { let _ = s.serve(ADDR[i]).await; });
        rt::settle();
    }
    let sched = Sched::default();
    let client = AstroRunRemoteRunnerClient::builder().scheduler(sched.clone()).build().ok().unwrap();
    let mut c2 = client.clone();
    tokio::spawn(async move { let _ = c2.start(urls(2)).await; });
    rt::settle();
    let p = choose(4);
    *sched.to.lock().unwrap() = (0..4).map(|i| format!("s{}", [0b0000, 0b0110, 0b0101, 0b1110][p] >> i & 1)).collect();
    let ar = AstroRun::builder().runner(client).plugin(Full(told[0].clone())).build();
    let mut j = job("w", "a", 0, &[]);
    j.name = Some("job".into());
    j.working_directories = vec!["/x".into(), "y".into()];
    j.steps = (0..4).map(rich).collect();
    for s in &mut j.steps { s.on = if s.id.step_number() == 1 { s.on.clone() } else { None }; s.continue_on_error = true; }
    let mut w = workflow("w", vec![j, { let mut k = job("w", "b", 1, &["a"]); k.on = rich(2).on; k }]);
    w.name = Some("wf".into());
    let orig = w.clone();
    let (ev, pay) = (any_bool(), any_bool());
    let mut b = ar.execution_context();
    if ev { b = b.event(TriggerEvent { event: "push".into(), repo_owner: "o".into(), repo_name: "r".into(), pr_number: Some(-7), sha: "s".into(), branch: "main".into(), ref_name: "refs/heads/main".into() }); }
    if pay { b = b.payload(Pay { n: 7, s: "\"x".into() }); }
    let out = run_workflow(w, b.build());
    rt::settle();
    check(out.is_set(), "[R04,R05] the run completes");
    let mine = told[0].lock().unwrap().clone();
    check(mine.len() > 20, "[R04] the run is reported");
    for t in &told[1..] { check(*t.lock().unwrap() == mine, "[R04,R05] every connected runner and its plugins are told exactly what the observers of the coordinator are told"); }
    let g = rec().borrow();
    check(g.ctxs.len() == 5, "[R05] every step is run once");
    for s in &orig.jobs["a"].steps {
        let x: Vec<&Context> = g.ctxs.iter().filter(|c| c.id == s.id).collect();
        check(x.len() == 1 && x[0].command.id == s.id && same_command(&x[0].command, &s.clone().into()), "[R05] a step arrives at its runner as it was sent");
        check(match &x[0].event { None => !ev, Some(e) => ev && e.event == "push" && e.repo_owner == "o" && e.repo_name == "r" && e.pr_number == Some(-7) && e.sha == "s" && e.branch == "main" && e.ref_name == "refs/heads/main" }, "[R05] a step arrives with the event of its run");
        check(match &x[0].payload { None => !pay, Some(p) => pay && serde_json::from_str::<serde_json::Value>(p).map_or(false, |v| v.to_string().contains("\\\"x")) }, "[R05] a step arrives with the payload of its run");
    }
    reach("completed");
}
/// messages with everything filled in
#[no_mangle]
pub extern "C" fn sx_msg_rich() {
    setup();
    let f = Fake::new(None);
    fake(0, f.clone());
    let n = choose(4);
    let s = rich(n);
    let mut k = client();
    let cmd: Command = s.clone().into();
    let ctx = Context { id: s.id.clone(), signal: AstroRunSignal::new(), command: cmd.clone(), event: Some(TriggerEvent { event: "pull_request".into(), repo_owner: "o \"".into(), repo_name: "r".into(), pr_number: Some(n as i64 - 1), sha: "s".into(), branch: "b\n".into(), ref_name: String::new() }), payload: Some("x".repeat(3000)) };
    let (c1, c2) = (cmd.clone(), ctx.clone());
    let mk = |w: &str| { let mut v = vec![]; for key in ["a", "b-\u{e9}", "c d"] { let mut j = job(w, key, 0, &["a"]); if key == "a" { j.depends_on.clear(); } j.on = rich(n).on; j.name = Some(key.to_uppercase()); j.steps = (0..3).map(rich).collect(); v.push(j); } workflow(w, v) };
    let mut wf = mk("w");
    wf.on = rich((n + 1) % 4).on;
    let e1 = ProtocolEvent::RunWorkflow(RunWorkflowEvent { source: wf.clone(), trigger_event: None, payload: None });
    let e2 = ProtocolEvent::RunStep(RunStepEvent { source: s.clone(), trigger_event: None, payload: None });
    let res = WorkflowRunResult { id: WorkflowId::new("w"), state: WorkflowState::Failed, started_at: time(1), completed_at: None, jobs: ["a", "b", ""].iter().map(|k| (k.to_string(), JobRunResult { id: JobId::new("w", *k), state: WorkflowState::Skipped, started_at: None, completed_at: time(7), steps: (0..3).map(|i| StepRunResult { id: StepId::new("w", *k, i), state: WorkflowState::Failed, exit_code: Some(i as i32 - 1), started_at: None, completed_at: None }).collect() })).collect() };
    let e3 = ProtocolEvent::WorkflowCompleted(res.clone());
    let ok = rt::block_on(async move { k.call_before_run_step_hook(c1).await.is_ok() & k.run(c2).await.is_ok() & k.send_event(e1).await.is_ok() & k.send_event(e2).await.is_ok() & k.send_event(e3).await.is_ok() });
    check(ok, "[R05] a message can be sent");
    check(same_command(&f.commands.lock().unwrap()[0], &cmd), "[R05] a step goes to a hook and back unchanged");
    let g = f.got.lock().unwrap();
    check(g.len() == 1 && g[0].id == ctx.id && same_command(&g[0].command, &cmd) && g[0].payload == ctx.payload && g[0].event.as_ref().map_or(false, |e| same_event(e, ctx.event.as_ref().unwrap())), "[R05] a step arrives at its runner as it was sent");
    let v = f.events.lock().unwrap();
    check(v.len() == 3, "[R05] every event arrives");
    let ok = match &v[0] { ProtocolEvent::RunWorkflow(e) => e.source.id == wf.id && e.source.on == wf.on && e.source.jobs.len() == 3 && wf.jobs.iter().all(|(k, j)| e.source.jobs.get(k).map_or(false, |x| same_job(x, j) && x.on == j.on && x.steps.iter().zip(&j.steps).all(|(a, b)| same_full(a, b)))), _ => false };
    check(ok, "[R05] an event arrives as it was sent");
    let ok = match &v[1] { ProtocolEvent::RunStep(e) => same_full(&e.source, &s), _ => false };
    check(ok, "[R05] an event arrives as it was sent");
    let ok = match &v[2] { ProtocolEvent::WorkflowCompleted(r) => r.id == res.id && r.state == res.state && r.started_at == res.started_at && r.completed_at == res.completed_at && r.jobs.len() == 3 && res.jobs.iter().all(|(k, j)| r.jobs.get(k).map_or(false, |x| same_jr(x, j))), _ => false };
    check(ok, "[R05] an event arrives as it was sent");
    reach("completed");
}
/// one message that is lost costs that message only
#[no_mangle]
pub extern "C" fn sx_remote_hiccup() {
    setup();
    struct Once(usize, std::cell::Cell<usize>, net::Fault);
    impl net::Net for Once { fn call(&self, a: &str, path: &str) -> net::Fault { if path.ends_with("/SendEvent") && a == ADDR[0] { let n = self.1.get(); self.1.set(n + 1); if n == self.0 { return self.2; } } net::Fault::None } }
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    let at = choose(12);
    let fault = *pick(&[net::Fault::Refused, net::Fault::Lost]);
    *net::world().net.borrow_mut() = Box::new(Once(at, Default::default(), fault));
    *c.sched.to.lock().unwrap() = vec!["s0".into(), "s1".into(), "s0".into()];
    let w = workflow("w", vec![job("w", "a", 3, &[])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    for _ in 0..3 {
        rt::settle();
        let l = live();
        check(l.len() == 1, "[R04] a runner that missed a message still runs steps");
        let tx = rec().borrow().live[l[0]].tx.clone();
        tx.log("hello");
        finish(l[0], RunResult::Succeeded);
    }
    rt::settle();
    let Some(x) = out.take() else { fail("[R04] the run completes") };
    check(x.state == WorkflowState::Succeeded, "[R04] a runner that missed a message still runs steps");
    let mine = states(1);
    check(states(11) == mine && states(21) == mine, "[R04] a runner that cannot be told does not keep others from it");
    let mut less = mine.clone();
    less.remove(at);
    let got = states(10);
    check(got == less || got == mine, "[R04] every connected runner is told everything, once and in order");
    check(states(20) == got, "[R04] the plugins of every connected runner are told everything, once and in order");
    check(!c.stopped.is_set(), "[R04] forwarding goes on");
    reach("completed");
}

/// a message that takes its time does not overtake or lose another
#[no_mangle]
pub extern "C" fn sx_remote_slow_events() {
    setup();
    struct Late(usize, usize, usize, std::cell::Cell<usize>);
    impl net::Net for Late { fn delay(&self, a: &str, path: &str) -> usize { if path.ends_with("/SendEvent") && a == ADDR[self.1] { let n = self.3.get(); self.3.set(n + 1); if n == self.0 { return self.2; } } 0 } }
    server(0, false);
    server(1, false);
    let c = coordinator(urls(2));
    let (at, who, d) = (choose(14), choose(2), *pick(&[3usize, 80]));
    *net::world().net.borrow_mut() = Box::new(Late(at, who, d, Default::default()));
    *c.sched.to.lock().unwrap() = vec!["s0".into(), "s1".into()];
    let out = run_workflow(workflow("w", vec![job("w", "a", 2, &[])]), c.ar.execution_context().build());
    let quick = any_bool();
    let mut l = vec![];
    for _ in 0..2 {
        if quick { for _ in 0..100 { if live().is_empty() { rt::yield_now(); } } } else { rt::settle(); }
        for i in live() {
            let tx = rec().borrow().live[i].tx.clone();
            for k in 0..3 { tx.log(format!("{}", k)); l.push(format!("{}", k)); }
            finish(i, RunResult::Succeeded);
        }
    }
    rt::settle();
    for i in live() { finish(i, RunResult::Succeeded); }
    rt::settle();
    check(out.is_set(), "[R04] the run completes");
    let (mine, all) = (states(1), logs(1));
    for i in 0..2 {
        check(states(10 + i) == mine && states(20 + i) == mine, "[R04] every connected runner is told everything, once and in order");
        check(logs(10 + i) == all && logs(20 + i) == all, "[R04] every connected runner is told everything, once and in order");
    }
    check(!c.stopped.is_set(), "[R04] forwarding goes on");
    reach("completed");
}

// ---------------------------------------------------------------- the scheduler that is used by default (D01-D03)
/// whole runs over three runners of different abilities
#[no_mangle]
pub extern "C" fn sx_remote_default() { defaults(1) }
#[no_mangle]
pub extern "C" fn sx_remote_default2() { defaults(2) }
fn defaults(rounds: usize) {
    setup();
    const DOCKER: [bool; 3] = [true, true, false];
    const HOST: [bool; 3] = [false, true, true];
    for i in 0..3 {
        let s = AstroRunRemoteRunnerServer::builder().id(format!("s{}", i)).support_docker(DOCKER[i]).support_host(HOST[i]).runner(SRunner { i, refuse: false }).build().ok().unwrap();
        tokio::spawn(async move { let _ = s.serve(ADDR[i]).await; });
    }
    rt::settle();
    let client = AstroRunRemoteRunnerClient::builder().build().ok().unwrap();
    let mut c2 = client.clone();
    tokio::spawn(async move { let _ = c2.start(urls(3)).await; });
    rt::settle();
    let ar = AstroRun::builder().runner(client).plugin(HPlugin { i: 1 }).build();
    let kind = |k: usize| match k { 0 => None, 1 => Some("ubuntu".to_string()), 2 => Some(format!("host/{}", std::env::consts::OS)), 3 => Some(format!("host/{}-{}", std::env::consts::OS, std::env::consts::ARCH)), _ => Some("host/other".into()) };
    let able = |k: usize, i: usize| match k { 0 | 1 => DOCKER[i], 2 | 3 => HOST[i], _ => false };
    let mut count = [0i32; 3];
    // the runs that are under way: their kinds of steps, the step they are at, where it is, the runner of their last container step
    struct Run { id: String, kinds: Vec<usize>, at: usize, on: usize, last: Option<usize>, out: Slot<WorkflowRunResult> }
    let place = |r: &mut Run, count: &mut [i32; 3]| {
        rt::settle();
        let k = r.kinds[r.at];
        let g = rec().borrow();
        let here: Vec<usize> = g.live.iter().filter(|l| !l.done && l.id == format!("{}/a/{}", r.id, r.at)).map(|l| l.job.parse().unwrap()).collect();
        if !(0..3).any(|i| able(k, i)) { check(here.is_empty(), "[D01] a step is given to a runner that can run it"); return false; }
        check(here.len() == 1, "[D01] a step is refused only if no runner can run it");
        let i = here[0];
        check(able(k, i), "[D01] a step is given to a runner that can run it");
        if let Some(l) = r.last { if able(k, l) { check(i == l, "[D02] the steps of a job stay on the runner that ran the previous one"); } }
        else if k < 2 { check((0..3).all(|j| !able(k, j) || count[i] <= count[j]), "[D03] a job's first container step goes to a runner with the fewest unfinished steps"); }
        if k < 2 { r.last = Some(i); }
        r.on = i;
        count[i] += 1;
        true
    };
    let mut runs: Vec<Run> = vec![];
    let mut go = |id: &str, kinds: Vec<usize>, count: &mut [i32; 3], runs: &mut Vec<Run>| {
        let mut w = workflow(id, vec![job(id, "a", kinds.len(), &[])]);
        for (s, k) in w.jobs.get_mut("a").unwrap().steps.iter_mut().zip(&kinds) { s.container = kind(*k).map(|n| ContainerOptions { name: n, volumes: None, security_opts: None }); }
        let mut r = Run { id: id.into(), kinds, at: 0, on: 0, last: None, out: run_workflow(w, ar.execution_context().build()) };
        if place(&mut r, count) { runs.push(r); } else { check(r.out.take().map_or(false, |x| x.state == WorkflowState::Failed), "[D01] a step no runner can run fails"); reach("refused"); }
    };
    go("u", vec![choose(5), choose(4)], &mut count, &mut runs);
    go("v", vec![1, *pick(&[0, 2])], &mut count, &mut runs);
    go("w", vec![0, 0], &mut count, &mut runs);
    // one of them goes on, then another run starts
    for round in 0..rounds {
        let n = choose(runs.len());
        let r = &mut runs[n];
        let x = rec().borrow().live.iter().position(|l| !l.done && l.id == format!("{}/a/{}", r.id, r.at)).unwrap();
        finish(x, if round == 0 || any_bool() { RunResult::Succeeded } else { RunResult::Failed { exit_code: 2 } });
        count[r.on] -= 1;
        rt::settle();
        let ended = r.out.is_set();
        if ended { runs.remove(n); } else { let r = &mut runs[n]; r.at += 1; check(place(r, &mut count), "[D01] a step is refused only if no runner can run it"); }
        let id = format!("x{}", round);
        go(&id, vec![1], &mut count, &mut runs);
    }
    reach("completed");
}

// ---------------------------------------------------------------- runners and plugins whose hooks fail (R04)
struct Grumpy(SRunner);
#[async_trait]
impl Runner for Grumpy {
    async fn on_run_workflow(&self, e: RunWorkflowEvent) -> HookNoopResult { let _ = self.0.on_run_workflow(e).await; Err(Error::error("no")) }
    async fn on_run_job(&self, e: RunJobEvent) -> HookNoopResult { let _ = self.0.on_run_job(e).await; Err(Error::error("no")) }
    async fn on_run_step(&self, e: RunStepEvent) -> HookNoopResult { let _ = self.0.on_run_step(e).await; Err(Error::error("no")) }
    async fn on_state_change(&self, e: WorkflowStateEvent) -> HookNoopResult { let _ = self.0.on_state_change(e).await; Err(Error::error("no")) }
    async fn on_log(&self, l: WorkflowLog) -> HookNoopResult { let _ = self.0.on_log(l).await; Err(Error::error("no")) }
    async fn on_step_completed(&self, r: StepRunResult) -> HookNoopResult { let _ = self.0.on_step_completed(r).await; Err(Error::error("no")) }
    async fn on_job_completed(&self, r: JobRunResult) -> HookNoopResult { let _ = self.0.on_job_completed(r).await; Err(Error::error("no")) }
    async fn on_workflow_completed(&self, r: WorkflowRunResult) -> HookNoopResult { let _ = self.0.on_workflow_completed(r).await; Err(Error::error("no")) }
    async fn run(&self, ctx: Context) -> RunResponse { self.0.run(ctx).await }
}
struct Angry;
#[async_trait]
impl Plugin for Angry {
    fn name(&self) -> &'static str { "angry" }
    async fn on_run_workflow(&self, _: RunWorkflowEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_run_job(&self, _: RunJobEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_run_step(&self, _: RunStepEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_state_change(&self, _: WorkflowStateEvent) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_log(&self, _: WorkflowLog) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_step_completed(&self, _: StepRunResult) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_job_completed(&self, _: JobRunResult) -> HookNoopResult { Err(Error::error("no")) }
    async fn on_workflow_completed(&self, _: WorkflowRunResult) -> HookNoopResult { Err(Error::error("no")) }
}
/// hooks that fail on one runner change nothing for its other hooks, for other runners and for the run
#[no_mangle]
pub extern "C" fn sx_remote_grumpy() {
    setup();
    let (gr, pl) = (any_bool(), choose(3));
    let mut b = AstroRunRemoteRunnerServer::builder().id("s0").support_docker(true);
    b = if gr { b.runner(Grumpy(SRunner { i: 0, refuse: false })) } else { b.runner(SRunner { i: 0, refuse: false }) };
    if pl == 1 { b = b.plugin(Angry); }
    b = b.plugin(HPlugin { i: 20 });
    if pl == 2 { b = b.plugin(Angry); }
    let s = b.plugin(HPlugin { i: 22 }).build().ok().unwrap();
    tokio::spawn(async move { let _ = s.serve(ADDR[0]).await; });
    rt::settle();
    server(1, false);
    let c = coordinator(urls(2));
    *c.sched.to.lock().unwrap() = vec![pick(&["s0", "s1"]).to_string(), "s0".into()];
    let w = workflow("w", vec![job("w", "a", 2, &[])]);
    let out = run_workflow(w, c.ar.execution_context().build());
    let fails = any_bool();
    for k in 0..2 {
        rt::settle();
        let l = live();
        if l.is_empty() { break; }
        rec().borrow().live[l[0]].tx.clone().log("hello");
        finish(l[0], if fails && k == 0 { RunResult::Failed { exit_code: 3 } } else { RunResult::Succeeded });
    }
    rt::settle();
    let Some(x) = out.take() else { fail("[R04] the run completes") };
    check(x.state == if fails { WorkflowState::Failed } else { WorkflowState::Succeeded }, "[R04] a hook that fails does not change the run");
    let mine = states(1);
    for o in [10, 20, 22, 11, 21] { check(states(o) == mine, "[R04] hooks that fail keep nobody from being told everything, once and in order"); }
    check(!c.stopped.is_set(), "[R04] forwarding goes on");
    reach("completed");
}
