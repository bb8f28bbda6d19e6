//! The runner: child processes, files and containers are simulated, everything else is its own code.
use crate::common::*;
use astro_run::*;
use astro_runner::AstroRunner;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::sx::{self, Ev};
use tokio_stream::StreamExt;

pub const WD: &str = "/sx-none/a/b/wd";
fn setup() { rt::set_order_choices(0); let start = choose(2) as u32; sx::set_select_free(0, start); set_seed(7); }
#[derive(Default)]
struct Seen { logs: Vec<(String, bool)>, result: Option<RunResult> }
type S = Arc<Mutex<Seen>>;
/// what the plugins saw
#[derive(Clone, Debug, PartialEq)]
enum H { Before(usize, String), After(usize, String, bool) }
struct Hooks { i: usize, how: usize, got: Arc<Mutex<Vec<H>>>, out: S, wait: bool }
#[async_trait]
impl astro_runner::Plugin for Hooks {
    fn name(&self) -> &'static str { "hooks" }
    async fn on_before_run(&self, mut ctx: Context) -> Result<Context> {
        self.got.lock().unwrap().push(H::Before(self.i, ctx.command.run.clone()));
        if self.wait { tokio::task::yield_now().await; }
        match self.how { 0 => Ok(ctx), 1 => { ctx.command.run = format!("{}{}", ctx.command.run, self.i); Ok(ctx) } _ => Err(Error::error("no")) }
    }
    async fn on_after_run(&self, ctx: Context) -> HookNoopResult {
        let ended = self.out.lock().unwrap().result.is_some();
        self.got.lock().unwrap().push(H::After(self.i, ctx.command.run.clone(), ended));
        if self.how == 2 { Err(Error::error("no")) } else { Ok(()) }
    }
}
fn host() -> Option<ContainerOptions> { Some(ContainerOptions { name: if flip() { format!("host/{}", std::env::consts::OS) } else { format!("host/{}-{}", std::env::consts::OS, std::env::consts::ARCH) }, volumes: None, security_opts: None }) }
fn image(n: &str) -> Option<ContainerOptions> { Some(ContainerOptions { name: n.into(), volumes: None, security_opts: None }) }
fn context(id: StepId, container: Option<ContainerOptions>, run: &str) -> Context { Context { id: id.clone(), signal: AstroRunSignal::new(), command: Command { id, run: run.into(), container, timeout: Duration::from_secs(60), ..Default::default() }, event: None, payload: None } }
/// run a step, collect what its stream says
fn start(r: &AstroRunner, ctx: Context, out: &S) {
    let (r, out) = (r.clone(), out.clone());
    tokio::spawn(async move {
        let mut rx = match r.run(ctx).await { Ok(rx) => rx, Err(_) => fail("[X01] a step is accepted by the runner") };
        while let Some(l) = rx.next().await { out.lock().unwrap().logs.push((l.message.clone(), l.is_error())); }
        out.lock().unwrap().result = rx.result();
    });
}
fn plain_runner() -> AstroRunner { AstroRunner::builder().working_directory(WD.into()).build().ok().unwrap() }
/// the lines of an output: separated by line ends, an unfinished last one counts
fn lines(b: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut cur = vec![];
    for &c in b { if c == b'\n' { if cur.last() == Some(&b'\r') { cur.pop(); } v.push(std::mem::take(&mut cur)); } else { cur.push(c); } }
    if !cur.is_empty() { v.push(cur); }
    v
}
fn same_lines(got: &[String], b: &[u8]) -> bool {
    let want = lines(b);
    // a last line without line end may keep or lose a carriage return
    got.len() == want.len() && got.iter().zip(&want).enumerate().all(|(i, (g, w))| std::str::from_utf8(w).is_err() && keeps(g, w) || g.as_bytes() == &w[..] || i + 1 == want.len() && w.last() == Some(&b'\r') && g.as_bytes() == &w[..w.len() - 1])
}
/// a line that is not text keeps what is text in it, in order
fn keeps(g: &str, w: &[u8]) -> bool {
    let mut at = 0;
    for c in w.utf8_chunks() { match g[at..].find(c.valid().trim_end_matches('\r')) { Some(i) => at += i + c.valid().trim_end_matches('\r').len(), None => return false } }
    true
}
fn check_output(out: &S, o: &[u8], e: &[u8]) {
    let g = out.lock().unwrap();
    let pick = |err: bool| g.logs.iter().filter(|l| l.1 == err).map(|l| l.0.clone()).collect::<Vec<_>>();
    check(same_lines(&pick(false), o), "[X01] every line a step prints arrives once, unchanged and in order");
    check(same_lines(&pick(true), e), "[X01] every line a step prints to its error output arrives as such, once, unchanged and in order");
}

// ---------------------------------------------------------------- output (X01)
fn output(events: usize, bytes: &dyn Fn() -> Vec<u8>, cap: usize) {
    setup();
    *sx::world().pipe.borrow_mut() = cap;
    let (mut o, mut e) = (vec![], vec![]);
    let (mut co, mut ce) = (false, false);
    let mut script = vec![];
    for _ in 0..events {
        match choose(5) {
            0 if !co => { let b = bytes(); o.extend(b.clone()); script.push(Ev::Out(b)); }
            1 if !ce => { let b = bytes(); e.extend(b.clone()); script.push(Ev::Err(b)); }
            2 if !co => { co = true; script.push(Ev::CloseOut); }
            3 if !ce => { ce = true; script.push(Ev::CloseErr); }
            4 => script.push(Ev::Sleep(1_000_000_000)),
            _ => end(),
        }
    }
    let code = *pick(&[0, 3]);
    script.push(Ev::Exit(Some(code)));
    sx::push_script(Some(script));
    let out = S::default();
    start(&plain_runner(), context(StepId::new("w", "a", 0), host(), "cmd"), &out);
    rt::settle();
    rt::block_on(tokio::time::sleep(Duration::from_secs(10)));
    rt::settle();
    check(out.lock().unwrap().result.is_some(), "[X01,X02] a step ends when its process does");
    check_output(&out, &o, &e);
    check(out.lock().unwrap().result == Some(if code == 0 { RunResult::Succeeded } else { RunResult::Failed { exit_code: 3 } }), "[X02] the outcome of a step is the exit of its process");
    reach("completed");
}
fn text1() -> Vec<u8> { let b = any_u8(); assume((b == b'a') | (b == b'\n') | (b == b'\r')); vec![b] }
#[no_mangle]
pub extern "C" fn sx_run_output() { output(5, &text1, 65536) }
#[no_mangle]
pub extern "C" fn sx_run_output6() { output(6, &text1, 65536) }
/// output that is not text, or longer than the pipe
#[no_mangle]
pub extern "C" fn sx_run_bytes() { output(4, &|| { let b = any_u8(); assume((b == b'a') | (b == b'\n') | (b == 0xff) | (b == 0)); vec![b, b'x', b'\n'] }, 65536) }
#[no_mangle]
pub extern "C" fn sx_run_pipe() { output(5, &|| b"one\ntwo\n".to_vec(), 3) }

// ---------------------------------------------------------------- exit codes (X02)
#[no_mangle]
pub extern "C" fn sx_run_exit() {
    setup();
    nomatch_world();
    let code = any_u8();
    let kind = choose(3);
    sx::push_script(match kind { 0 => Some(vec![Ev::Out(b"x\n".to_vec()), Ev::Exit(Some(code as i32))]), 1 => Some(vec![Ev::Exit(None)]), _ => None });
    let ar = AstroRun::builder().runner(plain_runner()).plugin(HPlugin { i: 1 }).build();
    let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
    w.jobs.get_mut("a").unwrap().steps[0].container = if any_bool() { host() } else { None };
    let out = run_workflow(w, ar.execution_context().build());
    rt::settle();
    let Some(x) = out.take() else { fail("[X02] a step ends when its process does") };
    let s = &x.jobs["a"].steps[0];
    match kind {
        0 if code == 0 => check(s.state == WorkflowState::Succeeded, "[X02] a process that exits with 0 succeeds"),
        0 => { check(s.state == WorkflowState::Failed && s.exit_code == Some(code as i32), "[X02] a process that exits with another code fails with that code"); }
        1 => { check(s.state == WorkflowState::Failed && s.exit_code.map_or(false, |c| c != 0), "[X02] a process that is killed fails"); reach("killed"); }
        _ => { check(s.state == WorkflowState::Failed && s.exit_code.map_or(false, |c| c != 0), "[X02] a process that cannot be started fails"); reach("not started"); }
    }
    reach("completed");
}
/// every file operation may fail: the step fails and the run goes on
#[no_mangle]
pub extern "C" fn sx_run_fs_fail() {
    setup();
    nomatch_world();
    let n = choose(8);
    let k = std::cell::Cell::new(0);
    let failed = std::rc::Rc::new(std::cell::Cell::new(false));
    let f2 = failed.clone();
    *sx::world().fs_fail.borrow_mut() = Some(Box::new(move |kind, _| { let i = k.get(); k.set(i + 1); if i == n && !kind.starts_with("remove") { f2.set(true); } i == n }));
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Exit(Some(0))]))));
    let ar = AstroRun::builder().runner(plain_runner()).plugin(HPlugin { i: 1 }).build();
    let mut w = workflow("w", vec![job("w", "a", 2, &[])]);
    for s in &mut w.jobs.get_mut("a").unwrap().steps { s.container = if any_bool() { host() } else { None }; s.continue_on_error = true; }
    let out = run_workflow(w, ar.execution_context().build());
    rt::settle();
    let Some(x) = out.take() else { fail("[X02] a step ends even if its files cannot be prepared") };
    let bad = x.jobs["a"].steps.iter().filter(|s| s.state != WorkflowState::Succeeded).count();
    check(bad == if failed.get() { 1 } else { 0 }, "[X02] a step whose files cannot be prepared fails, any other does not");
    if failed.get() { reach("failed"); } else { reach("fine"); }
}

// ---------------------------------------------------------------- signals and the end of a step (X03)
fn kills() -> Vec<String> { sx::world().procs.borrow().iter().filter(|p| argv(p).get(1).map(|s| s.as_str()) == Some("kill")).map(|p| argv(p).last().cloned().unwrap_or_default()).collect() }
/// the name of the container a step would run in
fn container_of(id: &StepId) -> Vec<String> {
    let n = sx::world().procs.borrow().len();
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Exit(Some(0))]))));
    start(&plain_runner(), context(id.clone(), image("ubuntu"), "cmd"), &S::default());
    rt::settle();
    let v = sx::world().procs.borrow().clone();
    v[n..].iter().filter_map(|p| value(&argv(p), "--name")).collect()
}
fn signals(docker: bool, moments: usize) {
    setup();
    sx::set_io_yield(any_bool());
    let hang = any_bool();
    let code = *pick(&[0, 3]);
    let sig = choose(3); // none, cancel, timeout
    // a killed container ends the client that runs it
    let ended = Arc::new(Mutex::new(false));
    // killing may fail too: docker says no, or cannot be started
    let kill = if docker && hang && sig != 0 { choose(3) } else { 0 };
    *sx::world().script_for.borrow_mut() = Some(Box::new(move |_, a| {
        if docker && a.last().map_or(false, |l| l.contains("docker kill") || l == "kill") { return Some(if kill == 2 { None } else { Some(vec![Ev::Err(b"no such container\n".to_vec()), Ev::Exit(Some(kill as i32))]) }); }
        let mut v = vec![Ev::Out(b"x\n".to_vec())];
        if hang && sig != 0 { v.push(Ev::Hang); }
        v.push(Ev::Exit(Some(code)));
        Some(Some(v))
    }));
    let _ = ended;
    let out = S::default();
    let got = Arc::new(Mutex::new(vec![]));
    let r = AstroRunner::builder().working_directory(WD.into()).plugin(Hooks { i: 0, how: 0, got: got.clone(), out: out.clone(), wait: any_bool() }).build().ok().unwrap();
    let ctx = context(StepId::new("w", "a", 3), if docker { image("ubuntu") } else { host() }, "cmd");
    let s = ctx.signal.clone();
    let k = if sig == 0 { 0 } else { choose(moments + 1) };
    let send = |s: &AstroRunSignal| { if sig == 1 { s.cancel().is_ok() } else { s.timeout().is_ok() } };
    let before = sig != 0 && k == 0;
    if before { send(&s); }
    start(&r, ctx, &out);
    if sig != 0 && k > 0 { rt::block_on(async move { for _ in 0..k { tokio::task::yield_now().await; } }); }
    let started = sx::world().procs.borrow().len();
    let exited = sx::world().procs.borrow().iter().all(|p| p.ended) && started > 0;
    let done = out.lock().unwrap().result.is_some();
    if sig != 0 && k > 0 { send(&s); }
    rt::settle();
    let g = out.lock().unwrap();
    let own = if code == 0 { RunResult::Succeeded } else { RunResult::Failed { exit_code: 3 } };
    let told = if sig == 1 { RunResult::Cancelled } else { RunResult::Failed { exit_code: 123 } };
    match &g.result {
        None => fail("[X03] a step ends: with its process, or when it is cancelled or times out"),
        Some(x) => {
            if sig == 0 || done { check(*x == own, "[X03] a step that is left alone ends as its process does"); }
            else if (hang || before) && sig == 1 { check(*x == told, "[X03] a cancelled step ends cancelled"); }
            else if hang || before { check(matches!(x, RunResult::Failed { .. }), "[X03] a step that times out ends failed"); }
            else { check(*x == own || if sig == 1 { *x == told } else { matches!(x, RunResult::Failed { .. }) }, "[X03] a step ends as its process or its signal says"); }
            if *x == own && sig != 0 { reach("ended itself"); }
            if *x == told && sig == 1 { reach("cancelled"); }
        }
    }
    drop(g);
    let procs = sx::world().procs.borrow().clone();
    if before { check(procs.is_empty(), "[X03] a step cancelled before it starts does not run"); }
    // a container is killed by its name, a process on the host directly
    if docker {
        let names: Vec<String> = procs.iter().filter(|p| argv(p).get(1).map(|s| s.as_str()) == Some("run")).filter_map(|p| value(&argv(p), "--name")).collect();
        let mut own = names.clone();
        if own.is_empty() && !kills().is_empty() { own = container_of(&StepId::new("w", "a", 3)); }
        check(kills().iter().all(|k| own.contains(k)), "[X03] only the step's own container is killed");
        if hang && started == 1 && !exited { check(kills().len() == 1 && kills() == names, "[X03] the container of a cancelled step is killed"); reach("killed"); }
    } else if hang {
        check(procs.iter().all(|p| p.ended), "[X03] the process of a cancelled step is stopped");
        if started > 0 { reach("killed"); }
    }
    let h = got.lock().unwrap().clone();
    check(h.iter().filter(|x| matches!(x, H::Before(..))).count() == 1, "[X07] the hook before a step is called once for every step, whatever its signal");
    check(h.iter().filter(|x| matches!(x, H::After(..))).count() == 1, "[X03,X07] the hook after a step is called once, at its end");
    // the files of the step itself are gone
    if docker { for o in sx::world().fs.borrow().iter().filter(|o| o.kind.contains("file")) { check(!sx::fs_exists(&o.path), "[X03] the files of a step are removed at its end"); } }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_run_signal_host() { signals(false, 12) }
#[no_mangle]
pub extern "C" fn sx_run_signal_docker() { signals(true, 20) }

// ---------------------------------------------------------------- the command of a container (X04)
/// the words a shell would make of a line; None if it would expand or run anything else
fn words(l: &str) -> Option<Vec<String>> {
    let b = l.as_bytes();
    let mut v = vec![];
    let mut cur: Option<Vec<u8>> = None;
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\t' || c == b'\n' { if c == b'\n' && i + 1 < b.len() { return None; } if let Some(w) = cur.take() { v.push(w); } i += 1; continue; }
        if c == b'\'' {
            let w = cur.get_or_insert_with(Vec::new);
            i += 1;
            while i < b.len() && b[i] != b'\'' { w.push(b[i]); i += 1; }
            if i == b.len() { return None; }
            i += 1; continue;
        }
        if c == b'"' {
            let w = cur.get_or_insert_with(Vec::new);
            i += 1;
            loop {
                if i == b.len() { return None; }
                let c = b[i];
                if c == b'"' { break; }
                if c == b'$' || c == b'`' { return None; }
                if c == b'\\' {
                    if i + 1 == b.len() { return None; }
                    let d = b[i + 1];
                    if d == b'\n' { i += 2; continue; }
                    if d == b'$' || d == b'`' || d == b'"' || d == b'\\' { w.push(d); i += 2; continue; }
                }
                w.push(c);
                i += 1;
            }
            i += 1; continue;
        }
        if c == b'\\' {
            if i + 1 == b.len() { return None; }
            if b[i + 1] != b'\n' { cur.get_or_insert_with(Vec::new).push(b[i + 1]); }
            i += 2; continue;
        }
        if matches!(c, b'$' | b'`' | b'|' | b'&' | b';' | b'<' | b'>' | b'(' | b')' | b'*' | b'?' | b'[' | b'{' | b'}' | b'!' ) { return None; }
        if (c == b'#' || c == b'~') && cur.is_none() { return None; }
        cur.get_or_insert_with(Vec::new).push(c);
        i += 1;
    }
    if let Some(w) = cur.take() { v.push(w); }
    Some(v.into_iter().map(|w| String::from_utf8(w).unwrap()).collect())
}
/// what a started process is given
fn argv(p: &sx::ProcLog) -> Vec<String> {
    if p.program == "sh" && p.args.len() == 2 && p.args[0] == "-c" {
        match words(&p.args[1]) { Some(w) => w, None => fail("[X04] nothing in a step's configuration is interpreted by the shell of the runner") }
    } else { let mut v = vec![p.program.clone()]; v.extend(p.args.iter().cloned()); v }
}
fn value(a: &[String], k: &str) -> Option<String> { values(a, k).into_iter().next() }
fn values(a: &[String], k: &str) -> Vec<String> {
    let mut v = vec![];
    for i in 0..a.len() { if a[i] == k && i + 1 < a.len() { v.push(a[i + 1].clone()); } else if let Some(x) = a[i].strip_prefix(&format!("{}=", k)) { v.push(x.into()); } }
    v
}
const FLAGS: [&str; 4] = ["--tty", "-t", "--rm", "--init"];
const OPTS: [&str; 6] = ["-v", "-e", "-w", "--entrypoint", "--name", "--security-opt"];
/// the image and what follows it
fn rest(a: &[String]) -> Vec<String> {
    let mut i = 2;
    while i < a.len() {
        if FLAGS.contains(&a[i].as_str()) { i += 1; } else if OPTS.contains(&a[i].as_str()) { i += 2; } else if a[i].starts_with('-') { fail("[X04] a container is run with the options its step was configured with, no others"); } else { break; }
    }
    a[i.min(a.len())..].to_vec()
}
fn odd() -> u8 { let b = any_u8(); assume((b >= 32) & (b < 127)); b }
fn txt(first: bool) -> String { let mut v = if first { vec![b'a'] } else { vec![] }; v.push(odd()); v.push(b'b'); String::from_utf8(v).unwrap() }
fn docker_case(which: usize) {
    setup();
    let mut c = ContainerOptions { name: "ubuntu:22.04".into(), volumes: None, security_opts: None };
    let mut env = EnvironmentVariables::new();
    let mut id = StepId::new("w", "a", 1);
    let mut run = "echo \"$X\"\n".to_string();
    match which {
        0 => { env.insert("K".into(), EnvironmentVariable::String(txt(false))); }
        1 => { let b = *pick(b"b \"$`\\';#*&|<(~!{-"); env.insert(String::from_utf8(vec![b'K', b]).unwrap(), EnvironmentVariable::Number(2.5)); env.insert("N".into(), EnvironmentVariable::Number(*pick(&[1e-9, 1e20, -0.0, 0.1 + 0.2, 16777217.0, 9007199254740993.0, -1e-300, f64::MAX]))); env.insert("B".into(), EnvironmentVariable::Boolean(any_bool())); }
        2 => c.name = if any_bool() { txt(true) } else { pick(&["docker.io/a", "docker.io/library/ubuntu:latest", "localhost:5000/a/b:tag@sha256:0123", "a", "~a", "A/b", "ubuntu:latest", "library/ubuntu", " a"]).to_string() },
        3 => { if any_bool() { let b = odd(); assume(b != b':'); c.volumes = Some(vec![format!("/h{}x:/c", b as char), "named:/d:ro".into()]); } else { c.volumes = Some(vec!["~/.ssh:/k".into(), "~:/h".into(), "./x:/y".into(), "C: d:/e".into()]); } }
        4 => c.security_opts = Some(if any_bool() { vec![txt(true)] } else { vec!["~".into(), "label=disable".into(), "label=disable".into(), "seccomp=~/p.json".into()] }),
        5 => { let b = odd(); let k = "k".repeat(*pick(&[1usize, 70])); id = StepId::new("w", format!("{}{}k", k, b as char), 1); }
        6 => { let b = odd(); run = format!("{}echo", b as char); if any_bool() { run = format!("#!{}", run); } }
        8 => for (k, v) in [("A", "~"), ("B", "~/x:~root"), ("C", "-e"), ("D", "a=b=c"), ("E", " "), ("F", "--"), ("G", "*"), ("H", "%PATH%")] { env.insert(k.into(), EnvironmentVariable::String(v.into())); },
        _ => { env.insert("K".into(), EnvironmentVariable::String("x\ny".into())); env.insert("L".into(), EnvironmentVariable::String(String::new())); env.insert("M".into(), EnvironmentVariable::String("\u{e9} $(x) `y` \\ \"".into())); }
    }
    let mut ctx = context(id, Some(c.clone()), &run);
    ctx.command.environments = env.clone();
    let script: Arc<Mutex<Vec<Option<Vec<u8>>>>> = Default::default();
    let busy: Arc<Mutex<bool>> = Default::default();
    let (s2, b2) = (script.clone(), busy.clone());
    *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| {
        let a = argv(p);
        if let Some(f) = values(&a, "-v").iter().find_map(|v| v.strip_suffix(&format!(":{}", value(&a, "--entrypoint").unwrap_or_default())).map(|x| x.to_string())) {
            s2.lock().unwrap().push(sx::fs_content(&f));
            let ex = sx::fs_executable(&f);
            if !ex || sx::world().open.borrow().iter().any(|o| sx::fs_norm(o) == sx::fs_norm(&f)) { *b2.lock().unwrap() = true; }
        }
    }));
    sx::push_script(Some(vec![Ev::Exit(Some(0))]));
    let out = S::default();
    start(&plain_runner(), ctx, &out);
    rt::settle();
    let procs = sx::world().procs.borrow().clone();
    check(procs.len() == 1, "[X04] one container is run for a step");
    let a = argv(&procs[0]);
    check(a[0] == "docker" && a[1] == "run", "[X04] a step with an image is run in a container");
    check(rest(&a) == [c.name.clone()], "[X04] a container is run from the image its step was configured with");
    let mut e = values(&a, "-e");
    e.sort();
    let mut want: Vec<String> = env.iter().map(|(k, v)| format!("{}={}", k, match v { EnvironmentVariable::String(s) => s.clone(), EnvironmentVariable::Number(n) => n.to_string(), EnvironmentVariable::Boolean(b) => b.to_string() })).collect();
    want.sort();
    check(e == want, "[X04] a container gets exactly the environment its step was configured with");
    let v = values(&a, "-v");
    for x in c.volumes.iter().flatten() { check(v.contains(x), "[X04] a container gets every volume its step was configured with"); }
    for x in v.iter().filter(|x| !c.volumes.iter().flatten().any(|y| y == *x)) { check(x.matches(':').count() == 1, "[X04] the directories of a step are mounted where the container expects them"); }
    check(v.len() == 3 + c.volumes.as_ref().map_or(0, |v| v.len()), "[X04] a container gets no volumes its step was not configured with");
    check(values(&a, "--security-opt") == c.security_opts.clone().unwrap_or_default(), "[X04] a container gets the security options its step was configured with");
    let name = value(&a, "--name").unwrap_or_default();
    check(!name.is_empty() && name.bytes().all(|b| b.is_ascii_alphanumeric() | (b == b'_') | (b == b'.') | (b == b'-')) && name.as_bytes()[0].is_ascii_alphanumeric(), "[X04] the name of a container is one a container can have");
    let s = script.lock().unwrap();
    check(s.len() == 1 && !*busy.lock().unwrap(), "[X04] the script of a step is complete, executable and closed before its container starts");
    let got = s[0].clone().unwrap_or_default();
    let plain = run.starts_with("#!");
    check(if plain { got == run.as_bytes() } else { got.starts_with(b"#!/bin/sh\n") && got[10..] == *run.as_bytes() }, "[X04] the script of a step is its command");
    check(out.lock().unwrap().result == Some(RunResult::Succeeded), "[X04] the step succeeds");
    reach("completed");
}
/// a step that runs again, maybe over what an interrupted run left behind, or as another command
#[no_mangle]
pub extern "C" fn sx_docker_again() {
    setup();
    let runs: [&str; 2] = [*pick(&["echo a long first command\n", "#!/bin/sh\necho first\n", "x"]), *pick(&["echo", "", "#!/b\n", "echo a long first command\nand more"])];
    let left = any_bool();
    let r = plain_runner();
    let mut path: Option<String> = None;
    for (k, run) in runs.iter().enumerate() {
        if left { if let Some(f) = &path { sx::fs_op("create_file", f, b"", true); sx::fs_op("executable", f, b"", true); sx::fs_op("write", f, runs[0].as_bytes(), true); } }
        let script: Arc<Mutex<Vec<(String, Option<Vec<u8>>)>>> = Default::default();
        let s2 = script.clone();
        *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| {
            let a = argv(p);
            if let Some(f) = values(&a, "-v").iter().find_map(|v| v.strip_suffix(&format!(":{}", value(&a, "--entrypoint").unwrap_or_default())).map(|x| x.to_string())) { s2.lock().unwrap().push((f.clone(), sx::fs_content(&f))); }
        }));
        sx::push_script(Some(vec![Ev::Exit(Some(0))]));
        let out = S::default();
        start(&r, context(StepId::new("w", "a", 0), image("ubuntu"), run), &out);
        rt::settle();
        let g = script.lock().unwrap();
        check(g.len() == 1, "[X04] one container is run for a step");
        let got = g[0].1.clone().unwrap_or_default();
        check(if run.starts_with("#!") { got == run.as_bytes() } else { got.starts_with(b"#!/bin/sh\n") && got[10..] == *run.as_bytes() }, "[X04] the script of a step is its command");
        check(out.lock().unwrap().result == Some(RunResult::Succeeded), "[X04] the step succeeds");
        path = Some(g[0].0.clone());
        if k == 1 && left { reach("left behind"); }
    }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_docker_command() { let w = choose(9); docker_case(w) }

// ---------------------------------------------------------------- directories (X05, X06)
fn comp(n: usize) -> String {
    match choose(4) {
        0 => any_str(n, |b| (b == b'.') | (b == b'/') | (b == b'a') | (b == b'%') | (b == b'-')),
        1 => pick(&["..", ".", "", "/sx-none/x", "../../a", "a/../../../b", "a/", "./b"]).to_string(),
        2 => any_str(1, |b| (b == b'.') | (b == b'/') | (b == b'a') | (b == b'\\')),
        _ => "plain".into(),
    }
}
fn inside(p: &str) -> bool { sx::fs_below(WD, p) && sx::fs_norm(p) != WD }
fn event(o: &str, r: &str) -> TriggerEvent { TriggerEvent { event: "push".into(), repo_owner: o.into(), repo_name: r.into(), pr_number: None, sha: "s".into(), branch: "b".into(), ref_name: "f".into() } }
/// wherever the names of a run come from, its files are inside the working directory
fn paths(which: usize, n: usize) {
    setup();
    let (mut w, mut j, mut ev) = ("w".to_string(), "a".to_string(), None);
    let odd = || pick(&["..", ".", "", "/sx-none/x", "../..", "a/.."]).to_string();
    match which {
        4 => { w = odd(); j = odd(); }
        5 => { w = odd(); ev = Some(event("o", &odd())); }
        6 => ev = Some(event(&odd(), &odd())),
        7 => { j = odd(); ev = Some(event(&odd(), "r")); } 0 => w = comp(n), 1 => j = comp(n), 2 => ev = Some(event(&comp(n), "r")), _ => ev = Some(event("o", &comp(n))) }
    let docker = any_bool();
    let id = StepId::new(w.clone(), j, 1);
    let mut ctx = context(id, if docker { image("ubuntu") } else { host() }, "cmd");
    ctx.event = ev;
    let made: Arc<Mutex<bool>> = Default::default();
    let m2 = made.clone();
    // a neighbour that must not be touched
    sx::fs_op("create_dir", &format!("{}/other/b/data", WD), b"", true);
    sx::fs_op("create_dir", "/sx-none/a/b/precious", b"", true);
    *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| {
        let a = argv(p);
        if docker { for v in values(&a, "-v") { let h = v.split(':').next().unwrap_or(""); check(inside(h), "[X05] only directories inside the working directory are given to a container"); } }
        match &p.dir { Some(d) => { check(inside(d), "[X05] a step on the host starts inside the working directory"); check(docker || sx::fs_exists(d), "[X05] the directory of a step exists when it starts"); } None => check(docker, "[X05] a step on the host starts inside the working directory") }
        *m2.lock().unwrap() = true;
    }));
    sx::push_script(Some(vec![Ev::Exit(Some(0))]));
    let out = S::default();
    let r = plain_runner();
    start(&r, ctx, &out);
    rt::settle();
    check(out.lock().unwrap().result.is_some(), "[X05] the step ends");
    let res = WorkflowRunResult { id: WorkflowId::new(w), state: WorkflowState::Succeeded, started_at: None, completed_at: None, jobs: Default::default() };
    let r2 = r.clone();
    check(rt::block_on(async move { r2.on_workflow_completed(res).await.is_ok() }), "[X05] the end of a run is handled");
    for o in sx::world().fs.borrow().iter().skip(2) {
        check(inside(&o.path), if o.kind.starts_with("remove") { "[X05] nothing outside the working directory is removed" } else { "[X05] nothing outside the working directory is written" });
    }
    check(sx::fs_exists(&format!("{}/other/b/data", WD)) && sx::fs_exists("/sx-none/a/b/precious"), "[X05] only the files of the run itself are removed");
    if *made.lock().unwrap() { reach("ran"); }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_run_paths() { let w = choose(4); paths(w, 2) }
/// two odd names at once
#[no_mangle]
pub extern "C" fn sx_run_paths_two() { let w = 4 + choose(4); paths(w, 2) }
#[no_mangle]
pub extern "C" fn sx_run_paths4() { let w = choose(4); paths(w, 4) }

/// the directories and containers of two different steps
#[no_mangle]
pub extern "C" fn sx_run_apart() {
    setup();
    let part = |n| any_str(n, |b| (b == b'-') | (b == b'/') | (b == b'.') | (b == b'a') | (b == b'A') | (b == b'%') | (b == b'_'));
    let (w, j, n): (String, String, usize) = ("w".into(), part(2), *pick(&[1usize, 11]));
    let (w2, j2, n2): (String, String, usize) = match choose(4) {
        0 => (w.clone(), part(2), n),
        1 => (w.clone(), part(1), *pick(&[1usize, 11])),
        2 => (w.clone(), j.clone(), *pick(&[0usize, 2, 111])),
        _ => ("v".into(), part(2), n),
    };
    assume(!(w == w2 && j == j2 && n == n2));
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Hang, Ev::Exit(Some(0))]))));
    let r = plain_runner();
    let out = S::default();
    start(&r, context(StepId::new(w.clone(), j.clone(), n), image("ubuntu"), "cmd"), &out);
    rt::settle();
    start(&r, context(StepId::new(w2.clone(), j2.clone(), n2), image("ubuntu"), "cmd"), &out);
    rt::settle();
    let p: Vec<Vec<String>> = sx::world().procs.borrow().iter().map(argv).collect();
    check(p.len() == 2, "[X06] both steps run");
    check(value(&p[0], "--name") != value(&p[1], "--name"), "[X06] two steps never share a container name");
    let vol = |a: &[String], c: &str| values(a, "-v").iter().find_map(|v| v.strip_suffix(c).map(sx::fs_norm)).unwrap_or_default();
    let (e1, e2) = (vol(&p[0], ":/home/work/runner/entrypoint"), vol(&p[1], ":/home/work/runner/entrypoint"));
    check(e1 != e2, "[X06] two steps never share a script");
    let wd = |a: &[String]| vol(a, &format!(":{}", value(a, "-w").unwrap_or_default()));
    let (d1, d2) = (wd(&p[0]), wd(&p[1]));
    if w == w2 && j == j2 { check(d1 == d2, "[X06] the steps of a job share its directory"); reach("same job"); }
    else { check(!sx::fs_below(&d1, &d2) && !sx::fs_below(&d2, &d1), "[X06] different jobs have separate directories"); reach("different jobs"); }
    if w != w2 {
        let res = WorkflowRunResult { id: WorkflowId::new(w), state: WorkflowState::Succeeded, started_at: None, completed_at: None, jobs: Default::default() };
        let r2 = r.clone();
        let _ = rt::block_on(async move { r2.on_workflow_completed(res).await });
        check(sx::fs_exists(&e2), "[X06] the end of a run does not remove files of another");
        check(!sx::fs_exists(&e1), "[X06] the end of a run removes its files");
        reach("another run");
    }
}
/// names that only differ in where one part ends and the next begins
#[no_mangle]
pub extern "C" fn sx_run_names() {
    setup();
    let (ws, js, ns) = (["w", "w-a", "w-a-1", "w-", "-w"], ["a", "a-a", "-a", "1-a", "a-1", ".2d", "A", ".41", "a.2d", "a/", "a.2f"], [1usize, 11]);
    let mut names: Vec<(String, String)> = vec![];
    let first = choose(2);
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Exit(Some(0))]))));
    let r = plain_runner();
    let mut go = |w: &str, j: &str, n: usize| {
        let at = sx::world().procs.borrow().len();
        start(&r, context(StepId::new(w, j, n), image("ubuntu"), "cmd"), &S::default());
        rt::settle();
        let a = argv(&sx::world().procs.borrow()[at]);
        let name = value(&a, "--name").unwrap_or_default();
        let ok = |b: u8| b.is_ascii_alphanumeric() | (b == b'_') | (b == b'.') | (b == b'-');
        check(name.bytes().all(ok) && name.len() > 1 && name.as_bytes()[0].is_ascii_alphanumeric(), "[X04] the name of a container is one a container can have");
        let id = format!("{:?}", (w, j, n));
        for (i, x) in &names { check(*i == id || *x != name, "[X06] two steps never share a container name"); }
        names.push((id, name));
    };
    for w in ws { for j in js { go(w, j, ns[first]); } }
    for w in ws { go(w, js[0], ns[1 - first]); go(w, js[4], ns[1 - first]); }
    reach("completed");
}
/// long names: where one part ends and the next begins is told apart whatever their lengths
#[no_mangle]
pub extern "C" fn sx_run_names_long() {
    setup();
    let k = *pick(&[8usize, 10, 16, 20, 32, 50, 64, 100, 128, 200, 256]);
    let x = "x".repeat(k - 1);
    // all of these read the same once their parts are put together with a dash
    let ids = [("a".to_string(), format!("{}-b-{}-c", x, x)), (format!("a-{}", x), format!("b-{}-c", x)), (format!("a-{}-b", x), format!("{}-c", x)), (format!("a-{}-b-{}", x, x), "c".to_string())];
    let mut names: Vec<String> = vec![];
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Exit(Some(0))]))));
    let r = plain_runner();
    for (w, j) in &ids {
        let at = sx::world().procs.borrow().len();
        start(&r, context(StepId::new(w.as_str(), j.as_str(), 1), image("ubuntu"), "cmd"), &S::default());
        rt::settle();
        names.push(value(&argv(&sx::world().procs.borrow()[at]), "--name").unwrap_or_default());
    }
    for i in 0..names.len() { for l in 0..i { check(names[i] != names[l], "[X06] two steps never share a container name"); } }
    reach("completed");
}
/// runs whose ids differ little: files and ends are kept apart
#[no_mangle]
pub extern "C" fn sx_run_ids() {
    setup();
    // long ones that only differ in the middle or at their ends
    let (l1, l2, l3, l4) = (format!("{}1", "w".repeat(160)), format!("{}2", "w".repeat(160)), format!("1{}", "w".repeat(160)), format!("{}w1", "w".repeat(160)));
    let ids = ["caches", "Caches", "%63aches", "w", "W", "w ", " w", "w.", "%77", "..w", "%local", &l1, &l2, &l3, &l4];
    let (i, k) = (choose(ids.len()), choose(ids.len()));
    assume(i != k);
    assume((i < 11) == (k < 11));
    let ev = if any_bool() { Some(event("o", "r")) } else { None };
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Exit(Some(0))]))));
    let r = plain_runner();
    let mut dirs = vec![];
    let mut caches = vec![];
    for w in [ids[i], ids[k]] {
        let mut c = context(StepId::new(w, "a", 1), image("ubuntu"), "cmd");
        c.event = ev.clone();
        start(&r, c, &S::default());
        rt::settle();
        let p = sx::world().procs.borrow().last().map(argv).unwrap_or_default();
        let vs: Vec<String> = values(&p, "-v").iter().map(|v| sx::fs_norm(v.split(':').next().unwrap_or(""))).collect();
        let d = values(&p, "-v").iter().find_map(|v| v.strip_suffix(&format!(":{}", value(&p, "-w").unwrap_or_default())).map(sx::fs_norm)).unwrap_or_default();
        check(!d.is_empty(), "[X06] a container works in the directory of its job");
        caches.push(vs.iter().find(|v| **v != d && !v.ends_with("entrypoint")).cloned().unwrap_or_default());
        dirs.push(d);
    }
    check(!sx::fs_below(&dirs[0], &dirs[1]) && !sx::fs_below(&dirs[1], &dirs[0]), "[X06] different jobs have separate directories");
    check(caches[0] == caches[1] && !sx::fs_below(&caches[0], &dirs[0]) && !sx::fs_below(&dirs[0], &caches[0]), "[X06] the caches of a repository are apart from the directories of its runs");
    for d in [&caches[0], &dirs[0], &dirs[1]] { sx::fs_op("create_dir", &format!("{}/kept", d), b"", true); }
    let res = WorkflowRunResult { id: WorkflowId::new(ids[i]), state: pick(&[WorkflowState::Succeeded, WorkflowState::Failed, WorkflowState::Cancelled]).clone(), started_at: None, completed_at: None, jobs: Default::default() };
    let r2 = r.clone();
    let _ = rt::block_on(async move { r2.on_workflow_completed(res).await });
    check(!sx::fs_exists(&dirs[0]), "[X06] the end of a run removes its files");
    check(sx::fs_exists(&format!("{}/kept", dirs[1])), "[X06] the end of a run does not remove files of another");
    check(sx::fs_exists(&format!("{}/kept", caches[0])), "[X06] the end of a run does not remove the caches");
    reach("completed");
}
/// what a step leaves in its directory is there for the next step of the job, until the run is over
#[no_mangle]
pub extern "C" fn sx_run_share() {
    setup();
    nomatch_world();
    let kinds: Vec<bool> = (0..3).map(|_| any_bool()).collect();
    let codes: Vec<i32> = (0..3).map(|_| *pick(&[0, 3])).collect();
    let sig = if any_bool() { Some(choose(2)) } else { None };
    let ar = AstroRun::builder().runner(plain_runner()).plugin(HPlugin { i: 1 }).build();
    let mut w = workflow("w", vec![job("w", "a", 3, &[])]);
    for (i, s) in w.jobs.get_mut("a").unwrap().steps.iter_mut().enumerate() { s.container = if kinds[i] { host() } else { image("ubuntu") }; s.continue_on_error = true; s.timeout = Duration::from_secs(10); s.run = format!("cmd {}", i); }
    let k = std::rc::Rc::new(std::cell::Cell::new(0usize));
    let k2 = k.clone();
    let codes2 = codes.clone();
    let dirs: Arc<Mutex<Vec<String>>> = Default::default();
    let d2 = dirs.clone();
    *sx::world().script_for.borrow_mut() = Some(Box::new(move |_, a| {
        if a.last().map_or(false, |l| l.contains("docker kill") || l == "kill") { return Some(Some(vec![Ev::Exit(Some(0))])); }
        let i = k2.get();
        Some(Some(if sig == Some(i) { vec![Ev::Hang] } else { vec![Ev::Exit(Some(codes2[i.min(2)]))] }))
    }));
    let k3 = k.clone();
    *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| {
        if p.args.last().map_or(false, |l| l.contains("docker kill") || l == "kill") { return; }
        let d = match &p.dir { Some(d) => d.clone(), None => { let a = argv(p); let c = format!(":{}", value(&a, "-w").unwrap_or_default()); values(&a, "-v").iter().find_map(|v| v.strip_suffix(&c).map(|x| x.to_string())).unwrap_or_default() } };
        let d = sx::fs_norm(&d);
        let mut g = d2.lock().unwrap();
        for i in 0..g.len() { check(sx::fs_exists(&format!("{}/from-{}", g[i], i)), "[X06] what a step leaves in its directory is there for the later steps of its job"); }
        g.push(d.clone());
        drop(g);
        sx::fs_op("create_file", &format!("{}/from-{}", d, k3.get()), b"", true);
        k3.set(k3.get() + 1);
    }));
    let out = run_workflow(w, ar.execution_context().build());
    rt::settle();
    if sig.is_some() { rt::block_on(tokio::time::sleep(Duration::from_secs(40))); rt::settle(); }
    let Some(x) = out.take() else { fail("[X06] the run completes") };
    check(x.jobs["a"].steps.len() == 3, "[X06] the run completes");
    let g = dirs.lock().unwrap();
    check(g.len() == 3 && g.iter().all(|d| *d == g[0]), "[X06] the steps of a job share its directory");
    check(!sx::fs_exists(&g[0]), "[X06] the end of a run removes its files");
    if sig.is_some() { reach("timed out"); } else { reach("completed"); }
}

// ---------------------------------------------------------------- plugins of the runner (X07)
#[no_mangle]
pub extern "C" fn sx_run_plugins() {
    setup();
    let how: Vec<usize> = (0..3).map(|_| choose(3)).collect();
    let out = S::default();
    let got: Arc<Mutex<Vec<H>>> = Default::default();
    let mut b = AstroRunner::builder().working_directory(WD.into());
    for i in 0..3 { b = b.plugin(Hooks { i, how: how[i], got: got.clone(), out: out.clone(), wait: i == 1 }); }
    let r = b.build().ok().unwrap();
    let fails = any_bool();
    sx::push_script(if fails { None } else { Some(vec![Ev::Exit(Some(0))]) });
    start(&r, context(StepId::new("w", "a", 0), host(), "c"), &out);
    rt::settle();
    let mut run = "c".to_string();
    let mut want = vec![];
    for i in 0..3 { want.push(H::Before(i, run.clone())); if how[i] == 1 { run.push_str(&i.to_string()); } }
    let h = got.lock().unwrap().clone();
    check(h.len() == 6 && h[..3] == want[..], "[X07] the plugins of a runner see a step before it runs, in order, each with the changes of those before it");
    check(h.len() == 6 && (0..3).all(|i| matches!(&h[3 + i], H::After(k, c, _) if *k == i && *c == run)), "[X07] the plugins of a runner are told of the end of every step, in order, whatever others do");
    let p = sx::world().procs.borrow();
    check(p.len() == 1 && p[0].program == "sh" && p[0].args == ["-c".to_string(), run], "[X07] a step is run as changed by the plugins of the runner");
    reach("completed");
}
/// a step on the host gets its command and environment as they are
#[no_mangle]
pub extern "C" fn sx_host_command() {
    setup();
    let run = match choose(3) { 0 => format!("x{}", odd() as char), 1 => format!("{}x", odd() as char), _ => pick(&["echo a\necho b\n", "\u{e9}cho \"$K\" '$N' \\\n\n", "\techo", "#!/bin/sh\necho"]).to_string() };
    let mut ctx = context(StepId::new("w", "a", *pick(&[0, 1])), host(), &run);
    let v = match choose(4) { 0 => txt(false), 1 => String::new(), 2 => (odd() as char).to_string(), _ => pick(&["a\nb", "\u{e9}$X", " a ", "K=1"]).to_string() };
    ctx.command.environments.insert(pick(&["K", "k_2", " K", "k.2 "]).to_string(), EnvironmentVariable::String(v.clone()));
    ctx.command.environments.insert("PATH".into(), EnvironmentVariable::String("/x".into()));
    ctx.command.environments.insert("N".into(), EnvironmentVariable::Number(*pick(&[3.0, -0.5, 0.0, 0.1 + 0.2, 1e-9, 1e20])));
    ctx.command.environments.insert("B".into(), EnvironmentVariable::Boolean(any_bool()));
    let env = ctx.command.environments.clone();
    sx::push_script(Some(vec![Ev::Exit(Some(0))]));
    let out = S::default();
    start(&plain_runner(), ctx, &out);
    rt::settle();
    let p = sx::world().procs.borrow();
    check(p.len() == 1 && p[0].args.last() == Some(&run), "[X04] a step on the host runs its command");
    let mut e = p[0].envs.clone();
    e.sort();
    let mut want: Vec<(String, String)> = env.iter().map(|(k, v)| (k.clone(), match v { EnvironmentVariable::String(s) => s.clone(), EnvironmentVariable::Number(n) => n.to_string(), EnvironmentVariable::Boolean(b) => b.to_string() })).collect();
    want.sort();
    check(e == want, "[X04] a step on the host gets exactly the environment it was configured with");
    reach("completed");
}
/// which steps run on the host and which in a container
#[no_mangle]
pub extern "C" fn sx_run_where() {
    setup();
    let n = match choose(4) { 0 => format!("host/{}", std::env::consts::OS), 1 => format!("host/{}-{}", std::env::consts::OS, std::env::consts::ARCH), 2 => { let mut b = format!("host/{}", std::env::consts::OS).into_bytes(); let i = choose(b.len()); let c = any_u8(); assume((c >= b'0') & (c <= b'z')); b[i] = c; String::from_utf8(b).unwrap() } _ => pick(&["host/windows", "host/linux-", "host/linux-arm", "host", "ubuntu"]).to_string() };
    let hosted = n == format!("host/{}", std::env::consts::OS) || n == format!("host/{}-{}", std::env::consts::OS, std::env::consts::ARCH);
    let none = any_bool();
    sx::push_script(Some(vec![Ev::Exit(Some(0))]));
    let out = S::default();
    start(&plain_runner(), context(StepId::new("w", "a", 0), if none { None } else { image(&n) }, "cmd"), &out);
    rt::settle();
    let p = sx::world().procs.borrow();
    check(p.len() == 1, "[X04] one process is run for a step");
    if hosted && !none { check(p[0].args.last().map(|s| s.as_str()) == Some("cmd"), "[X04] a step for the host is run on the host"); reach("host"); }
    else { let a = argv(&p[0]); check(a[0] == "docker" && a[1] == "run", "[X04] a step with an image is run in a container"); check(none || rest(&a) == [n.clone()], "[X04] a container is run from the image its step was configured with"); reach("container"); }
}

// ---------------------------------------------------------------- larger worlds
/// lines longer than any buffer, cut anywhere, also within a character, on both outputs at once
#[no_mangle]
pub extern "C" fn sx_run_long() {
    setup();
    *sx::world().pipe.borrow_mut() = *pick(&[65536usize, 4096]);
    let n = *pick(&[8190usize, 8191, 8192, 16384, 70000]);
    let mut b = vec![b'x'; n];
    b.extend("\u{e9}y".as_bytes());
    b.extend(if any_bool() { &b"\r\n"[..] } else { &b"\n"[..] });
    b.extend(b"short\n\n");
    b.extend(vec![b'z'; 9000]);
    let cut = n - 1 + choose(5);
    let e: Vec<u8> = (0..if any_bool() { 120 } else { 1 }).flat_map(|i| format!("err {}\n", i).into_bytes()).collect();
    sx::push_script(Some(vec![Ev::Out(b[..cut].to_vec()), Ev::Err(e[..e.len() / 2].to_vec()), Ev::Out(b[cut..].to_vec()), Ev::Err(e[e.len() / 2..].to_vec()), Ev::Exit(Some(7))]));
    let out = S::default();
    start(&plain_runner(), context(StepId::new("w", "a", 0), host(), "cmd"), &out);
    rt::settle();
    check(out.lock().unwrap().result == Some(RunResult::Failed { exit_code: 7 }), "[X01,X02] the outcome of a step is the exit of its process");
    check_output(&out, &b, &e);
    reach("completed");
}
/// what a process printed is not lost when others have not yet been looked at
#[no_mangle]
pub extern "C" fn sx_run_many_lines() {
    setup();
    let docker = any_bool();
    let n = 150;
    let (mut o, mut e) = (vec![], vec![]);
    let mut script = vec![];
    for i in 0..n {
        let t = format!("line {} {}\n", i, if i % 7 == 0 { "\u{1f600}" } else { "" }).into_bytes();
        if i % 3 == 1 { e.extend(t.clone()); script.push(Ev::Err(t)); } else { o.extend(t.clone()); script.push(Ev::Out(t)); }
        if i % 40 == 39 { script.push(Ev::Sleep(1_000_000)); }
    }
    let how = choose(3);
    if how == 1 { script.push(Ev::CloseOut); script.push(Ev::Err(b"last\n".to_vec())); e.extend(b"last\n"); }
    if how == 2 { script.push(Ev::CloseErr); script.push(Ev::Out(b"last".to_vec())); o.extend(b"last"); }
    let killed = any_bool();
    script.push(Ev::Exit(if killed { None } else { Some(0) }));
    sx::push_script(Some(script));
    let out = S::default();
    start(&plain_runner(), context(StepId::new("w", "a", 0), if docker { image("ubuntu") } else { host() }, "cmd"), &out);
    rt::settle();
    rt::block_on(tokio::time::sleep(Duration::from_secs(1)));
    rt::settle();
    let r = out.lock().unwrap().result.clone();
    check(match r { Some(RunResult::Succeeded) => !killed, Some(RunResult::Failed { .. }) => killed, _ => false }, "[X01,X02] the outcome of a step is the exit of its process");
    check_output(&out, &o, &e);
    reach("completed");
}
/// the command a process was started for, host or container
fn command_of(p: &sx::ProcLog) -> Option<(String, String)> {
    if let Some(d) = &p.dir { return p.args.last().map(|c| (c.clone(), sx::fs_norm(d))); }
    let a = argv(p);
    if a.get(1).map(|s| s.as_str()) != Some("run") { return None; }
    let at = |c: String| values(&a, "-v").iter().find_map(|v| v.strip_suffix(&c).map(|x| x.to_string()));
    let script = sx::fs_content(&at(format!(":{}", value(&a, "--entrypoint").unwrap_or_default()))?)?;
    let s = String::from_utf8(script).ok()?;
    Some((s.strip_prefix("#!/bin/sh\n").unwrap_or(&s).to_string(), sx::fs_norm(&at(format!(":{}", value(&a, "-w").unwrap_or_default()))?)))
}
/// the same, as the process is started
fn named(program: &str, args: &[String]) -> String {
    if let Some(l) = args.last() { if l.starts_with("cmd ") { return l.clone(); } }
    let p = sx::ProcLog { program: program.into(), args: args.to_vec(), envs: vec![], dir: None, killed: false, ended: false, spawned: true };
    command_of(&p).map_or(String::new(), |x| x.0)
}
/// two runs with two jobs each on one runner, in any order of completion
fn crowd(free: bool) {
    setup();
    nomatch_world();
    let r = plain_runner();
    let ar = AstroRun::builder().runner(r).plugin(HPlugin { i: 1 }).build();
    let kind = choose(3);
    let tail = choose(3);
    let h = host();
    let mk = |id: &str| {
        let mut w = workflow(id, vec![job(id, "a", 2, &[]), job(id, "a-a", 2, &[])]);
        for (k, j) in w.jobs.iter_mut() { for (n, s) in j.steps.iter_mut().enumerate() {
            s.continue_on_error = true;
            s.container = if kind == 0 || kind == 2 && (n == 1) == (k == "a") { h.clone() } else { image("ubuntu") };
            s.run = format!("cmd {}", s.id.to_string());
        } }
        w
    };
    let dirs: Arc<Mutex<Vec<(String, String, Option<String>)>>> = Default::default();
    let d2 = dirs.clone();
    *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| {
        let Some((c, d)) = command_of(p) else { fail("[X04] every process is started for a step") };
        let mut g = d2.lock().unwrap();
        check(g.iter().all(|x| x.0 != c), "[X04,X06] every step is run once");
        let job = c[..c.len() - 2].to_string();
        for (o, x, _) in g.iter() {
            if o[..o.len() - 2] == job { check(*x == d && sx::fs_exists(&format!("{}/left-{}", d, o.replace('/', "_"))), "[X06] the steps of a job share its directory, with what earlier ones left there"); }
            else { check(!sx::fs_below(x, &d) && !sx::fs_below(&d, x), "[X06] different jobs have separate directories"); }
        }
        let name = if p.dir.is_some() { None } else { value(&argv(p), "--name") };
        if name.is_some() { check(g.iter().all(|x| x.2 != name), "[X06] two steps never share a container name"); }
        sx::fs_op("create_file", &format!("{}/left-{}", d, c.replace('/', "_")), b"", true);
        g.push((c, d, name));
    }));
    let slow = if free { 1u64 << choose(4) } else { 2 };
    let first = *pick(&["w", "w-a"]);
    let d3 = dirs.clone();
    *sx::world().script_for.borrow_mut() = Some(Box::new(move |p, a| { let n = d3.lock().unwrap().len() as u64; let last = named(p, a); Some(Some(vec![Ev::Sleep(1_000_000_000 * (1 + n % slow)), Ev::Out(format!("{}\n", last).into_bytes()), Ev::Exit(Some(if tail == 1 { (n % 2) as i32 } else { 0 }))])) }));
    let out1 = run_workflow(mk(first), ar.execution_context().build());
    rt::settle();
    if tail == 2 { rt::block_on(tokio::time::sleep(Duration::from_millis(1500))); }
    let second = if first == "w" { "w-a" } else { "w" };
    let out2 = run_workflow(mk(second), ar.execution_context().build());
    let mut gone = false;
    for _ in 0..60 {
        rt::settle();
        if out1.is_set() && !gone {
            gone = true;
            rt::settle();
            for (c, d, _) in dirs.lock().unwrap().iter() {
                if c.starts_with(&format!("cmd {}/", first)) { check(!sx::fs_exists(d), "[X06] the end of a run removes its files"); }
                else if !out2.is_set() { check(sx::fs_exists(d) && sx::fs_exists(&format!("{}/left-{}", d, c.replace('/', "_"))), "[X06] the end of a run does not remove files of another"); reach("one before the other"); }
            }
        }
        if out1.is_set() && out2.is_set() { break; }
        rt::block_on(tokio::time::sleep(Duration::from_millis(500)));
    }
    let (Some(a), Some(b)) = (out1.take(), out2.take()) else { fail("[X06] the run completes") };
    check(dirs.lock().unwrap().len() == 8, "[X06] every step is run once");
    for x in [&a, &b] { for j in x.jobs.values() { check(j.steps.len() == 2 && j.steps.iter().all(|s| s.state == WorkflowState::Succeeded || tail == 1 && s.exit_code == Some(1)), "[X02] the outcome of a step is the exit of its process"); } }
    for (_, d, _) in dirs.lock().unwrap().iter() { check(!sx::fs_exists(d), "[X06] the end of a run removes its files"); }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_run_crowd() { crowd(false) }
#[no_mangle]
pub extern "C" fn sx_run_crowd_free() { crowd(true) }

/// cancelling one job of several at any moment stops its processes and no others
#[no_mangle]
pub extern "C" fn sx_run_cancel_job() {
    setup();
    nomatch_world();
    let docker = any_bool();
    let ar = AstroRun::builder().runner(plain_runner()).plugin(HPlugin { i: 1 }).build();
    let mut w = workflow("w", vec![job("w", "a", 2, &[]), job("w", "b", 1, &[])]);
    let h = if docker { image("ubuntu") } else { host() };
    for j in w.jobs.values_mut() { for s in &mut j.steps { s.container = h.clone(); s.run = format!("cmd {}", s.id.to_string()); } }
    let started: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let s2 = started.clone();
    *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| { if let Some((c, _)) = command_of(p) { let n = if p.dir.is_some() { String::new() } else { value(&argv(p), "--name").unwrap_or_default() }; s2.lock().unwrap().push((c, n)); } }));
    *sx::world().script_for.borrow_mut() = Some(Box::new(move |p, a| {
        if docker && a.last().map_or(false, |l| l.contains("docker kill")) { return Some(Some(vec![Ev::Exit(Some(0))])); }
        let last = named(p, a);
        Some(Some(if last == "cmd w/a/0" { vec![Ev::Exit(Some(0))] } else if last == "cmd w/a/1" { vec![Ev::Hang] } else { vec![Ev::Sleep(5_000_000_000), Ev::Out(b"b\n".to_vec()), Ev::Exit(Some(0))] }))
    }));
    let out = run_workflow(w, ar.execution_context().build());
    let k = choose(if docker { 48 } else { 32 });
    rt::block_on(async move { for _ in 0..k { tokio::task::yield_now().await; } });
    let early = ar.cancel_job(&JobId::new("w", "a")).is_ok();
    rt::settle();
    if !early { check(ar.cancel_job(&JobId::new("w", "a")).is_ok(), "[X03] a running job can be cancelled"); rt::settle(); }
    let b_kill = started.lock().unwrap().iter().filter(|x| x.0 == "cmd w/b/0").map(|x| x.1.clone()).collect::<Vec<_>>();
    rt::block_on(tokio::time::sleep(Duration::from_secs(10)));
    rt::settle();
    let Some(x) = out.take() else { fail("[X03] a step ends: with its process, or when it is cancelled or times out") };
    check(x.jobs["b"].state == WorkflowState::Succeeded, "[X03] a step that is left alone is not disturbed");
    check(x.jobs["a"].state == WorkflowState::Cancelled, "[X03] a cancelled step ends cancelled");
    let g = started.lock().unwrap();
    if docker {
        check(b_kill.iter().all(|n| !kills().contains(n)), "[X03] only the step's own container is killed");
        if let Some(h) = g.iter().find(|x| x.0 == "cmd w/a/1") { check(kills().contains(&h.1), "[X03] the container of a cancelled step is killed"); reach("killed"); }
    } else {
        check(sx::world().procs.borrow().iter().all(|p| p.ended), "[X03] the process of a cancelled step is stopped");
        if g.iter().any(|x| x.0 == "cmd w/a/1") { reach("killed"); }
    }
    if early { reach("early"); }
    reach("completed");
}
/// everything a container can be given, at once
#[no_mangle]
pub extern "C" fn sx_docker_full() {
    setup();
    let b = odd();
    let t = |s: &str| format!("{}{}", s, b as char);
    assume(b != b':');
    let c = ContainerOptions { name: "r.io:5/a/b:c@d".into(), volumes: Some(vec!["/h:/c".into(), t("/h2 $X:/d"), "n:/e:ro,z".into(), "/h:/c2".into()]), security_opts: Some(vec!["a=b".into(), t("seccomp=`x`"), "c".into()]) };
    let mut env = EnvironmentVariables::new();
    for (k, v) in [("A", EnvironmentVariable::String(t("a 'b' "))), ("B", EnvironmentVariable::String("--rm".into())), ("C", EnvironmentVariable::Number(-3.0)), ("D", EnvironmentVariable::Boolean(false)), ("E", EnvironmentVariable::String("a=b=c".into()))] { env.insert(k.into(), v); }
    let run = format!("{}\n", "echo \"$A\" '\\' \u{e9}\n".repeat(30));
    let mut ctx = context(StepId::new("w", "a", 12), Some(c.clone()), &run);
    ctx.command.environments = env.clone();
    ctx.event = if any_bool() { Some(event("own er", "re'po")) } else { None };
    sx::push_script(Some(vec![Ev::Exit(Some(0))]));
    let seen: Arc<Mutex<Vec<(String, String)>>> = Default::default();
    let s2 = seen.clone();
    *sx::world().on_spawn.borrow_mut() = Some(Box::new(move |p| { if let Some(x) = command_of(p) { s2.lock().unwrap().push(x); } }));
    let out = S::default();
    start(&plain_runner(), ctx, &out);
    rt::settle();
    let procs = sx::world().procs.borrow().clone();
    check(procs.len() == 1, "[X04] one container is run for a step");
    let a = argv(&procs[0]);
    check(rest(&a) == [c.name.clone()], "[X04] a container is run from the image its step was configured with");
    let mut e = values(&a, "-e");
    e.sort();
    let mut want: Vec<String> = env.iter().map(|(k, v)| format!("{}={}", k, match v { EnvironmentVariable::String(s) => s.clone(), EnvironmentVariable::Number(n) => n.to_string(), EnvironmentVariable::Boolean(b) => b.to_string() })).collect();
    want.sort();
    check(e == want, "[X04] a container gets exactly the environment its step was configured with");
    let v = values(&a, "-v");
    let own: Vec<&String> = v.iter().filter(|x| c.volumes.as_ref().unwrap().contains(x)).collect();
    check(own.len() == 4 && c.volumes.as_ref().unwrap().iter().all(|x| v.contains(x)), "[X04] a container gets every volume its step was configured with");
    check(v.len() == 7, "[X04] a container gets no volumes its step was not configured with");
    check(values(&a, "--security-opt") == c.security_opts.clone().unwrap(), "[X04] a container gets the security options its step was configured with");
    let g = seen.lock().unwrap();
    check(g.len() == 1 && g[0].0 == run, "[X04] the script of a step is its command");
    check(out.lock().unwrap().result == Some(RunResult::Succeeded), "[X04] the step succeeds");
    reach("completed");
}
/// runs of different repositories, or of none, whatever their names
#[no_mangle]
pub extern "C" fn sx_run_repos() { repos(false) }
#[no_mangle]
pub extern "C" fn sx_run_repos_all() { repos(true) }
fn repos(all: bool) {
    setup();
    let key = std::cell::RefCell::new(None);
    let who = |k: usize| -> (String, String, Option<(String, String)>) {
        let id = pick(if k == 0 { &["o", "caches", "w"] } else { &["v", "%local", "r"] }).to_string();
        let j = if all || k == 0 { pick(&["r", "caches", "v"]).to_string() } else { key.borrow().clone().unwrap_or_default() };
        *key.borrow_mut() = Some(j.clone());
        (id, j, match choose(4) { 0 => None, 1 => Some(("o".into(), "r".into())), 2 => Some(("%local".into(), "w".into())), _ => Some((String::new(), "caches".into())) })
    };
    let (a, b) = (who(0), who(1));
    *sx::world().script_for.borrow_mut() = Some(Box::new(|_, _| Some(Some(vec![Ev::Exit(Some(0))]))));
    let r = plain_runner();
    let go = |x: &(String, String, Option<(String, String)>)| -> (String, String) {
        let at = sx::world().procs.borrow().len();
        let mut c = context(StepId::new(x.0.clone(), x.1.clone(), 0), image("ubuntu"), "cmd");
        c.event = x.2.as_ref().map(|e| event(&e.0, &e.1));
        start(&r, c, &S::default());
        rt::settle();
        let p = argv(&sx::world().procs.borrow()[at]);
        let vol = |c: &str| values(&p, "-v").iter().find_map(|v| v.strip_suffix(c).map(sx::fs_norm)).unwrap_or_default();
        let (d, c) = (vol(&format!(":{}", value(&p, "-w").unwrap_or_default())), vol(":/home/work/caches"));
        check(inside(&d) && inside(&c), "[X05] only directories inside the working directory are given to a container");
        for x in [&d, &c] { sx::fs_op("create_dir", x, b"", true); sx::fs_op("create_file", &format!("{}/left", x), b"", true); }
        (d, c)
    };
    let over = |x: &(String, String, Option<(String, String)>)| {
        let res = WorkflowRunResult { id: WorkflowId::new(x.0.clone()), state: if x.0.len() > 1 { WorkflowState::Cancelled } else { WorkflowState::Failed }, started_at: None, completed_at: None, jobs: Default::default() };
        let r2 = r.clone();
        check(rt::block_on(async move { r2.on_workflow_completed(res).await.is_ok() }), "[X05] the end of a run is handled");
    };
    let left = |d: &String| sx::fs_exists(&format!("{}/left", d));
    let (da, ca) = go(&a);
    let (db, cb) = go(&b);
    for (x, y) in [(&da, &db), (&db, &da), (&da, &ca), (&da, &cb), (&db, &ca), (&db, &cb), (&ca, &da), (&cb, &db), (&ca, &db), (&cb, &da)] { check(!sx::fs_below(x, y), "[X06] different runs have directories apart from each other and from the caches"); }
    over(&a);
    check(!sx::fs_exists(&da), "[X06] the end of a run removes its files");
    check(left(&db) && left(&ca) && left(&cb), "[X05,X06] the end of a run removes only its own files");
    // the first runs again, for another repository or for none
    let again = (a.0.clone(), a.1.clone(), match choose(if all { 3 } else { 2 }) { 0 => None, 1 => Some(("p".into(), "q".into())), _ => a.2.clone() });
    let (d2, _) = go(&again);
    over(&again);
    check(!sx::fs_exists(&d2), "[X06] the end of a run removes its files");
    check(left(&db) && left(&ca) && left(&cb), "[X05,X06] the end of a run removes only its own files");
    over(&b);
    check(!sx::fs_exists(&db), "[X06] the end of a run removes its files");
    reach("completed");
}
