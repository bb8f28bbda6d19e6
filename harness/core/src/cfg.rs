//! Configuration: what is accepted (C01), what it means (C02), how steps are numbered and
//! identified (C03), actions (C04).
use crate::common::*;
use astro_run::*;
use std::time::Duration;

fn build(ar: &AstroRun, id: Option<&str>, text: String) -> Result<Workflow> {
    rt::block_on(async {
        let mut b = Workflow::builder().config(text);
        if let Some(i) = id { b = b.id(i); }
        b.build(ar).await
    })
}
fn ar() -> AstroRun { AstroRun::builder().runner(HRunner::new()).build() }
const K: [&str; 5] = ["a", "b", "c", "d", "nope"];
fn text(n: usize, deps: &[u32], steps: &[usize]) -> String {
    let mut t = String::from("jobs:\n");
    for i in 0..n {
        t.push_str(&format!("  {}:\n", K[i]));
        if deps[i] != 0 || i == 1 {
            let d: Vec<&str> = (0..5).filter(|j| deps[i] >> j & 1 == 1).map(|j| K[j]).collect();
            t.push_str(&format!("    depends-on: [{}]\n", d.join(", ")));
        }
        t.push_str("    steps:\n");
        for s in 0..steps[i] { t.push_str(&format!("      - run: r{}\n", s)); }
    }
    t
}
fn accept(n: usize, deps: &[u32], steps: &[usize]) -> bool {
    if n == 0 || (0..n).any(|i| steps[i] == 0) { return false; }
    let all = (1u32 << n) - 1;
    if (0..n).any(|i| deps[i] & !all != 0) { return false; }
    let mut done = 0u32;
    for _ in 0..n { for i in 0..n { if deps[i] & !done == 0 { done |= 1 << i; } } }
    done == all
}
fn verdict(n: usize, deps: &[u32], steps: &[usize]) {
    let want = accept(n, deps, steps);
    match build(&ar(), Some("w"), text(n, deps, steps)) {
        Ok(w) => {
            check(want, "[C01] a configuration without jobs or steps, with an unknown or a cyclic dependency is rejected");
            check(w.jobs.len() == n, "[C02] the workflow has the jobs of its configuration");
            for i in 0..n {
                let j = match w.jobs.get(K[i]) { Some(j) => j, None => fail("[C02] the workflow has the jobs of its configuration") };
                check(j.steps.len() == steps[i], "[C02] a job has the steps of its configuration");
                let d: Vec<&str> = (0..5).filter(|k| deps[i] >> k & 1 == 1).map(|k| K[k]).collect();
                check(j.depends_on == d, "[C02] a job has the dependencies of its configuration");
            }
            reach("accepted");
        }
        Err(_) => { check(!want, "[C01] a configuration whose dependencies can be satisfied is accepted"); reach("rejected"); }
    }
}
/// two jobs: every relation over {a, b, an unknown job}, each with or without steps; one job; none
#[no_mangle]
pub extern "C" fn sx_cfg_small() {
    if any_bool() { set_seed(1); }
    match choose(3) {
        0 => { if any_bool() { verdict(0, &[], &[]); } else { check(build(&ar(), Some("w"), "jobs: {}\n".into()).is_err(), "[C01] a configuration without jobs is rejected"); check(build(&ar(), Some("w"), "name: x\n".into()).is_err(), "[C01] a configuration without jobs is rejected"); } }
        1 => { let d = [0, 1, 16, 17]; verdict(1, &[d[choose(4)]], &[choose(2)]); }
        _ => { let d = [0u32, 1, 2, 3, 16, 17, 18, 19]; verdict(2, &[d[choose(8)], d[choose(8)]], &[choose(2), choose(2)]); }
    }
}
/// three jobs, every dependency relation
#[no_mangle]
pub extern "C" fn sx_cfg_rel3() {
    let d = [choose(8) as u32, choose(8) as u32, choose(8) as u32];
    verdict(3, &d, &[1, 1, 1]);
}
/// four jobs, every relation in which one of them depends on nothing
#[no_mangle]
pub extern "C" fn sx_cfg_rel4() {
    let d = [0, choose(16) as u32, choose(16) as u32, choose(16) as u32];
    verdict(4, &d, &[1, 1, 1, 1]);
}
/// whatever is accepted runs to its end
#[no_mangle]
pub extern "C" fn sx_cfg_runs() {
    crate::wf::setup(2);
    let d = [choose(8) as u32, choose(8) as u32, choose(8) as u32];
    if !accept(3, &d, &[1, 1, 1]) { return; }
    let a = ar();
    let w = match build(&a, Some("w"), text(3, &d, &[1, 1, 1])) { Ok(w) => w, Err(_) => fail("[C01] a configuration whose dependencies can be satisfied is accepted") };
    let out = run_workflow(w, a.execution_context().build());
    loop { rt::settle(); let l = live(); if l.is_empty() { break; } finish(l[0], RunResult::Succeeded); }
    check(out.is_set(), "[C01] an accepted configuration can be run to its end");
    check(rec().borrow().ctxs.len() == 3, "[C01] an accepted configuration runs all its jobs");
    reach("completed");
}

// ---------------------------------------------------------------- meaning
fn letter(b: u8) -> bool { (b >= b'g') & (b <= b'k') }
fn opt(t: &mut String, on: bool, line: &str) { if on { t.push_str(line); } }
/// names, directories and conditions
#[no_mangle]
pub extern "C" fn sx_cfg_top() {
    let (n, jn, wd) = (any_bool(), any_bool(), choose(3));
    let x = any_str(1, letter);
    let on = choose(4);
    let level = choose(3);
    let line = |ind: &str| match on { 1 => format!("{i}on: [push, e{x}]\n", i = ind, x = x), 2 => format!("{i}on:\n{i}  push:\n{i}    branches: [{x}, 'b*']\n", i = ind, x = x), 3 => format!("{i}on:\n{i}  pull_request:\n{i}    paths: ['src/{x}']\n", i = ind, x = x), _ => String::new() };
    let mut t = String::new();
    opt(&mut t, n, &format!("name: wf {}\n", x));
    if level == 0 { t.push_str(&line("")); }
    t.push_str("jobs:\n  job-1:\n");
    opt(&mut t, jn, &format!("    name: job {}\n", x));
    match wd { 1 => t.push_str("    working-directories: []\n"), 2 => t.push_str(&format!("    working-directories: [/w/{}, z]\n", x)), _ => {} }
    if level == 1 { t.push_str(&line("    ")); }
    t.push_str(&format!("    steps:\n      - run: do {}\n", x));
    if level == 2 { t.push_str(&line("        ")); }
    let w = match build(&ar(), Some("wid"), t) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
    check(w.name == if n { Some(format!("wf {}", x)) } else { None }, "[C02] the workflow's name is the configured one");
    let j = match w.jobs.get("job-1") { Some(j) => j, None => fail("[C02] the workflow has the jobs of its configuration") };
    check(j.name == if jn { Some(format!("job {}", x)) } else { None }, "[C02] a job's name is the configured one");
    check(j.working_directories == if wd == 2 { vec![format!("/w/{}", x), "z".to_string()] } else { vec![] }, "[C02] a job's working directories are the configured ones");
    let want = match on {
        1 => Some(Condition::Event(vec!["push".into(), format!("e{}", x)])),
        2 => Some(Condition::Config(ConditionConfig { push: Some(PushCondition { branches: Some(vec![x.clone(), "b*".into()]), paths: None }), pull_request: None })),
        3 => Some(Condition::Config(ConditionConfig { push: None, pull_request: Some(PullRequestCondition { branches: None, paths: Some(vec![format!("src/{}", x)]) }) })),
        _ => None,
    };
    let none = None;
    check(w.on == *if level == 0 { &want } else { &none }, "[C02] the workflow's condition is the configured one");
    check(j.on == *if level == 1 { &want } else { &none }, "[C02] a job's condition is the configured one");
    check(j.steps[0].on == *if level == 2 { &want } else { &none }, "[C02] a step's condition is the configured one");
    check(j.steps[0].run == format!("do {}", x), "[C02] a step's command is the configured one");
    check(w.id == WorkflowId::new("wid") && j.id == JobId::new("wid", "job-1") && j.steps[0].id == StepId::new("wid", "job-1", 0), "[C03] jobs and steps are identified by the workflow, the job's key and the position");
    reach("completed");
}
/// everything a step can say
#[no_mangle]
pub extern "C" fn sx_cfg_step() {
    let x = any_str(1, letter);
    let name = any_bool();
    let coe = choose(3);
    let sec = any_bool();
    let env = choose(5);
    let mut t = String::from("jobs:\n  j:\n    steps:\n      - run: |\n          one\n          two\n");
    opt(&mut t, name, &format!("        name: step {}\n", x));
    match coe { 1 => t.push_str("        continue-on-error: true\n"), 2 => t.push_str("        continue-on-error: false\n"), _ => {} }
    opt(&mut t, sec, &format!("        secrets: [S{}, T]\n", x));
    match env { 1 => t.push_str(&format!("        environments:\n          A: v{}\n          B: 'true'\n", x)), 2 => t.push_str("        environments:\n          N: 12\n          F: 1.5\n"), 3 => t.push_str("        environments:\n          Y: true\n          Z: false\n"), 4 => t.push_str("        environments: {}\n"), _ => {} }
    let w = match build(&ar(), Some("w"), t) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
    let s = &w.jobs["j"].steps[0];
    check(s.run == "one\ntwo\n", "[C02] a step's command is the configured one");
    check(s.name == if name { Some(format!("step {}", x)) } else { None }, "[C02] a step's name is the configured one");
    check(s.continue_on_error == (coe == 1), "[C02] a step continues on error only if configured so");
    check(s.secrets == if sec { vec![format!("S{}", x), "T".to_string()] } else { vec![] }, "[C02] a step's secrets are the configured ones");
    let e = |k: &str| s.environments.get(k).cloned();
    check(match env {
        1 => s.environments.len() == 2 && e("A") == Some(EnvironmentVariable::String(format!("v{}", x))) && e("B") == Some(EnvironmentVariable::String("true".into())),
        2 => s.environments.len() == 2 && e("N") == Some(EnvironmentVariable::Number(12.0)) && e("F") == Some(EnvironmentVariable::Number(1.5)),
        3 => s.environments.len() == 2 && e("Y") == Some(EnvironmentVariable::Boolean(true)) && e("Z") == Some(EnvironmentVariable::Boolean(false)),
        _ => s.environments.is_empty(),
    }, "[C02] a step's environment variables are the configured ones");
    check(s.timeout == Duration::from_secs(3600) && s.container.is_none(), "[C02] without configuration a step has one hour and no container");
    reach("completed");
}
/// timeouts: symbolic number with each unit, absent, malformed; the second step is independent
#[no_mangle]
pub extern "C" fn sx_cfg_timeout() {
    let d = any_u8();
    let e = any_u8();
    assume((d >= b'1') & (d <= b'9'));
    assume((e >= b'0') & (e <= b'9'));
    let n = ((d - b'0') as u64) * 10 + (e - b'0') as u64;
    let num = unsafe { String::from_utf8_unchecked(vec![d, e]) };
    let (txt, want) = match choose(9) {
        0 => (Some(format!("{}s", num)), Some(n)),
        1 => (Some(format!("{}m", num)), Some(n * 60)),
        2 => (Some(format!("{}h", num)), Some(n * 3600)),
        3 => (Some(format!("1h {}m", num)), Some(3600 + n * 60)),
        4 => (Some(format!("{}days", num)), Some(n * 86400)),
        5 => (Some(format!("{}x", num)), None),
        6 => (Some(format!("'{}'", num)), None),
        7 => (Some("soon".to_string()), None),
        _ => (None, Some(3600)),
    };
    let first = any_bool();
    let l = match &txt { Some(t) => format!("        timeout: {}\n", t), None => String::new() };
    let t = format!("jobs:\n  j:\n    steps:\n      - run: x\n{}      - run: y\n{}", if first { &l } else { "" }, if first { "" } else { &l });
    match build(&ar(), Some("w"), t) {
        Ok(w) => {
            let s = &w.jobs["j"].steps;
            let i = if first { 0 } else { 1 };
            match want { Some(x) => check(s[i].timeout == Duration::from_secs(x), "[C02] a step's timeout is the configured duration, or one hour"), None => fail("[C01] a malformed timeout is rejected") }
            check(s[1 - i].timeout == Duration::from_secs(3600), "[C02] a timeout concerns its own step");
            reach("accepted");
        }
        Err(_) => { check(want.is_none(), "[C02] a well-formed timeout is accepted"); reach("rejected"); }
    }
}
/// containers: of the job, of the step, as a name or with options
#[no_mangle]
pub extern "C" fn sx_cfg_container() {
    let (jc, sc) = (choose(4), choose(4));
    let x = any_str(1, letter);
    let y = any_str(1, letter);
    let put = |c: usize, ind: &str, n: &str| match c { 1 => format!("{}container: img/{}:1\n", ind, n), 2 => format!("{i}container:\n{i}  name: opt{n}\n{i}  volumes: ['/v/{n}:/d', /e]\n", i = ind, n = n), 3 => format!("{i}container:\n{i}  name: opt{n}\n{i}  security-opts: [seccomp=unconfined]\n", i = ind, n = n), _ => String::new() };
    let t = format!("jobs:\n  j:\n{}    steps:\n      - run: x\n{}      - run: y\n", put(jc, "    ", &x), put(sc, "        ", &y));
    let w = match build(&ar(), Some("w"), t) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
    let is = |c: &Option<ContainerOptions>, k: usize, n: &str| match (k, c) {
        (0, None) => true,
        (1, Some(c)) => c.name == format!("img/{}:1", n) && c.volumes.is_none() && c.security_opts.is_none(),
        (2, Some(c)) => c.name == format!("opt{}", n) && c.volumes == Some(vec![format!("/v/{}:/d", n), "/e".to_string()]) && c.security_opts.is_none(),
        (3, Some(c)) => c.name == format!("opt{}", n) && c.volumes.is_none() && c.security_opts == Some(vec!["seccomp=unconfined".to_string()]),
        _ => false,
    };
    let s = &w.jobs["j"].steps;
    check(if sc != 0 { is(&s[0].container, sc, &y) } else { is(&s[0].container, jc, &x) }, "[C02] a step uses its own container, or else its job's");
    check(is(&s[1].container, jc, &x), "[C02] a step without a container uses its job's");
    reach("completed");
}
/// identities: given or generated
#[no_mangle]
pub extern "C" fn sx_cfg_ids() {
    let n = 1 + choose(3);
    let m = 1 + choose(2);
    let t = text(2, &[0, 1], &[n, m]);
    let given = any_bool();
    let id = any_str(2, |b| (b >= b'a') & (b <= b'z'));
    let a = ar();
    let w = match build(&a, if given { Some(&id) } else { None }, t.clone()) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
    let wid = w.id.inner();
    if given { check(wid == id, "[C03] a workflow has the id it was given"); }
    else {
        let w2 = match build(&a, None, t) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
        check(!wid.is_empty() && w2.id != w.id, "[C03] workflows without a given id get different ids");
        check(w2.jobs["a"].id.workflow_id() == w2.id, "[C03] jobs and steps carry the id of their workflow");
    }
    for (k, c) in [("a", n), ("b", m)] {
        let j = &w.jobs[k];
        check(j.id.workflow_id() == w.id && j.id.job_key() == k, "[C03] jobs and steps carry the id of their workflow");
        check(j.steps.len() == c, "[C02] a job has the steps of its configuration");
        for (i, s) in j.steps.iter().enumerate() { check(s.id == StepId::new(wid.clone(), k, i) && s.run == format!("r{}", i), "[C03] steps are numbered from zero in the order they run"); }
    }
    reach("completed");
}

// ---------------------------------------------------------------- actions
struct Act { tag: &'static str, pre: bool, post: bool, err: bool, nested: bool }
fn cmd(s: String) -> UserStep { UserStep::Command(UserCommandStep { run: s, ..Default::default() }) }
impl Action for Act {
    fn normalize(&self, step: UserActionStep) -> Result<ActionSteps> {
        if self.err { return Err(Error::error("refused")); }
        let w = match &step.with { Some(serde_yaml::Value::String(s)) => s.clone(), _ => "-".into() };
        let l = |k: &str| cmd(format!("{} {} {} {}", self.tag, k, w, step.name.clone().unwrap_or_default()));
        let run = if self.nested { UserStep::Action(UserActionStep { uses: "st".into(), ..Default::default() }) } else { l("run") };
        Ok(ActionSteps { pre: if self.pre { Some(l("pre")) } else { None }, run, post: if self.post { Some(l("post")) } else { None } })
    }
}
fn actions(n: usize) {
    let (pre, post) = (any_bool(), any_bool());
    let dynpost = any_bool();
    let (err, nested) = match choose(4) { 1 => (true, false), 2 => (false, true), _ => (false, false) };
    let d = |tag: &'static str, uses: &'static str, how: usize| AstroRunPlugin::builder("r").on_resolve_dynamic_action(move |s: UserActionStep| {
        if s.uses != uses && s.uses != "st" { return Ok(None); }
        match how { 0 => Ok(Some(Box::new(Act { tag, pre: true, post: dynpost, err: false, nested: false }) as Box<dyn Action>)), 1 => Ok(None), _ => Err(Error::error("no")) }
    }).build();
    let how = choose(3);
    let a = AstroRun::builder().runner(HRunner::new())
        .action("st", Act { tag: "S", pre, post, err, nested })
        .plugin(d("D1", "dy", how)).plugin(d("D2", "dy", 0)).build();
    let mut t = String::from("jobs:\n  j:\n    steps:\n");
    let kinds: Vec<usize> = (0..n).map(|_| choose(4)).collect();
    for (i, k) in kinds.iter().enumerate() {
        t.push_str(&match k { 0 => format!("      - run: cmd {}\n", i), 1 => format!("      - uses: st\n        with: w{}\n        name: n{}\n", i, i), 2 => format!("      - uses: dy\n        with: w{}\n        name: n{}\n", i, i), _ => "      - uses: unknown\n".to_string() });
    }
    let dtag = if how == 0 { "D1" } else { "D2" };
    let (mut p, mut r, mut q) = (vec![], vec![], vec![]);
    for (i, k) in kinds.iter().enumerate() {
        let l = |tag: &str, s: &str| format!("{} {} w{} n{}", tag, s, i, i);
        match k {
            0 => r.push(format!("cmd {}", i)),
            1 => { if pre { p.push(l("S", "pre")); } r.push(l("S", "run")); if post { q.insert(0, l("S", "post")); } }
            2 => { p.push(l(dtag, "pre")); r.push(l(dtag, "run")); if dynpost { q.insert(0, l(dtag, "post")); } }
            _ => {}
        }
    }
    let bad = kinds.contains(&3) || (kinds.contains(&1) && (err || nested));
    p.append(&mut r);
    p.append(&mut q);
    match build(&a, Some("w"), t) {
        Ok(w) => {
            check(!bad, "[C04] an action that is unknown, refuses or is not made of commands makes the build fail");
            let s = &w.jobs["j"].steps;
            check(s.len() == p.len(), "[C04] an action becomes its pre, main and post steps");
            for (i, x) in s.iter().enumerate() {
                check(x.run == p[i], "[C04] pre steps run first in order, then the steps themselves, then post steps in reverse order; registered actions come before resolved ones, earlier plugins before later ones");
                check(x.id == StepId::new("w", "j", i), "[C03] steps are numbered from zero in the order they run");
            }
            reach("built");
        }
        Err(_) => { check(bad, "[C04] known actions are resolved"); reach("refused"); }
    }
}
#[no_mangle]
pub extern "C" fn sx_actions() { actions(2) }
/// actions whose steps read the same, and one that is used again: each use has its own steps
#[no_mangle]
pub extern "C" fn sx_actions_same() {
    struct Same(&'static str, bool, bool);
    impl Action for Same { fn normalize(&self, _: UserActionStep) -> Result<ActionSteps> { Ok(ActionSteps { pre: if self.1 { Some(cmd(format!("{}pre", self.0))) } else { None }, run: cmd("run".into()), post: if self.2 { Some(cmd(format!("{}post", self.0))) } else { None } }) } }
    let (p1, q1) = (any_bool(), any_bool());
    let tag = *pick(&["", "b"]);
    let dynamic = any_bool();
    let b = AstroRun::builder().runner(HRunner::new()).action("x", Same("", p1, q1));
    let a = if dynamic { b.plugin(AstroRunPlugin::builder("r").on_resolve_dynamic_action(move |s: UserActionStep| { if s.uses == "y" { Ok(Some(Box::new(Same(tag, true, true)) as Box<dyn Action>)) } else { Ok(None) } }).build()) } else { b.action("y", Same(tag, true, true)) }.build();
    let n = choose(4) + 1;
    let uses: Vec<&str> = (0..n).map(|_| *pick(&["x", "y", "run"])).collect();
    let mut t = String::from("jobs:\n  j:\n    steps:\n");
    let (mut p, mut r, mut q): (Vec<String>, Vec<String>, Vec<String>) = (vec![], vec![], vec![]);
    for u in &uses {
        t.push_str(&if *u == "run" { "      - run: run\n".to_string() } else { format!("      - uses: {}\n", u) });
        r.push("run".into());
        if *u == "x" { if p1 { p.push("pre".into()); } if q1 { q.insert(0, "post".into()); } }
        if *u == "y" { p.push(format!("{}pre", tag)); q.insert(0, format!("{}post", tag)); }
    }
    p.append(&mut r);
    p.append(&mut q);
    match build(&a, Some("w"), t) {
        Ok(w) => {
            let s = &w.jobs["j"].steps;
            check(s.len() == p.len(), "[C04] an action becomes its pre, main and post steps");
            for (i, x) in s.iter().enumerate() { check(x.run == p[i] && x.id == StepId::new("w", "j", i), "[C04] pre steps run first in order, then the steps themselves, then post steps in reverse order; registered actions come before resolved ones, earlier plugins before later ones"); }
            reach("built");
        }
        Err(_) => fail("[C04] known actions are resolved"),
    }
}
#[no_mangle]
pub extern "C" fn sx_actions3() { actions(3) }
/// up to five actions in a job, with names that resemble each other, registered or resolved
#[no_mangle]
pub extern "C" fn sx_actions_names() {
    const NAMES: [&str; 8] = ["x", "x@v1", "X", "x/y", "x ", "./x", "", "\u{e9}"];
    let reg = choose(1 << 4);
    let how = choose(2);
    let mut b = AstroRun::builder().runner(HRunner::new());
    const TAGS: [&str; 4] = ["A", "B", "C", "D"];
    for k in 0..4 { if reg >> k & 1 == 1 { b = b.action(NAMES[k], Act { tag: TAGS[k], pre: k != 2, post: k != 3, err: false, nested: false }); } }
    let b = if how == 1 { b.plugin(AstroRunPlugin::builder("r").on_resolve_dynamic_action(|s: UserActionStep| {
        if s.uses == "x@v1" || s.uses == "" || s.uses == "x/y" { Ok(Some(Box::new(Act { tag: "R", pre: true, post: true, err: false, nested: false }) as Box<dyn Action>)) } else { Ok(None) }
    }).build()) } else { b };
    let a = b.build();
    let n = choose(5) + 1;
    let first = choose(8);
    let uses: Vec<&str> = (0..n).map(|i| NAMES[(first + i * (1 + first % 2)) % 8]).collect();
    let mut t = String::from("jobs:\n  j:\n    steps:\n");
    for (i, u) in uses.iter().enumerate() { t.push_str(&format!("      - uses: '{}'\n        with: w{}\n        name: n{}\n", u, i, i)); }
    let (mut p, mut r, mut q, mut bad) = (vec![], vec![], vec![], false);
    for (i, u) in uses.iter().enumerate() {
        let l = |tag: &str, s: &str| format!("{} {} w{} n{}", tag, s, i, i);
        let k = NAMES.iter().position(|x| x == u).unwrap();
        if k < 4 && reg >> k & 1 == 1 {
            if k != 2 { p.push(l(TAGS[k], "pre")); }
            r.push(l(TAGS[k], "run"));
            if k != 3 { q.insert(0, l(TAGS[k], "post")); }
        } else if how == 1 && (*u == "x@v1" || *u == "" || *u == "x/y") {
            p.push(l("R", "pre"));
            r.push(l("R", "run"));
            q.insert(0, l("R", "post"));
        } else { bad = true; }
    }
    p.append(&mut r);
    p.append(&mut q);
    match build(&a, Some("w"), t) {
        Ok(w) => {
            check(!bad, "[C04] an action that is unknown, refuses or is not made of commands makes the build fail");
            let s = &w.jobs["j"].steps;
            check(s.len() == p.len(), "[C04] an action becomes its pre, main and post steps");
            for (i, x) in s.iter().enumerate() {
                check(x.run == p[i], "[C04] pre steps run first in order, then the steps themselves, then post steps in reverse order; registered actions come before resolved ones, earlier plugins before later ones");
                check(x.id == StepId::new("w", "j", i), "[C03] steps are numbered from zero in the order they run");
            }
            reach("built");
        }
        Err(_) => { check(bad, "[C04] known actions are resolved"); reach("refused"); }
    }
}

// ---------------------------------------------------------------- larger configurations
/// rings and chains of two to eight jobs behind free jobs: rejected exactly if the ring is closed
#[no_mangle]
pub extern "C" fn sx_cfg_ring() {
    if any_bool() { set_seed(1); }
    let n = 2 + choose(7);
    let closed = any_bool();
    let rev = any_bool();
    let free = choose(3);
    let name = |i: usize| format!("k{}", if rev { n - 1 - i } else { i });
    let mut t = String::from("jobs:\n");
    for i in 0..free { t.push_str(&format!("  free{}:\n    steps: [{{run: x}}]\n", i)); }
    for i in 0..n {
        t.push_str(&format!("  {}:\n    steps: [{{run: x}}]\n", name(i)));
        let mut d: Vec<String> = vec![];
        if i > 0 { d.push(name(i - 1)); } else if closed { d.push(name(n - 1)); }
        if free > 0 && i == n / 2 { d.push("free0".into()); }
        if !d.is_empty() { t.push_str(&format!("    depends-on: [{}]\n", d.join(", "))); }
    }
    match build(&ar(), Some("w"), t) {
        Ok(w) => { check(!closed, "[C01] a configuration without jobs or steps, with an unknown or a cyclic dependency is rejected"); check(w.jobs.len() == n + free, "[C02] the workflow has the jobs of its configuration"); reach("accepted"); }
        Err(_) => { check(closed, "[C01] a configuration whose dependencies can be satisfied is accepted"); reach("rejected"); }
    }
}
/// a configuration of eight jobs with up to twelve steps each: everything is in its place
#[no_mangle]
pub extern "C" fn sx_cfg_many() {
    let n = 8;
    let x = any_str(1, letter);
    let m = *pick(&[1usize, 5, 12]);
    let mut t = String::from("jobs:\n");
    for i in 0..n {
        t.push_str(&format!("  j{}:\n    name: N{}{}\n    steps:\n", i, i, x));
        for s in 0..m { t.push_str(&format!("      - run: r{}.{}{}\n        timeout: {}s\n        environments: {{V{}: {}, W: '{}'}}\n", i, s, x, s + 1, s, i, x)); }
        if i > 0 { t.push_str(&format!("    depends-on: [{}]\n", (0..i).map(|k| format!("j{}", k)).collect::<Vec<_>>().join(", "))); }
    }
    let w = match build(&ar(), Some("w"), t) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
    check(w.jobs.len() == n, "[C02] the workflow has the jobs of its configuration");
    for i in 0..n {
        let j = match w.jobs.get(&format!("j{}", i)) { Some(j) => j, None => fail("[C02] the workflow has the jobs of its configuration") };
        check(j.name == Some(format!("N{}{}", i, x)) && j.id == JobId::new("w", format!("j{}", i)), "[C02] a job's name is the configured one");
        check(j.depends_on == (0..i).map(|k| format!("j{}", k)).collect::<Vec<_>>(), "[C02] a job has the dependencies of its configuration");
        check(j.steps.len() == m, "[C02] a job has the steps of its configuration");
        for (s, y) in j.steps.iter().enumerate() {
            check(y.id == StepId::new("w", format!("j{}", i), s), "[C03] steps are numbered from zero in the order they run");
            check(y.run == format!("r{}.{}{}", i, s, x), "[C02] a step's command is the configured one");
            check(y.timeout == Duration::from_secs(s as u64 + 1), "[C02] a step's timeout is the configured duration, or one hour");
            check(y.environments.len() == 2 && y.environments.get(&format!("V{}", s)) == Some(&EnvironmentVariable::Number(i as f64)) && y.environments.get("W") == Some(&EnvironmentVariable::String(x.clone())), "[C02] a step's environment variables are the configured ones");
        }
    }
    reach("completed");
}
/// every text of a configuration is kept as it is written, whatever characters it has
#[no_mangle]
pub extern "C" fn sx_cfg_texts() {
    let c = any_u8();
    assume((c >= b' ') & (c < 127) & (c != b'\''));
    let x = format!("A{}Zz", unsafe { String::from_utf8_unchecked(vec![c]) });
    texts(x)
}
#[no_mangle]
pub extern "C" fn sx_cfg_texts2() {
    texts(pick(&[" lead", "trail ", "x  y", "", "\u{e9}\u{4e16}", "a: b", "- a", "# c", "${{ x }}", "true", "12", "null", "~", "a\tb", "%61/b", "../x", "'", "\u{1F600} \\n"]).to_string())
}
fn texts(x: String) {
    let which = choose(12);
    let q = format!("'{}'", x.replace('\'', "''"));
    let p = |i: usize| if which == i { q.clone() } else { "'Qq'".to_string() };
    let v = |i: usize| if which == i { x.clone() } else { "Qq".to_string() };
    let key = if which == 11 { *pick(&["Job", "j.1", "J_x", "job 1", "\u{e9}", " j", "j ", "0", "-a", ".x", "%2e", "true"]) } else { "j" };
    let wid = if which == 10 { *pick(&["w", " w", "w ", "W", "W-1.x", "\u{e9}", "", " "]) } else { "w" };
    let by = choose(2) == 0;
    let ev = if which == 11 { *pick(&["Kk", "", " K ", "k.2", "=", "\u{e9}"]) } else { "Kk" };
    let ek = |e: &str| format!("'{}'", e);
    let (jn, sn) = if by { (format!("    container: {}\n", p(2)), format!("        container:\n          name: {}\n          volumes: [{}]\n          security-opts: [{}]\n", p(3), p(4), p(5))) } else { (format!("    container:\n      name: {}\n      volumes: [{}]\n      security-opts: [{}]\n", p(2), p(4), p(5)), format!("        container: {}\n", p(3))) };
    let t = format!("name: {}\njobs:\n  '{}':\n    name: {}\n    working-directories: [{}]\n{}    on: [{}]\n    steps:\n      - run: {}\n        name: {}\n        secrets: [{}]\n        environments:\n          {}: {}\n{}      - run: y\n", p(0), key, p(1), p(6), jn, p(7), p(8), p(9), p(10), ek(ev), p(11), sn);
    let w = match build(&ar(), Some(wid), t) { Ok(w) => w, Err(_) => fail("[C02] a valid configuration is accepted") };
    check(w.id == WorkflowId::new(wid) && w.id.inner() == wid, "[C03] a workflow has the id it was given");
    check(w.name == Some(v(0)), "[C02] the workflow's name is the configured one");
    let j = match w.jobs.get(key) { Some(j) => j, None => fail("[C02] the workflow has the jobs of its configuration") };
    check(w.jobs.len() == 1 && j.id == JobId::new(wid, key) && j.id.job_key() == key && j.steps[0].id == StepId::new(wid, key, 0) && j.steps[1].id == StepId::new(wid, key, 1), "[C03] jobs and steps are identified by the workflow, the job's key and the position");
    check(j.name == Some(v(1)), "[C02] a job's name is the configured one");
    check(j.working_directories == [v(6)], "[C02] a job's working directories are the configured ones");
    check(j.on == Some(Condition::Event(vec![v(7)])), "[C02] a job's condition is the configured one");
    let s = &j.steps[0];
    check(s.run == v(8), "[C02] a step's command is the configured one");
    check(s.name == Some(v(9)), "[C02] a step's name is the configured one");
    check(s.secrets == [v(10)], "[C02] a step's secrets are the configured ones");
    check(s.environments.len() == 1 && s.environments.get(ev) == Some(&EnvironmentVariable::String(if which == 11 { x.clone() } else { "Qq".into() })), "[C02] a step's environment variables are the configured ones");
    let full = |n: String| Some(ContainerOptions { name: n, volumes: Some(vec![v(4)]), security_opts: Some(vec![v(5)]) });
    let bare = |n: String| Some(ContainerOptions { name: n, volumes: None, security_opts: None });
    let eq = |a: &Option<ContainerOptions>, b: &Option<ContainerOptions>| match (a, b) { (Some(a), Some(b)) => a.name == b.name && a.volumes == b.volumes && a.security_opts == b.security_opts, _ => false };
    let (a, b) = if by { (bare(v(2)), full(v(3))) } else { (full(v(2)), bare(v(3))) };
    check(eq(&s.container, &b), "[C02] a step uses its own container, or else its job's");
    check(eq(&j.steps[1].container, &a), "[C02] a step without a container uses its job's");
    reach("completed");
}

/// up to forty jobs in a chain, a star or a ladder, with repeated dependencies, and one fault or none
#[no_mangle]
pub extern "C" fn sx_cfg_large() {
    let n = *pick(&[9usize, 17, 40]);
    let shape = choose(3);
    let fault = choose(5);
    let at = *pick(&[1, n / 2, n - 1]);
    let twice = any_bool();
    let mut t = String::from("jobs:\n");
    for i in 0..n {
        t.push_str(&format!("  j{}:\n", i));
        if fault == 1 && i == at { t.push_str("    steps: []\n"); } else { t.push_str(&format!("    steps: [{}]\n", vec!["{run: x}"; if i == at { 30 } else { 1 }].join(", "))); }
        let mut d: Vec<usize> = match shape { _ if i == 0 => vec![], 0 => vec![i - 1], 1 => vec![0], _ => if i > 1 { vec![i - 2, i - 1] } else { vec![0] } };
        if twice && !d.is_empty() { d.push(d[0]); }
        // a later job, itself, an unknown one
        if i == at && fault == 2 { d.push(n - 1); }
        if i == at && fault == 3 { d.push(n + 1); }
        if fault == 4 && i == n - 1 { d.push(n - 1); }
        if !d.is_empty() { t.push_str(&format!("    depends-on: [{}]\n", d.iter().map(|k| format!("j{}", k)).collect::<Vec<_>>().join(", "))); }
    }
    // the star has no way back unless the job depends on itself
    let bad = match fault { 0 => false, 2 => shape != 1 || at == n - 1, _ => true };
    match build(&ar(), Some("w"), t) {
        Ok(w) => {
            check(!bad, "[C01] a configuration without jobs or steps, with an unknown or a cyclic dependency is rejected");
            check(w.jobs.len() == n, "[C02] the workflow has the jobs of its configuration");
            for i in 0..n { check(w.jobs.get(&format!("j{}", i)).map_or(false, |j| j.steps.len() == if i == at { 30 } else { 1 }), "[C02] a job has the steps of its configuration"); }
            reach("accepted");
        }
        Err(_) => { check(bad, "[C01] a configuration whose dependencies can be satisfied is accepted"); reach("rejected"); }
    }
}
