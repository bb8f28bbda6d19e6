//! Conditions: what they mean (M01), when they cannot be decided (M02), where the changed files
//! come from (M03).
use crate::common::*;
use astro_run::*;
use std::sync::atomic::{AtomicUsize, Ordering};

/// does `v` match the pattern: `*` any characters, `?` one character, others themselves
fn glob(p: &[u8], v: &[u8]) -> bool {
    if p.is_empty() { return v.is_empty(); }
    match p[0] {
        b'*' => glob(&p[1..], v) || (!v.is_empty() && glob(p, &v[1..])),
        b'?' => !v.is_empty() && glob(&p[1..], &v[1..]),
        c => !v.is_empty() && v[0] == c && glob(&p[1..], &v[1..]),
    }
}
fn some_match(vs: &[String], ps: &[String]) -> bool { vs.iter().any(|v| ps.iter().any(|p| glob(p.as_bytes(), v.as_bytes()))) }
fn pat_char(b: u8) -> bool { (b == b'a') | (b == b'b') | (b == b'/') | (b == b'*') | (b == b'?') }
fn val_char(b: u8) -> bool { (b == b'a') | (b == b'b') | (b == b'/') }
fn pattern(n: usize) -> String {
    let s = any_str(n, pat_char);
    // two stars in a row mean something else (any number of path components)
    for w in s.as_bytes().windows(2) { assume(!((w[0] == b'*') & (w[1] == b'*'))); }
    s
}
fn cond(pr: bool, branches: Option<Vec<String>>, paths: Option<Vec<String>>) -> Condition {
    if pr { Condition::Config(ConditionConfig { push: None, pull_request: Some(PullRequestCondition { branches, paths }) }) }
    else { Condition::Config(ConditionConfig { push: Some(PushCondition { branches, paths }), pull_request: None }) }
}
fn glob_entry(np: usize, nv: usize) {
    let p = pattern(choose(np + 1));
    let v = any_str(choose(nv + 1), val_char);
    let pr = any_bool();
    let branch = any_bool();
    let c = if branch { cond(pr, Some(vec![p.clone()]), None) } else { cond(pr, None, Some(vec![p.clone()])) };
    let pay = ConditionPayload { event: if pr { "pull_request" } else { "push" }.into(), branch: if branch { v.clone() } else { "z".into() }, paths: if branch { vec!["z".into()] } else { vec![v.clone()] } };
    let got = c.is_match(&pay);
    let want = glob(p.as_bytes(), v.as_bytes());
    check(got == want, "[M01] a branch or path condition holds exactly if a value matches a pattern");
    if got { reach("holds") } else { reach("does not hold") }
}
#[no_mangle]
pub extern "C" fn sx_cond_glob() { glob_entry(2, 3) }
#[no_mangle]
pub extern "C" fn sx_cond_glob4() { glob_entry(4, 4) }

/// lists of patterns and of changed files, both restrictions, both kinds of event, event lists
fn list(n: usize, ok: fn(u8) -> bool) -> Vec<String> { (0..choose(n + 1)).map(|_| any_str(1, ok)).collect() }
fn lists_entry(n: usize) {
    let one = |b: u8| (b == b'a') | (b == b'b');
    let onep = |b: u8| (b == b'a') | (b == b'b') | (b == b'*');
    let ev = *pick(&["push", "pull_request", "release"]);
    let pay = ConditionPayload { event: ev.into(), branch: any_str(1, one), paths: list(n, one) };
    let opt = || if any_bool() { Some(list(n, onep)) } else { None };
    let ok = |b: &Option<Vec<String>>, p: &Option<Vec<String>>| b.as_ref().map_or(true, |b| some_match(&[pay.branch.clone()], b)) && p.as_ref().map_or(true, |p| some_match(&pay.paths, p));
    let (b, p) = (opt(), opt());
    let (c, want) = match choose(3) {
        0 => (cond(false, b.clone(), p.clone()), ev == "push" && ok(&b, &p)),
        1 => (cond(true, b.clone(), p.clone()), ev == "pull_request" && ok(&b, &p)),
        _ => {
            // both kinds restricted, differently
            let other = Some(vec!["a".to_string()]);
            let swap = any_bool();
            let mine = PushCondition { branches: b.clone(), paths: p.clone() };
            let cfg = if swap { ConditionConfig { push: Some(PushCondition { branches: other.clone(), paths: None }), pull_request: Some(PullRequestCondition { branches: mine.branches, paths: mine.paths }) } }
                else { ConditionConfig { push: Some(mine), pull_request: Some(PullRequestCondition { branches: other.clone(), paths: None }) } };
            let w = match ev { "push" => if swap { ok(&other, &None) } else { ok(&b, &p) }, "pull_request" => if swap { ok(&b, &p) } else { ok(&other, &None) }, _ => false };
            (Condition::Config(cfg), w)
        }
    };
    check(c.is_match(&pay) == want, "[M01] a condition holds exactly if it names the event and each of its restrictions is met by some value and pattern");
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_cond_lists() { lists_entry(1) }
#[no_mangle]
pub extern "C" fn sx_cond_lists2() { lists_entry(2) }
#[no_mangle]
pub extern "C" fn sx_cond_events() {
    let ev = any_str(2, |b| (b >= b'a') & (b <= b'z'));
    let l: Vec<String> = (0..choose(4)).map(|_| any_str(1 + choose(2), |b| (b >= b'a') & (b <= b'z'))).collect();
    let want = l.iter().any(|x| *x == ev);
    let got = Condition::Event(l).is_match(&ConditionPayload { event: ev, branch: "b".into(), paths: vec![] });
    check(got == want, "[M01] a list of events holds exactly if it contains the event");
    if got { reach("holds") } else { reach("does not hold") }
}

// ---------------------------------------------------------------- runs against a stand-in GitHub
#[derive(Clone, Copy, PartialEq)]
enum Auth { None, Pat, App }
struct World { fail_inst: usize, fail_tok: usize, fail_files: usize, no_list: bool, n: [AtomicUsize; 3] }
/// `fail`: 0 never, 1 the first time only, 2 always
fn fails(mode: usize, n: &AtomicUsize) -> bool { let k = n.fetch_add(1, Ordering::SeqCst); mode == 2 || (mode == 1 && k == 0) }
impl octocrate::Api for World {
    fn files(&self, r: &octocrate::Req) -> Option<Option<Vec<String>>> {
        if fails(self.fail_files, &self.n[2]) { return None; }
        if self.no_list { return Some(None); }
        Some(Some(vec![match r { octocrate::Req::Commit { sha, .. } => format!("file-{}", sha), octocrate::Req::Files { pr, .. } => format!("file-{}", pr), _ => "?".into() }, "readme".into()]))
    }
    fn installation(&self, _: &octocrate::Req) -> Option<i64> { if fails(self.fail_inst, &self.n[0]) { None } else { Some(31) } }
    fn token(&self, r: &octocrate::Req) -> Option<String> { if fails(self.fail_tok, &self.n[1]) { return None; } match r { octocrate::Req::AccessToken { id, .. } => Some(format!("for{}", id)), _ => None } }
}
fn reqs() -> Vec<octocrate::Req> { octocrate::world().log.borrow().clone() }
fn instance(a: Auth) -> AstroRun {
    let b = AstroRun::builder().runner(HRunner::new()).plugin(HPlugin { i: 1 });
    match a { Auth::None => b, Auth::Pat => b.github_personal_token("tok"), Auth::App => b.github_app(7, "key") }.build()
}
fn start(ar: &AstroRun, w: &Workflow, ev: &Option<TriggerEvent>) -> Slot<WorkflowRunResult> {
    let mut c = ar.execution_context();
    if let Some(e) = ev { c = c.event(e.clone()); }
    run_workflow(w.clone(), c.build())
}
fn finish_all(out: &Slot<WorkflowRunResult>) -> WorkflowRunResult {
    loop { rt::settle(); let l = live(); if l.is_empty() { break; } finish(l[0], RunResult::Succeeded); }
    match out.take() { Some(r) => r, None => fail("[M02] the run completes") }
}
/// one condition at some level, in every situation
#[no_mangle]
pub extern "C" fn sx_cond_world() {
    crate::wf::setup(1);
    let auth = *pick(&[Auth::None, Auth::Pat, Auth::App]);
    let ev = match choose(5) {
        0 => None,
        1 => Some(TriggerEvent { event: "push".into(), sha: "77".into(), ..Default::default() }),
        2 => Some(TriggerEvent { event: "pull_request".into(), pr_number: Some(77), ..Default::default() }),
        3 => Some(TriggerEvent { event: "pull_request".into(), pr_number: None, ..Default::default() }),
        _ => Some(TriggerEvent { event: "release".into(), ..Default::default() }),
    };
    let (fi, ft, ff) = match choose(4) { 0 => (0, 0, 0), 1 => (2, 0, 0), 2 => (0, 2, 0), _ => (0, 0, 2) };
    let no_list = any_bool();
    let matching = any_bool();
    let pat = Some(vec![if matching { "file-77".to_string() } else { "src/*".to_string() }]);
    let c = Condition::Config(ConditionConfig { push: Some(PushCondition { branches: None, paths: pat.clone() }), pull_request: Some(PullRequestCondition { branches: None, paths: pat }) });
    *octocrate::world().api.borrow_mut() = Some(Box::new(World { fail_inst: fi, fail_tok: ft, fail_files: ff, no_list, n: Default::default() }));
    let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
    let level = choose(3);
    match level { 0 => w.on = Some(c), 1 => w.jobs.get_mut("a").unwrap().on = Some(c), _ => w.jobs.get_mut("a").unwrap().steps[0].on = Some(c) }
    let ar = instance(auth);
    let out = start(&ar, &w, &ev);
    let r = finish_all(&out);
    let ran = !rec().borrow().ctxs.is_empty();
    // what must happen
    let kind = ev.as_ref().map(|e| e.event.clone()).unwrap_or_default();
    let known = auth != Auth::None && (kind == "push" || (kind == "pull_request" && ev.as_ref().unwrap().pr_number.is_some()))
        && ff == 0 && (auth == Auth::Pat || (fi == 0 && ft == 0));
    let files_empty = no_list;
    let want = !known || (matching && !files_empty);
    if !known { check(ran, "[M02] a condition that cannot be decided lets the run go on"); reach("undecided"); }
    else { check(ran == want, "[M02] a condition that can be decided is honoured"); reach(if want { "holds" } else { "does not hold" }); }
    let st = match level { 0 => Some(r.state.clone()), 1 => r.jobs.get("a").map(|j| j.state.clone()), _ => r.jobs.get("a").map(|j| j.steps[0].state.clone()) };
    if !want && level == 2 { check(st == Some(WorkflowState::Skipped), "[M02] what its condition excludes is skipped"); }
    if !want && level == 1 { check(st == Some(WorkflowState::Skipped), "[M02] what its condition excludes is skipped"); }
    if want { check(st == Some(WorkflowState::Succeeded), "[M02] what its condition admits is run"); }
    // what was asked
    let q = reqs();
    for x in &q {
        let ok = match x {
            octocrate::Req::Installation { owner, repo, token } => auth == Auth::App && owner == "panghu-huang" && repo == "astro-run" && token == "app:7:key",
            octocrate::Req::AccessToken { id, token } => auth == Auth::App && *id == 31 && token == "app:7:key",
            octocrate::Req::Commit { owner, repo, sha, token } => kind == "push" && owner == "panghu-huang" && repo == "astro-run" && sha == "77" && token == if auth == Auth::App { "inst:for31" } else { "pat:tok" },
            octocrate::Req::Files { owner, repo, pr, token } => kind == "pull_request" && owner == "panghu-huang" && repo == "astro-run" && *pr == 77 && token == if auth == Auth::App { "inst:for31" } else { "pat:tok" },
        };
        check(ok, "[M03] GitHub is asked about the event's own repository, commit or pull request, with the credentials of the instance");
    }
    if auth == Auth::None || ev.is_none() || kind == "release" { check(q.is_empty(), "[M03] GitHub is not asked when the answer could not matter"); }
    if known { check(q.len() == if auth == Auth::App { 3 } else { 1 }, "[M03] the changed files are fetched once"); }
}
/// odd texts in what GitHub is asked and answers: all of them are used as they are
#[no_mangle]
pub extern "C" fn sx_cond_asked() {
    crate::wf::setup(1);
    let x = match choose(5) { 0 => any_str(1, |b| (b > b' ') & (b < 127)), 1 => String::new(), 2 => "ghp_A b/c".into(), 3 => "\u{e9} ".into(), _ => "x".repeat(300) };
    let which = choose(5);
    let v = |i: usize, d: &str| if which == i { x.clone() } else { d.to_string() };
    let pr = any_bool();
    let n = *pick(&[1i64, 1 << 33, 0, -4]);
    let app_id = *pick(&[7u64, 0, 1 << 33 | 7, u64::MAX]);
    let many = *pick(&[1usize, 12, 29]);
    let ev = TriggerEvent { event: if pr { "pull_request" } else { "push" }.into(), repo_owner: v(0, "own"), repo_name: v(1, "rep"), sha: v(2, "s1"), branch: v(3, "main"), pr_number: if pr { Some(n) } else if any_bool() { Some(3) } else { None }, ref_name: "refs/x".into() };
    *octocrate::world().api.borrow_mut() = Some(Box::new(Listing(many)));
    let app = any_bool();
    let cred = v(4, "cred");
    let b = AstroRun::builder().runner(HRunner::new());
    let ar = if app { b.github_app(app_id, cred.clone()) } else { b.github_personal_token(cred.clone()) }.build();
    let at = *pick(&[0, many / 2, many - 1, many]);
    let mut w = workflow("w", vec![job("w", "a", 1, &[])]);
    w.jobs.get_mut("a").unwrap().steps[0].on = Some(cond(pr, None, Some(vec![format!("dir/f{}", at)])));
    let out = start(&ar, &w, &Some(ev.clone()));
    let r = finish_all(&out);
    check((r.jobs["a"].steps[0].state == WorkflowState::Succeeded) == (at < many), "[M03] a condition is decided by all the changed files of its own run's event");
    let tok = if app { "inst:it".to_string() } else { format!("pat:{}", cred) };
    let (mut asked, mut inst) = (0, 0);
    for q in reqs() {
        let ok = match &q {
            octocrate::Req::Installation { owner, repo, token } => { inst += 1; app && *owner == ev.repo_owner && *repo == ev.repo_name && *token == format!("app:{}:{}", app_id, cred) }
            octocrate::Req::AccessToken { id, token } => { inst += 1; app && *id == 5 && *token == format!("app:{}:{}", app_id, cred) }
            octocrate::Req::Commit { owner, repo, sha, token } => { asked += 1; !pr && *owner == ev.repo_owner && *repo == ev.repo_name && *sha == ev.sha && *token == tok }
            octocrate::Req::Files { owner, repo, pr: k, token } => { asked += 1; pr && *owner == ev.repo_owner && *repo == ev.repo_name && *k == n && *token == tok }
        };
        check(ok, "[M03] GitHub is asked about the event's own repository, commit or pull request, with the credentials of the instance");
    }
    check(asked == 1 && inst == if app { 2 } else { 0 }, "[M03] the changed files are fetched once");
    reach("completed");
}
/// GitHub lists changed files in pages: all of them count, and if one cannot be had nothing is decided
#[no_mangle]
pub extern "C" fn sx_cond_pages() {
    crate::wf::setup(1);
    let pr = any_bool();
    let many = *pick(&[0usize, 30, 31, 99, 100, 101, 299, 300, 301, 650]);
    let fail = choose(4);
    let failed = std::sync::Arc::new(AtomicUsize::new(0));
    struct Paged(usize, usize, AtomicUsize, std::sync::Arc<AtomicUsize>);
    impl octocrate::Api for Paged {
        fn files(&self, _: &octocrate::Req) -> Option<Option<Vec<String>>> { if self.2.fetch_add(1, Ordering::SeqCst) + 1 == self.1 { self.3.store(1, Ordering::SeqCst); return None; } Some(Some((0..self.0).map(|i| format!("dir/f{}", i)).collect())) }
        fn installation(&self, _: &octocrate::Req) -> Option<i64> { Some(5) }
        fn token(&self, _: &octocrate::Req) -> Option<String> { Some("it".into()) }
    }
    *octocrate::world().api.borrow_mut() = Some(Box::new(Paged(many, fail, AtomicUsize::new(0), failed.clone())));
    let ar = AstroRun::builder().runner(HRunner::new()).github_personal_token("t").build();
    let at = *pick(&[0usize, 29, 30, 99, 100, 299, 300, 649, 650]);
    let mut w = workflow("w", vec![job("w", "a", 2, &[])]);
    let other = any_bool();
    w.jobs.get_mut("a").unwrap().steps[0].on = Some(cond(pr, None, Some(vec![format!("dir/f{}", at)])));
    if other { w.jobs.get_mut("a").unwrap().steps[1].on = Some(cond(pr, None, Some(vec!["dir/*".to_string()]))); }
    let ev = TriggerEvent { event: if pr { "pull_request" } else { "push" }.into(), repo_owner: "o".into(), repo_name: "r".into(), sha: "s".into(), branch: "main".into(), pr_number: Some(9), ..Default::default() };
    let out = start(&ar, &w, &Some(ev));
    let r = finish_all(&out);
    let ran = |i: usize| r.jobs["a"].steps[i].state == WorkflowState::Succeeded;
    if failed.load(Ordering::SeqCst) > 0 { check(ran(0), "[M02] what cannot be decided runs"); reach("failed"); } else { check(ran(0) == (at < many), "[M03] a condition is decided by all the changed files of its own run's event"); reach("listed"); }
    if other { check(ran(1) == (many > 0), "[M02] a failure for one condition does not decide another"); }
    check(reqs().iter().all(|q| match q { octocrate::Req::Commit { owner, repo, sha, token } => !pr && owner == "o" && repo == "r" && sha == "s" && token == "pat:t", octocrate::Req::Files { owner, repo, pr: n, token } => pr && owner == "o" && repo == "r" && *n == 9 && token == "pat:t", _ => false }), "[M03] GitHub is asked about the event's own repository, commit or pull request, with the credentials of the instance");
}
struct Listing(usize);
impl octocrate::Api for Listing {
    fn files(&self, _: &octocrate::Req) -> Option<Option<Vec<String>>> { Some(Some((0..self.0).map(|i| format!("dir/f{}", i)).collect())) }
    fn installation(&self, _: &octocrate::Req) -> Option<i64> { Some(5) }
    fn token(&self, _: &octocrate::Req) -> Option<String> { Some("it".into()) }
}
/// several conditions in one run: fetched once; a failure is not remembered
fn multi(fail: usize, levels: usize) {
    crate::wf::setup(1);
    let auth = *pick(&[Auth::Pat, Auth::App]);
    let pr = any_bool();
    let ev = if pr { TriggerEvent { event: "pull_request".into(), pr_number: Some(5), ..Default::default() } } else { TriggerEvent { event: "push".into(), sha: "5".into(), ..Default::default() } };
    *octocrate::world().api.borrow_mut() = Some(Box::new(World { fail_inst: 0, fail_tok: 0, fail_files: fail, no_list: false, n: Default::default() }));
    let m: Vec<bool> = (0..levels).map(|_| any_bool()).collect();
    let c = |yes: bool| { let p = Some(vec![if yes { "file-5" } else { "other" }.to_string()]); Some(Condition::Config(ConditionConfig { push: Some(PushCondition { branches: None, paths: p.clone() }), pull_request: Some(PullRequestCondition { branches: None, paths: p }) })) };
    let mut w = workflow("w", vec![job("w", "a", levels, &[])]);
    for i in 0..levels { w.jobs.get_mut("a").unwrap().steps[i].on = c(m[i]); }
    let ar = instance(auth);
    let out = start(&ar, &w, &Some(ev));
    let r = finish_all(&out);
    for i in 0..levels {
        let want = m[i] || fail == 2 || (fail == 1 && i == 0);
        check((r.jobs["a"].steps[i].state == WorkflowState::Succeeded) == want, "[M02] each condition is decided on its own; a failed request decides nothing for later ones");
    }
    if fail == 0 { check(reqs().iter().filter(|x| matches!(x, octocrate::Req::Commit { .. } | octocrate::Req::Files { .. })).count() == 1, "[M03] the changed files are fetched once for all conditions of a run"); }
    reach("completed");
}
#[no_mangle]
pub extern "C" fn sx_cond_multi() { multi(choose(3), 3) }
/// conditions of jobs that are decided at the same moment: fetched once, unless the first request fails
#[no_mangle]
pub extern "C" fn sx_cond_jobs() {
    crate::wf::setup(1);
    let pr = any_bool();
    let fail = choose(3);
    let auth = *pick(&[Auth::Pat, Auth::App]);
    let waits = choose(3);
    struct Y(usize);
    impl std::future::Future for Y { type Output = (); fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> { if self.0 == 0 { std::task::Poll::Ready(()) } else { self.0 -= 1; cx.waker().wake_by_ref(); std::task::Poll::Pending } } }
    struct Slow(World, usize);
    impl octocrate::Api for Slow {
        fn files(&self, r: &octocrate::Req) -> Option<Option<Vec<String>>> { self.0.files(r) }
        fn installation(&self, r: &octocrate::Req) -> Option<i64> { self.0.installation(r) }
        fn token(&self, r: &octocrate::Req) -> Option<String> { self.0.token(r) }
        fn point(&self) -> std::pin::Pin<Box<dyn std::future::Future<Output = ()> + Send>> { Box::pin(Y(self.1)) }
    }
    *octocrate::world().api.borrow_mut() = Some(Box::new(Slow(World { fail_inst: 0, fail_tok: 0, fail_files: fail, no_list: false, n: Default::default() }, waits)));
    let ev = if pr { TriggerEvent { event: "pull_request".into(), pr_number: Some(5), ..Default::default() } } else { TriggerEvent { event: "push".into(), sha: "5".into(), ..Default::default() } };
    let m: Vec<bool> = (0..3).map(|_| any_bool()).collect();
    let on_step = any_bool();
    let mut w = workflow("w", vec![job("w", "a", 1, &[]), job("w", "b", 1, &[]), job("w", "c", 1, &[])]);
    for (i, k) in ["a", "b", "c"].iter().enumerate() { let j = w.jobs.get_mut(*k).unwrap(); let c = Some(cond(pr, None, Some(vec![if m[i] { "file-5" } else { "other" }.to_string()]))); if on_step { j.steps[0].on = c; } else { j.on = c; } }
    let ar = instance(auth);
    let out = start(&ar, &w, &Some(ev));
    let r = finish_all(&out);
    let ran: Vec<bool> = ["a", "b", "c"].iter().map(|k| if on_step { r.jobs[*k].steps[0].state == WorkflowState::Succeeded } else { r.jobs[*k].state == WorkflowState::Succeeded }).collect();
    // at most the one whose request failed runs although its condition does not hold
    let extra = (0..3).filter(|i| ran[*i] && !m[*i]).count();
    check((0..3).all(|i| ran[i] || !m[i]), "[M02] a condition that holds, or cannot be decided, lets the job run");
    if fail == 0 { check(extra == 0, "[M02] a condition that can be decided is honoured"); }
    if fail == 2 { check(ran.iter().all(|x| *x), "[M02] a condition that cannot be decided lets the job run"); }
    let n = reqs().iter().filter(|x| matches!(x, octocrate::Req::Commit { .. } | octocrate::Req::Files { .. })).count();
    if fail == 0 { check(n == 1, "[M03] the changed files are fetched once for all conditions of a run"); }
    check(n >= 1 && n <= 3, "[M03] the changed files are fetched once for all conditions of a run");
    reach("completed");
}
/// runs of one instance do not share what they know about changed files
#[no_mangle]
pub extern "C" fn sx_cond_two_runs() {
    crate::wf::setup(1);
    *octocrate::world().api.borrow_mut() = Some(Box::new(World { fail_inst: 0, fail_tok: 0, fail_files: 0, no_list: false, n: Default::default() }));
    let ar = instance(*pick(&[Auth::Pat, Auth::App]));
    let mk = |k: &str| { let mut w = workflow(k, vec![job(k, "a", 1, &[])]); w.jobs.get_mut("a").unwrap().steps[0].on = Some(cond(false, None, Some(vec!["file-1".into()]))); w };
    let (s1, s2) = (choose(2), choose(2));
    let e = |s: usize| Some(TriggerEvent { event: "push".into(), sha: s.to_string(), ..Default::default() });
    let o1 = start(&ar, &mk("w1"), &e(s1));
    if any_bool() { rt::settle(); }
    let o2 = start(&ar, &mk("w2"), &e(s2));
    let r1 = finish_all(&o1);
    let r2 = match o2.take() { Some(r) => r, None => fail("[M02] the run completes") };
    check((r1.jobs["a"].steps[0].state == WorkflowState::Succeeded) == (s1 == 1), "[M03] a condition is decided by the changed files of its own run's event");
    check((r2.jobs["a"].steps[0].state == WorkflowState::Succeeded) == (s2 == 1), "[M03] a condition is decided by the changed files of its own run's event");
    reach("completed");
}

/// many patterns, many files, one of each can fit, at any position
#[no_mangle]
pub extern "C" fn sx_cond_many() {
    let (p, f, n) = if any_bool() { (choose(6), choose(6), 6) } else { (*pick(&[0, 17, 39]), *pick(&[0, 8, 16, 39]), 40) };
    let c = any_str(1, |b| (b >= b'a') & (b <= b'c'));
    let d = any_str(1, |b| (b >= b'a') & (b <= b'c'));
    // a malformed pattern fits nothing and takes nothing away from the others
    let bad = *pick(&["", "[", "a**b", "***", "[!", "src/**x", "[]"]);
    let pats: Vec<String> = (0..n).map(|i| if i == p { format!("src/{}/*.rs", c) } else if !bad.is_empty() && i % 3 == 2 { bad.to_string() } else { format!("no/{}?", i) }).collect();
    let files: Vec<String> = (0..n).map(|i| if i == f { format!("src/{}/main.rs", d) } else { format!("doc/{}", i) }).collect();
    let pr = any_bool();
    let br = any_bool();
    let (cd, pay) = if br { (cond(pr, Some(pats.clone()), None), ConditionPayload { event: if pr { "pull_request" } else { "push" }.into(), branch: format!("src/{}/main.rs", d), paths: vec![] }) }
        else { (cond(pr, None, Some(pats.clone())), ConditionPayload { event: if pr { "pull_request" } else { "push" }.into(), branch: "b".into(), paths: files }) };
    check(cd.is_match(&pay) == (c == d), "[M01] a condition holds exactly if it names the event and each of its restrictions is met by some value and pattern");
    if c == d { reach("holds") } else { reach("does not hold") }
}
/// names with dots, upper case, dashes and leading dots are names like others
#[no_mangle]
pub extern "C" fn sx_cond_names() {
    let odd = |b: u8| (b == b'.') | (b == b'A') | (b == b'a') | (b == b'-') | (b == b'_') | (b == b'/') | (b == b' ') | (b == b'#');
    // what a name begins with is part of it
    let pre = *pick(&["", "", "refs/heads/", "./", "origin/", "/"]);
    let v = format!("{}{}", pre, any_str(1 + choose(3), odd));
    let p = match choose(6) { 0 => "*".to_string(), 1 => "?*".into(), 2 => "*a".into(), 3 => "a*".into(), 4 => ".*".into(), _ => any_str(2, odd) };
    let p = if !pre.is_empty() && any_bool() { format!("{}{}", pre, p) } else { p };
    let pr = any_bool();
    let c = if any_bool() { cond(pr, Some(vec![p.clone()]), None) } else { cond(pr, None, Some(vec![p.clone()])) };
    let ok = c.is_match(&ConditionPayload { event: if pr { "pull_request" } else { "push" }.into(), branch: v.clone(), paths: vec![v.clone()] });
    check(ok == glob(p.as_bytes(), v.as_bytes()), "[M01] a branch or path condition holds exactly if a value matches a pattern");
    reach("completed");
}

/// a piece of a pattern: itself, `?`, `*`, `**/` (any number of whole components), `**` at the end
/// (whatever is left), and a set of characters
#[derive(Clone, Copy, PartialEq)]
enum Piece { C(u8), One, Star, Deep, Rest, In(u8, u8), Not(u8, u8) }
fn pieces(p: &[Piece], v: &[u8]) -> bool {
    if p.is_empty() { return v.is_empty(); }
    let (r, some) = (&p[1..], !v.is_empty());
    match p[0] {
        Piece::C(c) => some && v[0] == c && pieces(r, &v[1..]),
        Piece::One => some && pieces(r, &v[1..]),
        Piece::In(a, b) => some && a <= v[0] && v[0] <= b && pieces(r, &v[1..]),
        Piece::Not(a, b) => some && !(a <= v[0] && v[0] <= b) && pieces(r, &v[1..]),
        Piece::Star => (0..=v.len()).any(|i| pieces(r, &v[i..])),
        Piece::Deep => pieces(r, v) || (0..v.len()).any(|i| v[i] == b'/' && pieces(r, &v[i + 1..])),
        Piece::Rest => true,
    }
}
fn deep_entry(np: usize, nv: usize) {
    let n = 1 + choose(np);
    let (mut ps, mut text) = (Vec::new(), String::new());
    for i in 0..n {
        let (p, t) = *pick(&[(Piece::Deep, "**/"), (Piece::C(b'a'), "a"), (Piece::C(b'/'), "/"), (Piece::Star, "*"), (Piece::One, "?"), (Piece::In(b'a', b'b'), "[ab]"), (Piece::Not(b'a', b'a'), "[!a]"), (Piece::In(b'a', b'c'), "[a-c]"), (Piece::Rest, "**")]);
        // `**` is a whole component, and two stars are not two pieces
        if p == Piece::Deep || p == Piece::Rest { assume(text.is_empty() || text.ends_with('/')); }
        if p == Piece::Rest { assume(i + 1 == n); }
        if p == Piece::Star { assume(!text.ends_with('*')); }
        ps.push(p);
        text.push_str(t);
    }
    assume(ps[n - 1] != Piece::Deep);
    let v = any_str(choose(nv + 1), |b| (b == b'a') | (b == b'b') | (b == b'd') | (b == b'/'));
    let c = cond(false, None, Some(vec![text.clone()]));
    let got = c.is_match(&ConditionPayload { event: "push".into(), branch: "z".into(), paths: vec![v.clone()] });
    check(got == pieces(&ps, v.as_bytes()), "[M01] a branch or path condition holds exactly if a value matches a pattern");
    if got { reach("holds") } else { reach("does not hold") }
}
#[no_mangle]
pub extern "C" fn sx_cond_deep() { deep_entry(2, 3) }
#[no_mangle]
pub extern "C" fn sx_cond_deep3() { deep_entry(3, 4) }
#[no_mangle]
pub extern "C" fn sx_cond_deep4() { deep_entry(4, 5) }
