//! Stand-in for the GitHub API client: answers are what the harness decides, requests are recorded.
use std::cell::{RefCell, UnsafeCell};
use std::future::Future;
use std::marker::PhantomData;
use std::sync::Arc;
#[derive(Debug, Clone)]
pub struct Error(pub String);
impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } }
impl std::error::Error for Error {}
#[derive(Clone, Debug)]
pub enum Req { Commit { owner: String, repo: String, sha: String, token: String }, Files { owner: String, repo: String, pr: i64, token: String }, Installation { owner: String, repo: String, token: String }, AccessToken { id: i64, token: String } }
/// the harness's answer to one API request: `None` = the request fails
pub trait Api { fn files(&self, r: &Req) -> Option<Option<Vec<String>>>; fn installation(&self, r: &Req) -> Option<i64>; fn token(&self, r: &Req) -> Option<String>; fn point(&self) -> std::pin::Pin<Box<dyn Future<Output = ()> + Send>> { Box::pin(async {}) } }
pub struct World { pub api: RefCell<Option<Box<dyn Api>>>, pub log: RefCell<Vec<Req>> }
struct G(UnsafeCell<Option<Box<World>>>);
unsafe impl Sync for G {}
static W: G = G(UnsafeCell::new(None));
pub fn world() -> &'static World { unsafe { &mut *W.0.get() }.get_or_insert_with(|| Box::new(World { api: RefCell::new(None), log: RefCell::new(vec![]) })) }

pub trait Token: Send + Sync { fn text(&self) -> String; }
pub struct PersonalAccessToken(String);
impl PersonalAccessToken { pub fn new(t: impl Into<String>) -> Self { Self(t.into()) } }
impl Token for PersonalAccessToken { fn text(&self) -> String { format!("pat:{}", self.0) } }
pub struct AppAuthorization(String, String);
impl AppAuthorization { pub fn new(a: impl Into<String>, k: impl Into<String>) -> Self { Self(a.into(), k.into()) } }
impl Token for AppAuthorization { fn text(&self) -> String { format!("app:{}:{}", self.0, self.1) } }
pub struct InstallationToken { pub token: String }
impl Token for InstallationToken { fn text(&self) -> String { format!("inst:{}", self.token) } }
#[derive(Clone)]
pub struct APIConfig { pub token: Option<Arc<dyn Token>> }
pub type SharedAPIConfig = Arc<APIConfig>;
impl APIConfig { pub fn with_token<T: Token + 'static>(t: T) -> Self { APIConfig { token: Some(Arc::new(t)) } } pub fn shared(self) -> SharedAPIConfig { Arc::new(self) } }
pub struct Repos(String);
pub struct Pulls(String);
pub struct Apps(String);
pub struct GitHubAPI { pub repos: Repos, pub pulls: Pulls, pub apps: Apps }
impl GitHubAPI { pub fn new(c: &SharedAPIConfig) -> Self { let t = c.token.as_ref().map(|t| t.text()).unwrap_or_default(); GitHubAPI { repos: Repos(t.clone()), pulls: Pulls(t.clone()), apps: Apps(t) } } }
#[derive(Debug, Clone)]
pub struct FileEntry { pub filename: String, pub status: String, pub previous_filename: Option<String> }
pub struct Commit { pub sha: String, pub files: Option<Vec<FileEntry>> }
pub struct Installation { pub id: i64 }
fn entry(f: String) -> FileEntry { FileEntry { filename: f, status: "modified".into(), previous_filename: None } }
/// which part of a listing is asked for: GitHub answers in pages
#[derive(Clone, Copy, Default, Debug)]
pub struct Query { pub per_page: Option<i64>, pub page: Option<i64> }
#[derive(Default)]
pub struct QueryBuilder(Query);
impl Query { pub fn builder() -> QueryBuilder { QueryBuilder::default() } }
impl QueryBuilder { pub fn per_page(mut self, n: impl Into<i64>) -> Self { self.0.per_page = Some(n.into()); self } pub fn page(mut self, n: impl Into<i64>) -> Self { self.0.page = Some(n.into()); self } pub fn build(self) -> Query { self.0 } }
pub mod pulls { pub mod list_files { pub use crate::Query; } pub use crate::Pulls as GitHubPullsAPI; }
pub mod repos { pub mod get_commit { pub use crate::Query; } pub use crate::Repos as GitHubReposAPI; }
pub struct Request<T> { r: Req, q: Query, f: fn(&Req, &dyn Api, Query) -> Option<T>, _p: PhantomData<fn() -> T> }
/// one page of a list; pages are numbered from one
fn page(v: Vec<String>, q: Query, default: i64, most: i64) -> Vec<FileEntry> { let n = q.per_page.unwrap_or(default).clamp(1, most) as usize; let k = q.page.unwrap_or(1).max(1) as usize - 1; v.into_iter().skip(k.saturating_mul(n)).take(n).map(entry).collect() }
struct Snd<T>(T);
unsafe impl<T> Send for Snd<T> {}
impl<T: 'static> Request<T> {
    pub fn query(mut self, q: &Query) -> Self { self.q = *q; self }
    pub async fn send(self) -> Result<T, Error> {
        let p = { let w = world(); w.log.borrow_mut().push(self.r.clone()); let a = w.api.borrow(); match &*a { Some(a) => Snd(a.point()), None => Snd(Box::pin(async {}) as _) } };
        p.0.await;
        let w = world();
        let a = w.api.borrow();
        let r = match &*a { Some(a) => (self.f)(&self.r, &**a, self.q), None => None };
        r.ok_or_else(|| Error("injected API error".into()))
    }
}
impl Repos { pub fn get_commit(&self, o: impl Into<String>, r: impl Into<String>, s: impl Into<String>) -> Request<Commit> { Request { r: Req::Commit { owner: o.into(), repo: r.into(), sha: s.into(), token: self.0.clone() }, q: Query::default(), f: |r, a, q| a.files(r).map(|f| Commit { sha: String::new(), files: f.map(|v| page(v, q, 300, 300)) }), _p: PhantomData } } }
impl Pulls { pub fn list_files(&self, o: impl Into<String>, r: impl Into<String>, n: impl Into<i64>) -> Request<Vec<FileEntry>> { Request { r: Req::Files { owner: o.into(), repo: r.into(), pr: n.into(), token: self.0.clone() }, q: Query::default(), f: |r, a, q| a.files(r).map(|f| page(f.unwrap_or_default(), q, 30, 100)), _p: PhantomData } } }
impl Apps {
    pub fn get_repo_installation(&self, o: impl Into<String>, r: impl Into<String>) -> Request<Installation> { Request { r: Req::Installation { owner: o.into(), repo: r.into(), token: self.0.clone() }, q: Query::default(), f: |r, a, _| a.installation(r).map(|id| Installation { id }), _p: PhantomData } }
    pub fn create_installation_access_token(&self, id: impl Into<i64>) -> Request<InstallationToken> { Request { r: Req::AccessToken { id: id.into(), token: self.0.clone() }, q: Query::default(), f: |r, a, _| a.token(r).map(|token| InstallationToken { token }), _p: PhantomData } }
}
