//! Files: every effect is recorded, nothing touches the machine.
use crate::sx::{fs_fail, fs_op};
use std::io;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};
async fn op(k: &'static str, p: &Path, data: &[u8]) -> io::Result<()> {
    let s = p.to_string_lossy().into_owned();
    if fs_fail(k, &s) { fs_op(k, &s, data, false); return Err(io::Error::new(io::ErrorKind::Other, "injected file error")); }
    if k.starts_with("remove") && !crate::sx::fs_exists(&s) { fs_op(k, &s, data, false); return Err(io::Error::from(io::ErrorKind::NotFound)); }
    fs_op(k, &s, data, true);
    crate::sx::io_point().await;
    Ok(())
}
pub async fn create_dir_all(p: impl AsRef<Path>) -> io::Result<()> { op("create_dir_all", p.as_ref(), b"").await }
pub async fn create_dir(p: impl AsRef<Path>) -> io::Result<()> { op("create_dir", p.as_ref(), b"").await }
pub async fn remove_dir_all(p: impl AsRef<Path>) -> io::Result<()> { op("remove_dir_all", p.as_ref(), b"").await }
pub async fn remove_dir(p: impl AsRef<Path>) -> io::Result<()> { op("remove_dir", p.as_ref(), b"").await }
pub async fn remove_file(p: impl AsRef<Path>) -> io::Result<()> { op("remove_file", p.as_ref(), b"").await }
pub async fn write(p: impl AsRef<Path>, d: impl AsRef<[u8]>) -> io::Result<()> { op("create_file", p.as_ref(), b"").await?; op("write", p.as_ref(), d.as_ref()).await }
pub async fn try_exists(p: impl AsRef<Path>) -> io::Result<bool> { Ok(crate::sx::fs_exists(&p.as_ref().to_string_lossy())) }
fn mode_of(p: &std::fs::Permissions) -> &'static str { use std::os::unix::fs::PermissionsExt; if p.mode() & 0o100 != 0 { "executable" } else { "plain" } }
pub async fn set_permissions(p: impl AsRef<Path>, m: std::fs::Permissions) -> io::Result<()> {
    if !crate::sx::fs_exists(&p.as_ref().to_string_lossy()) { return Err(io::Error::from(io::ErrorKind::NotFound)); }
    op(mode_of(&m), p.as_ref(), b"").await
}
/// what the handle and the background write share
#[derive(Default)]
struct Inner { busy: bool, failed: bool, w: Option<std::task::Waker> }
struct Shared(std::rc::Rc<std::cell::RefCell<Inner>>);
unsafe impl Send for Shared {}
unsafe impl Sync for Shared {}
impl Clone for Shared { fn clone(&self) -> Self { Shared(self.0.clone()) } }
/// as in tokio, a write is handed to a background thread and is complete only once the next write
/// or a flush has waited for it; the file stays open until then, even if the handle is dropped
pub struct File { path: String, s: Shared, _open: std::rc::Rc<Open> }
unsafe impl Send for File {}
unsafe impl Sync for File {}
impl std::fmt::Debug for File { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("File") } }
struct Open(String);
impl Drop for Open { fn drop(&mut self) { let mut o = crate::sx::world().open.borrow_mut(); if let Some(i) = o.iter().position(|x| *x == self.0) { o.remove(i); } } }
impl File {
    fn at(p: &Path) -> File { let path = p.to_string_lossy().into_owned(); crate::sx::world().open.borrow_mut().push(path.clone()); File { s: Shared(Default::default()), _open: std::rc::Rc::new(Open(path.clone())), path } }
    pub async fn create(p: impl AsRef<Path>) -> io::Result<File> { op("create_file", p.as_ref(), b"").await?; Ok(File::at(p.as_ref())) }
    pub async fn sync_all(&mut self) -> io::Result<()> { real_tokio::io::AsyncWriteExt::flush(self).await }
    pub async fn sync_data(&mut self) -> io::Result<()> { self.sync_all().await }
    pub async fn set_permissions(&self, m: std::fs::Permissions) -> io::Result<()> { op(mode_of(&m), Path::new(&self.path), b"").await }
}
impl real_tokio::io::AsyncWrite for File {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        { let mut i = self.s.0.borrow_mut(); if i.busy { i.w = Some(cx.waker().clone()); return Poll::Pending; } if std::mem::take(&mut i.failed) { return Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "injected file error"))); } i.busy = true; }
        let (s, path, data, open) = (self.s.clone(), self.path.clone(), b.to_vec(), self._open.clone());
        sym::rt::spawn_thread("write", Box::new(move || {
            let s = s;
            let ok = !fs_fail("write", &path);
            fs_op("write", &path, &data, ok);
            drop(open);
            let mut i = s.0.borrow_mut();
            i.busy = false;
            i.failed |= !ok;
            if let Some(w) = i.w.take() { w.wake(); }
        }));
        Poll::Ready(Ok(b.len()))
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut i = self.s.0.borrow_mut();
        if i.busy { i.w = Some(cx.waker().clone()); return Poll::Pending; }
        if std::mem::take(&mut i.failed) { return Poll::Ready(Err(io::Error::new(io::ErrorKind::Other, "injected file error"))); }
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> { self.poll_flush(cx) }
}
#[derive(Clone, Debug, Default)]
pub struct OpenOptions { write: bool, append: bool, create: bool, create_new: bool, truncate: bool, mode: u32 }
impl OpenOptions {
    pub fn new() -> Self { OpenOptions { mode: 0o666, ..Default::default() } }
    pub fn read(&mut self, _: bool) -> &mut Self { self }
    pub fn write(&mut self, b: bool) -> &mut Self { self.write = b; self }
    pub fn append(&mut self, b: bool) -> &mut Self { self.append = b; self }
    pub fn create(&mut self, b: bool) -> &mut Self { self.create = b; self }
    pub fn create_new(&mut self, b: bool) -> &mut Self { self.create_new = b; self }
    pub fn truncate(&mut self, b: bool) -> &mut Self { self.truncate = b; self }
    pub fn mode(&mut self, m: u32) -> &mut Self { self.mode = m; self }
    pub async fn open(&self, p: impl AsRef<Path>) -> io::Result<File> {
        let p = p.as_ref();
        let t = p.to_string_lossy().into_owned();
        if fs_fail("open", &t) { return Err(io::Error::new(io::ErrorKind::Other, "injected file error")); }
        let there = crate::sx::fs_exists(&t);
        if there && self.create_new { return Err(io::Error::from(io::ErrorKind::AlreadyExists)); }
        if !there && !self.create && !self.create_new { return Err(io::Error::from(io::ErrorKind::NotFound)); }
        if !there || self.truncate { fs_op("create_file", &t, b"", true); }
        // the mode is for a file that is created
        if !there { fs_op(if self.mode & 0o100 != 0 { "executable" } else { "plain" }, &t, b"", true); }
        crate::sx::io_point().await;
        Ok(File::at(p))
    }
}
pub async fn metadata(p: impl AsRef<Path>) -> io::Result<std::fs::Metadata> { std::fs::metadata(p) }
pub async fn symlink_metadata(p: impl AsRef<Path>) -> io::Result<std::fs::Metadata> { std::fs::symlink_metadata(p) }
pub async fn read(p: impl AsRef<Path>) -> io::Result<Vec<u8>> { crate::sx::fs_content(&p.as_ref().to_string_lossy()).ok_or_else(|| io::Error::from(io::ErrorKind::NotFound)) }
pub async fn read_to_string(p: impl AsRef<Path>) -> io::Result<String> { String::from_utf8(read(p).await?).map_err(|_| io::Error::from(io::ErrorKind::InvalidData)) }
