use crate::task::JoinHandle;
use std::future::Future;
#[derive(Debug)]
pub struct Runtime;
#[derive(Debug, Clone)]
pub struct Handle;
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> { Ok(Runtime) }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output { sym::rt::block_on(f) }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::spawn(f) }
    pub fn handle(&self) -> &Handle { &Handle }
}
impl Handle {
    pub fn current() -> Handle { Handle }
    pub fn try_current() -> Result<Handle, std::io::Error> { Ok(Handle) }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output { sym::rt::block_on(f) }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output> where F: Future + Send + 'static, F::Output: Send + 'static { crate::spawn(f) }
}
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new_multi_thread() -> Builder { Builder }
    pub fn new_current_thread() -> Builder { Builder }
    pub fn worker_threads(&mut self, _: usize) -> &mut Self { self }
    pub fn enable_all(&mut self) -> &mut Self { self }
    pub fn build(&mut self) -> std::io::Result<Runtime> { Ok(Runtime) }
}
