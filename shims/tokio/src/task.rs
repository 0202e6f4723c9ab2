use crate::verif::{event, world};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};

type Task = Pin<Box<dyn Future<Output = ()>>>;
pub static mut TASKS: Vec<Option<Task>> = Vec::new();
fn tasks() -> &'static mut Vec<Option<Task>> { unsafe { &mut *std::ptr::addr_of_mut!(TASKS) } }

#[derive(Debug)]
pub struct JoinError(());
impl JoinError { pub fn is_cancelled(&self) -> bool { true } pub fn is_panic(&self) -> bool { false } }
impl std::fmt::Display for JoinError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("task cancelled") }
}
impl std::error::Error for JoinError {}

pub struct JoinHandle<T> { out: std::sync::Arc<std::cell::UnsafeCell<Option<T>>>, slot: usize }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) { event(); tasks()[self.slot] = None; }
    pub fn is_finished(&self) -> bool { tasks()[self.slot].is_none() }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
        match unsafe { (*self.out.get()).take() } {
            Some(v) => Poll::Ready(Ok(v)),
            None if self.is_finished() => Poll::Ready(Err(JoinError(()))),
            None => Poll::Pending,
        }
    }
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let out = std::sync::Arc::new(std::cell::UnsafeCell::new(None));
    let o = out.clone();
    let t: Task = Box::pin(async move {
        let v = f.await;
        unsafe { *o.get() = Some(v); }
    });
    event();
    let k = tasks().len();
    tasks().push(Some(t));
    JoinHandle { out, slot: k }
}

pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output> where F: Future + 'static, F::Output: 'static {
    struct S<F>(F);
    unsafe impl<F> Send for S<F> {}
    impl<F: Future> Future for S<F> {
        type Output = S<F::Output>;
        fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<S<F::Output>> { unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx).map(S) }
    }
    let out = std::sync::Arc::new(std::cell::UnsafeCell::new(None));
    let o = out.clone();
    let h = spawn(S(async move { let v = f.await; unsafe { *o.get() = Some(v); } }));
    JoinHandle { out, slot: h.slot }
}
/// The model has one thread: blocking work runs at once.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R> where F: FnOnce() -> R + Send + 'static, R: Send + 'static { spawn(async move { f() }) }
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R { f() }

#[derive(Debug, Clone)]
pub struct AbortHandle { slot: usize }
impl AbortHandle {
    pub fn abort(&self) { event(); tasks()[self.slot] = None; }
    pub fn is_finished(&self) -> bool { tasks()[self.slot].is_none() }
}
impl<T> JoinHandle<T> { pub fn abort_handle(&self) -> AbortHandle { AbortHandle { slot: self.slot } } }
impl<T> std::fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("JoinHandle") } }

/// A group of tasks, aborted when the group is dropped.
#[derive(Debug)]
pub struct JoinSet<T> { h: Vec<JoinHandle<T>> }
impl<T> Default for JoinSet<T> { fn default() -> Self { Self::new() } }
impl<T> JoinSet<T> {
    pub fn new() -> Self { JoinSet { h: Vec::new() } }
    pub fn len(&self) -> usize { self.h.len() }
    pub fn is_empty(&self) -> bool { self.h.is_empty() }
    pub fn abort_all(&mut self) { for h in &self.h { h.abort(); } }
    pub fn detach_all(&mut self) { self.h.clear(); }
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn spawn<F: Future<Output = T> + Send + 'static>(&mut self, f: F) -> AbortHandle { let h = spawn(f); let a = h.abort_handle(); self.h.push(h); a }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| {
            if self.h.is_empty() { return Poll::Ready(None); }
            let mut k = 0;
            while k < self.h.len() {
                if let Poll::Ready(v) = Pin::new(&mut self.h[k]).poll(cx) { self.h.remove(k); return Poll::Ready(Some(v)); }
                k += 1;
            }
            Poll::Pending
        }).await
    }
    pub async fn shutdown(&mut self) { self.abort_all(); self.h.clear(); }
}
impl<T> Drop for JoinSet<T> { fn drop(&mut self) { self.abort_all(); } }

pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(move |_| if first { first = false; event(); Poll::Pending } else { Poll::Ready(()) }).await
}

/// Poll spawned task `k` once; true when it has ended (or never existed).
pub fn run(k: usize) -> bool {
    // taken out while it runs: the task itself may spawn
    let mut t = match tasks().get_mut(k).and_then(|s| s.take()) { None => return true, Some(t) => t };
    let w = crate::verif::waker();
    let mut cx = Context::from_waker(&w);
    if t.as_mut().poll(&mut cx).is_ready() { event(); return true; }
    tasks()[k] = Some(t);
    false
}
pub fn count() -> usize { tasks().len() }
pub fn alive(k: usize) -> bool { tasks().get(k).map_or(false, |t| t.is_some()) }

/// Poll every spawned task until none can make progress.
pub fn settle() {
    let mut rounds = 0;
    loop {
        let before = world().events;
        let mut k = 0;
        while k < count() { run(k); k += 1; }
        if world().events == before { return; }
        rounds += 1;
        if rounds > 200 { panic!("harness: tasks never become quiescent"); }
    }
}
