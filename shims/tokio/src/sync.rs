//! Single-threaded models of tokio's synchronisation primitives.  Tasks interleave only at await
//! points (the harness polls them), so plain cells are enough.
use crate::verif::{event, YieldPoint};
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};

pub struct Mutex<T: ?Sized> { locked: UnsafeCell<bool>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self { Mutex { locked: UnsafeCell::new(false), v: UnsafeCell::new(v) } }
    pub const fn const_new(v: T) -> Self { Self::new(v) }
    pub fn into_inner(self) -> T { self.v.into_inner() }
}
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Mutex::new(T::default()) } }
impl<T> From<T> for Mutex<T> { fn from(v: T) -> Self { Mutex::new(v) } }
#[derive(Debug)]
pub struct TryLockError(());
impl std::fmt::Display for TryLockError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("operation would block") } }
impl std::error::Error for TryLockError {}
macro_rules! guard_fmt { ($($t:ty),*) => { $(
    impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
    impl<T: ?Sized + std::fmt::Display> std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { (**self).fmt(f) } }
)* } }
guard_fmt!(MutexGuard<'_, T>, OwnedMutexGuard<T>, RwLockReadGuard<'_, T>, RwLockWriteGuard<'_, T>);
unsafe impl<T: ?Sized + Send> Send for OwnedMutexGuard<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for OwnedMutexGuard<T> {}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> Lock<'_, T> { Lock { m: self, y: YieldPoint::new() } }
    pub fn try_lock(&self) -> Result<MutexGuard<'_, T>, TryLockError> {
        unsafe {
            if *self.locked.get() { return Err(TryLockError(())); }
            *self.locked.get() = true;
        }
        Ok(MutexGuard { m: self })
    }
    pub async fn lock_owned(self: Arc<Self>) -> OwnedMutexGuard<T> {
        std::mem::forget(self.lock().await);
        OwnedMutexGuard { m: self }
    }
    pub fn try_lock_owned(self: Arc<Self>) -> Result<OwnedMutexGuard<T>, TryLockError> {
        std::mem::forget(self.try_lock()?);
        Ok(OwnedMutexGuard { m: self })
    }
    pub fn blocking_lock(&self) -> MutexGuard<'_, T> { panic!("Cannot block the current thread from within a runtime.") }
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Mutex") } }
pub struct Lock<'a, T: ?Sized> { m: &'a Mutex<T>, y: YieldPoint }
impl<'a, T: ?Sized> Future for Lock<'a, T> {
    type Output = MutexGuard<'a, T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<MutexGuard<'a, T>> {
        if Pin::new(&mut self.y).poll(cx).is_pending() { return Poll::Pending; }
        unsafe {
            if *self.m.locked.get() { return Poll::Pending; }
            *self.m.locked.get() = true;
        }
        Poll::Ready(MutexGuard { m: self.m })
    }
}
unsafe impl<T: ?Sized + Send> Send for Lock<'_, T> {}
pub struct MutexGuard<'a, T: ?Sized> { m: &'a Mutex<T> }
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Send> Sync for MutexGuard<'_, T> {}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn map<U: ?Sized, F: FnOnce(&mut T) -> &mut U>(this: Self, f: F) -> MappedMutexGuard<'a, U> {
        let m = this.m;
        std::mem::forget(this);
        MappedMutexGuard { l: unsafe { &*m.locked.get() } as *const bool as *mut bool, v: f(unsafe { &mut *m.v.get() }) }
    }
}
pub struct MappedMutexGuard<'a, T: ?Sized> { l: *mut bool, v: &'a mut T }
unsafe impl<T: ?Sized + Send> Send for MappedMutexGuard<'_, T> {}
impl<T: ?Sized> Deref for MappedMutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { self.v } }
impl<T: ?Sized> DerefMut for MappedMutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { self.v } }
impl<T: ?Sized> Drop for MappedMutexGuard<'_, T> { fn drop(&mut self) { event(); unsafe { *self.l = false; } } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { event(); unsafe { *self.m.locked.get() = false; } } }
pub struct OwnedMutexGuard<T: ?Sized> { m: Arc<Mutex<T>> }
impl<T: ?Sized> Deref for OwnedMutexGuard<T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for OwnedMutexGuard<T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
impl<T: ?Sized> Drop for OwnedMutexGuard<T> { fn drop(&mut self) { event(); unsafe { *self.m.locked.get() = false; } } }

/// Many readers or one writer.
pub struct RwLock<T: ?Sized> { n: UnsafeCell<isize>, v: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send> Sync for RwLock<T> {}
impl<T> RwLock<T> { pub const fn new(v: T) -> Self { RwLock { n: UnsafeCell::new(0), v: UnsafeCell::new(v) } } pub const fn const_new(v: T) -> Self { Self::new(v) } pub fn into_inner(self) -> T { self.v.into_inner() } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { RwLock::new(T::default()) } }
impl<T: ?Sized> std::fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RwLock") } }
impl<T: ?Sized> RwLock<T> {
    pub fn get_mut(&mut self) -> &mut T { self.v.get_mut() }
    pub fn try_read(&self) -> Result<RwLockReadGuard<'_, T>, TryLockError> {
        unsafe { if *self.n.get() < 0 { return Err(TryLockError(())); } *self.n.get() += 1; }
        Ok(RwLockReadGuard { m: self })
    }
    pub fn try_write(&self) -> Result<RwLockWriteGuard<'_, T>, TryLockError> {
        unsafe { if *self.n.get() != 0 { return Err(TryLockError(())); } *self.n.get() = -1; }
        Ok(RwLockWriteGuard { m: self })
    }
    pub async fn read(&self) -> RwLockReadGuard<'_, T> {
        YieldPoint::new().await;
        std::future::poll_fn(|_| unsafe {
            if *self.n.get() < 0 { Poll::Pending } else { *self.n.get() += 1; Poll::Ready(RwLockReadGuard { m: self }) }
        }).await
    }
    pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
        YieldPoint::new().await;
        std::future::poll_fn(|_| unsafe {
            if *self.n.get() != 0 { Poll::Pending } else { *self.n.get() = -1; Poll::Ready(RwLockWriteGuard { m: self }) }
        }).await
    }
}
pub struct RwLockReadGuard<'a, T: ?Sized> { m: &'a RwLock<T> }
pub struct RwLockWriteGuard<'a, T: ?Sized> { m: &'a RwLock<T> }
unsafe impl<T: ?Sized + Send> Send for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Send> Send for RwLockWriteGuard<'_, T> {}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(self) -> RwLockReadGuard<'a, T> { let m = self.m; std::mem::forget(self); event(); unsafe { *m.n.get() = 1; } RwLockReadGuard { m } }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.m.v.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.m.v.get() } } }
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { event(); unsafe { *self.m.n.get() -= 1; } } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { event(); unsafe { *self.m.n.get() = 0; } } }

pub struct Notify { permit: UnsafeCell<bool>, waiting: UnsafeCell<Vec<Arc<UnsafeCell<u8>>>> }
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl Default for Notify { fn default() -> Self { Self::new() } }
impl std::fmt::Debug for Notify { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Notify") } }
impl Notify {
    pub const fn new() -> Self { Notify { permit: UnsafeCell::new(false), waiting: UnsafeCell::new(Vec::new()) } }
    pub const fn const_new() -> Self { Self::new() }
    pub fn notify_one(&self) {
        event();
        let w = unsafe { &mut *self.waiting.get() };
        if w.is_empty() { unsafe { *self.permit.get() = true; } } else { let x = w.remove(0); unsafe { *x.get() = 1; } }
    }
    pub fn notify_waiters(&self) {
        event();
        let w = unsafe { &mut *self.waiting.get() };
        while let Some(x) = w.pop() { unsafe { *x.get() = 2; } }
    }
    pub fn notified(&self) -> Notified<'_> { Notified { n: self, slot: None } }
}
/// Waits for a `notify_one` (whose permit is kept when nobody waits) or a `notify_waiters`.
pub struct Notified<'a> { n: &'a Notify, slot: Option<Arc<UnsafeCell<u8>>> }
unsafe impl Send for Notified<'_> {}
unsafe impl Sync for Notified<'_> {}
impl Notified<'_> {
    pub fn enable(mut self: Pin<&mut Self>) -> bool { let w = crate::verif::waker(); let mut cx = Context::from_waker(&w); self.as_mut().poll(&mut cx).is_ready() }
}
impl Future for Notified<'_> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        let n = self.n;
        match &self.slot {
            Some(s) if unsafe { *s.get() } != 0 => { unsafe { *s.get() = 3; } Poll::Ready(()) }
            Some(_) => Poll::Pending,
            None => {
                let s = Arc::new(UnsafeCell::new(0));
                self.slot = Some(s.clone());
                if unsafe { *n.permit.get() } { unsafe { *n.permit.get() = false; *s.get() = 3; } return Poll::Ready(()); }
                unsafe { (*n.waiting.get()).push(s); }
                Poll::Pending
            }
        }
    }
}
impl Drop for Notified<'_> {
    fn drop(&mut self) {
        if let Some(s) = &self.slot {
            match unsafe { *s.get() } {
                0 => unsafe { (*self.n.waiting.get()).retain(|x| !Arc::ptr_eq(x, s)) },
                // notified but never polled again: the notification passes on
                1 => self.n.notify_one(),
                _ => {}
            }
        }
    }
}

#[derive(Debug, PartialEq, Eq)]
pub enum TryAcquireError { Closed, NoPermits }
#[derive(Debug)]
pub struct AcquireError(());
impl std::fmt::Display for AcquireError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("semaphore closed") } }
impl std::error::Error for AcquireError {}
impl std::fmt::Display for TryAcquireError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no permits available") } }
impl std::error::Error for TryAcquireError {}
#[derive(Debug)]
pub struct Semaphore { n: UnsafeCell<(usize, bool)> }
unsafe impl Send for Semaphore {}
unsafe impl Sync for Semaphore {}
impl Semaphore {
    pub const MAX_PERMITS: usize = usize::MAX >> 3;
    pub const fn new(n: usize) -> Self { Semaphore { n: UnsafeCell::new((n, false)) } }
    pub const fn const_new(n: usize) -> Self { Self::new(n) }
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut (usize, bool) { unsafe { &mut *self.n.get() } }
    pub fn available_permits(&self) -> usize { self.c().0 }
    pub fn add_permits(&self, n: usize) { event(); self.c().0 += n; }
    pub fn forget_permits(&self, n: usize) -> usize { let k = n.min(self.c().0); self.c().0 -= k; k }
    pub fn close(&self) { event(); self.c().1 = true; }
    pub fn is_closed(&self) -> bool { self.c().1 }
    fn take(&self, n: usize) -> Result<(), TryAcquireError> {
        let c = self.c();
        if c.1 { return Err(TryAcquireError::Closed); }
        if c.0 < n { return Err(TryAcquireError::NoPermits); }
        c.0 -= n;
        Ok(())
    }
    async fn wait(&self, n: usize) -> Result<(), AcquireError> {
        YieldPoint::new().await;
        std::future::poll_fn(|_| match self.take(n) { Ok(()) => Poll::Ready(Ok(())), Err(TryAcquireError::Closed) => Poll::Ready(Err(AcquireError(()))), Err(_) => Poll::Pending }).await
    }
    pub async fn acquire(&self) -> Result<SemaphorePermit<'_>, AcquireError> { self.acquire_many(1).await }
    pub async fn acquire_many(&self, n: u32) -> Result<SemaphorePermit<'_>, AcquireError> { self.wait(n as usize).await?; Ok(SemaphorePermit { s: self, n: n as usize }) }
    pub fn try_acquire(&self) -> Result<SemaphorePermit<'_>, TryAcquireError> { self.take(1)?; Ok(SemaphorePermit { s: self, n: 1 }) }
    pub async fn acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, AcquireError> { self.wait(1).await?; Ok(OwnedSemaphorePermit { s: self, n: 1 }) }
    pub fn try_acquire_owned(self: Arc<Self>) -> Result<OwnedSemaphorePermit, TryAcquireError> { self.take(1)?; Ok(OwnedSemaphorePermit { s: self, n: 1 }) }
}
#[derive(Debug)]
pub struct SemaphorePermit<'a> { s: &'a Semaphore, n: usize }
#[derive(Debug)]
pub struct OwnedSemaphorePermit { s: Arc<Semaphore>, n: usize }
impl SemaphorePermit<'_> { pub fn forget(mut self) { self.n = 0; } }
impl OwnedSemaphorePermit { pub fn forget(mut self) { self.n = 0; } }
impl Drop for SemaphorePermit<'_> { fn drop(&mut self) { self.s.add_permits(self.n); } }
impl Drop for OwnedSemaphorePermit { fn drop(&mut self) { self.s.add_permits(self.n); } }

pub struct OnceCell<T> { v: UnsafeCell<Option<T>>, busy: Semaphore }
unsafe impl<T: Send> Send for OnceCell<T> {}
unsafe impl<T: Send + Sync> Sync for OnceCell<T> {}
impl<T> Default for OnceCell<T> { fn default() -> Self { Self::new() } }
impl<T> OnceCell<T> {
    pub const fn new() -> Self { OnceCell { v: UnsafeCell::new(None), busy: Semaphore::new(1) } }
    pub const fn const_new() -> Self { Self::new() }
    pub fn initialized(&self) -> bool { self.get().is_some() }
    pub fn get(&self) -> Option<&T> { unsafe { (*self.v.get()).as_ref() } }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.v.get_mut().as_mut() }
    pub fn set(&self, v: T) -> Result<(), T> { if self.initialized() { return Err(v); } event(); unsafe { *self.v.get() = Some(v); } Ok(()) }
    pub async fn get_or_init<F: FnOnce() -> Fut, Fut: Future<Output = T>>(&self, f: F) -> &T {
        if !self.initialized() {
            let _p = self.busy.acquire().await;
            if !self.initialized() { let v = f().await; let _ = self.set(v); }
        }
        self.get().unwrap()
    }
}

pub mod watch {
    use super::*;
    struct Chan<T> { v: T, version: u64, senders: usize, receivers: usize }
    struct Shared<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}
    impl<T> Shared<T> {
        #[allow(clippy::mut_from_ref)]
        fn c(&self) -> &mut Chan<T> { unsafe { &mut *self.0.get() } }
    }
    pub mod error {
        #[derive(Debug, Clone)]
        pub struct RecvError(pub(crate) ());
        impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
        impl std::error::Error for RecvError {}
        #[derive(PartialEq, Eq, Clone)]
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
        impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
        impl<T> std::error::Error for SendError<T> {}
    }
    pub struct Sender<T> { s: Arc<Shared<T>> }
    pub struct Receiver<T> { s: Arc<Shared<T>>, seen: u64 }
    pub struct Ref<'a, T> { v: &'a T, changed: bool }
    impl<T> Ref<'_, T> { pub fn has_changed(&self) -> bool { self.changed } }
    impl<T> Deref for Ref<'_, T> { type Target = T; fn deref(&self) -> &T { self.v } }
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    pub fn channel<T>(v: T) -> (Sender<T>, Receiver<T>) {
        let s = Arc::new(Shared(UnsafeCell::new(Chan { v, version: 0, senders: 1, receivers: 1 })));
        (Sender { s: s.clone() }, Receiver { s, seen: 0 })
    }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> Result<(), error::SendError<T>> {
            if self.s.c().receivers == 0 { return Err(error::SendError(v)); }
            self.send_replace(v);
            Ok(())
        }
        pub fn send_replace(&self, v: T) -> T { event(); let c = self.s.c(); c.version += 1; std::mem::replace(&mut c.v, v) }
        pub fn send_modify<F: FnOnce(&mut T)>(&self, f: F) { event(); let c = self.s.c(); f(&mut c.v); c.version += 1; }
        pub fn send_if_modified<F: FnOnce(&mut T) -> bool>(&self, f: F) -> bool { event(); let c = self.s.c(); let m = f(&mut c.v); if m { c.version += 1; } m }
        pub fn borrow(&self) -> Ref<'_, T> { Ref { v: &self.s.c().v, changed: false } }
        pub fn is_closed(&self) -> bool { self.s.c().receivers == 0 }
        pub fn receiver_count(&self) -> usize { self.s.c().receivers }
        pub fn subscribe(&self) -> Receiver<T> { self.s.c().receivers += 1; Receiver { s: self.s.clone(), seen: self.s.c().version } }
        pub async fn closed(&self) { std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await }
    }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.s.c().senders += 1; Sender { s: self.s.clone() } } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { event(); self.s.c().senders -= 1; } }
    impl<T> Clone for Receiver<T> { fn clone(&self) -> Self { self.s.c().receivers += 1; Receiver { s: self.s.clone(), seen: self.seen } } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { event(); self.s.c().receivers -= 1; } }
    impl<T> Receiver<T> {
        pub fn borrow(&self) -> Ref<'_, T> { Ref { v: &self.s.c().v, changed: self.seen != self.s.c().version } }
        pub fn borrow_and_update(&mut self) -> Ref<'_, T> { let changed = self.seen != self.s.c().version; self.seen = self.s.c().version; Ref { v: &self.s.c().v, changed } }
        pub fn has_changed(&self) -> Result<bool, error::RecvError> { let c = self.s.c(); if c.senders == 0 { Err(error::RecvError(())) } else { Ok(self.seen != c.version) } }
        pub fn mark_changed(&mut self) { self.seen = u64::MAX; }
        pub fn mark_unchanged(&mut self) { self.seen = self.s.c().version; }
        pub async fn changed(&mut self) -> Result<(), error::RecvError> {
            std::future::poll_fn(|_| {
                let c = self.s.c();
                if self.seen != c.version { self.seen = c.version; Poll::Ready(Ok(())) } else if c.senders == 0 { Poll::Ready(Err(error::RecvError(()))) } else { Poll::Pending }
            }).await
        }
        pub async fn wait_for<F: FnMut(&T) -> bool>(&mut self, mut f: F) -> Result<Ref<'_, T>, error::RecvError> {
            loop {
                self.seen = self.s.c().version;
                if f(&self.s.c().v) { return Ok(Ref { v: &self.s.c().v, changed: true }); }
                self.changed().await?;
                self.seen = u64::MAX;
            }
        }
    }
}

pub mod broadcast {
    use super::*;
    struct Chan<T> { q: VecDeque<T>, base: u64, cap: usize, senders: usize, receivers: usize }
    struct Shared<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}
    impl<T> Shared<T> {
        #[allow(clippy::mut_from_ref)]
        fn c(&self) -> &mut Chan<T> { unsafe { &mut *self.0.get() } }
    }
    pub mod error {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum RecvError { Closed, Lagged(u64) }
        impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("RecvError") } }
        impl std::error::Error for RecvError {}
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum TryRecvError { Empty, Closed, Lagged(u64) }
        impl std::fmt::Display for TryRecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TryRecvError") } }
        impl std::error::Error for TryRecvError {}
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
        impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
        impl<T> std::error::Error for SendError<T> {}
    }
    use error::*;
    pub struct Sender<T> { s: Arc<Shared<T>> }
    pub struct Receiver<T> { s: Arc<Shared<T>>, at: u64 }
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    pub fn channel<T: Clone>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "broadcast channel capacity cannot be zero");
        let s = Arc::new(Shared(UnsafeCell::new(Chan { q: VecDeque::new(), base: 0, cap: cap.next_power_of_two(), senders: 1, receivers: 1 })));
        (Sender { s: s.clone() }, Receiver { s, at: 0 })
    }
    impl<T: Clone> Sender<T> {
        pub fn send(&self, v: T) -> Result<usize, SendError<T>> {
            let c = self.s.c();
            if c.receivers == 0 { return Err(SendError(v)); }
            event();
            if c.q.len() == c.cap { c.q.pop_front(); c.base += 1; }
            c.q.push_back(v);
            Ok(c.receivers)
        }
        pub fn subscribe(&self) -> Receiver<T> { let c = self.s.c(); c.receivers += 1; Receiver { s: self.s.clone(), at: c.base + c.q.len() as u64 } }
        pub fn receiver_count(&self) -> usize { self.s.c().receivers }
    }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.s.c().senders += 1; Sender { s: self.s.clone() } } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { event(); self.s.c().senders -= 1; } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { event(); self.s.c().receivers -= 1; } }
    impl<T: Clone> Receiver<T> {
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            let c = self.s.c();
            if self.at < c.base { let n = c.base - self.at; self.at = c.base; return Err(TryRecvError::Lagged(n)); }
            match c.q.get((self.at - c.base) as usize) {
                Some(v) => { event(); self.at += 1; Ok(v.clone()) }
                None if c.senders == 0 => Err(TryRecvError::Closed),
                None => Err(TryRecvError::Empty),
            }
        }
        pub async fn recv(&mut self) -> Result<T, RecvError> {
            std::future::poll_fn(|_| match self.try_recv() {
                Ok(v) => Poll::Ready(Ok(v)),
                Err(TryRecvError::Empty) => Poll::Pending,
                Err(TryRecvError::Closed) => Poll::Ready(Err(RecvError::Closed)),
                Err(TryRecvError::Lagged(n)) => Poll::Ready(Err(RecvError::Lagged(n))),
            }).await
        }
        pub fn resubscribe(&self) -> Self { let c = self.s.c(); c.receivers += 1; Receiver { s: self.s.clone(), at: c.base + c.q.len() as u64 } }
        pub fn len(&self) -> usize { let c = self.s.c(); (c.base + c.q.len() as u64 - self.at) as usize }
        pub fn is_empty(&self) -> bool { self.len() == 0 }
    }
}

pub mod oneshot {
    use super::*;
    struct Cell<T> { v: UnsafeCell<(Option<T>, bool, bool)> } // value, sender gone, receiver gone
    pub struct Sender<T> { c: Arc<Cell<T>> }
    pub struct Receiver<T> { c: Arc<Cell<T>> }
    unsafe impl<T: Send> Send for Sender<T> {}
    unsafe impl<T: Send> Send for Receiver<T> {}
    unsafe impl<T: Send> Sync for Sender<T> {}
    unsafe impl<T: Send> Sync for Receiver<T> {}
    pub mod error {
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub struct RecvError(pub(crate) ());
        impl std::fmt::Display for RecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
        impl std::error::Error for RecvError {}
        #[derive(Debug, PartialEq, Eq, Clone)]
        pub enum TryRecvError { Empty, Closed }
        impl std::fmt::Display for TryRecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TryRecvError") } }
        impl std::error::Error for TryRecvError {}
    }
    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
        let c = Arc::new(Cell { v: UnsafeCell::new((None, false, false)) });
        (Sender { c: c.clone() }, Receiver { c })
    }
    impl<T> Sender<T> {
        pub fn send(self, v: T) -> Result<(), T> {
            event();
            let c = unsafe { &mut *self.c.v.get() };
            if c.2 { return Err(v); }
            c.0 = Some(v);
            Ok(())
        }
        pub fn is_closed(&self) -> bool { unsafe { (*self.c.v.get()).2 } }
        pub async fn closed(&mut self) { std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await }
        pub fn poll_closed(&mut self, _cx: &mut Context<'_>) -> Poll<()> { if self.is_closed() { Poll::Ready(()) } else { Poll::Pending } }
    }
    impl<T> Receiver<T> {
        pub fn close(&mut self) { event(); unsafe { (*self.c.v.get()).2 = true; } }
        pub fn is_terminated(&self) -> bool { false }
        pub fn is_empty(&self) -> bool { unsafe { (*self.c.v.get()).0.is_none() } }
        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
            let c = unsafe { &mut *self.c.v.get() };
            match c.0.take() { Some(v) => Ok(v), None if c.1 || c.2 => Err(error::TryRecvError::Closed), None => Err(error::TryRecvError::Empty) }
        }
    }
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { event(); unsafe { (*self.c.v.get()).1 = true; } } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { event(); unsafe { (*self.c.v.get()).2 = true; } } }
    impl<T> Future for Receiver<T> {
        type Output = Result<T, error::RecvError>;
        fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let c = unsafe { &mut *self.c.v.get() };
            match c.0.take() { Some(v) => Poll::Ready(Ok(v)), None if c.1 || c.2 => Poll::Ready(Err(error::RecvError(()))), None => Poll::Pending }
        }
    }
}

pub mod mpsc {
    use super::*;
    struct Chan<T> { q: VecDeque<T>, cap: usize, max: usize, reserved: usize, senders: usize, rx_alive: bool }
    struct Shared<T>(UnsafeCell<Chan<T>>);
    unsafe impl<T: Send> Send for Shared<T> {}
    unsafe impl<T: Send> Sync for Shared<T> {}
    impl<T> Shared<T> {
        #[allow(clippy::mut_from_ref)]
        fn c(&self) -> &mut Chan<T> { unsafe { &mut *self.0.get() } }
    }
    pub mod error {
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub struct SendError<T>(pub T);
        impl<T> std::fmt::Debug for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendError") } }
        impl<T> std::fmt::Display for SendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("channel closed") } }
        impl<T> std::error::Error for SendError<T> {}
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub enum TrySendError<T> { Full(T), Closed(T) }
        impl<T> TrySendError<T> { pub fn into_inner(self) -> T { match self { TrySendError::Full(v) | TrySendError::Closed(v) => v } } }
        impl<T> From<SendError<T>> for TrySendError<T> { fn from(e: SendError<T>) -> Self { TrySendError::Closed(e.0) } }
        #[derive(PartialEq, Eq, Clone, Copy)]
        pub enum SendTimeoutError<T> { Timeout(T), Closed(T) }
        impl<T> std::fmt::Debug for SendTimeoutError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendTimeoutError") } }
        impl<T> std::fmt::Display for SendTimeoutError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("SendTimeoutError") } }
        impl<T> std::error::Error for SendTimeoutError<T> {}
        impl<T> std::fmt::Debug for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TrySendError") } }
        impl<T> std::fmt::Display for TrySendError<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TrySendError") } }
        impl<T> std::error::Error for TrySendError<T> {}
        #[derive(Debug, PartialEq, Eq, Clone, Copy)]
        pub enum TryRecvError { Empty, Disconnected }
        impl std::fmt::Display for TryRecvError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("TryRecvError") } }
        impl std::error::Error for TryRecvError {}
    }
    use error::*;

    pub struct Sender<T> { s: Arc<Shared<T>> }
    pub struct Receiver<T> { s: Arc<Shared<T>> }
    pub struct UnboundedSender<T>(Sender<T>);
    pub type UnboundedReceiver<T> = Receiver<T>;
    impl<T> std::fmt::Debug for Sender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Sender") } }
    impl<T> std::fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("Receiver") } }

    pub fn channel<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
        assert!(cap > 0, "mpsc bounded channel requires buffer > 0");
        let max = cap;
        let s = Arc::new(Shared(UnsafeCell::new(Chan { q: VecDeque::new(), cap, max, reserved: 0, senders: 1, rx_alive: true })));
        (Sender { s: s.clone() }, Receiver { s })
    }
    pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
        let s = Arc::new(Shared(UnsafeCell::new(Chan { q: VecDeque::new(), cap: usize::MAX, max: usize::MAX, reserved: 0, senders: 1, rx_alive: true })));
        (UnboundedSender(Sender { s: s.clone() }), Receiver { s })
    }
    impl<T> Clone for UnboundedSender<T> { fn clone(&self) -> Self { UnboundedSender(self.0.clone()) } }
    impl<T> UnboundedSender<T> {
        pub fn send(&self, v: T) -> Result<(), SendError<T>> {
            match self.0.try_send(v) { Ok(()) => Ok(()), Err(TrySendError::Full(v)) | Err(TrySendError::Closed(v)) => Err(SendError(v)) }
        }
        pub fn is_closed(&self) -> bool { self.0.is_closed() }
        pub async fn closed(&self) { self.0.closed().await }
        pub fn same_channel(&self, o: &Self) -> bool { self.0.same_channel(&o.0) }
    }
    impl<T> std::fmt::Debug for UnboundedSender<T> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("UnboundedSender") } }
    impl<T> Clone for Sender<T> { fn clone(&self) -> Self { self.s.c().senders += 1; Sender { s: self.s.clone() } } }
    impl<T> Drop for Sender<T> { fn drop(&mut self) { let c = self.s.c(); c.senders -= 1; if c.senders == 0 { event(); } } }
    impl<T> Drop for Receiver<T> { fn drop(&mut self) { event(); let c = self.s.c(); c.rx_alive = false; c.q.clear(); } }
    impl<T> Sender<T> {
        pub fn send(&self, v: T) -> SendFut<'_, T> { SendFut { s: self, v: Some(v) } }
        pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
            let c = self.s.c();
            if !c.rx_alive { return Err(TrySendError::Closed(v)); }
            if c.q.len() + c.reserved >= c.cap { return Err(TrySendError::Full(v)); }
            event();
            c.q.push_back(v);
            Ok(())
        }
        pub fn is_closed(&self) -> bool { !self.s.c().rx_alive }
        pub fn capacity(&self) -> usize { self.s.c().cap - self.s.c().q.len() - self.s.c().reserved }
        pub fn max_capacity(&self) -> usize { self.s.c().max }
        pub async fn closed(&self) { std::future::poll_fn(|_| if self.is_closed() { Poll::Ready(()) } else { Poll::Pending }).await }
        pub fn try_reserve(&self) -> Result<Permit<'_, T>, TrySendError<()>> {
            let c = self.s.c();
            if !c.rx_alive { return Err(TrySendError::Closed(())); }
            if c.q.len() + c.reserved >= c.cap { return Err(TrySendError::Full(())); }
            c.reserved += 1;
            Ok(Permit { s: self })
        }
        pub async fn reserve(&self) -> Result<Permit<'_, T>, SendError<()>> {
            std::future::poll_fn(|_| match self.try_reserve() { Ok(p) => Poll::Ready(Ok(p)), Err(TrySendError::Full(())) => Poll::Pending, Err(_) => Poll::Ready(Err(SendError(()))) }).await
        }
        pub async fn send_timeout(&self, v: T, d: std::time::Duration) -> Result<(), SendTimeoutError<T>> {
            let mut v = Some(v);
            let sleep = crate::time::sleep(d);
            std::future::poll_fn(move |_| match self.try_send(v.take().unwrap()) {
                Ok(()) => Poll::Ready(Ok(())),
                Err(TrySendError::Closed(x)) => Poll::Ready(Err(SendTimeoutError::Closed(x))),
                Err(TrySendError::Full(x)) if sleep.is_elapsed() => Poll::Ready(Err(SendTimeoutError::Timeout(x))),
                Err(TrySendError::Full(x)) => { v = Some(x); Poll::Pending }
            }).await
        }
        pub fn downgrade(&self) -> WeakSender<T> { WeakSender { s: self.s.clone() } }
        pub fn strong_count(&self) -> usize { self.s.c().senders }
        pub fn same_channel(&self, o: &Self) -> bool { Arc::ptr_eq(&self.s, &o.s) }
    }
    pub struct Permit<'a, T> { s: &'a Sender<T> }
    impl<T> Permit<'_, T> { pub fn send(self, v: T) { self.s.s.c().q.push_back(v); } }
    impl<T> Drop for Permit<'_, T> { fn drop(&mut self) { event(); self.s.s.c().reserved -= 1; } }
    pub struct WeakSender<T> { s: Arc<Shared<T>> }
    impl<T> Clone for WeakSender<T> { fn clone(&self) -> Self { WeakSender { s: self.s.clone() } } }
    impl<T> WeakSender<T> {
        pub fn upgrade(&self) -> Option<Sender<T>> { if self.s.c().senders == 0 { return None; } self.s.c().senders += 1; Some(Sender { s: self.s.clone() }) }
    }
    pub struct SendFut<'a, T> { s: &'a Sender<T>, v: Option<T> }
    impl<T> Unpin for SendFut<'_, T> {}
    unsafe impl<T: Send> Send for SendFut<'_, T> {}
    impl<T> Future for SendFut<'_, T> {
        type Output = Result<(), SendError<T>>;
        fn poll(mut self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<Self::Output> {
            let v = self.v.take().unwrap();
            match self.s.try_send(v) {
                Ok(()) => Poll::Ready(Ok(())),
                Err(TrySendError::Closed(v)) => Poll::Ready(Err(SendError(v))),
                Err(TrySendError::Full(v)) => { self.v = Some(v); Poll::Pending }
            }
        }
    }
    impl<T> Receiver<T> {
        pub fn recv(&mut self) -> RecvFut<'_, T> { RecvFut { r: self } }
        pub fn try_recv(&mut self) -> Result<T, TryRecvError> {
            let c = self.s.c();
            match c.q.pop_front() { Some(v) => { event(); Ok(v) } None if c.senders == 0 || !c.rx_alive => Err(TryRecvError::Disconnected), None => Err(TryRecvError::Empty) }
        }
        pub fn close(&mut self) { event(); self.s.c().rx_alive = false; }
        pub fn is_closed(&self) -> bool { !self.s.c().rx_alive || self.s.c().senders == 0 }
        pub fn is_empty(&self) -> bool { self.s.c().q.is_empty() }
        pub fn capacity(&self) -> usize { self.s.c().cap - self.s.c().q.len() - self.s.c().reserved }
        pub fn max_capacity(&self) -> usize { self.s.c().max }
        pub fn sender_strong_count(&self) -> usize { self.s.c().senders }
        pub async fn recv_many(&mut self, out: &mut Vec<T>, limit: usize) -> usize {
            if limit == 0 { return 0; }
            match self.recv().await {
                None => 0,
                Some(v) => {
                    out.push(v);
                    let mut n = 1;
                    while n < limit { match self.try_recv() { Ok(v) => { out.push(v); n += 1; } Err(_) => break } }
                    n
                }
            }
        }
        pub fn len(&self) -> usize { self.s.c().q.len() }
        pub fn poll_recv(&mut self, _cx: &mut Context<'_>) -> Poll<Option<T>> {
            let c = self.s.c();
            match c.q.pop_front() {
                Some(v) => { event(); Poll::Ready(Some(v)) }
                None if c.senders == 0 || !c.rx_alive => Poll::Ready(None),
                None => Poll::Pending,
            }
        }
    }
    pub struct RecvFut<'a, T> { r: &'a mut Receiver<T> }
    impl<T> Future for RecvFut<'_, T> {
        type Output = Option<T>;
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> { self.r.poll_recv(cx) }
    }
}
