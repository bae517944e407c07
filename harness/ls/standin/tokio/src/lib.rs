//! The parts of tokio that the language server uses, on the controlled scheduler.
pub use task::spawn;
pub mod task {
    use std::future::Future;
    use std::pin::Pin;
    use std::sync::{Arc, Mutex};
    use std::task::{Context, Poll};
    pub struct JoinError {
        what: String,
        cancelled: bool,
    }
    impl JoinError {
        pub fn is_cancelled(&self) -> bool {
            self.cancelled
        }
        pub fn is_panic(&self) -> bool {
            !self.cancelled
        }
    }
    impl std::fmt::Debug for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "JoinError({})", self.what)
        }
    }
    impl std::fmt::Display for JoinError {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            write!(f, "JoinError({})", self.what)
        }
    }
    impl std::error::Error for JoinError {}
    struct Slot<T> {
        value: Mutex<Option<Result<T, JoinError>>>,
        done: std::sync::atomic::AtomicBool,
        res: u64,
    }
    pub struct JoinHandle<T> {
        slot: Arc<Slot<T>>,
        task: usize,
    }
    pub struct AbortHandle(usize);
    impl AbortHandle {
        pub fn abort(&self) {
            vpsched::point("abort");
            vpsched::abort(self.0)
        }
    }
    impl<T> JoinHandle<T> {
        pub fn abort(&self) {
            vpsched::point("abort");
            vpsched::abort(self.task)
        }
        pub fn abort_handle(&self) -> AbortHandle {
            AbortHandle(self.task)
        }
        pub fn is_finished(&self) -> bool {
            vpsched::point("is_finished");
            self.slot.done.load(std::sync::atomic::Ordering::SeqCst)
        }
    }
    impl<T> Future for JoinHandle<T> {
        type Output = Result<T, JoinError>;
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
            match self.slot.value.lock().unwrap().take() {
                Some(v) => Poll::Ready(v),
                None => {
                    vpsched::pending(vpsched::Wait::Res(self.slot.res));
                    Poll::Pending
                }
            }
        }
    }
    /// Fills the slot even when the task unwinds.
    struct Fill<T>(Arc<Slot<T>>);
    impl<T> Drop for Fill<T> {
        fn drop(&mut self) {
            let mut v = self.0.value.lock().unwrap_or_else(|e| e.into_inner());
            if v.is_none() && !self.0.done.load(std::sync::atomic::Ordering::SeqCst) {
                *v = Some(Err(JoinError { what: "cancelled".into(), cancelled: true }));
            }
            drop(v);
            self.0.done.store(true, std::sync::atomic::Ordering::SeqCst);
            vpsched::wake(self.0.res);
        }
    }
    fn start<T: Send + 'static>(name: &'static str, can_abort: bool, f: impl FnOnce() -> T + Send + 'static) -> JoinHandle<T> {
        vpsched::point("spawn");
        let slot = Arc::new(Slot { value: Mutex::new(None), done: false.into(), res: vpsched::resource() });
        let fill = Fill(slot.clone());
        let task = vpsched::spawn(name, can_abort, move || {
            let fill = fill;
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
                Ok(x) => *fill.0.value.lock().unwrap() = Some(Ok(x)),
                Err(e) => {
                    if !vpsched::is_stop(&e) {
                        let m = vpsched::message(&e);
                        vpsched::problem(format!("{name} panics: {m}"));
                        *fill.0.value.lock().unwrap() = Some(Err(JoinError { what: m, cancelled: false }));
                    }
                }
            }
        });
        JoinHandle { slot, task }
    }
    pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        start("task", true, move || vpsched::block_on(f, None))
    }
    pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
    where
        F: FnOnce() -> R + Send + 'static,
        R: Send + 'static,
    {
        start("blocking", false, f)
    }
    pub fn block_in_place<R>(f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn unconstrained<F: Future>(f: F) -> F {
        f
    }
    pub async fn yield_now() {
        vpsched::point("yield");
    }
}
pub mod sync {
    use std::cell::UnsafeCell;
    use std::future::Future;
    use std::ops::{Deref, DerefMut};
    use std::task::Poll;
    pub struct RwLock<T: ?Sized> {
        res: u64,
        x: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    unsafe impl<T: ?Sized + Sync> Send for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}
    fn take(res: u64, write: bool) -> impl Future<Output = ()> + Send {
        let mut first = true;
        std::future::poll_fn(move |_| {
            if std::mem::take(&mut first) {
                vpsched::point(if write { "write" } else { "read" });
            }
            if vpsched::try_acquire(res, write) {
                Poll::Ready(())
            } else {
                vpsched::pending(vpsched::Wait::Res(res));
                Poll::Pending
            }
        })
    }
    impl<T> RwLock<T> {
        pub fn new(x: T) -> Self {
            RwLock { res: vpsched::resource(), x: UnsafeCell::new(x) }
        }
        pub fn into_inner(self) -> T {
            self.x.into_inner()
        }
    }
    impl<T: ?Sized> RwLock<T> {
        pub async fn read(&self) -> RwLockReadGuard<'_, T> {
            take(self.res, false).await;
            RwLockReadGuard(self)
        }
        pub async fn write(&self) -> RwLockWriteGuard<'_, T> {
            take(self.res, true).await;
            RwLockWriteGuard(self)
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            RwLock::new(T::default())
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            vpsched::release(self.0.res)
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            vpsched::release(self.0.res)
        }
    }
    impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.x.get() }
        }
    }
    impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.x.get() }
        }
    }
    impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.x.get() }
        }
    }
    pub struct Mutex<T: ?Sized>(RwLock<T>);
    pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
    impl<T> Mutex<T> {
        pub fn new(x: T) -> Self {
            Mutex(RwLock::new(x))
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub async fn lock(&self) -> MutexGuard<'_, T> {
            self.0.write().await
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    pub mod mpsc {
        use std::collections::VecDeque;
        use std::sync::{Arc, Mutex};
        use std::task::Poll;
        pub mod error {
            pub struct SendError<T>(pub T);
            impl<T> std::fmt::Debug for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    write!(f, "SendError")
                }
            }
            impl<T> std::fmt::Display for SendError<T> {
                fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                    write!(f, "channel closed")
                }
            }
            impl<T> std::error::Error for SendError<T> {}
            #[derive(Debug, PartialEq, Eq, Clone, Copy)]
            pub enum TryRecvError {
                Empty,
                Disconnected,
            }
        }
        struct Q<T> {
            q: VecDeque<T>,
            senders: usize,
            open: bool,
        }
        struct Chan<T> {
            q: Mutex<Q<T>>,
            res: u64,
        }
        pub struct UnboundedSender<T>(Arc<Chan<T>>);
        pub struct UnboundedReceiver<T>(Arc<Chan<T>>);
        pub fn unbounded_channel<T>() -> (UnboundedSender<T>, UnboundedReceiver<T>) {
            let c = Arc::new(Chan { q: Mutex::new(Q { q: VecDeque::new(), senders: 1, open: true }), res: vpsched::resource() });
            (UnboundedSender(c.clone()), UnboundedReceiver(c))
        }
        impl<T> Clone for UnboundedSender<T> {
            fn clone(&self) -> Self {
                self.0.q.lock().unwrap().senders += 1;
                UnboundedSender(self.0.clone())
            }
        }
        impl<T> Drop for UnboundedSender<T> {
            fn drop(&mut self) {
                let mut q = self.0.q.lock().unwrap();
                q.senders -= 1;
                let last = q.senders == 0;
                drop(q);
                if last {
                    vpsched::wake(self.0.res);
                }
            }
        }
        impl<T> Drop for UnboundedReceiver<T> {
            fn drop(&mut self) {
                let mut q = self.0.q.lock().unwrap();
                q.open = false;
                let rest = std::mem::take(&mut q.q);
                drop(q);
                drop(rest);
            }
        }
        impl<T> UnboundedSender<T> {
            pub fn send(&self, x: T) -> Result<(), error::SendError<T>> {
                vpsched::point("send");
                let mut q = self.0.q.lock().unwrap();
                if !q.open {
                    return Err(error::SendError(x));
                }
                q.q.push_back(x);
                drop(q);
                vpsched::wake(self.0.res);
                Ok(())
            }
            pub fn is_closed(&self) -> bool {
                !self.0.q.lock().unwrap().open
            }
        }
        impl<T> UnboundedReceiver<T> {
            pub async fn recv(&mut self) -> Option<T> {
                let c = &self.0;
                let mut first = true;
                std::future::poll_fn(move |_| {
                    if std::mem::take(&mut first) {
                        vpsched::point("recv");
                    }
                    let mut q = c.q.lock().unwrap();
                    match q.q.pop_front() {
                        Some(x) => Poll::Ready(Some(x)),
                        None if q.senders == 0 => Poll::Ready(None),
                        None => {
                            vpsched::pending(vpsched::Wait::Res(c.res));
                            Poll::Pending
                        }
                    }
                })
                .await
            }
            pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
                vpsched::point("try_recv");
                let mut q = self.0.q.lock().unwrap();
                match q.q.pop_front() {
                    Some(x) => Ok(x),
                    None if q.senders == 0 => Err(error::TryRecvError::Disconnected),
                    None => Err(error::TryRecvError::Empty),
                }
            }
            pub fn close(&mut self) {
                self.0.q.lock().unwrap().open = false;
            }
        }
    }
}
pub mod time {
    use std::future::Future;
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub use std::time::Duration;
    pub struct Sleep(u64);
    pub fn sleep(d: Duration) -> Sleep {
        Sleep(vpsched::now() + d.as_millis() as u64)
    }
    impl Future for Sleep {
        type Output = ();
        fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
            if vpsched::now() >= self.0 {
                return Poll::Ready(());
            }
            vpsched::pending(vpsched::Wait::Until(self.0));
            Poll::Pending
        }
    }
    /// Ticks when the test permits it, the first time at once.
    pub struct Interval {
        waited: bool,
        first: bool,
    }
    pub fn interval(_: Duration) -> Interval {
        Interval { waited: false, first: true }
    }
    impl Interval {
        pub async fn tick(&mut self) {
            std::future::poll_fn(|_| {
                if std::mem::take(&mut self.first) || std::mem::take(&mut self.waited) {
                    return Poll::Ready(());
                }
                self.waited = true;
                vpsched::pending(vpsched::Wait::Tick(0));
                Poll::Pending
            })
            .await
        }
    }
}
/// Two or three branches; the first that is ready wins.
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::select!($($t)*) };
    ($p1:pat = $e1:expr => $b1:block $(,)? $p2:pat = $e2:expr => $b2:block $(,)?) => {{
        enum Which<A, B> { A(A), B(B) }
        let got = {
            let mut a = ::std::boxed::Box::pin($e1);
            let mut b = ::std::boxed::Box::pin($e2);
            ::std::future::poll_fn(|cx| {
                use ::std::future::Future;
                if let ::std::task::Poll::Ready(x) = a.as_mut().poll(cx) {
                    return ::std::task::Poll::Ready(Which::A(x));
                }
                if let ::std::task::Poll::Ready(x) = b.as_mut().poll(cx) {
                    return ::std::task::Poll::Ready(Which::B(x));
                }
                ::std::task::Poll::Pending
            })
            .await
        };
        match got { Which::A($p1) => $b1, Which::B($p2) => $b2 }
    }};
}
