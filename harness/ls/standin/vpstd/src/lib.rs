//! The standard library with locks that the scheduler controls.
pub use ::std::*;
pub mod sync {
    pub use ::std::sync::*;
    /// A mutex whose order of entry is part of the schedule.
    pub struct Mutex<T: ?Sized> {
        res: u64,
        inner: ::std::sync::Mutex<T>,
    }
    pub struct MutexGuard<'a, T: ?Sized> {
        res: u64,
        g: Option<::std::sync::MutexGuard<'a, T>>,
    }
    impl<T> Mutex<T> {
        pub fn new(x: T) -> Self {
            Mutex { res: vpsched::resource(), inner: ::std::sync::Mutex::new(x) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            self.inner.into_inner()
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            vpsched::acquire(self.res, true, "lock");
            match self.inner.lock() {
                Ok(g) => Ok(MutexGuard { res: self.res, g: Some(g) }),
                Err(e) => Err(PoisonError::new(MutexGuard { res: self.res, g: Some(e.into_inner()) })),
            }
        }
        pub fn is_poisoned(&self) -> bool {
            self.inner.is_poisoned()
        }
        pub fn clear_poison(&self) {
            self.inner.clear_poison()
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Mutex::new(T::default())
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            self.g = None;
            vpsched::release(self.res);
        }
    }
    impl<T: ?Sized> ::std::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.g.as_ref().unwrap()
        }
    }
    impl<T: ?Sized> ::std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            self.g.as_mut().unwrap()
        }
    }
}
