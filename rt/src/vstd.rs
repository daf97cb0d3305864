//! The standard library with threads, locks, clocks, files and the environment replaced.

pub use std::*;

/// A value per thread of the harness.
pub struct LocalKey<T: 'static> {
    init: fn() -> T,
    v: std::cell::UnsafeCell<Vec<(usize, Box<T>)>>,
}
unsafe impl<T> Sync for LocalKey<T> {}
impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self {
        Self { init, v: std::cell::UnsafeCell::new(Vec::new()) }
    }
    pub fn with<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        let me = crate::sched::s().cur;
        let v = unsafe { &mut *self.v.get() };
        if !v.iter().any(|x| x.0 == me) {
            v.push((me, Box::new((self.init)())));
        }
        let p: *const T = &*v.iter().find(|x| x.0 == me).unwrap().1;
        f(unsafe { &*p })
    }
}
impl<T: 'static> LocalKey<std::cell::RefCell<T>> {
    pub fn with_borrow<R>(&'static self, f: impl FnOnce(&T) -> R) -> R {
        self.with(|c| f(&c.borrow()))
    }
    pub fn with_borrow_mut<R>(&'static self, f: impl FnOnce(&mut T) -> R) -> R {
        self.with(|c| f(&mut c.borrow_mut()))
    }
    pub fn take(&'static self) -> T
    where
        T: Default,
    {
        self.with(|c| c.take())
    }
    pub fn replace(&'static self, t: T) -> T {
        self.with(|c| c.replace(t))
    }
    pub fn set(&'static self, t: T) {
        self.with(|c| *c.borrow_mut() = t)
    }
}

pub mod thread {
    use crate::sched;
    pub use std::thread::*;
    use std::cell::UnsafeCell;
    use std::sync::Arc;
    struct Slot<T>(UnsafeCell<Option<T>>);
    unsafe impl<T> Sync for Slot<T> {}
    unsafe impl<T> Send for Slot<T> {}
    pub struct JoinHandle<T>(usize, Arc<Slot<T>>);
    impl<T> JoinHandle<T> {
        pub fn join(self) -> std::thread::Result<T> {
            sched::block(&|| sched::done(self.0));
            Ok(unsafe { &mut *self.1.0.get() }.take().unwrap())
        }
        pub fn is_finished(&self) -> bool {
            sched::done(self.0)
        }
    }
    #[derive(Default)]
    pub struct Builder;
    impl Builder {
        pub fn new() -> Self {
            Self
        }
        pub fn name(self, _: String) -> Self {
            self
        }
        pub fn stack_size(self, _: usize) -> Self {
            self
        }
        pub fn spawn<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(
            self,
            f: F,
        ) -> std::io::Result<JoinHandle<T>> {
            Ok(spawn(f))
        }
    }
    pub fn spawn<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> JoinHandle<T> {
        let s = Arc::new(Slot(UnsafeCell::new(None)));
        let t = s.clone();
        let id = sched::spawn(Box::new(move || unsafe { *t.0.get() = Some(f()) }));
        JoinHandle(id, s)
    }
    pub fn available_parallelism() -> std::io::Result<std::num::NonZeroUsize> {
        Ok(std::num::NonZeroUsize::new(2).unwrap())
    }
}

pub mod time {
    pub use crate::models::Instant;
    pub use std::time::*;
    #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
    pub struct SystemTime(u64);
    pub const UNIX_EPOCH: SystemTime = SystemTime(0);
    impl SystemTime {
        pub const UNIX_EPOCH: SystemTime = SystemTime(0);
        pub fn now() -> Self {
            Self(crate::sched::s().now)
        }
        pub fn duration_since(&self, o: Self) -> Result<Duration, std::convert::Infallible> {
            Ok(Duration::from_secs(self.0 - o.0))
        }
    }
}

pub mod fs {
    pub use crate::models::vfs::*;
}

pub mod env {
    use std::ffi::{OsStr, OsString};
    pub fn var<K: AsRef<OsStr>>(_: K) -> Result<String, std::env::VarError> {
        Err(std::env::VarError::NotPresent)
    }
    pub fn var_os<K: AsRef<OsStr>>(_: K) -> Option<OsString> {
        None
    }
    pub use std::env::*;
}

pub mod sync {
    use crate::sched;
    pub use std::sync::*;
    use std::cell::UnsafeCell;
    pub struct Mutex<T: ?Sized> {
        locked: UnsafeCell<bool>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
    unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
    pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
    impl<T> Mutex<T> {
        pub const fn new(v: T) -> Self {
            Self { locked: UnsafeCell::new(false), v: UnsafeCell::new(v) }
        }
    }
    impl<T: Default> Default for Mutex<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T> From<T> for Mutex<T> {
        fn from(t: T) -> Self {
            Self::new(t)
        }
    }
    impl<T> Mutex<T> {
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: ?Sized> Mutex<T> {
        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
            sched::point();
            sched::block(&|| !unsafe { *self.locked.get() });
            unsafe { *self.locked.get() = true };
            Ok(MutexGuard(self))
        }
        pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
            sched::point();
            if unsafe { *self.locked.get() } {
                return Err(TryLockError::WouldBlock);
            }
            unsafe { *self.locked.get() = true };
            Ok(MutexGuard(self))
        }
        pub fn is_poisoned(&self) -> bool {
            false
        }
        pub fn clear_poison(&self) {}
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
    }
    impl<T: ?Sized> std::ops::Deref for MutexGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> std::ops::DerefMut for MutexGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for MutexGuard<'_, T> {
        fn drop(&mut self) {
            unsafe { *self.0.locked.get() = false };
        }
    }
    impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Mutex")
        }
    }

    /// `state` counts the readers; -1 is a writer.
    pub struct RwLock<T: ?Sized> {
        state: UnsafeCell<isize>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
    unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
    pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
    pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            Self { state: UnsafeCell::new(0), v: UnsafeCell::new(v) }
        }
        pub fn into_inner(self) -> LockResult<T> {
            Ok(self.v.into_inner())
        }
    }
    impl<T: Default> Default for RwLock<T> {
        fn default() -> Self {
            Self::new(T::default())
        }
    }
    impl<T: ?Sized> RwLock<T> {
        #[allow(clippy::mut_from_ref)]
        fn st(&self) -> &mut isize {
            unsafe { &mut *self.state.get() }
        }
        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
            sched::point();
            sched::block(&|| *self.st() >= 0);
            *self.st() += 1;
            Ok(RwLockReadGuard(self))
        }
        pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
            sched::point();
            if *self.st() < 0 {
                return Err(TryLockError::WouldBlock);
            }
            *self.st() += 1;
            Ok(RwLockReadGuard(self))
        }
        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
            sched::point();
            sched::block(&|| *self.st() == 0);
            *self.st() = -1;
            Ok(RwLockWriteGuard(self))
        }
        pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
            sched::point();
            if *self.st() != 0 {
                return Err(TryLockError::WouldBlock);
            }
            *self.st() = -1;
            Ok(RwLockWriteGuard(self))
        }
        pub fn get_mut(&mut self) -> LockResult<&mut T> {
            Ok(self.v.get_mut())
        }
    }
    impl<T: ?Sized> std::ops::Deref for RwLockReadGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> std::ops::Deref for RwLockWriteGuard<'_, T> {
        type Target = T;
        fn deref(&self) -> &T {
            unsafe { &*self.0.v.get() }
        }
    }
    impl<T: ?Sized> std::ops::DerefMut for RwLockWriteGuard<'_, T> {
        fn deref_mut(&mut self) -> &mut T {
            unsafe { &mut *self.0.v.get() }
        }
    }
    impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
        fn drop(&mut self) {
            *self.0.st() -= 1;
        }
    }
    impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
        fn drop(&mut self) {
            *self.0.st() = 0;
        }
    }
    impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("RwLock")
        }
    }

    /// Wakes all that wait whenever it is notified; a wait may end by itself anyway.
    #[derive(Debug, Default)]
    pub struct Condvar(UnsafeCell<u64>);
    unsafe impl Sync for Condvar {}
    unsafe impl Send for Condvar {}
    impl Condvar {
        pub const fn new() -> Self {
            Self(UnsafeCell::new(0))
        }
        fn n(&self) -> u64 {
            unsafe { *self.0.get() }
        }
        pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
            let (m, n) = (g.0, self.n());
            drop(g);
            sched::block(&|| self.n() != n);
            m.lock()
        }
        pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(
            &self,
            mut g: MutexGuard<'a, T>,
            mut f: F,
        ) -> LockResult<MutexGuard<'a, T>> {
            while f(&mut g) {
                g = self.wait(g)?;
            }
            Ok(g)
        }
        pub fn notify_one(&self) {
            self.notify_all();
        }
        pub fn notify_all(&self) {
            sched::point();
            unsafe { *self.0.get() += 1 };
        }
    }
}
