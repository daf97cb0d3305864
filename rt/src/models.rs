//! Models of what surrounds `revmc-runtime`: channels, queues, maps, the clock, worker threads,
//! files, the dynamic loader, and the compiler.

use crate::{sched, sym};
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use std::time::Duration;

// ----- crossbeam-channel

struct Chan<T> {
    q: VecDeque<T>,
    cap: usize,
    tx: usize,
    rx: usize,
}
struct Cell<T>(UnsafeCell<Chan<T>>);
unsafe impl<T> Sync for Cell<T> {}
unsafe impl<T> Send for Cell<T> {}
impl<T> Cell<T> {
    #[allow(clippy::mut_from_ref)]
    fn c(&self) -> &mut Chan<T> {
        unsafe { &mut *self.0.get() }
    }
}

pub struct Sender<T>(Arc<Cell<T>>);
pub struct Receiver<T>(Arc<Cell<T>>);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct RecvError;
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}

pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Cell(UnsafeCell::new(Chan { q: VecDeque::new(), cap, tx: 1, rx: 1 })));
    (Sender(c.clone()), Receiver(c))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    bounded(usize::MAX)
}
pub fn never<T>() -> Receiver<T> {
    let (tx, rx) = unbounded();
    std::mem::forget(tx);
    rx
}
macro_rules! shown {
    ($($t:ident)*) => {$(
        impl<T> std::fmt::Debug for $t<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($t))
            }
        }
    )*};
}
shown!(Sender Receiver ArrayQueue);
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            Self::Full(t) | Self::Disconnected(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, Self::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, Self::Disconnected(_))
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == Self::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == Self::Disconnected
    }
}
macro_rules! errors {
    ($($t:ty)*) => {$(
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("channel")
            }
        }
        impl std::error::Error for $t {}
    )*};
}
errors!(RecvError TryRecvError RecvTimeoutError);
impl<T> std::fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("channel")
    }
}
impl<T: std::fmt::Debug> std::error::Error for SendError<T> {}
impl<T> std::fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("channel")
    }
}
impl<T: std::fmt::Debug> std::error::Error for TrySendError<T> {}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        sched::point();
        sched::block(&|| self.0.c().rx == 0 || self.0.c().q.len() < self.0.c().cap);
        if self.0.c().rx == 0 {
            return Err(SendError(t));
        }
        self.0.c().q.push_back(t);
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        sched::point();
        if self.0.c().rx == 0 {
            return Err(TrySendError::Disconnected(t));
        }
        if self.0.c().q.len() >= self.0.c().cap {
            return Err(TrySendError::Full(t));
        }
        self.0.c().q.push_back(t);
        Ok(())
    }
    /// The time is taken to be enough.
    pub fn send_timeout(&self, t: T, _: Duration) -> Result<(), SendError<T>> {
        self.send(t)
    }
    pub fn len(&self) -> usize {
        self.0.c().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.len() >= self.0.c().cap
    }
    pub fn same_channel(&self, o: &Self) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
    pub fn capacity(&self) -> Option<usize> {
        (self.0.c().cap != usize::MAX).then_some(self.0.c().cap)
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.c().tx += 1;
        Self(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.c().tx -= 1;
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        sched::point();
        sched::block(&|| self.ready());
        self.0.c().q.pop_front().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        sched::point();
        match self.0.c().q.pop_front() {
            Some(t) => Ok(t),
            None if self.0.c().tx == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    /// The time is taken to be enough.
    pub fn recv_timeout(&self, _: Duration) -> Result<T, RecvTimeoutError> {
        self.recv().map_err(|_| RecvTimeoutError::Disconnected)
    }
    pub fn len(&self) -> usize {
        self.0.c().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(|| self.recv().ok())
    }
    pub fn try_iter(&self) -> impl Iterator<Item = T> + '_ {
        std::iter::from_fn(|| self.try_recv().ok())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.c().rx += 1;
        Self(self.0.clone())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.c().rx -= 1;
        if self.0.c().rx == 0 {
            let q = std::mem::take(&mut self.0.c().q);
            drop(q);
        }
    }
}

pub trait Sel {
    fn ready(&self) -> bool;
}
impl<T> Sel for Receiver<T> {
    fn ready(&self) -> bool {
        !self.0.c().q.is_empty() || self.0.c().tx == 0
    }
}

/// Which of the operations goes on; their number stands for the default.
pub fn sel(ops: &[&dyn Sel], default: u8) -> usize {
    if default == 2 {
        // Without a time limit.
        sched::point();
        if !ops.iter().any(|o| o.ready()) {
            return ops.len();
        }
    }
    sched::point();
    sched::block(&|| ops.iter().any(|o| o.ready()) || (default == 1 && sched::s().ticks > 0));
    let r: Vec<usize> = (0..ops.len()).filter(|i| ops[*i].ready()).collect();
    match r.len() {
        0 => {
            sched::s().ticks -= 1;
            ops.len()
        }
        1 => r[0],
        n => r[sym::choose(n as u64, "select") as usize],
    }
}
pub fn take<T>(r: &Receiver<T>) -> Result<T, RecvError> {
    r.0.c().q.pop_front().ok_or(RecvError)
}

#[macro_export]
macro_rules! select {
    ($($t:tt)*) => { $crate::select_norm!([] [0] [0] $($t)*) };
}
#[macro_export]
macro_rules! select_biased {
    ($($t:tt)*) => { $crate::select_norm!([] [0] [0] $($t)*) };
}
#[macro_export]
macro_rules! select_norm {
    ([$($a:tt)*] [$i:expr] [$d:expr]) => { $crate::select_emit!([$d] $($a)*) };
    ([$($a:tt)*] [$i:expr] [$d:expr] , $($rest:tt)*) => {
        $crate::select_norm!([$($a)*] [$i] [$d] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] recv($r:expr) -> $m:pat => $b:block $($rest:tt)*) => {
        $crate::select_norm!([$($a)* ($r) ($m) ($i) ($b)] [$i + 1] [$d] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] recv($r:expr) -> $m:pat => $b:expr, $($rest:tt)*) => {
        $crate::select_norm!([$($a)* ($r) ($m) ($i) ({ $b })] [$i + 1] [$d] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] recv($r:expr) -> $m:pat => $b:expr) => {
        $crate::select_norm!([$($a)* ($r) ($m) ($i) ({ $b })] [$i + 1] [$d])
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] default($t:expr) => $b:block $($rest:tt)*) => {
        $crate::select_norm!([$($a)* default ($b)] [$i] [{ let _ = $t; 1 }] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] default($t:expr) => $b:expr, $($rest:tt)*) => {
        $crate::select_norm!([$($a)* default ({ $b })] [$i] [{ let _ = $t; 1 }] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] default($t:expr) => $b:expr) => {
        $crate::select_norm!([$($a)* default ({ $b })] [$i] [{ let _ = $t; 1 }])
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] default => $b:block $($rest:tt)*) => {
        $crate::select_norm!([$($a)* default ($b)] [$i] [2] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] default => $b:expr, $($rest:tt)*) => {
        $crate::select_norm!([$($a)* default ({ $b })] [$i] [2] $($rest)*)
    };
    ([$($a:tt)*] [$i:expr] [$d:expr] default => $b:expr) => {
        $crate::select_norm!([$($a)* default ({ $b })] [$i] [2])
    };
}
#[macro_export]
macro_rules! select_emit {
    ([$d:expr] $(($r:expr) ($m:pat) ($i:expr) ($b:expr))* $(default ($db:expr))?) => {{
        let n = $crate::sel(&[$(&$r as &dyn $crate::Sel),*], $d);
        $(if n == $i {
            let $m = $crate::take(&$r);
            $b
        } else)* {
            $($db)?
        }
    }};
}

// ----- crossbeam-queue

pub struct ArrayQueue<T>(Cell<T>);
impl<T> ArrayQueue<T> {
    pub fn new(cap: usize) -> Self {
        Self(Cell(UnsafeCell::new(Chan { q: VecDeque::new(), cap, tx: 1, rx: 1 })))
    }
    pub fn push(&self, t: T) -> Result<(), T> {
        sched::point();
        if self.0.c().q.len() >= self.0.c().cap {
            return Err(t);
        }
        self.0.c().q.push_back(t);
        Ok(())
    }
    pub fn force_push(&self, t: T) -> Option<T> {
        sched::point();
        let old = if self.is_full() { self.0.c().q.pop_front() } else { None };
        self.0.c().q.push_back(t);
        old
    }
    pub fn pop(&self) -> Option<T> {
        sched::point();
        self.0.c().q.pop_front()
    }
    pub fn len(&self) -> usize {
        self.0.c().q.len()
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        self.len() >= self.0.c().cap
    }
    pub fn capacity(&self) -> usize {
        self.0.c().cap
    }
}

// ----- dashmap: the real one, with points to switch at.

use dashmap_real as dm;
use std::borrow::Borrow;
use std::hash::{BuildHasher, Hash};
#[derive(Debug, Clone)]
pub struct DashMap<K: Eq + Hash, V, S: BuildHasher + Clone = std::collections::hash_map::RandomState>(
    dm::DashMap<K, V, S>,
);
impl<K: Eq + Hash, V, S: BuildHasher + Clone + Default> Default for DashMap<K, V, S> {
    fn default() -> Self {
        Self(dm::DashMap::with_capacity_and_hasher_and_shard_amount(0, S::default(), 2))
    }
}
impl<K: Eq + Hash, V> DashMap<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> DashMap<K, V, S> {
    pub fn with_hasher(s: S) -> Self {
        Self(dm::DashMap::with_capacity_and_hasher_and_shard_amount(0, s, 2))
    }
    pub fn with_capacity_and_hasher(_: usize, s: S) -> Self {
        Self::with_hasher(s)
    }
    pub fn with_hasher_and_shard_amount(s: S, _: usize) -> Self {
        Self::with_hasher(s)
    }
    pub fn with_capacity_and_hasher_and_shard_amount(_: usize, s: S, _: usize) -> Self {
        Self::with_hasher(s)
    }
    pub fn get_mut<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<dm::mapref::one::RefMut<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        sched::point();
        self.0.get_mut(k)
    }
    pub fn remove_if<Q: Hash + Eq + ?Sized>(&self, k: &Q, f: impl FnOnce(&K, &V) -> bool) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        sched::point();
        self.0.remove_if(k, f)
    }
    pub fn entry(&self, k: K) -> dm::mapref::entry::Entry<'_, K, V> {
        sched::point();
        self.0.entry(k)
    }
    pub fn retain(&self, f: impl FnMut(&K, &mut V) -> bool) {
        sched::point();
        self.0.retain(f);
    }
}
pub mod mapref {
    pub use dashmap_real::mapref::*;
}
pub mod try_result {
    pub use dashmap_real::try_result::*;
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> std::ops::Deref for DashMap<K, V, S> {
    type Target = dm::DashMap<K, V, S>;
    fn deref(&self) -> &Self::Target {
        &self.0
    }
}
impl<K: Eq + Hash, V, S: BuildHasher + Clone> DashMap<K, V, S> {
    pub fn insert(&self, k: K, v: V) -> Option<V> {
        sched::point();
        self.0.insert(k, v)
    }
    pub fn remove<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        sched::point();
        self.0.remove(k)
    }
    pub fn contains_key<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        sched::point();
        self.0.contains_key(k)
    }
    pub fn get<Q: Hash + Eq + ?Sized>(&self, k: &Q) -> Option<dm::mapref::one::Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        sched::point();
        self.0.get(k)
    }
    pub fn try_get<Q: Hash + Eq + ?Sized>(
        &self,
        k: &Q,
    ) -> dm::try_result::TryResult<dm::mapref::one::Ref<'_, K, V>>
    where
        K: Borrow<Q>,
    {
        sched::point();
        self.0.try_get(k)
    }
    pub fn clear(&self) {
        sched::point();
        self.0.clear();
    }
}
impl<'a, K: Eq + Hash, V, S: BuildHasher + Clone> IntoIterator for &'a DashMap<K, V, S> {
    type Item = dm::mapref::multiple::RefMulti<'a, K, V>;
    type IntoIter = dm::iter::Iter<'a, K, V, S>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.iter()
    }
}

// ----- quanta, and std's clock

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Self(sched::s().now)
    }
    pub fn recent() -> Self {
        Self::now()
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().duration_since(*self)
    }
    pub fn duration_since(&self, o: Self) -> Duration {
        self.saturating_duration_since(o)
    }
    pub fn saturating_duration_since(&self, o: Self) -> Duration {
        Duration::from_secs(self.0.saturating_sub(o.0))
    }
    pub fn checked_duration_since(&self, o: Self) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_secs)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        self.0.checked_add(d.as_secs()).map(Self)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        self.0.checked_sub(d.as_secs()).map(Self)
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        self.duration_since(o)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        Self(self.0 + d.as_secs())
    }
}
impl std::ops::Sub<Duration> for Instant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        Self(self.0 - d.as_secs())
    }
}

// ----- rayon

type Job = Box<dyn FnOnce()>;
pub struct Pool {
    q: VecDeque<Job>,
    running: usize,
    stop: bool,
    threads: usize,
}
struct PoolCell(UnsafeCell<Pool>);
pub struct ThreadPool(std::rc::Rc<PoolCell>);
unsafe impl Send for ThreadPool {}
unsafe impl Sync for ThreadPool {}
impl PoolCell {
    #[allow(clippy::mut_from_ref)]
    fn p(&self) -> &mut Pool {
        unsafe { &mut *self.0.get() }
    }
}
#[derive(Default)]
pub struct ThreadPoolBuilder {
    n: usize,
}
#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self { n: 1 }
    }
    pub fn num_threads(self, n: usize) -> Self {
        Self { n }
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _: F) -> Self {
        self
    }
    pub fn exit_handler<F: Fn(usize) + Send + Sync + 'static>(self, _: F) -> Self {
        self
    }
    pub fn start_handler<F: Fn(usize) + Send + Sync + 'static>(self, _: F) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        let p = std::rc::Rc::new(PoolCell(UnsafeCell::new(Pool {
            q: VecDeque::new(),
            running: 0,
            stop: false,
            threads: self.n,
        })));
        for _ in 0..self.n {
            let p = p.clone();
            sched::spawn(Box::new(move || {
                loop {
                    sched::block(&|| (!p.p().q.is_empty() || p.p().stop));
                    let Some(j) = p.p().q.pop_front() else { break };
                    p.p().running += 1;
                    j();
                    p.p().running -= 1;
                }
            }));
        }
        Ok(ThreadPool(p))
    }
}
impl ThreadPool {
    pub fn spawn_fifo<F: FnOnce() + Send + 'static>(&self, f: F) {
        world().jobs_sent += 1;
        self.0.p().q.push_back(Box::new(f));
        crate::scen::on_job(self.0.p().q.len());
    }
    pub fn spawn<F: FnOnce() + Send + 'static>(&self, f: F) {
        self.spawn_fifo(f)
    }
    pub fn broadcast<R, F: Fn(()) -> R>(&self, f: F) -> Vec<R> {
        sched::block(&|| self.0.p().running == 0 && self.0.p().q.is_empty());
        (0..self.0.p().threads).map(|_| f(())).collect()
    }
    pub fn install<R>(&self, f: impl FnOnce() -> R) -> R {
        f()
    }
    pub fn current_num_threads(&self) -> usize {
        self.0.p().threads
    }
}
impl Drop for ThreadPool {
    fn drop(&mut self) {
        self.0.p().stop = true;
    }
}

// ----- files, tempfile, libloading

pub mod vfs {
    use super::*;
    pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> std::io::Result<()> {
        let _ = remove_file(p.as_ref());
        world().files.push((p.as_ref().to_path_buf(), c.as_ref().to_vec()));
        Ok(())
    }
    pub fn read<P: AsRef<Path>>(p: P) -> std::io::Result<Vec<u8>> {
        match world().files.iter().find(|f| f.0 == p.as_ref()) {
            Some(f) => Ok(f.1.clone()),
            None => Err(std::io::ErrorKind::NotFound.into()),
        }
    }
    pub fn remove_file<P: AsRef<Path>>(p: P) -> std::io::Result<()> {
        let f = &mut world().files;
        match f.iter().position(|x| x.0 == p.as_ref()) {
            Some(i) => {
                f.remove(i);
                Ok(())
            }
            None => Err(std::io::ErrorKind::NotFound.into()),
        }
    }
    pub struct File(Vec<u8>);
    impl File {
        pub fn open<P: AsRef<Path>>(p: P) -> std::io::Result<Self> {
            read(p).map(Self)
        }
    }
    impl std::io::Read for File {
        fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
            let n = b.len().min(self.0.len());
            b[..n].copy_from_slice(&self.0[..n]);
            self.0.drain(..n);
            Ok(n)
        }
        fn read_to_end(&mut self, b: &mut Vec<u8>) -> std::io::Result<usize> {
            let n = self.0.len();
            b.append(&mut self.0);
            Ok(n)
        }
    }
}

#[derive(Debug)]
pub struct TempDir(PathBuf);
impl TempDir {
    pub fn path(&self) -> &Path {
        &self.0
    }
}
pub fn tempdir() -> std::io::Result<TempDir> {
    world().dirs += 1;
    let n = b"abcdefghijklmnop"[world().dirs as usize % 16];
    Ok(TempDir(PathBuf::from(String::from_utf8(vec![b'/', n]).unwrap())))
}

/// A library's file holds the number of the compilation it came from.
pub struct Library(usize);
#[derive(Debug)]
pub struct LibError;
impl std::fmt::Display for LibError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("library")
    }
}
impl std::error::Error for LibError {}
impl Library {
    pub unsafe fn new<P: AsRef<std::ffi::OsStr>>(p: P) -> Result<Self, LibError> {
        match vfs::read(Path::new(p.as_ref())) {
            Ok(b) if b.len() == 2 && b[0] == b'L' => Ok(Self(b[1] as usize)),
            _ => Err(LibError),
        }
    }
    pub unsafe fn get<T>(&self, name: &[u8]) -> Result<Symbol<'_, T>, LibError> {
        let r = &world().compiled[self.0];
        if r.symbol.as_bytes() != name {
            return Err(LibError);
        }
        assert!(size_of::<T>() == size_of::<usize>());
        let a = address(self.0);
        Ok(Symbol(unsafe { std::mem::transmute_copy(&a) }, std::marker::PhantomData))
    }
}
pub struct Symbol<'a, T>(T, std::marker::PhantomData<&'a ()>);
impl<T> std::ops::Deref for Symbol<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}

// ----- the compiler

use revm_context_interface::cfg::GasParams;
use revm_primitives::hardfork::SpecId;
use revmc_backend::OptimizationLevel;
use revmc_codegen::CompileTimings;

/// A compilation.
#[derive(Clone)]
pub struct Compiled {
    pub symbol: String,
    pub code: Vec<u8>,
    pub spec: SpecId,
    pub opt: OptimizationLevel,
    pub aot: bool,
    pub gas: Option<GasParams>,
    pub single_error: bool,
    pub dedup: bool,
    pub dse: bool,
    pub finished: bool,
    pub ok: bool,
    /// Clears begun before the start.
    pub clears: u32,
    /// Bytes of code still held, for code in memory.
    pub live: bool,
}

pub struct World {
    pub compiled: Vec<Compiled>,
    pub jobs_sent: u32,
    pub files: Vec<(PathBuf, Vec<u8>)>,
    pub dirs: u32,
    /// Whether compilations may fail.
    pub failures: bool,
    pub clears_begun: u32,
    pub clears_done: u32,
    /// Bytes of code of each compilation.
    pub size: usize,
}
struct GW(UnsafeCell<World>);
unsafe impl Sync for GW {}
static W: GW = GW(UnsafeCell::new(World {
    compiled: Vec::new(),
    jobs_sent: 0,
    files: Vec::new(),
    dirs: 0,
    failures: false,
    clears_begun: 0,
    clears_done: 0,
    size: 100,
}));
#[allow(clippy::mut_from_ref)]
pub fn world() -> &'static mut World {
    unsafe { &mut *W.0.get() }
}

pub fn address(i: usize) -> usize {
    0x7000_0000 + 16 * i
}
pub fn number(f: crate::EvmCompilerFn) -> usize {
    (f.into_inner() as usize).wrapping_sub(address(0)) / 16
}

pub mod llvm {
    use super::*;
    pub struct JitMemoryUsage {
        pub code_bytes: usize,
        pub data_bytes: usize,
    }
    impl JitMemoryUsage {
        pub fn total_bytes(&self) -> usize {
            self.code_bytes + self.data_bytes
        }
    }
    pub fn jit_memory_usage() -> Option<JitMemoryUsage> {
        let n = world().compiled.iter().filter(|c| c.live).count();
        Some(JitMemoryUsage { code_bytes: n * world().size, data_bytes: 0 })
    }
    pub fn global_gc() {}
    pub struct JitDylibGuard;
    pub mod orc {
        pub struct ResourceTracker(pub usize);
        impl ResourceTracker {
            pub fn remove(self) -> Result<(), String> {
                super::world().compiled[self.0].live = false;
                Ok(())
            }
        }
    }
}
pub use llvm::global_gc;

pub struct EvmLlvmBackend {
    last: Option<usize>,
    pub aot: bool,
}
impl EvmLlvmBackend {
    pub fn new(aot: bool) -> eyre::Result<Self> {
        Ok(Self { last: None, aot })
    }
    pub fn jit_dylib_guard(&mut self) -> Arc<llvm::JitDylibGuard> {
        Arc::new(llvm::JitDylibGuard)
    }
    pub fn take_last_resource_tracker(&mut self) -> Option<llvm::orc::ResourceTracker> {
        self.last.take().map(llvm::orc::ResourceTracker)
    }
    pub fn pending_symbol_names(&self) -> Vec<std::ffi::CString> {
        Vec::new()
    }
    pub fn link_jit_object_in_fresh_dylib(
        &mut self,
        _: &std::ffi::CStr,
        _: &[u8],
        _: &[(std::ffi::CString, usize)],
    ) -> eyre::Result<(usize, llvm::orc::ResourceTracker, Arc<llvm::JitDylibGuard>)> {
        eyre::bail!("no objects")
    }
}

pub struct EvmCompiler<B> {
    backend: B,
    opt: OptimizationLevel,
    gas: Option<GasParams>,
    single_error: bool,
    dedup: bool,
    dse: bool,
    current: Option<usize>,
}
impl EvmCompiler<EvmLlvmBackend> {
    pub fn new(backend: EvmLlvmBackend) -> Self {
        Self {
            backend,
            opt: OptimizationLevel::default(),
            gas: None,
            single_error: false,
            dedup: true,
            dse: true,
            current: None,
        }
    }
    pub fn set_opt_level(&mut self, o: OptimizationLevel) {
        self.opt = o;
    }
    pub fn debug_assertions(&mut self, _: bool) {}
    pub fn single_error(&mut self, b: bool) {
        self.single_error = b;
    }
    pub fn set_dedup(&mut self, b: bool) {
        self.dedup = b;
    }
    pub fn set_dse(&mut self, b: bool) {
        self.dse = b;
    }
    pub fn set_gas_params(&mut self, g: GasParams) {
        self.gas = Some(g);
    }
    pub fn set_dump_to(&mut self, _: Option<PathBuf>) {}
    pub fn backend(&self) -> &EvmLlvmBackend {
        &self.backend
    }
    pub fn backend_mut(&mut self) -> &mut EvmLlvmBackend {
        &mut self.backend
    }
    pub fn take_timings(&self) -> CompileTimings {
        CompileTimings::default()
    }
    pub fn clear_ir(&mut self) -> eyre::Result<()> {
        self.current = None;
        Ok(())
    }
    fn compile(&mut self, symbol: &str, code: &[u8], spec: SpecId) -> eyre::Result<usize> {
        let w = world();
        let i = w.compiled.len();
        crate::scen::on_start(code, spec);
        w.compiled.push(Compiled {
            symbol: symbol.to_string(),
            code: code.to_vec(),
            spec,
            opt: self.opt,
            aot: self.backend.aot,
            gas: self.gas.clone(),
            single_error: self.single_error,
            dedup: self.dedup,
            dse: self.dse,
            finished: false,
            ok: false,
            clears: w.clears_begun,
            live: false,
        });
        sched::point();
        let ok = !w.failures || sym::choose(2, "compiles") == 0;
        let c = &mut world().compiled[i];
        c.finished = true;
        c.ok = ok;
        if !ok {
            eyre::bail!("does not compile");
        }
        Ok(i)
    }
    pub unsafe fn jit(&mut self, symbol: &str, code: &[u8], spec: SpecId) -> eyre::Result<crate::EvmCompilerFn> {
        let i = self.compile(symbol, code, spec)?;
        world().compiled[i].live = true;
        self.backend.last = Some(i);
        Ok(crate::EvmCompilerFn::new(unsafe {
            std::mem::transmute::<usize, revmc_context::RawEvmCompilerFn>(address(i))
        }))
    }
    pub fn translate(&mut self, symbol: &str, code: &[u8], spec: SpecId) -> eyre::Result<()> {
        self.current = Some(self.compile(symbol, code, spec)?);
        Ok(())
    }
    pub fn write_object(&mut self, w: &mut Vec<u8>) -> eyre::Result<()> {
        w.extend([b'L', self.current.unwrap() as u8]);
        Ok(())
    }
    pub fn write_object_to_file(&mut self, p: &Path) -> eyre::Result<()> {
        vfs::write(p, [b'L', self.current.unwrap() as u8])?;
        Ok(())
    }
}

#[derive(Default)]
pub struct Linker;
impl Linker {
    pub fn new() -> Self {
        Self
    }
    pub fn link(&self, out: &Path, objects: impl IntoIterator<Item = impl AsRef<str>>) -> std::io::Result<()> {
        for o in objects {
            vfs::write(out, vfs::read(o.as_ref())?)?;
        }
        Ok(())
    }
}
