//! Threads of the harness, one running at a time, switched at the operations on shared data that
//! the models announce. Which thread goes on is a symbolic input.

use crate::sym;
use std::cell::UnsafeCell;

struct T {
    /// What the thread waits for.
    ready: Option<*const dyn Fn() -> bool>,
    done: bool,
    /// What it does now must not wait.
    hurry: bool,
}

pub struct Sched {
    t: Vec<T>,
    pub cur: usize,
    /// Switches left that no wait asks for.
    pub preempt: u32,
    /// Timeouts left.
    pub ticks: u32,
    /// The clock, in seconds.
    pub now: u64,
    /// Free choice of the next thread at a wait; otherwise the lowest.
    pub free: bool,
}

struct G(UnsafeCell<Sched>);
unsafe impl Sync for G {}
static S: G =
    G(UnsafeCell::new(Sched { t: Vec::new(), cur: 0, preempt: 0, ticks: 0, now: 1_000, free: true }));

#[allow(clippy::mut_from_ref)]
pub fn s() -> &'static mut Sched {
    unsafe { &mut *S.0.get() }
}

struct Baton {
    m: std::sync::Mutex<(u64, u64)>,
    c: std::sync::Condvar,
}
static BATON: Baton = Baton { m: std::sync::Mutex::new((0, 0)), c: std::sync::Condvar::new() };

/// A new thread, which does not run yet.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_co_new(f: extern "C" fn(usize), arg: usize) -> u64 {
    let id = {
        let mut b = BATON.m.lock().unwrap();
        b.1 += 1;
        b.1
    };
    std::thread::spawn(move || {
        let mut b = BATON.m.lock().unwrap();
        while b.0 != id {
            b = BATON.c.wait(b).unwrap();
        }
        drop(b);
        f(arg);
    });
    id
}

#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_co_switch(n: u64) {
    let mut b = BATON.m.lock().unwrap();
    let me = b.0;
    b.0 = n;
    BATON.c.notify_all();
    while b.0 != me {
        b = BATON.c.wait(b).unwrap();
    }
}

extern "C" fn tramp(arg: usize) {
    let f = unsafe { Box::from_raw(arg as *mut Box<dyn FnOnce()>) };
    f();
    let s = s();
    s.t[s.cur].done = true;
    away();
    std::process::abort();
}

fn init() {
    let s = s();
    if s.t.is_empty() {
        s.t.push(T { ready: None, done: false, hurry: false });
    }
}

pub fn spawn(f: Box<dyn FnOnce()>) -> usize {
    init();
    let arg = Box::into_raw(Box::new(f)) as usize;
    let id = unsafe { vh_co_new(tramp, arg) } as usize;
    s().t.push(T { ready: None, done: false, hurry: false });
    id
}

pub fn done(id: usize) -> bool {
    s().t[id].done
}

fn runnable(i: usize) -> bool {
    let t = &s().t[i];
    !t.done && t.ready.is_none_or(|r| unsafe { (*r)() })
}

/// The threads that can go on, other than thread 0 and `but`.
fn others(but: usize) -> Vec<usize> {
    (1..s().t.len()).filter(|i| *i != but && runnable(*i)).collect()
}

fn go(n: usize) {
    let s = s();
    if n != s.cur {
        s.cur = n;
        unsafe { vh_co_switch(n as u64) };
    }
}

fn pick(v: &[usize]) -> usize {
    if v.len() == 1 || !s().free { v[0] } else { v[sym::choose(v.len() as u64, "next thread") as usize] }
}

/// Leaves a thread that cannot go on.
fn away() {
    let v = others(s().cur);
    go(if v.is_empty() { 0 } else { pick(&v) });
}

/// A point where another thread may go on.
pub fn point() {
    let s = s();
    if s.preempt == 0 || s.cur == 0 {
        return;
    }
    let v = others(s.cur);
    if v.is_empty() {
        return;
    }
    let k = sym::choose(v.len() as u64 + 1, "switch") as usize;
    if k > 0 {
        s.preempt -= 1;
        go(v[k - 1]);
    }
}

/// Runs `f`, which must not wait for anything.
pub fn hurry<R>(f: impl FnOnce() -> R) -> R {
    init();
    let me = s().cur;
    s().t[me].hurry = true;
    let r = f();
    s().t[me].hurry = false;
    r
}

/// Waits for `ready`.
pub fn block(ready: &dyn Fn() -> bool) {
    init();
    let me = s().cur;
    if s().t[me].hurry && !ready() && (sym::param(9) == 0 || sym::param(9) & 2 != 0) {
        sym::check(false, "a call that must not wait waits");
    }
    if me == 0 {
        // Thread 0 sets up and concludes: all the others are waiting for something else.
        if !ready() {
            run();
        }
        if !ready() {
            if sym::param(9) == 0 || sym::param(9) & 2 != 0 {
                sym::check(false, "a call by a caller with nothing else going on never returns");
            }
            sym::cut("a call never returns");
        }
        return;
    }
    while !ready() {
        let r: *const dyn Fn() -> bool = unsafe { std::mem::transmute(ready) };
        s().t[me].ready = Some(r);
        away();
        s().t[me].ready = None;
    }
}

/// Runs the other threads until none of them can go on.
pub fn run() {
    init();
    loop {
        let v = others(0);
        if v.is_empty() {
            return;
        }
        go(pick(&v));
    }
}
