//! The interface between a harness and the symbolic executor.
//!
//! The executor intercepts every `vh_*` function by name. The bodies below are what a native
//! replay of a counterexample runs: inputs come from the replay file, a failed check ends the
//! process with exit code 1.

use std::cell::UnsafeCell;
use std::ptr::read_volatile;

pub struct Replay {
    pub inputs: Vec<u8>,
    pub pos: usize,
    pub params: Vec<u64>,
    pub checks: u64,
}

struct Global(UnsafeCell<Replay>);
unsafe impl Sync for Global {}

static REPLAY: Global = Global(UnsafeCell::new(Replay {
    inputs: Vec::new(),
    pos: 0,
    params: Vec::new(),
    checks: 0,
}));

static mut ZERO: u64 = 0;

#[allow(clippy::mut_from_ref)]
pub fn replay() -> &'static mut Replay {
    unsafe { &mut *REPLAY.0.get() }
}

/// Fills `len` bytes at `p` with fresh symbolic values.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_sym_bytes(p: *mut u8, len: usize, _name: *const u8, _name_len: usize) {
    let r = replay();
    for i in 0..len {
        let b = r.inputs.get(r.pos).copied().unwrap_or(0);
        r.pos += 1;
        unsafe { p.add(i).write_volatile(b) };
    }
}

/// Parameter `i` of the job.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_param(i: u64) -> u64 {
    let r = replay();
    r.params.get(i as usize).copied().unwrap_or(0) + unsafe { read_volatile(&raw const ZERO) }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_assume(cond: u32) {
    if unsafe { read_volatile(&cond) } == 0 {
        println!("REPLAY: assumption does not hold");
        std::process::exit(3);
    }
}

#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_check(cond: u32, msg: *const u8, len: usize) {
    replay().checks += 1;
    if unsafe { read_volatile(&cond) } == 0 {
        let s = unsafe { std::slice::from_raw_parts(msg, len) };
        println!("REPLAY: CHECK FAILED: {}", String::from_utf8_lossy(s));
        std::process::exit(1);
    }
}

/// Ends the path: the bound was reached.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_cut(msg: *const u8, len: usize) {
    let s = unsafe { std::slice::from_raw_parts(msg, len) };
    println!("REPLAY: cut: {}", String::from_utf8_lossy(s));
    std::process::exit(4 + unsafe { read_volatile(&raw const ZERO) } as i32);
}

/// Records that the path got here.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_cover(msg: *const u8, len: usize) {
    let s = unsafe { std::slice::from_raw_parts(msg, len) };
    println!("REPLAY: cover: {}", String::from_utf8_lossy(s));
}

/// Continues once per feasible value of `v`.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_concretize(v: u64) -> u64 {
    unsafe { read_volatile(&v) }
}

/// Diagnostic output of a value.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_print(msg: *const u8, len: usize, v: u64) {
    let s = unsafe { std::slice::from_raw_parts(msg, len) };
    println!("REPLAY: {} = {v:#x}", String::from_utf8_lossy(s));
}

// ---------------------------------------------------------------------------------------------

#[inline(always)]
pub fn check(cond: bool, msg: &str) {
    unsafe { vh_check(cond as u32, msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn assume(cond: bool) {
    unsafe { vh_assume(cond as u32) }
}
#[inline(always)]
pub fn cut(msg: &str) -> ! {
    unsafe { vh_cut(msg.as_ptr(), msg.len()) };
    std::process::abort()
}
#[inline(always)]
pub fn cover(msg: &str) {
    unsafe { vh_cover(msg.as_ptr(), msg.len()) }
}
#[inline(always)]
pub fn param(i: u64) -> u64 {
    unsafe { vh_param(i) }
}
#[inline(always)]
pub fn concretize(v: u64) -> u64 {
    unsafe { vh_concretize(v) }
}
#[inline(always)]
pub fn print(msg: &str, v: u64) {
    unsafe { vh_print(msg.as_ptr(), msg.len(), v) }
}
#[inline(always)]
pub fn fill(b: &mut [u8], name: &str) {
    unsafe { vh_sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn u8(name: &str) -> u8 {
    let mut b = [0u8; 1];
    fill(&mut b, name);
    b[0]
}
pub fn u16(name: &str) -> u16 {
    let mut b = [0u8; 2];
    fill(&mut b, name);
    u16::from_le_bytes(b)
}
pub fn u64(name: &str) -> u64 {
    let mut b = [0u8; 8];
    fill(&mut b, name);
    u64::from_le_bytes(b)
}
pub fn usize(name: &str) -> usize {
    u64(name) as usize
}
pub fn boolean(name: &str) -> bool {
    u8(name) & 1 != 0
}
pub fn u256(name: &str) -> ruint::aliases::U256 {
    let mut b = [0u8; 32];
    fill(&mut b, name);
    ruint::aliases::U256::from_le_bytes(b)
}
pub fn bytes(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    fill(&mut v, name);
    v
}
/// A value below `n`, one path per value.
#[inline(never)]
pub fn choose(n: u64, name: &str) -> u64 {
    let v = u8(name) as u64;
    assume(v < n);
    concretize(v)
}
