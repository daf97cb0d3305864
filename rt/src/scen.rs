//! What callers do, and what must hold.

use crate::models::{self, world};
use crate::runtime::*;
use crate::{sched, sym};
use alloy_primitives::{B256, Bytes};
use revm_primitives::hardfork::SpecId;
use std::cell::UnsafeCell;
use std::sync::Arc;
use std::time::Duration;

pub const ENTRIES: &[(&str, extern "C" fn())] =
    &[("h_calls", h_calls), ("h_evict", h_evict), ("h_persist", h_persist), ("h_switch", h_switch)];

const NK: usize = 4;
/// The last key is only used to wait for the backend.
const BARRIER: usize = 3;

fn code(k: usize) -> &'static [u8] {
    match k {
        0 | 1 => &[0x60, 1],
        2 => &[0x5b, 0x5b, 0],
        _ => &[0x30],
    }
}
fn key(k: usize) -> RuntimeCacheKey {
    let spec_id = if k == 1 { SpecId::CANCUN } else { SpecId::OSAKA };
    let h = match k {
        0 | 1 => 7,
        2 => 8,
        _ => 9,
    };
    RuntimeCacheKey { code_hash: B256::repeat_byte(h), spec_id }
}
fn req(k: usize) -> LookupRequest {
    LookupRequest { key: key(k), code: Bytes::from_static(code(k)) }
}

#[derive(Default)]
struct Ghost {
    backend: Option<JitBackend>,
    config: Option<RuntimeConfig>,
    /// Requests for a key that were begun, and the ones going on.
    requests: [u32; NK],
    going: [u32; NK],
    explicit: [u32; NK],
    misses: [u32; NK],
    calls: u32,
    finished: u32,
    callbacks: u32,
    good: u32,
    threshold: u64,
    saturable: bool,
    evicting: bool,
    keys: u64,
    hits: u32,
    plain: u32,
    tracked: bool,
    /// Programs callers hold on to.
    held: Vec<Arc<CompiledProgram>>,
}
struct G(UnsafeCell<Option<Ghost>>);
unsafe impl Sync for G {}
static GHOST: G = G(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
fn g() -> &'static mut Ghost {
    unsafe { (*GHOST.0.get()).get_or_insert_with(Ghost::default) }
}
fn backend() -> JitBackend {
    g().backend.clone().unwrap()
}

/// A check of one kind: 1 what is found, 2 waiting, 4 clearing, 8 what is compiled, 16 what stays,
/// 32 what is counted. The last parameter says which kinds are looked at.
fn chk(kind: u64, ok: bool, msg: &str) {
    if sym::param(9) == 0 || sym::param(9) & kind != 0 {
        sym::check(ok, msg);
    }
}

fn known(c: &[u8], spec: SpecId) -> Option<usize> {
    (0..NK).find(|k| code(*k) == c && key(*k).spec_id == spec)
}

fn eligible(k: usize) -> bool {
    let m = g().config.as_ref().unwrap().tuning.jit_max_bytecode_len;
    !code(k).is_empty() && (m == 0 || code(k).len() <= m)
}

/// A job is handed to the workers, and so many wait there.
pub fn on_job(waiting: usize) {
    let (g, w) = (g(), world());
    let Some(c) = g.config.as_ref() else { return };
    let t = &c.tuning;
    let open = w.jobs_sent as usize - w.compiled.iter().filter(|r| r.finished).count();
    chk(8, open <= t.jit_max_pending_jobs, "more jobs are in flight than allowed");
    chk(8, waiting <= t.jit_worker_count * t.jit_worker_queue_capacity, "more jobs wait than allowed");
}

/// A compilation begins.
pub fn on_start(c: &[u8], spec: SpecId) {
    let Some(k) = known(c, spec) else {
        chk(8, false, "code is compiled that nobody asked for");
        return;
    };
    let (g, w) = (g(), world());
    chk(8, g.requests[k] > 0, "code is compiled that nobody asked for");
    chk(8, eligible(k), "code beyond the limit is compiled");
    if g.explicit[k] == 0 {
        chk(8, g.misses[k] as u64 >= g.threshold, "code is compiled before it is hot");
    }
    let same = w.compiled.iter().filter(|r| known(&r.code, r.spec) == Some(k)).count() as u32;
    let stored = g.config.as_ref().unwrap().store.is_some();
    // Those that came to nothing.
    let failed = w
        .compiled
        .iter()
        .filter(|r| known(&r.code, r.spec) == Some(k) && r.finished && (!r.ok || r.aot && !stored))
        .count() as u32;
    chk(8, g.evicting || same <= failed + w.clears_begun, "the same code is compiled twice");
}

fn good(p: &CompiledProgram, k: usize) {
    chk(1, p.key == key(k), "a program for another key is found");
    let w = world();
    let i = models::number(p.func);
    chk(1, i < w.compiled.len(), "a program that was not compiled is found");
    let r = &w.compiled[i];
    chk(1, r.code == code(k), "a program of other code is found");
    chk(1, r.spec == key(k).spec_id, "a program for another fork is found");
    chk(1, r.ok, "a program that did not compile is found");
    chk(1, r.aot == (p.kind == ProgramKind::Aot), "a program of another kind is found");
    let c = g().config.as_ref().unwrap();
    chk(1, r.opt == if r.aot { c.tuning.aot_opt_level } else { c.tuning.jit_opt_level },
        "a program is compiled at another level than configured",);
    chk(1, r.single_error == c.single_error && r.dedup != c.no_dedup && r.dse != c.no_dse,
        "a program is compiled with other options than configured",);
    chk(1, match (&r.gas, &c.gas_params) {
            (None, None) => true,
            (Some(a), Some(b)) => a == b,
            _ => false,
        },
        "a program is compiled with other gas costs than configured",);
    chk(1, r.aot || r.live, "a program is found whose code is gone");
    sym::cover("program");
}

/// Found programs stay valid as long as they are held.
fn hold(p: Arc<CompiledProgram>) {
    if sym::param(9) == 0 || sym::param(9) & 1 != 0 {
        g().held.push(p);
    }
}
fn held() {
    for p in &g().held {
        let r = &world().compiled[models::number(p.func)];
        chk(1, r.aot || r.live, "a program's code is gone while it is held");
    }
}

/// Whether a compilation of it came to nothing: a library that cannot be stored is lost.
fn failed(k: usize) -> bool {
    let stored = g().config.as_ref().unwrap().store.is_some();
    world()
        .compiled
        .iter()
        .any(|r| known(&r.code, r.spec) == Some(k) && r.finished && (!r.ok || r.aot && !stored))
}

fn explicit(k: usize, f: impl FnOnce()) {
    let g = g();
    g.requests[k] += 1;
    g.explicit[k] += 1;
    g.going[k] += 1;
    f();
    g.going[k] -= 1;
}

fn sync(b: &JitBackend, k: usize) -> bool {
    let before = world().clears_done;
    let mut r = false;
    explicit(k, || r = b.compile_jit_sync(req(k)).is_ok());
    chk(2, r, "a blocking request fails");
    let p = b.get_compiled(key(k).code_hash, key(k).spec_id);
    if let Some(p) = &p {
        good(p, k);
        sym::cover("sync resident");
    }
    if world().clears_begun == before && eligible(k) && !failed(k) && !g().saturable {
        chk(2, p.is_some(), "a blocking request is answered before the code is there");
    }
    let there = p.is_some();
    p.map(hold);
    there
}

fn lookup(b: &JitBackend, k: usize, blocking: bool, sure: bool) {
    let before = world().clears_done;
    let g = g();
    let mut d = None;
    if blocking {
        g.tracked = true;
        explicit(k, || d = Some(b.lookup_blocking(req(k))));
    } else {
        g.requests[k] += 1;
        g.misses[k] += 1;
        g.going[k] += 1;
        d = Some(if g.config.as_ref().unwrap().blocking {
            g.tracked = true;
            b.lookup(req(k))
        } else {
            sched::hurry(|| b.lookup(req(k)))
        });
        g.plain += eligible(k) as u32;
        if let Some(LookupDecision::Compiled(_)) = d {
            g.hits += 1;
        }
        g.going[k] -= 1;
    }
    match d.unwrap() {
        LookupDecision::Compiled(p) => {
            good(&p, k);
            chk(1, eligible(k), "a program is found for code that may not be compiled");
            sym::cover("lookup finds");
            hold(p);
        }
        LookupDecision::Interpret(r) => {
            chk(1, (r == InterpretReason::Ineligible) == !eligible(k), "eligibility is wrong");
            chk(1, r != InterpretReason::Disabled, "it is not disabled");
            if world().clears_begun == before && eligible(k) {
                chk(16, !sure, "a program that was there is gone");
                if blocking && !failed(k) && !g.saturable {
                    chk(2, false, "a blocking lookup falls back before the code is there");
                }
            }
            sym::cover("lookup misses");
        }
    }
}

fn clear(f: impl FnOnce()) {
    world().clears_begun += 1;
    f();
    world().clears_done += 1;
}

/// Clears, waits until that is done, and looks whether anything is left.
fn clear_and_look(b: &JitBackend, all: bool) {
    let g = g();
    let before = g.requests;
    let idle: [bool; NK] = std::array::from_fn(|k| g.going[k] == 0);
    clear(|| if all { b.clear_all() } else { b.clear_resident() });
    explicit(BARRIER, || {
        let _ = b.compile_jit_sync(req(BARRIER));
    });
    for k in 0..BARRIER {
        let p = b.get_compiled(key(k).code_hash, key(k).spec_id);
        if idle[k] && g.requests[k] == before[k] {
            chk(4, p.is_none(), "a program from before a clear is found after it");
            sym::cover("cleared");
        }
        if let Some(p) = p {
            good(&p, k);
        }
    }
}

fn aot_req(k: usize) -> AotRequest {
    AotRequest { code_hash: key(k).code_hash, code: Bytes::from_static(code(k)), spec_id: key(k).spec_id }
}

/// `n` calls of the kinds in `ops`.
fn client(n: u64, ops: u64) {
    let b = backend();
    let mut sure: [Option<u32>; NK] = [None; NK];
    for _ in 0..n {
        let kinds: Vec<u64> = (0..16).filter(|i| ops >> i & 1 != 0).collect();
        let op = kinds[if kinds.len() == 1 { 0 } else { sym::choose(kinds.len() as u64, "call") as usize }];
        let k = if op == 5 || op == 6 || op == 7 || g().keys == 1 {
            0
        } else {
            sym::choose(g().keys, "key") as usize
        };
        // Nothing was cleared since the program was seen.
        let is_sure = sure[k].is_some_and(|c| c == world().clears_begun);
        match op {
            0 => lookup(&b, k, false, is_sure),
            1 => {
                let c = world().clears_begun;
                if sync(&b, k) {
                    sure[k] = Some(c);
                }
            }
            2 => explicit(k, || b.compile_jit(req(k))),
            3 => lookup(&b, k, true, is_sure),
            4 => explicit(k, || b.prepare_aot(aot_req(k))),
            10 => {
                let o = (k + 1) % g().keys as usize;
                explicit(k, || explicit(o, || b.prepare_aot_batch(vec![aot_req(k), aot_req(o)])));
            }
            5 => clear_and_look(&b, false),
            6 => clear_and_look(&b, true),
            7 => clear(|| b.clear_resident()),
            8 => {
                let p = b.get_compiled(key(k).code_hash, key(k).spec_id);
                if let Some(p) = &p {
                    good(p, k);
                }
                if is_sure && world().clears_begun == world().clears_done {
                    chk(16, p.is_some(), "a program that was there is gone");
                }
            }
            _ => {
                sched::hurry(|| b.pause());
                chk(2, b.is_paused(), "a pause is not there");
                sched::hurry(|| b.resume());
            }
        }
    }
    g().finished += 1;
}

fn config() -> RuntimeConfig {
    let mut c = RuntimeConfig { enabled: true, ..Default::default() };
    c.tuning.channel_capacity = 8;
    c.tuning.max_events_per_drain = 8;
    c.tuning.jit_worker_count = 1;
    c.tuning.idle_evict_duration = None;
    c.tuning.resident_code_cache_bytes = 0;
    c
}

fn start(c: RuntimeConfig) {
    let mut c = c;
    c.on_compilation = Some(Arc::new(|e: CompilationEvent| {
        g().callbacks += 1;
        g().good += e.success as u32;
    }));
    g().config = Some(c.clone());
    g().backend = Some(JitBackend::new(c).unwrap());
}

/// Lets the backend drain its events.
fn settle() {
    sched::s().preempt = 0;
    for _ in 0..2 {
        sched::s().ticks += 1;
        sched::run();
    }
}

/// The last handle is dropped: the backend and its workers end.
fn finish() {
    g().backend = None;
    sched::run();
    chk(1, world().compiled.iter().all(|r| !r.live), "code is kept that nobody can use");
    sym::cover("shut down");
}

fn conclude(clients: u32) {
    settle();
    held();
    g().held.clear();
    let (g, w) = (g(), world());
    chk(2, g.finished == clients, "a call never returns");
    let s = g.backend.as_ref().unwrap().stats();
    let done = w.compiled.iter().filter(|r| r.finished).count() as u64;
    let bad = w.compiled.iter().filter(|r| r.finished && !r.ok).count() as u64;
    // A library that cannot be stored is lost.
    let lost = if g.config.as_ref().unwrap().store.is_some() {
        0
    } else {
        w.compiled.iter().filter(|r| r.finished && r.ok && r.aot).count() as u64
    };
    chk(2, done == w.jobs_sent as u64, "a job is never run");
    chk(32, s.compilations_dispatched == w.jobs_sent as u64, "the number of jobs is wrong");
    chk(32, s.pending_jobs == 0, "jobs are pending that are done");
    chk(32, s.command_queue_len == 0 && s.events_queued == 0, "calls are queued that are done");
    let there = (0..NK)
        .filter(|k| g.backend.as_ref().unwrap().get_compiled(key(*k).code_hash, key(*k).spec_id).is_some())
        .count();
    chk(32, s.resident_entries == there as u64, "the number of programs is wrong");
    if w.clears_begun == 0 {
        if !g.tracked {
            chk(
                32,
                s.lookup_hits + s.lookup_misses + s.events_dropped == g.plain as u64
                    && s.lookup_hits <= g.hits as u64,
                "lookups are counted wrong",
            );
            chk(32, s.events_dropped > 0 || s.lookup_hits == g.hits as u64, "hits are counted wrong");
        }
        chk(32, s.compilations_failed == bad + lost && s.compilations_succeeded + bad + lost == done,
            "the outcomes of compilations are counted wrong",);
        chk(32, g.callbacks as u64 == done && (g.good as u64) + bad == done, "the outcomes are reported wrong");
        for k in 0..NK {
            let there = g.backend.as_ref().unwrap().get_compiled(key(k).code_hash, key(k).spec_id);
            let asked = g.explicit[k] > 0 || g.misses[k] > 0 && g.misses[k] as u64 >= g.threshold;
            if asked && eligible(k) && !g.saturable && s.events_dropped == 0 && !failed(k) && lost == 0 {
                chk(8, there.is_some(), "code that is hot is never compiled");
                sym::cover("hot");
            }
            if g.requests[k] == 0 {
                chk(1, there.is_none(), "a program nobody asked for is found");
            }
        }
    }
    finish();
}

/// Clients that call what they like. Parameters: switches that no wait asks for; calls of the first,
/// the second and the third client and which they make; keys; options.
#[unsafe(no_mangle)]
extern "C" fn h_calls() {
    let (preempt, keys, opts) = (sym::param(0), sym::param(1), sym::param(2));
    let mut c = config();
    let gh = g();
    gh.keys = keys;
    gh.threshold = 1;
    c.tuning.jit_hot_threshold = 1;
    if opts & 1 != 0 {
        world().failures = true;
    }
    if opts & 2 != 0 {
        // Any threshold.
        let t = sym::u64("threshold");
        c.tuning.jit_hot_threshold = t as usize;
        gh.threshold = t;
    }
    if opts & 4 != 0 {
        c.aot = true;
        c.store = Some(Arc::new(RuntimeArtifactStore::new().unwrap()));
    } else if opts & 8 != 0 {
        c.store = Some(Arc::new(RuntimeArtifactStore::new().unwrap()));
    }
    if opts & 16 != 0 {
        c.tuning.jit_max_pending_jobs = 1 + sym::choose(2, "pending") as usize;
        c.tuning.jit_worker_queue_capacity = sym::choose(2, "queue") as usize + 1;
        gh.saturable = true;
    }
    if opts & 32 != 0 {
        c.tuning.channel_capacity = 1;
    }
    if opts & 64 != 0 {
        c.tuning.jit_worker_count = 2;
    }
    if opts & 128 != 0 {
        c.tuning.jit_max_bytecode_len = sym::u64("limit") as usize;
    }
    if opts & 256 != 0 {
        let b = sym::u8("options");
        c.single_error = b & 1 != 0;
        c.no_dedup = b & 2 != 0;
        c.no_dse = b & 4 != 0;
        if b & 8 != 0 {
            c.gas_params = Some(revm_context_interface::cfg::GasParams::new_spec(SpecId::FRONTIER));
        }
        c.tuning.jit_opt_level = crate::OptimizationLevel::None;
        c.tuning.aot_opt_level = crate::OptimizationLevel::Aggressive;
    }
    if opts & 512 != 0 {
        c.blocking = true;
        gh.threshold = 0;
    }
    start(c);
    sched::s().ticks = (opts >> 10 & 3) as u32;
    let mut n = 0;
    for i in 0..3 {
        let (calls, ops) = (sym::param(3 + 2 * i), sym::param(4 + 2 * i));
        if calls > 0 {
            n += 1;
            sched::spawn(Box::new(move || client(calls, ops)));
        }
    }
    sched::s().preempt = preempt as u32;
    sched::run();
    conclude(n);
    sym::cover("end");
}


/// Sequences of calls on a backend that is started when it is first switched on.
#[unsafe(no_mangle)]
extern "C" fn h_switch() {
    let n = sym::param(0);
    let mut c = config();
    c.enabled = sym::choose(2, "enabled") == 1;
    c.tuning.channel_capacity = sym::param(1) as usize;
    c.tuning.jit_hot_threshold = 1;
    g().threshold = 1;
    let mut on = c.enabled;
    start(c);
    let b = backend();
    let mut depth = 0u32;
    let mut started = on;
    let mut there = [false; NK];
    let mut sent = 0;
    for _ in 0..n {
        chk(64, b.enabled() == on, "whether it is switched on is wrong");
        chk(64, b.is_paused() == (depth > 0), "whether it is paused is wrong");
        match sym::choose(8, "call") {
            0 => {
                b.set_enabled(true).unwrap();
                (on, started) = (true, true);
                if sent > 0 {
                    // What was asked for before the start is done now.
                    sched::run();
                }
            }
            1 => {
                b.set_enabled(false).unwrap();
                on = false;
            }
            2 => {
                sched::hurry(|| b.pause());
                depth += 1;
            }
            3 => {
                sched::hurry(|| b.resume());
                depth = depth.saturating_sub(1);
            }
            4 => {
                let k = sym::choose(2, "key") as usize;
                explicit(k, || {
                    let r = b.compile_jit_sync(req(k));
                    chk(2, r.is_ok(), "a blocking request fails");
                });
                (started, there[k]) = (true, true);
            }
            5 => {
                // Nothing takes commands before the start.
                if started || sent + 1 < sym::param(1) {
                    sent += !started as u64;
                    clear(|| b.clear_resident());
                    if started {
                        sched::run();
                        there = [false; NK];
                    }
                }
            }
            _ => {
                let k = sym::choose(2, "key") as usize;
                g().requests[k] += 1;
                g().misses[k] += 1;
                let d = sched::hurry(|| b.lookup(req(k)));
                match d {
                    LookupDecision::Compiled(p) => {
                        chk(64, on, "a program is found while it is switched off");
                        chk(64, there[k], "a program nobody asked for is found");
                        good(&p, k);
                    }
                    LookupDecision::Interpret(r) => {
                        chk(64, (r == InterpretReason::Disabled) == !on, "the reason to interpret is wrong");
                        chk(64, !on || !there[k], "a program that was there is gone");
                    }
                }
                if on {
                    // It becomes hot.
                    settle();
                    there[k] = true;
                }
                sym::cover("looked");
            }
        }
        if started {
            sent = 0;
        }
    }
    if started {
        settle();
        for k in 0..2 {
            let p = b.get_compiled(key(k).code_hash, key(k).spec_id);
            chk(64, p.is_some() || !there[k], "a program that was there is gone");
        }
    }
    drop(b);
    finish();
    sym::cover("end");
}

/// Programs that are used, left alone and dropped. Parameters: steps; keys; 1 time limit, 2 size
/// limit, 4 libraries too.
#[unsafe(no_mangle)]
extern "C" fn h_evict() {
    let (n, keys, opts) = (sym::param(0), sym::param(1) as usize, sym::param(2));
    let mut c = config();
    c.tuning.jit_hot_threshold = 1;
    let gh = g();
    gh.threshold = 1;
    gh.evicting = true;
    let idle = sym::u64("idle");
    let interval = sym::u64("interval");
    let budget = sym::u64("budget");
    sym::assume(idle < 1 << 16);
    sym::assume(interval < 1 << 16);
    sym::assume(budget > 0 && budget < 1 << 16);
    c.tuning.eviction_sweep_interval = Duration::from_secs(interval);
    if opts & 1 != 0 {
        c.tuning.idle_evict_duration = Some(Duration::from_secs(idle));
    }
    if opts & 2 != 0 {
        c.tuning.resident_code_cache_bytes = budget as usize;
    }
    if opts & 4 != 0 {
        c.store = Some(Arc::new(RuntimeArtifactStore::new().unwrap()));
    }
    start(c);
    let b = backend();
    sched::run();
    let size = world().size as u64;
    // When each was last known to be used, if it is there, and whether a use is still to be noted.
    let mut last = [0u64; NK];
    let mut there = [false; NK];
    let mut noted = [true; NK];
    let mut tick = sched::s().now;
    let mut evicted = 0u64;
    for _ in 0..n {
        let now = sched::s().now;
        let before = there;
        let mut fresh = NK;
        // The time of the last sweep at which nothing but the time counted.
        let prev = tick;
        match sym::choose(3, "step") {
            0 => {
                // Time passes; the backend looks around.
                let d = sym::u64("time");
                sym::assume(d < 1 << 16);
                sched::s().now = now + d;
                sched::s().ticks += 1;
                sched::run();
                tick = now + d;
            }
            1 => {
                let k = sym::choose(keys as u64, "key") as usize;
                if there[k] {
                    let LookupDecision::Compiled(p) = b.lookup(req(k)) else {
                        chk(16, false, "a program that was there is gone");
                        return;
                    };
                    good(&p, k);
                    noted[k] = false;
                }
                continue;
            }
            _ => {
                let k = sym::choose(keys as u64, "key") as usize;
                if there[k] {
                    continue;
                }
                if opts & 4 != 0 && k == 2 {
                    explicit(k, || {
                        b.prepare_aot(aot_req(k))
                    });
                    sched::run();
                } else {
                    explicit(k, || b.compile_jit_sync(req(k)).unwrap());
                    sched::run();
                }
                tick = now;
                fresh = k;
                there[k] = true;
                last[k] = now;
                noted[k] = true;
            }
        }
        let now = sched::s().now;
        for k in 0..keys {
            if there[k] && !noted[k] {
                last[k] = now;
                noted[k] = true;
            }
        }
        // What is there now?
        let mut is = [false; NK];
        for k in 0..keys {
            is[k] = b.get_compiled(key(k).code_hash, key(k).spec_id).is_some();
            chk(16, there[k] || !is[k], "a program comes back by itself");
        }
        let jit = |k: usize| !(opts & 4 != 0 && k == 2);
        let left = (0..keys).filter(|k| is[*k] && jit(*k)).count() as u64;
        let stale = |k: usize| opts & 1 != 0 && now - last[k] > idle;
        for k in 0..keys {
            if there[k] && !is[k] {
                evicted += 1;
                let mut why = stale(k);
                if !why && opts & 2 != 0 && jit(k) {
                    // The oldest go, and not more than have to.
                    why = true;
                    for o in 0..keys {
                        if o != k && is[o] && jit(o) {
                            chk(16, last[o] >= last[k], "a program is evicted before one used less lately");
                        }
                    }
                    chk(16, (left + 1) * size > budget, "a program is evicted although there is room");
                    sym::cover("evicted for room");
                }
                chk(16, why, "a program in use is evicted");
                if stale(k) {
                    sym::cover("evicted as idle");
                }
            }
            if is[k] && k != fresh && stale(k) {
                chk(16, !(now - prev >= interval && tick == now), "an idle program is kept");
            }
        }
        if opts & 2 != 0 && left > 0 {
            chk(16, left * size <= budget, "more is kept than there is room for");
        }
        there = is;
        let _ = before;
    }
    chk(32, b.stats().evictions == evicted, "evictions are counted wrong");
    drop(b);
    finish();
    sym::cover("end");
}

/// Libraries outlive the backend. Parameters: calls; 1 libraries only on request.
#[unsafe(no_mangle)]
extern "C" fn h_persist() {
    let (n, opts) = (sym::param(0), sym::param(1));
    let store: Arc<RuntimeArtifactStore> = Arc::new(RuntimeArtifactStore::new().unwrap());
    let mut c = config();
    c.tuning.jit_hot_threshold = 1;
    c.aot = opts & 1 == 0;
    c.store = Some(store.clone());
    c.tuning.jit_opt_level = crate::OptimizationLevel::None;
    g().threshold = 1;
    let mut stored = [false; NK];
    let mut there = [false; NK];
    let mut jobs = 0;
    start(c.clone());
    let aot = |b: &JitBackend, k: usize| {
        explicit(k, || {
            if opts & 1 == 0 && sym::choose(2, "kind") == 0 {
                b.compile_jit_sync(req(k)).unwrap();
            } else {
                b.prepare_aot(aot_req(k));
            }
        });
    };
    for _ in 0..n {
        let b = backend();
        match sym::choose(5, "call") {
            0 => {
                let k = sym::choose(3, "key") as usize;
                aot(&b, k);
                sched::run();
                jobs += !(stored[k] || there[k]) as u32;
                (stored[k], there[k]) = (stored[k] || !there[k], true);
            }
            1 => {
                clear(|| b.clear_resident());
                sched::run();
                there = [false; NK];
            }
            2 => {
                clear(|| b.clear_persisted());
                sched::run();
                stored = [false; NK];
            }
            3 => {
                clear(|| b.clear_all());
                sched::run();
                (stored, there) = ([false; NK], [false; NK]);
            }
            _ => {
                // Another backend on the same store.
                drop(b);
                finish();
                start(c.clone());
                there = stored;
                sym::cover("restarted");
            }
        }
        let b = backend();
        chk(128, world().jobs_sent == jobs, "code is compiled again although it is stored, or not at all");
        chk(128, store.len() == stored.iter().filter(|x| **x).count(), "what is stored is wrong");
        for k in 0..NK {
            let p = b.get_compiled(key(k).code_hash, key(k).spec_id);
            chk(128, p.is_some() == there[k], "what was stored is not there, or what was cleared is");
            if let Some(p) = p {
                good(&p, k);
                sym::cover("stored program");
            }
        }
        drop(b);
    }
    finish();
    sym::cover("end");
}
