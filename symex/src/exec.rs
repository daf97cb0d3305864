//! The symbolic executor.

use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::z3::{Sat, Z3};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(Ex),
    A(Rc<Vec<Val>>),
}

const FBASE: u64 = 0x1000_0000;
const GBASE: u64 = 0x2000_0000;
const HBASE: u64 = 0x4000_0000;
const STOP: u64 = 0xe000_0000;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Body,
    Unknown,
    // Harness interface.
    SymBytes,
    Param,
    Assume,
    Check,
    Cut,
    Cover,
    Concretize,
    Print,
    CoNew,
    Random,
    ILifetime,
    CoSwitch,
    // Library.
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Strlen,
    Zero,
    ZeroOut2,
    Panic,
    Exit,
    Hash,
    Keccak,
    Div,
    Pow,
    Mul,
    Add,
    Sub,
    Neg,
    AddMod,
    MulMod,
    ReduceMod,
    Entry,
    ExitTramp,
    // Intrinsics.
    INop,
    IFirst,
    IBswap,
    IFsh(bool),
    IMinMax(B2),
    ISat(B2),
    ICtz(bool),
    ICtpop,
    IBitrev,
    ICmp3(bool),
    IOvf(B2),
    IAbs,
    ITrap,
    IReduce(B2),
    IExpect,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum B2 {
    UMax,
    UMin,
    SMax,
    SMin,
    UAdd,
    USub,
    SAdd,
    SSub,
    UMul,
    SMul,
    Or,
    And,
    Add,
    Xor,
}

pub struct MB {
    pub model: Model,
    memo: RefCell<FxMap<Ex, Big>>,
}

#[derive(Clone)]
struct Frame {
    f: u32,
    pc: u32,
    blk: u32,
    base: usize,
    dst: Option<u32>,
    normal: Option<u32>,
    sp: u64,
    token: u64,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    mem: Mem,
    pc: Vec<Ex>,
    known: Vec<Ex>,
    vals: Vec<(Ex, u64)>,
    model: Option<Rc<MB>>,
    heap: u64,
    sp: u64,
    inputs: Vec<Ex>,
    steps: u64,
    depth: u32,
    covers: Vec<u32>,
    tokens: u64,
    /// Threads of the harness that are not running, and the number of the one that is.
    cos: Vec<Co>,
    co: usize,
}

#[derive(Clone, Default)]
struct Co {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    sp: u64,
}

#[derive(Debug)]
enum Stop {
    Done,
    Infeasible,
    Cut(String),
    Violation(String, String),
    Error(String),
}

type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Report {
    pub paths: u64,
    pub cuts: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub violations: Vec<(String, String, String)>,
    pub covers: BTreeMap<String, u64>,
    /// Inputs that take some of the completed paths, and what they reach.
    pub samples: Vec<(String, Vec<String>)>,
    pub checks: BTreeMap<String, (u64, u64)>,
    pub steps: u64,
    pub forks: u64,
    pub left: u64,
    /// Paths that came to a state which another path had come to.
    pub merged: u64,
    pub states: u64,
    pub max_pc: usize,
    pub timeout: bool,
    pub wall: f64,
}

pub struct Exec {
    pub m: Rc<Module>,
    kinds: Vec<Kind>,
    consts: Vec<Val>,
    pub ar: Arena,
    pub z3: Z3,
    base: State,
    work: Vec<State>,
    params: Vec<u64>,
    pub rep: Report,
    pub used: BTreeSet<u32>,
    usedv: Vec<bool>,
    cover_ids: HashMap<String, u32>,
    invars: HashMap<(u32, u32, String), Ex>,
    varsets: FxMap<Ex, Rc<Vec<u32>>>,
    visited: HashSet<(u64, u64)>,
    lives: FxMap<(u32, u32, u32), Rc<Vec<u32>>>,
    live_in: FxMap<u32, Rc<Vec<Vec<u64>>>>,
    exit_result_off: u64,
    exit_sp_off: u64,
    pub max_steps: u64,
    pub max_values: usize,
    pub max_violations: usize,
    pub max_samples: usize,
    pub verbose: bool,
    prof: Vec<u64>,
    pub profile: bool,
}

fn mask(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

/// Replaces constant operands that need the memory layout by indexes of a table.
fn operands(i: &mut I, f: &mut dyn FnMut(&mut O)) {
    match i {
        I::Bin(_, _, _, a, b) | I::ICmp(_, _, _, a, b) => {
            f(a);
            f(b)
        }
        I::Cast(_, _, _, _, a) | I::Load(_, _, a) => f(a),
        I::Select(_, _, _, a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        I::Store(_, a, b) => {
            f(a);
            f(b)
        }
        I::Gep(_, a, _, x) => {
            f(a);
            for (o, _, _) in x.iter_mut() {
                f(o)
            }
        }
        I::Call(_, _, c, args, _) => {
            if let Callee::Ptr(o) = c {
                f(o)
            }
            for (_, o) in args.iter_mut() {
                f(o)
            }
        }
        I::CondBr(a, _, _) => f(a),
        I::Switch(_, a, _, _) => f(a),
        I::Ret(Some(a)) => f(a),
        I::ExtractValue(_, a, _) => f(a),
        I::InsertValue(_, _, a, b, _) => {
            f(a);
            f(b)
        }
        I::ExtractElement(_, a, b) => {
            f(a);
            f(b)
        }
        I::InsertElement(_, _, a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        I::Shuffle(_, _, a, b, _) => {
            f(a);
            f(b)
        }
        I::AtomicRmw(_, _, _, a, b) => {
            f(a);
            f(b)
        }
        I::CmpXchg(_, _, a, b, c) => {
            f(a);
            f(b);
            f(c)
        }
        _ => {}
    }
}

fn kind(f: &Func) -> Kind {
    let n = &f.name[..];
    match n {
        "vh_sym_bytes" => return Kind::SymBytes,
        "vh_param" => return Kind::Param,
        "vh_assume" => return Kind::Assume,
        "vh_check" => return Kind::Check,
        "vh_cut" => return Kind::Cut,
        "vh_cover" => return Kind::Cover,
        "vh_concretize" => return Kind::Concretize,
        "vh_print" => return Kind::Print,
        "vh_co_new" => return Kind::CoNew,
        "vh_co_switch" => return Kind::CoSwitch,
        "malloc" => return Kind::Malloc,
        "calloc" => return Kind::Calloc,
        "realloc" => return Kind::Realloc,
        "free" => return Kind::Free,
        "posix_memalign" => return Kind::Memalign,
        "memcpy" | "memmove" => return Kind::Memcpy,
        "memset" => return Kind::Memset,
        "bcmp" => return Kind::Bcmp,
        "memcmp" => return Kind::Memcmp,
        "strlen" => return Kind::Strlen,
        "getrandom" => return Kind::Random,
        "clock_gettime" => return Kind::ZeroOut2,
        "getenv" | "isatty" | "pthread_self" | "getauxval" | "gettid" | "syscall" | "pthread_key_create"
        | "pthread_setspecific" | "sysconf" => return Kind::Zero,
        "abort" => return Kind::Panic,
        "exit" | "_exit" => return Kind::Exit,
        _ => {}
    }
    if n.contains("10revmc_exit") {
        return Kind::ExitTramp;
    }
    if n.contains("11revmc_entry") {
        return Kind::Entry;
    }
    if n.contains("9panicking") && !f.defined {
        return Kind::Panic;
    }
    if n.contains("BuildHasher8hash_one") {
        return Kind::Hash;
    }
    if n.contains("14keccak256_impl") {
        return Kind::Keccak;
    }
    if n.contains("3div11div_inlined") {
        return Kind::Div;
    }
    if n.contains("12wrapping_pow") {
        return Kind::Pow;
    }
    if !f.defined {
        for (s, k) in [
            ("_E12wrapping_mul", Kind::Mul),
            ("_E12wrapping_add", Kind::Add),
            ("_E12wrapping_sub", Kind::Sub),
            ("_E12wrapping_neg", Kind::Neg),
        ] {
            if n.contains(s) {
                return k;
            }
        }
    }
    if n.contains("_E7add_mod") {
        return Kind::AddMod;
    }
    if n.contains("_E7mul_mod") {
        return Kind::MulMod;
    }
    if n.contains("_E10reduce_mod") {
        return Kind::ReduceMod;
    }
    if f.defined {
        return Kind::Body;
    }
    let Some(i) = n.strip_prefix("llvm.") else { return Kind::Unknown };
    let st = |p: &str| i.starts_with(p);
    if st("lifetime") {
        return Kind::ILifetime;
    }
    if st("assume") || st("experimental.noalias") || st("dbg") || st("prefetch") || st("invariant") || st("donothing") || st("pseudoprobe") {
        return Kind::INop;
    }
    if st("threadlocal.address") || st("ptrmask") || st("launder") || st("strip.inv") || st("ssa.copy") {
        return Kind::IFirst;
    }
    if st("expect") || st("is.constant") {
        return Kind::IExpect;
    }
    if st("memcpy") || st("memmove") {
        return Kind::Memcpy;
    }
    if st("memset") {
        return Kind::Memset;
    }
    if st("trap") || st("debugtrap") || st("ubsantrap") {
        return Kind::ITrap;
    }
    if st("bswap") {
        return Kind::IBswap;
    }
    if st("fshl") {
        return Kind::IFsh(true);
    }
    if st("fshr") {
        return Kind::IFsh(false);
    }
    for (p, k) in [
        ("umax.", B2::UMax),
        ("umin.", B2::UMin),
        ("smax.", B2::SMax),
        ("smin.", B2::SMin),
    ] {
        if st(p) {
            return Kind::IMinMax(k);
        }
    }
    for (p, k) in [
        ("uadd.sat", B2::UAdd),
        ("usub.sat", B2::USub),
        ("sadd.sat", B2::SAdd),
        ("ssub.sat", B2::SSub),
    ] {
        if st(p) {
            return Kind::ISat(k);
        }
    }
    for (p, k) in [
        ("uadd.with", B2::UAdd),
        ("usub.with", B2::USub),
        ("sadd.with", B2::SAdd),
        ("ssub.with", B2::SSub),
        ("umul.with", B2::UMul),
        ("smul.with", B2::SMul),
    ] {
        if st(p) {
            return Kind::IOvf(k);
        }
    }
    for (p, k) in [
        ("vector.reduce.or", B2::Or),
        ("vector.reduce.and", B2::And),
        ("vector.reduce.add", B2::Add),
        ("vector.reduce.xor", B2::Xor),
        ("vector.reduce.umax", B2::UMax),
        ("vector.reduce.umin", B2::UMin),
    ] {
        if st(p) {
            return Kind::IReduce(k);
        }
    }
    if st("ctlz") {
        return Kind::ICtz(false);
    }
    if st("cttz") {
        return Kind::ICtz(true);
    }
    if st("ctpop") {
        return Kind::ICtpop;
    }
    if st("bitreverse") {
        return Kind::IBitrev;
    }
    if st("ucmp") {
        return Kind::ICmp3(false);
    }
    if st("scmp") {
        return Kind::ICmp3(true);
    }
    if st("abs.") {
        return Kind::IAbs;
    }
    Kind::Unknown
}

pub fn demangle(n: &str) -> String {
    // Rust v0: keep the identifiers only.
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = Vec::new();
    while i < b.len() {
        if b[i] == b's' || b[i] == b'C' {
            // disambiguator: s<base62>_
            if b[i] == b's' {
                while i < b.len() && b[i] != b'_' {
                    i += 1;
                }
            }
            i += 1;
            continue;
        }
        if b[i] == b'B' {
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
            i += 1;
            continue;
        }
        if b[i].is_ascii_digit() {
            let mut k = 0usize;
            let st = i;
            while i < b.len() && b[i].is_ascii_digit() && (i == st || b[st] != b'0') {
                k = k * 10 + (b[i] - b'0') as usize;
                i += 1;
            }
            if k == 0 {
                continue;
            }
            if i < b.len() && b[i] == b'_' {
                i += 1;
            }
            if i + k > b.len() {
                break;
            }
            out.push(n[i..i + k].to_string());
            i += k;
            continue;
        }
        if b[i] == b'K' {
            // const generic
            i += 2;
            while i < b.len() && b[i] != b'_' {
                i += 1;
            }
        }
        i += 1;
    }
    if out.is_empty() {
        n.to_string()
    } else {
        out.join("::")
    }
}

impl Exec {
    pub fn new(mut m: Module, timeout_ms: u32) -> Self {
        let mut ar = Arena::default();
        // Term 0 is reserved.
        ar.c(7, 0);
        let kinds: Vec<Kind> = m.funcs.iter().map(kind).collect();
        let mut mem = Mem::new();
        // Layout.
        let mut addrs: HashMap<String, u64> = HashMap::new();
        for (i, f) in m.funcs.iter().enumerate() {
            addrs.insert(f.name.clone(), FBASE + 16 * i as u64);
        }
        let mut a = GBASE;
        for g in &m.globals {
            let al = g.align.max(16);
            a = a.div_ceil(al) * al;
            addrs.insert(g.name.clone(), a);
            a += g.ty.size().max(1) + 32;
        }
        assert!(a < HBASE);
        for _ in 0..3 {
            for (n, k) in &m.aliases {
                if let K::Global(t) = k {
                    if let Some(x) = addrs.get(t).copied() {
                        addrs.insert(n.clone(), x);
                    }
                }
            }
        }
        // Aliases of functions resolve direct calls.
        let al: Vec<(String, u32)> = m
            .aliases
            .iter()
            .filter_map(|(n, k)| match k {
                K::Global(t) => m.fidx.get(t).map(|i| (n.clone(), *i)),
                _ => None,
            })
            .collect();
        for (n, i) in al {
            m.fidx.insert(n, i);
        }
        fn kval(addrs: &HashMap<String, u64>, t: &Ty, k: &K, ar: &mut Arena) -> Val {
            match (t, k) {
                (Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..), _) => {
                    let n = t.nfields();
                    let v = match k {
                        K::Zero | K::Undef => (0..n).map(|i| kval(addrs, &t.field(i), &K::Zero, ar)).collect(),
                        K::Agg(l) => l.iter().map(|(t, k)| kval(addrs, t, k, ar)).collect(),
                        K::Str(s) => s.iter().map(|b| Val::C(*b as u64)).collect(),
                        K::Splat(s) => {
                            let v = kval(addrs, &s.0, &s.1, ar);
                            vec![v; n]
                        }
                        _ => panic!("aggregate constant {k:?}"),
                    };
                    Val::A(Rc::new(v))
                }
                (Ty::Meta, _) => Val::C(0),
                (_, K::Zero | K::Undef) => {
                    if t.bits() <= 64 {
                        Val::C(0)
                    } else {
                        Val::E(ar.c(t.bits(), 0))
                    }
                }
                (_, K::Int(v)) => {
                    if t.bits() <= 64 {
                        Val::C(v[0])
                    } else {
                        Val::E(ar.big(t.bits(), v.clone()))
                    }
                }
                (_, K::Global(g)) => Val::C(*addrs.get(g).unwrap_or_else(|| panic!("global {g}"))),
                (_, K::Cast(k)) => {
                    let v = kval(addrs, &Ty::Int(64), k, ar);
                    match v {
                        Val::C(c) => Val::C(mask(c, t.bits())),
                        v => v,
                    }
                }
                (_, K::Bin(op, a, b)) => {
                    let (Val::C(x), Val::C(y)) = (kval(addrs, t, a, ar), kval(addrs, t, b, ar)) else { panic!() };
                    let r = match *op {
                        "add" => x.wrapping_add(y),
                        "sub" => x.wrapping_sub(y),
                        _ => x ^ y,
                    };
                    Val::C(mask(r, t.bits()))
                }
                (_, K::Gep(et, base, idx)) => {
                    let Val::C(mut p) = kval(addrs, &Ty::Ptr, base, ar) else { panic!() };
                    let mut cur = et.clone();
                    for (j, (it, k)) in idx.iter().enumerate() {
                        let Val::C(c) = kval(addrs, it, k, ar) else { panic!() };
                        let s = sx(c, it.bits());
                        if j == 0 {
                            p = p.wrapping_add((s.wrapping_mul(et.size() as i64)) as u64);
                        } else if let Ty::Struct(..) = cur {
                            p = p.wrapping_add(cur.field_off(c as usize));
                            cur = cur.field(c as usize);
                        } else {
                            cur = cur.field(0);
                            p = p.wrapping_add((s.wrapping_mul(cur.size() as i64)) as u64);
                        }
                    }
                    Val::C(p)
                }
                _ => panic!("constant {k:?} of {t:?}"),
            }
        }
        fn kstore(mem: &mut Mem, ar: &Arena, a: u64, t: &Ty, v: &Val) {
            match v {
                Val::A(l) => {
                    for (i, x) in l.iter().enumerate() {
                        kstore(mem, ar, a + t.field_off(i), &t.field(i), x);
                    }
                }
                Val::C(c) => mem.store_c(a, t.access(), *c).unwrap(),
                Val::E(e) => mem.store_e(ar, a, t.access(), *e).unwrap(),
            }
        }
        for g in &m.globals {
            let a = addrs[&g.name];
            let n = g.ty.size();
            if n > 0 {
                mem.mark(a, n, true);
            }
            match &g.init {
                None | Some(K::Zero) | Some(K::Undef) => {}
                Some(K::Str(s)) => {
                    for (i, b) in s.iter().enumerate() {
                        mem.set_byte(a + i as u64, Byte::C(*b));
                    }
                }
                Some(k) => {
                    if n > 0 {
                        let v = kval(&addrs, &g.ty, k, &mut ar);
                        kstore(&mut mem, &ar, a, &g.ty, &v);
                    }
                }
            }
        }
        let mut consts: Vec<Val> = Vec::new();
        for f in m.funcs.iter_mut() {
            let mut conv = |o: &mut O| {
                if let O::K(k) = o {
                    let v = kval(&addrs, &k.0, &k.1, &mut ar);
                    if let Val::C(c) = v {
                        *o = O::C(c);
                    } else {
                        consts.push(v);
                        *o = O::V(consts.len() as u32 - 1);
                    }
                }
            };
            for i in f.code.iter_mut() {
                operands(i, &mut conv);
            }
            for b in f.blocks.iter_mut() {
                for (_, mv) in b.phis.iter_mut() {
                    for (_, o) in mv.iter_mut() {
                        conv(o);
                    }
                }
            }
        }
        // Calls through aliases.
        let fidx = m.fidx.clone();
        for f in m.funcs.iter_mut() {
            for i in f.code.iter_mut() {
                if let I::Call(_, _, Callee::Fn(n, id), _, _) = i {
                    if *id == u32::MAX {
                        if let Some(x) = fidx.get(n) {
                            *id = *x;
                        }
                    }
                }
            }
        }
        // Offsets used by the exit trampoline.
        let off = |pre: &str| -> u64 {
            m.asm
                .lines()
                .find_map(|l| {
                    let l = l.trim();
                    let r = l.strip_prefix(pre)?;
                    let d: String = r.chars().take_while(|c| c.is_ascii_digit()).collect();
                    d.parse().ok()
                })
                .unwrap_or(u64::MAX)
        };
        let exit_result_off = off("movzx eax, byte ptr [rdi + ");
        let exit_sp_off = off("mov rsp, [rdi + ");
        let nf = m.funcs.len();
        Exec {
            m: Rc::new(m),
            kinds,
            consts,
            ar,
            z3: Z3::new(timeout_ms),
            base: State {
                frames: Vec::new(),
                regs: Vec::new(),
                mem,
                pc: Vec::new(),
                known: Vec::new(),
                vals: Vec::new(),
                model: None,
                heap: HBASE,
                sp: STOP,
                inputs: Vec::new(),
                steps: 0,
                depth: 0,
                covers: Vec::new(),
                tokens: 1,
                cos: Vec::new(),
                co: 0,
            },
            work: Vec::new(),
            params: Vec::new(),
            rep: Report::default(),
            used: BTreeSet::new(),
            usedv: vec![false; nf],
            cover_ids: HashMap::new(),
            invars: HashMap::new(),
            varsets: FxMap::default(),
            visited: HashSet::new(),
            lives: FxMap::default(),
            live_in: FxMap::default(),
            exit_result_off,
            exit_sp_off,
            max_steps: 30_000_000,
            max_values: 300,
            max_violations: 5,
            max_samples: 12,
            verbose: std::env::var("SYMEX_V").is_ok(),
            prof: vec![0; nf],
            profile: std::env::var("SYMEX_PROF").is_ok(),
        }
    }

    /// Explores all paths of `entry`.
    pub fn run(&mut self, entry: &str, params: &[u64], limit: Duration) {
        let t0 = Instant::now();
        self.params = params.to_vec();
        self.rep = Report::default();
        let fid = self.m.fidx[entry];
        let mut st = self.base.clone();
        st.model = Some(Rc::new(MB { model: Model::default(), memo: RefCell::default() }));
        self.enter(&mut st, fid, &[], None, None).unwrap();
        self.work.push(st);
        while let Some(mut st) = self.work.pop() {
            if t0.elapsed() > limit {
                self.rep.timeout = true;
                self.rep.left = self.work.len() as u64 + 1;
                self.work.clear();
                break;
            }
            let s0 = st.steps;
            let stop = loop {
                match self.step(&mut st) {
                    Ok(()) => {
                        if st.steps & 0xffff == 0 && t0.elapsed() > limit {
                            self.rep.timeout = true;
                            break Stop::Cut("time limit".into());
                        }
                        if st.steps > self.max_steps {
                            break Stop::Cut("instruction bound".into());
                        }
                    }
                    Err(s) => break s,
                }
            };
            self.rep.steps += st.steps - s0;
            self.rep.max_pc = self.rep.max_pc.max(st.pc.len());
            if self.verbose {
                let ch: Vec<String> = st.frames.iter().rev().take(3).map(|f| demangle(&self.m.funcs[f.f as usize].name)).collect();
                eprintln!("path end: {stop:?} steps {} pc {} at {ch:?}", st.steps, st.pc.len());
            }
            match stop {
                Stop::Done => {
                    self.rep.paths += 1;
                    // Spread over the paths: the 1st, 2nd, 4th, 8th ...
                    if self.rep.paths.is_power_of_two() && self.rep.samples.len() < self.max_samples {
                        if let Some(m) = st.model.clone() {
                            let mut memo = FxMap::default();
                            let hex = st
                                .inputs
                                .iter()
                                .map(|e| format!("{:02x}", self.ar.eval(*e, &m.model, &mut memo)[0]))
                                .collect();
                            let cv = self
                                .cover_ids
                                .iter()
                                .filter(|(_, v)| st.covers.contains(v))
                                .map(|(k, _)| k.clone())
                                .collect();
                            self.rep.samples.push((hex, cv));
                        }
                    }
                }
                Stop::Infeasible => {}
                Stop::Cut(s) => *self.rep.cuts.entry(s).or_default() += 1,
                Stop::Error(s) => {
                    let wh: Vec<String> = st
                        .frames
                        .iter()
                        .rev()
                        .take(3)
                        .map(|f| demangle(&self.m.funcs[f.f as usize].name))
                        .collect();
                    *self.rep.errors.entry(format!("{s} in {}", wh.join(" < "))).or_default() += 1
                }
                Stop::Violation(kind, msg) => {
                    match self.consistent_model(&st.pc) {
                        (Sat::Sat, Some(m)) => {
                            let mut memo = FxMap::default();
                            let hex: String = st
                                .inputs
                                .iter()
                                .map(|e| format!("{:02x}", self.ar.eval(*e, &m, &mut memo)[0]))
                                .collect();
                            let wh: Vec<String> = st
                                .frames
                                .iter()
                                .rev()
                                .take(4)
                                .map(|f| demangle(&self.m.funcs[f.f as usize].name))
                                .collect();
                            let v = (kind, format!("{msg} [{}]", wh.join(" < ")), hex);
                            self.rep.violations.push(v);
                            if self.rep.violations.len() >= self.max_violations {
                                self.rep.left = self.work.len() as u64;
                                self.work.clear();
                                break;
                            }
                        }
                        (Sat::Unsat, _) => {}
                        _ => *self.rep.errors.entry("violation undecided".into()).or_default() += 1,
                    }
                }
            }
            for c in &st.covers {
                let name = self.cover_ids.iter().find(|(_, v)| *v == c).unwrap().0.clone();
                *self.rep.covers.entry(name).or_default() += 1;
            }
        }
        for (i, u) in self.usedv.iter().enumerate() {
            if *u {
                self.used.insert(i as u32);
            }
        }
        if self.profile {
            let mut v: Vec<(u64, usize)> = self.prof.iter().copied().zip(0..).filter(|x| x.0 > 0).collect();
            v.sort();
            for (n, i) in v.iter().rev().take(40) {
                eprintln!("{n:>12} {}", demangle(&self.m.funcs[*i].name));
            }
        }
        self.rep.wall = t0.elapsed().as_secs_f64();
    }

    // ----- values
    #[inline]
    fn get(&self, st: &State, base: usize, o: &O) -> Val {
        match o {
            O::Reg(r) => st.regs[base + *r as usize].clone(),
            O::C(c) => Val::C(*c),
            O::V(i) => self.consts[*i as usize].clone(),
            O::K(_) => unreachable!(),
        }
    }
    fn ex(&mut self, v: &Val, w: u32) -> Ex {
        match v {
            Val::C(c) => self.ar.c(w, *c),
            Val::E(e) => {
                debug_assert_eq!(self.ar.w(*e), w);
                *e
            }
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn mk(&self, e: Ex) -> Val {
        let n = self.ar.node(e);
        if n.op == Op::Const && n.w <= 64 {
            Val::C(n.k)
        } else {
            Val::E(e)
        }
    }
    fn agg<'a>(&self, v: &'a Val) -> &'a Rc<Vec<Val>> {
        match v {
            Val::A(l) => l,
            _ => panic!("not an aggregate"),
        }
    }
    fn zero(&mut self, t: &Ty) -> Val {
        if t.is_agg() {
            let v = (0..t.nfields()).map(|i| self.zero(&t.field(i))).collect();
            Val::A(Rc::new(v))
        } else if *t == Ty::Void || t.bits() <= 64 {
            Val::C(0)
        } else {
            Val::E(self.ar.c(t.bits(), 0))
        }
    }

    fn bin(&mut self, op: B, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::UDiv => x.checked_div(y).unwrap_or(0),
                B::URem => x.checked_rem(y).unwrap_or(0),
                B::SDiv => {
                    let (p, q) = (sx(x, w), sx(y, w));
                    p.checked_div(q).unwrap_or(0) as u64
                }
                B::SRem => {
                    let (p, q) = (sx(x, w), sx(y, w));
                    p.checked_rem(q).unwrap_or(0) as u64
                }
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sx(x, w) >> y.min(63)) as u64,
            };
            return Val::C(mask(r, w));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let v = x.clone().iter().zip(y.clone().iter()).map(|(p, q)| self.bin(op, w, p, q)).collect();
            return Val::A(Rc::new(v));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let o = match op {
            B::Add => Op::Add,
            B::Sub => Op::Sub,
            B::Mul => Op::Mul,
            B::UDiv => Op::UDiv,
            B::SDiv => Op::SDiv,
            B::URem => Op::URem,
            B::SRem => Op::SRem,
            B::And => Op::And,
            B::Or => Op::Or,
            B::Xor => Op::Xor,
            B::Shl => Op::Shl,
            B::LShr => Op::LShr,
            B::AShr => Op::AShr,
        };
        let e = self.ar.bin(o, x, y);
        self.mk(e)
    }

    fn icmp(&mut self, p: P, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx(x, w), sx(y, w));
            let r = match p {
                P::Eq => x == y,
                P::Ne => x != y,
                P::Ult => x < y,
                P::Ule => x <= y,
                P::Ugt => x > y,
                P::Uge => x >= y,
                P::Slt => s < t,
                P::Sle => s <= t,
                P::Sgt => s > t,
                P::Sge => s >= t,
            };
            return Val::C(r as u64);
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let v = x.clone().iter().zip(y.clone().iter()).map(|(c, d)| self.icmp(p, w, c, d)).collect();
            return Val::A(Rc::new(v));
        }
        let x = self.ex(a, w);
        let y = self.ex(b, w);
        let (e, neg) = match p {
            P::Eq => (self.ar.eq(x, y), false),
            P::Ne => (self.ar.eq(x, y), true),
            P::Ult => (self.ar.ult(x, y), false),
            P::Uge => (self.ar.ult(x, y), true),
            P::Ugt => (self.ar.ult(y, x), false),
            P::Ule => (self.ar.ult(y, x), true),
            P::Slt => (self.ar.slt(x, y), false),
            P::Sge => (self.ar.slt(x, y), true),
            P::Sgt => (self.ar.slt(y, x), false),
            P::Sle => (self.ar.slt(y, x), true),
        };
        let e = if neg { self.ar.not(e) } else { e };
        self.mk(e)
    }

    fn select(&mut self, t: &Ty, c: Ex, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let (x, y) = (x.clone(), y.clone());
                let v = (0..x.len()).map(|i| self.select(&t.field(i), c, &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            (Val::C(x), Val::C(y)) if x == y => Val::C(*x),
            _ => {
                let w = t.bits();
                let x = self.ex(a, w);
                let y = self.ex(b, w);
                let e = self.ar.ite(c, x, y);
                self.mk(e)
            }
        }
    }

    // ----- solver
    /// A model of the path condition in which the uninterpreted functions have their real values.
    fn consistent_model(&mut self, pc: &[Ex]) -> (Sat, Option<Model>) {
        let one = self.ar.c(1, 1);
        let ufs = self.ar.ufs_in(pc);
        // Facts found necessary, for this question only.
        let mut pc = pc.to_vec();
        let mut told = std::collections::HashSet::new();
        for _ in 0..64 {
            let (r, m) = self.z3.check(&mut self.ar, &pc, one);
            let (Sat::Sat, Some(m)) = (r, m) else { return (r, None) };
            let mut memo = FxMap::default();
            let mut fine = true;
            for (f, args, v) in &ufs {
                let xs: Vec<Big> = args.iter().map(|a| self.ar.eval(*a, &m, &mut memo)).collect();
                let got = self.ar.eval(*v, &m, &mut memo);
                let cs: Vec<Ex> =
                    args.iter().zip(&xs).map(|(a, x)| self.ar.big(self.ar.w(*a), x.clone())).collect();
                let real = if *f == 1 {
                    let n = self.ar.w(args[0]) as usize / 8;
                    let b: Vec<u8> =
                        (0..n).rev().map(|i| (xs[0][i / 8] >> (8 * (i % 8))) as u8).collect();
                    let h = crate::keccak::keccak256(&b);
                    let mut r = vec![0u64; 4];
                    for (i, x) in h.iter().rev().enumerate() {
                        r[i / 8] |= (*x as u64) << (8 * (i % 8));
                    }
                    self.ar.big(256, r)
                } else {
                    self.pow(cs[0], cs[1])
                };
                if self.ar.const_big(real).unwrap() == got {
                    continue;
                }
                fine = false;
                if *f == 2 && told.insert(*v) {
                    let facts = self.pow_facts(args[0], args[1], *v);
                    pc.extend(facts);
                    continue;
                }
                let mut c = self.ar.c(1, 1);
                for (a, k) in args.iter().zip(&cs) {
                    let e = self.ar.eq(*a, *k);
                    c = self.ar.and(c, e);
                }
                let nc = self.ar.not(c);
                let e = self.ar.eq(*v, real);
                let ax = self.ar.or(nc, e);
                pc.push(ax);
            }
            if fine {
                return (Sat::Sat, Some(m));
            }
        }
        (Sat::Unknown, None)
    }
    fn eval_model(&self, st: &State, e: Ex) -> Option<Big> {
        let m = st.model.as_ref()?;
        let mut memo = m.memo.borrow_mut();
        Some(self.ar.eval(e, &m.model, &mut memo))
    }
    fn wrap(m: Model) -> Option<Rc<MB>> {
        Some(Rc::new(MB { model: m, memo: RefCell::default() }))
    }
    /// Value the path condition fixes for `e`, if syntactically evident.
    fn fixed(&self, st: &State, e: Ex) -> Option<u64> {
        if let Some(x) = st.vals.iter().rev().find(|x| x.0 == e) {
            return Some(x.1);
        }
        for c in st.pc.iter().rev() {
            let n = self.ar.node(*c);
            if n.op == Op::Eq {
                if n.a == e {
                    if let Some(k) = self.ar.const_u64(n.b) {
                        return Some(k);
                    }
                }
                if n.b == e {
                    if let Some(k) = self.ar.const_u64(n.a) {
                        return Some(k);
                    }
                }
            }
        }
        None
    }
    /// The variables of a condition.
    fn vars_of(&mut self, e: Ex) -> Rc<Vec<u32>> {
        if let Some(v) = self.varsets.get(&e) {
            return v.clone();
        }
        let mut seen = FxMap::default();
        let mut todo = vec![e];
        let mut out = Vec::new();
        while let Some(e) = todo.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = *self.ar.node(e);
            match n.op {
                Op::Const => {}
                Op::Var => out.push(n.k as u32),
                Op::Extract | Op::ZExt | Op::SExt => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => todo.extend([n.a, n.b]),
            }
        }
        out.sort_unstable();
        let r = Rc::new(out);
        self.varsets.insert(e, r.clone());
        r
    }
    /// Is `c` satisfiable on the path? Where few of the path's conditions share variables with it,
    /// these alone decide: the path's model satisfies the others.
    fn ask(&mut self, st: &State, c: Ex) -> (Sat, Option<Model>) {
        let Some(base) = &st.model else { return self.z3.check(&mut self.ar, &st.pc, c) };
        if st.pc.len() < 6 || !self.ar.axioms.is_empty() || !self.ar.ufs.is_empty() {
            return self.z3.check(&mut self.ar, &st.pc, c);
        }
        let mut vars: FxMap<u32, ()> = self.vars_of(c).iter().map(|v| (*v, ())).collect();
        let mut inside = vec![false; st.pc.len()];
        let mut n = 0;
        loop {
            let before = n;
            for (i, e) in st.pc.iter().enumerate() {
                if !inside[i] {
                    let vs = self.vars_of(*e);
                    if vs.iter().any(|v| vars.contains_key(v)) {
                        inside[i] = true;
                        n += 1;
                        vars.extend(vs.iter().map(|v| (*v, ())));
                    }
                }
            }
            if n > 8 || 3 * n > st.pc.len() {
                return self.z3.check(&mut self.ar, &st.pc, c);
            }
            if n == before {
                break;
            }
        }
        let pc: Vec<Ex> = st.pc.iter().zip(&inside).filter(|x| *x.1).map(|x| *x.0).collect();
        match self.z3.check_small(&mut self.ar, &pc, c) {
            (Sat::Sat, Some(m)) => {
                let mut all = base.model.clone();
                for v in vars.keys() {
                    match m.get(v) {
                        Some(x) => all.insert(*v, x.clone()),
                        None => all.remove(v),
                    };
                }
                (Sat::Sat, Some(all))
            }
            r => r,
        }
    }
    /// Decides a condition; returns whether the true and the false side are feasible, with models.
    fn decide(&mut self, st: &mut State, c: Ex) -> (Option<Option<Rc<MB>>>, Option<Option<Rc<MB>>>) {
        if let Some(k) = self.ar.const_u64(c) {
            let m = st.model.clone();
            return if k != 0 { (Some(m), None) } else { (None, Some(m)) };
        }
        let nc = self.ar.not(c);
        if st.pc.contains(&c) || st.known.contains(&c) {
            return (Some(st.model.clone()), None);
        }
        if st.pc.contains(&nc) || st.known.contains(&nc) {
            return (None, Some(st.model.clone()));
        }
        let v = self.eval_model(st, c).map(|b| b[0] != 0);
        let mut t = None;
        let mut f = None;
        match v {
            Some(true) => t = Some(st.model.clone()),
            Some(false) => f = Some(st.model.clone()),
            None => {}
        }
        if t.is_none() {
            match self.ask(st, c) {
                (Sat::Sat, Some(m)) => t = Some(Self::wrap(m)),
                (Sat::Unsat, _) => {
                    st.known.push(nc);
                }
                _ => t = Some(None),
            }
        }
        if f.is_none() {
            match self.ask(st, nc) {
                (Sat::Sat, Some(m)) => f = Some(Self::wrap(m)),
                (Sat::Unsat, _) => {
                    st.known.push(c);
                }
                _ => f = Some(None),
            }
        }
        (t, f)
    }
    /// Branches on `c`: `st` continues with the returned truth value, the other side (if feasible)
    /// is queued re-executing the current instruction.
    fn branch(&mut self, st: &mut State, c: Ex) -> R<bool> {
        let (t, f) = self.decide(st, c);
        match (t, f) {
            (Some(mt), Some(mf)) => {
                let nc = self.ar.not(c);
                let mut o = st.clone();
                o.depth += 1;
                st.depth += 1;
                o.pc.push(nc);
                o.model = mf;
                self.fork(o);
                st.pc.push(c);
                st.model = mt;
                Ok(true)
            }
            (Some(mt), None) => {
                st.model = mt;
                Ok(true)
            }
            (None, Some(mf)) => {
                st.model = mf;
                Ok(false)
            }
            (None, None) => Err(Stop::Infeasible),
        }
    }
    fn fork(&mut self, o: State) {
        self.rep.forks += 1;
        self.work.push(o);
    }
    /// Makes a term concrete, continuing once per feasible value.
    fn concretize(&mut self, st: &mut State, e: Ex) -> R<u64> {
        if let Some(k) = self.ar.const_u64(e) {
            return Ok(k);
        }
        if let Some(k) = self.fixed(st, e) {
            return Ok(k);
        }
        let w = self.ar.w(e);
        let mut n = 0;
        let mut excl = self.ar.c(1, 1);
        let mut first: Option<(u64, Option<Rc<MB>>)> = None;
        let mut forks = Vec::new();
        loop {
            let (v, m) = if n == 0 && st.model.is_some() {
                (self.eval_model(st, e).unwrap()[0], st.model.clone())
            } else {
                match self.ask(st, excl) {
                    (Sat::Sat, Some(m)) => {
                        let mut memo = FxMap::default();
                        (self.ar.eval(e, &m, &mut memo)[0], Self::wrap(m))
                    }
                    (Sat::Unsat, _) => break,
                    _ => {
                        return Err(Stop::Error("solver gave up enumerating a value".into()));
                    }
                }
            };
            n += 1;
            if n > self.max_values {
                return Err(Stop::Cut(format!("more than {} values of one term", self.max_values)));
            }
            let k = self.ar.c(w, v);
            let eq = self.ar.eq(e, k);
            let ne = self.ar.not(eq);
            excl = self.ar.and(excl, ne);
            if first.is_none() {
                first = Some((v, m));
            } else {
                let mut o = st.clone();
                o.pc.push(eq);
                o.vals.push((e, v));
                o.model = m;
                forks.push(o);
            }
        }
        let Some((v, m)) = first else { return Err(Stop::Infeasible) };
        for o in forks {
            self.fork(o);
        }
        let k = self.ar.c(w, v);
        let eq = self.ar.eq(e, k);
        st.pc.push(eq);
        st.vals.push((e, v));
        st.model = m;
        Ok(v)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::E(e) => self.concretize(st, *e),
            Val::A(_) => Err(Stop::Error("aggregate address".into())),
        }
    }

    // ----- memory
    fn fault(&self, a: u64, what: &str) -> Stop {
        Stop::Violation("memory".into(), format!("{what} outside any live object at {a:#x}"))
    }
    /// Vectors of bits are packed in memory.
    fn packed(t: &Ty) -> Option<Ty> {
        match t {
            Ty::Vec(n, e) => match **e {
                Ty::Int(b) if b % 8 != 0 => Some(Ty::Int(*n as u32 * b)),
                _ => None,
            },
            _ => None,
        }
    }
    fn load(&mut self, st: &mut State, t: &Ty, a: u64) -> R<Val> {
        if let Some(i) = Self::packed(t) {
            let v = self.load(st, &i, a)?;
            return Ok(self.cast(Cast::Bitcast, &i, t, &v));
        }
        if t.is_agg() {
            let mut v = Vec::new();
            for i in 0..t.nfields() {
                let off = t.field_off(i);
                v.push(self.load(st, &t.field(i), a + off)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let w = t.bits();
        let n = t.access();
        match st.mem.load(&mut self.ar, a, n) {
            Ok(Loaded::C(c)) => Ok(Val::C(mask(c, w))),
            Ok(Loaded::E(e)) => {
                let e = if self.ar.w(e) > w { self.ar.extract(e, 0, w) } else { e };
                Ok(self.mk(e))
            }
            Err(f) => Err(self.fault(f.0, "load")),
        }
    }
    fn store(&mut self, st: &mut State, t: &Ty, a: u64, v: &Val) -> R<()> {
        if let Some(i) = Self::packed(t) {
            let v = self.cast(Cast::Bitcast, t, &i, v);
            return self.store(st, &i, a, &v);
        }
        match v {
            Val::A(l) => {
                for (i, x) in l.clone().iter().enumerate() {
                    self.store(st, &t.field(i), a + t.field_off(i), x)?;
                }
                Ok(())
            }
            Val::C(c) => st.mem.store_c(a, t.access(), *c).map_err(|f| self.fault(f.0, "store")),
            Val::E(e) => {
                let n = t.access();
                let e = if (self.ar.w(*e) as u64) < 8 * n { self.ar.zext(*e, 8 * n as u32) } else { *e };
                st.mem.store_e(&self.ar, a, n, e).map_err(|f| self.fault(f.0, "store"))
            }
        }
    }
    /// Loads `n` bytes as one little-endian term.
    fn load_term(&mut self, st: &mut State, a: u64, n: u64) -> R<Ex> {
        match st.mem.load(&mut self.ar, a, n) {
            Ok(Loaded::C(c)) => Ok(self.ar.c(8 * n as u32, c)),
            Ok(Loaded::E(e)) => Ok(e),
            Err(f) => Err(self.fault(f.0, "load")),
        }
    }
    fn store_term(&mut self, st: &mut State, a: u64, n: u64, e: Ex) -> R<()> {
        st.mem.store_e(&self.ar, a, n, e).map_err(|f| self.fault(f.0, "store"))
    }
    fn malloc(&mut self, st: &mut State, n: u64, align: u64) -> R<u64> {
        if n > 64 << 20 || st.heap + n + 4096 > STOP - (64 << 20) {
            return Err(Stop::Cut("allocation bound".into()));
        }
        let al = align.max(16);
        let a = (st.heap + 32).div_ceil(al) * al;
        st.heap = a + n + 16;
        // Size header in the red zone.
        for i in 0..8 {
            st.mem.set_byte(a - 16 + i, Byte::C((n >> (8 * i)) as u8));
        }
        if n > 0 {
            st.mem.mark(a, n, true);
        }
        Ok(a)
    }
    fn heap_size(&self, st: &State, p: u64) -> R<u64> {
        let b = st.mem.bytes(p - 16, 8);
        let n = u64::from_le_bytes(b.unwrap().try_into().unwrap());
        if n > 0 && !st.mem.accessible(p, 1) {
            return Err(self.fault(p, "free"));
        }
        Ok(n)
    }
    fn string(&mut self, st: &State, p: &Val, n: &Val) -> String {
        let (Val::C(p), Val::C(n)) = (p, n) else { return "?".into() };
        String::from_utf8_lossy(&st.mem.bytes(*p, *n).unwrap_or_default()).into_owned()
    }

    // ----- control
    fn enter(&mut self, st: &mut State, f: u32, args: &[Val], dst: Option<u32>, normal: Option<u32>) -> R<()> {
        let func = &self.m.clone().funcs[f as usize];
        self.usedv[f as usize] = true;
        if st.frames.len() > 2000 {
            return Err(Stop::Error("call depth".into()));
        }
        let base = st.regs.len();
        st.regs.resize(base + func.nregs as usize, Val::C(0));
        for (i, a) in args.iter().take(func.nparams as usize).enumerate() {
            st.regs[base + i] = a.clone();
        }
        st.frames.push(Frame {
            f,
            pc: func.blocks[0].start,
            blk: 0,
            base,
            dst,
            normal,
            sp: st.sp,
            token: 0,
        });
        Ok(())
    }
    /// The registers that are read after `pc`, or after the jump from `blk` to `normal`.
    fn live(&mut self, f: u32, pc: u32, blk: u32, normal: Option<u32>) -> Rc<Vec<u32>> {
        let key = (f, pc, normal.map_or(u32::MAX, |n| n << 12 ^ blk));
        if let Some(r) = self.lives.get(&key) {
            return r.clone();
        }
        let m = self.m.clone();
        let func = &m.funcs[f as usize];
        fn operands(i: &I, g: &mut dyn FnMut(&O)) {
            match i {
                I::Bin(_, _, _, a, b) | I::ICmp(_, _, _, a, b) | I::Store(_, a, b) | I::ExtractElement(_, a, b)
                | I::InsertValue(_, _, a, b, _) | I::Shuffle(_, _, a, b, _) | I::AtomicRmw(_, _, _, a, b) => {
                    g(a);
                    g(b);
                }
                I::Cast(_, _, _, _, a) | I::Load(_, _, a) | I::CondBr(a, ..) | I::Switch(_, a, ..)
                | I::ExtractValue(_, a, _) => g(a),
                I::Select(_, _, _, a, b, c) | I::InsertElement(_, _, a, b, c) | I::CmpXchg(_, _, a, b, c) => {
                    g(a);
                    g(b);
                    g(c);
                }
                I::Gep(_, a, _, l) => {
                    g(a);
                    l.iter().for_each(|x| g(&x.0));
                }
                I::Call(_, _, c, l, _) => {
                    if let Callee::Ptr(o) = c {
                        g(o);
                    }
                    l.iter().for_each(|x| g(&x.1));
                }
                I::Ret(Some(a)) => g(a),
                I::Alloca(..) | I::Br(_) | I::Ret(None) | I::Unreachable | I::Nop | I::Unsupported(_) => {}
            }
        }
        fn def(i: &I) -> Option<u32> {
            match i {
                I::Bin(_, _, d, ..) | I::ICmp(_, _, d, ..) | I::Cast(_, _, _, d, _) | I::Select(_, _, d, ..)
                | I::Load(_, d, _) | I::Gep(d, ..) | I::Alloca(d, ..) | I::ExtractValue(d, ..)
                | I::InsertValue(_, d, ..) | I::ExtractElement(d, ..) | I::InsertElement(_, d, ..)
                | I::Shuffle(_, d, ..) | I::AtomicRmw(_, _, d, ..) | I::CmpXchg(_, d, ..) => Some(*d),
                I::Call(d, ..) => *d,
                _ => None,
            }
        }
        fn succ(i: &I) -> Option<Vec<u32>> {
            match i {
                I::Br(b) => Some(vec![*b]),
                I::CondBr(_, a, b) => Some(vec![*a, *b]),
                I::Switch(_, _, d, l) => Some(std::iter::once(*d).chain(l.iter().map(|x| x.1)).collect()),
                I::Ret(_) | I::Unreachable => Some(vec![]),
                I::Call(_, _, _, _, Some(n)) => Some(vec![*n]),
                _ => None,
            }
        }
        let nw = func.nregs as usize / 64 + 1;
        let edge = |ins: &[Vec<u64>], from: u32, to: u32, out: &mut Vec<u64>| {
            let mut l = ins[to as usize].clone();
            let mv = func.blocks[to as usize].phis.iter().find(|x| x.0 == from);
            for p in &func.blocks[to as usize].phis {
                for (d, _) in &p.1 {
                    l[*d as usize / 64] &= !(1 << (d % 64));
                }
            }
            for (_, o) in mv.iter().flat_map(|x| &x.1) {
                if let O::Reg(r) = o {
                    l[*r as usize / 64] |= 1 << (r % 64);
                }
            }
            for (a, b) in out.iter_mut().zip(l) {
                *a |= b;
            }
        };
        // Backwards from the end of the block that `at` is in.
        let scan = |ins: &[Vec<u64>], blk: u32, at: u32| {
            let mut e = at as usize;
            while succ(&func.code[e]).is_none() {
                e += 1;
            }
            let mut l = vec![0u64; nw];
            for s in succ(&func.code[e]).unwrap() {
                edge(ins, blk, s, &mut l);
            }
            for i in (at as usize..=e).rev() {
                let i = &func.code[i];
                if let Some(d) = def(i) {
                    l[d as usize / 64] &= !(1 << (d % 64));
                }
                operands(i, &mut |o| {
                    if let O::Reg(r) = o {
                        l[*r as usize / 64] |= 1 << (r % 64);
                    }
                });
            }
            l
        };
        if !self.live_in.contains_key(&f) {
            let mut ins = vec![vec![0u64; nw]; func.blocks.len()];
            loop {
                let mut more = false;
                for b in (0..func.blocks.len()).rev() {
                    let l = scan(&ins, b as u32, func.blocks[b].start);
                    if l != ins[b] {
                        ins[b] = l;
                        more = true;
                    }
                }
                if !more {
                    break;
                }
            }
            self.live_in.insert(f, Rc::new(ins));
        }
        let ins = self.live_in[&f].clone();
        let mut l = if (pc as usize) < func.code.len() { scan(&ins, blk, pc) } else { vec![0; nw] };
        if let Some(n) = normal {
            edge(&ins, blk, n, &mut l);
        }
        let r: Rc<Vec<u32>> =
            Rc::new((0..func.nregs).filter(|r| l[*r as usize / 64] >> (r % 64) & 1 != 0).collect());
        self.lives.insert(key, r.clone());
        r
    }
    /// A fingerprint of everything that what happens next depends on: the threads, what they can
    /// reach of memory (allocations numbered in the order they are come across), and the path's
    /// conditions on the inputs that are still there.
    fn fingerprint(&mut self, st: &State) -> (u64, u64) {
        struct H<'a> {
            h: (u64, u64),
            syms: FxMap<Ex, ()>,
            /// Allocations by their start: end and number.
            ids: BTreeMap<u64, (u64, u64)>,
            todo: std::collections::VecDeque<(u64, u64)>,
            st: &'a State,
        }
        impl H<'_> {
            fn n(&mut self, x: u64) {
                self.h.0 = (self.h.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
                self.h.1 = (self.h.1.rotate_left(23) ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(11);
            }
            fn w(&mut self, x: u64) {
                if !(HBASE..self.st.heap).contains(&x) {
                    return self.n(x);
                }
                let hit = self.ids.range(..=x).next_back().map(|(a, b)| (*a, *b)).filter(|(_, b)| x <= b.0);
                let (a, id) = match hit {
                    Some((a, (_, id))) => (a, id),
                    None => match self.st.mem.extent(x).or_else(|| self.st.mem.extent(x - 1)) {
                        Some((a, e)) => {
                            let id = self.ids.len() as u64;
                            self.ids.insert(a, (e, id));
                            self.todo.push_back((a, e));
                            (a, id)
                        }
                        // What was there is gone.
                        None => return self.n(0xdead_dead_dead),
                    },
                };
                self.n(0xabcd_0000_0000_0000 ^ id << 24 ^ (x - a));
            }
            fn s(&mut self, e: Ex, k: u32) {
                self.n((e as u64) << 32 | k as u64);
                self.syms.insert(e, ());
            }
            fn v(&mut self, v: &Val) {
                match v {
                    Val::C(x) => self.w(*x),
                    Val::E(e) => self.s(*e, 99),
                    Val::A(l) => {
                        for x in l.iter() {
                            self.v(x);
                        }
                    }
                }
            }
            fn m(&mut self, a: u64, e: u64, heap: bool) {
                let st = self.st;
                st.mem.visit(a, e, &mut |at, x| match x {
                    Ok(v) => {
                        if !heap {
                            self.n(at);
                        }
                        self.w(v)
                    }
                    Err((e, k)) => {
                        self.n(if heap { at - a } else { at });
                        self.s(e, k)
                    }
                });
                self.n(e - a);
            }
            fn co(&mut self, fr: &[Frame], lives: &[Rc<Vec<u32>>], regs: &[Val], sp: u64, i: usize) {
                self.n(fr.len() as u64);
                for (f, live) in fr.iter().zip(lives) {
                    self.n((f.f as u64) << 32 | f.pc as u64);
                    for r in live.iter() {
                        self.v(&regs[f.base + *r as usize]);
                    }
                }
                let top = STOP - ((i as u64) << 22);
                self.m(sp, top, false);
            }
        }
        let mut h = H { h: (1, 2), syms: FxMap::default(), ids: BTreeMap::new(), todo: Default::default(), st };
        h.n(st.co as u64);
        for (i, c) in st.cos.iter().enumerate() {
            let (fr, regs, sp) =
                if i == st.co { (&st.frames, &st.regs, st.sp) } else { (&c.frames, &c.regs, c.sp) };
            let lives: Vec<_> = (0..fr.len())
                .map(|k| self.live(fr[k].f, fr[k].pc, fr[k].blk, fr.get(k + 1).and_then(|x| x.normal)))
                .collect();
            h.co(fr, &lives, regs, sp, i);
        }
        for a in st.mem.changed(&self.base.mem, GBASE, HBASE) {
            h.m(a, a + crate::mem::PAGE, false);
        }
        while let Some((a, e)) = h.todo.pop_front() {
            h.m(a, e, true);
        }
        let (mut r, syms) = (h.h, h.syms);
        if !syms.is_empty() {
            let mut vars: FxMap<u32, ()> = FxMap::default();
            for e in syms.keys() {
                vars.extend(self.vars_of(*e).iter().map(|v| (*v, ())));
            }
            let mut inside = vec![false; st.pc.len()];
            loop {
                let mut more = false;
                for (i, e) in st.pc.iter().enumerate() {
                    if !inside[i] {
                        let vs = self.vars_of(*e);
                        if vs.iter().any(|v| vars.contains_key(v)) {
                            inside[i] = true;
                            more = true;
                            vars.extend(vs.iter().map(|v| (*v, ())));
                        }
                    }
                }
                if !more {
                    break;
                }
            }
            let mut c: Vec<Ex> = st.pc.iter().zip(&inside).filter(|x| *x.1).map(|x| *x.0).collect();
            c.sort_unstable();
            c.dedup();
            for e in c {
                r.0 = (r.0.rotate_left(5) ^ e as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
                r.1 = (r.1.rotate_left(23) ^ e as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(11);
            }
        }
        r
    }
    fn leave(&mut self, st: &mut State) -> Frame {
        let fr = st.frames.pop().unwrap();
        if fr.sp != st.sp {
            st.mem.mark(st.sp, fr.sp - st.sp, false);
            st.sp = fr.sp;
        }
        st.regs.truncate(fr.base);
        fr
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let fr = self.leave(st);
        if st.frames.is_empty() {
            if st.co != 0 {
                return Err(Stop::Error("the end of a thread".into()));
            }
            return Err(Stop::Done);
        }
        if let (Some(d), Some(v)) = (fr.dst, v) {
            let b = st.frames.last().unwrap().base;
            st.regs[b + d as usize] = v;
        }
        if let Some(n) = fr.normal {
            self.jump(st, n);
        }
        Ok(())
    }
    #[inline]
    fn jump(&mut self, st: &mut State, to: u32) {
        let m = self.m.clone();
        let fr = st.frames.last().unwrap();
        let func = &m.funcs[fr.f as usize];
        let (from, base) = (fr.blk, fr.base);
        let blk = &func.blocks[to as usize];
        if !blk.phis.is_empty() {
            if let Some((_, mv)) = blk.phis.iter().find(|x| x.0 == from) {
                if mv.len() == 1 {
                    let v = self.get(st, base, &mv[0].1);
                    st.regs[base + mv[0].0 as usize] = v;
                } else {
                    let vs: Vec<Val> = mv.iter().map(|(_, o)| self.get(st, base, o)).collect();
                    for ((d, _), v) in mv.iter().zip(vs) {
                        st.regs[base + *d as usize] = v;
                    }
                }
            }
        }
        let fr = st.frames.last_mut().unwrap();
        fr.blk = to;
        fr.pc = blk.start;
    }

    /// Executes one instruction. The program counter advances only when the instruction is done,
    /// so a forked state re-executes it under its own path condition.
    fn step(&mut self, st: &mut State) -> R<()> {
        let m = self.m.clone();
        let fr = st.frames.last().unwrap();
        let (fid, base, pc) = (fr.f as usize, fr.base, fr.pc);
        let func = &m.funcs[fid];
        st.steps += 1;
        if self.profile {
            self.prof[fid] += 1;
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                st.regs[base + $d as usize] = v;
            }};
        }
        macro_rules! next {
            () => {
                st.frames.last_mut().unwrap().pc = pc + 1
            };
        }
        match &func.code[pc as usize] {
            I::Bin(op, t, d, a, b) => {
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                let w = match t {
                    Ty::Int(w) => *w,
                    Ty::Vec(_, t) => t.bits(),
                    _ => t.bits(),
                };
                set!(*d, self.bin(*op, w, &x, &y));
                next!();
            }
            I::ICmp(p, t, d, a, b) => {
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                let w = match t {
                    Ty::Vec(_, t) => t.bits(),
                    t => t.bits(),
                };
                set!(*d, self.icmp(*p, w, &x, &y));
                next!();
            }
            I::Cast(c, from, to, d, a) => {
                let x = self.get(st, base, a);
                let v = self.cast(*c, from, to, &x);
                set!(*d, v);
                next!();
            }
            I::Select(t, vec, d, c, a, b) => {
                let c = self.get(st, base, c);
                let (x, y) = (self.get(st, base, a), self.get(st, base, b));
                let v = if *vec {
                    let cs = self.agg(&c).clone();
                    let (x, y) = (self.agg(&x).clone(), self.agg(&y).clone());
                    let et = t.field(0);
                    let mut out = Vec::new();
                    for i in 0..cs.len() {
                        out.push(match &cs[i] {
                            Val::C(k) => {
                                if *k & 1 != 0 {
                                    x[i].clone()
                                } else {
                                    y[i].clone()
                                }
                            }
                            Val::E(e) => self.select(&et, *e, &x[i], &y[i]),
                            _ => panic!(),
                        });
                    }
                    Val::A(Rc::new(out))
                } else {
                    match c {
                        Val::C(k) => {
                            if k & 1 != 0 {
                                x
                            } else {
                                y
                            }
                        }
                        Val::E(e) => {
                            if *t == Ty::Ptr {
                                // Pointers stay concrete.
                                if self.branch(st, e)? {
                                    x
                                } else {
                                    y
                                }
                            } else {
                                self.select(t, e, &x, &y)
                            }
                        }
                        _ => panic!(),
                    }
                };
                set!(*d, v);
                next!();
            }
            I::Load(t, d, a) => {
                let p = self.get(st, base, a);
                let p = self.conc(st, &p)?;
                let v = self.load(st, t, p)?;
                set!(*d, v);
                next!();
            }
            I::Store(t, v, a) => {
                let p = self.get(st, base, a);
                let p = self.conc(st, &p)?;
                let v = self.get(st, base, v);
                self.store(st, t, p, &v)?;
                next!();
            }
            I::Gep(d, b, off, idx) => {
                let b = self.get(st, base, b);
                let mut c = *off as u64;
                let mut sym: Option<Ex> = None;
                match b {
                    Val::C(x) => c = c.wrapping_add(x),
                    Val::E(e) => sym = Some(e),
                    _ => return Err(Stop::Error("gep base".into())),
                }
                for (o, w, s) in idx.iter() {
                    match self.get(st, base, o) {
                        Val::C(x) => c = c.wrapping_add((sx(x, *w) as u64).wrapping_mul(*s)),
                        Val::E(e) => {
                            let e = self.ar.sext(e, 64);
                            let k = self.ar.c(64, *s);
                            let e = self.ar.mul(e, k);
                            sym = Some(match sym {
                                None => e,
                                Some(y) => self.ar.add(y, e),
                            });
                        }
                        _ => return Err(Stop::Error("gep index".into())),
                    }
                }
                let v = match sym {
                    None => Val::C(c),
                    Some(e) => {
                        let k = self.ar.c(64, c);
                        let e = self.ar.add(e, k);
                        self.mk(e)
                    }
                };
                set!(*d, v);
                next!();
            }
            I::Alloca(d, n, al) => {
                let n = (*n).max(1);
                let a = (st.sp - n - 16) / (*al).max(16) * (*al).max(16);
                if a < STOP - (48 << 20) {
                    return Err(Stop::Error("stack overflow".into()));
                }
                st.sp = a;
                st.mem.mark(a, n, true);
                if !st.cos.is_empty() {
                    // What other calls left there would tell states apart.
                    let _ = st.mem.fill(a, 0, n);
                }
                set!(*d, Val::C(a));
                next!();
            }
            I::Br(b) => self.jump(st, *b),
            I::CondBr(c, a, b) => {
                let v = self.get(st, base, c);
                let t = match v {
                    Val::C(k) => k & 1 != 0,
                    Val::E(e) => self.branch(st, e)?,
                    _ => panic!(),
                };
                self.jump(st, if t { *a } else { *b });
            }
            I::Switch(w, v, def, cases) => {
                let v = self.get(st, base, v);
                match v {
                    Val::C(k) => {
                        let t = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::E(e) => {
                        let t = self.switch(st, *w, e, *def, cases)?;
                        self.jump(st, t);
                    }
                    _ => panic!(),
                }
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(st, base, o));
                self.ret(st, v)?;
            }
            I::Unreachable => {
                return Err(Stop::Violation("ub".into(), "unreachable code reached".into()));
            }
            I::ExtractValue(d, a, ix) => {
                let mut v = self.get(st, base, a);
                for i in ix.iter() {
                    v = self.agg(&v)[*i as usize].clone();
                }
                set!(*d, v);
                next!();
            }
            I::InsertValue(_, d, a, e, ix) => {
                let v = self.get(st, base, a);
                let e = self.get(st, base, e);
                fn ins(v: &Val, e: Val, ix: &[u32]) -> Val {
                    if ix.is_empty() {
                        return e;
                    }
                    let Val::A(l) = v else { panic!("insertvalue") };
                    let mut l = (**l).clone();
                    l[ix[0] as usize] = ins(&l[ix[0] as usize], e, &ix[1..]);
                    Val::A(Rc::new(l))
                }
                set!(*d, ins(&v, e, ix));
                next!();
            }
            I::ExtractElement(d, a, i) => {
                let v = self.get(st, base, a);
                let i = self.get(st, base, i);
                let i = self.conc(st, &i)?;
                let l = self.agg(&v);
                let x = l.get(i as usize).cloned().unwrap_or(Val::C(0));
                set!(*d, x);
                next!();
            }
            I::InsertElement(_, d, a, e, i) => {
                let v = self.get(st, base, a);
                let e = self.get(st, base, e);
                let i = self.get(st, base, i);
                let i = self.conc(st, &i)?;
                let mut l = (**self.agg(&v)).clone();
                if (i as usize) < l.len() {
                    l[i as usize] = e;
                }
                set!(*d, Val::A(Rc::new(l)));
                next!();
            }
            I::Shuffle(_, d, a, b, mask) => {
                let x = self.get(st, base, a);
                let y = self.get(st, base, b);
                let (x, y) = (self.agg(&x), self.agg(&y));
                let n = x.len();
                let v = mask
                    .iter()
                    .map(|i| {
                        let i = (*i).max(0) as usize;
                        if i < n {
                            x[i].clone()
                        } else {
                            y[i - n].clone()
                        }
                    })
                    .collect();
                set!(*d, Val::A(Rc::new(v)));
                next!();
            }
            I::AtomicRmw(op, t, d, a, v) => {
                let p = self.get(st, base, a);
                let p = self.conc(st, &p)?;
                let v = self.get(st, base, v);
                let old = self.load(st, t, p)?;
                let w = t.bits();
                let new = match &op[..] {
                    "xchg" => v,
                    "add" => self.bin(B::Add, w, &old, &v),
                    "sub" => self.bin(B::Sub, w, &old, &v),
                    "and" => self.bin(B::And, w, &old, &v),
                    "or" => self.bin(B::Or, w, &old, &v),
                    "xor" => self.bin(B::Xor, w, &old, &v),
                    "umax" | "umin" => {
                        let p = if op == "umax" { P::Ugt } else { P::Ult };
                        let c = self.icmp(p, w, &old, &v);
                        let c = self.ex(&c, 1);
                        self.select(t, c, &old, &v)
                    }
                    _ => return Err(Stop::Error(format!("atomicrmw {op}"))),
                };
                self.store(st, t, p, &new)?;
                set!(*d, old);
                next!();
            }
            I::CmpXchg(t, d, a, c, n) => {
                let p = self.get(st, base, a);
                let p = self.conc(st, &p)?;
                let c = self.get(st, base, c);
                let n = self.get(st, base, n);
                let old = self.load(st, t, p)?;
                let eq = self.icmp(P::Eq, t.bits(), &old, &c);
                let ok = match eq {
                    Val::C(k) => k != 0,
                    Val::E(e) => self.branch(st, e)?,
                    _ => panic!(),
                };
                if ok {
                    self.store(st, t, p, &n)?;
                }
                set!(*d, Val::A(Rc::new(vec![old, Val::C(ok as u64)])));
                next!();
            }
            I::Nop => next!(),
            I::Unsupported(s) => return Err(Stop::Error(format!("unsupported instruction {s}"))),
            I::Call(dst, rt, callee, args, normal) => {
                let id = match callee {
                    Callee::Fn(n, id) => {
                        if *id == u32::MAX {
                            return Err(Stop::Error(format!("undeclared {n}")));
                        }
                        *id
                    }
                    Callee::Ptr(o) => {
                        let p = self.get(st, base, o);
                        let p = self.conc(st, &p)?;
                        let i = p.wrapping_sub(FBASE);
                        if i % 16 != 0 || i / 16 >= m.funcs.len() as u64 {
                            return Err(Stop::Violation("memory".into(), format!("call of a non-function at {p:#x}")));
                        }
                        (i / 16) as u32
                    }
                    Callee::Asm(_) => {
                        let v = self.zero(rt);
                        if let Some(d) = dst {
                            set!(*d, v);
                        }
                        next!();
                        return Ok(());
                    }
                };
                if self.kinds[id as usize] == Kind::Body {
                    let vs: Vec<Val> = args.iter().map(|(_, o)| self.get(st, base, o)).collect();
                    next!();
                    return self.enter(st, id, &vs, *dst, *normal);
                }
                let vs: Vec<Val> = args.iter().map(|(_, o)| self.get(st, base, o)).collect();
                let k = self.kinds[id as usize];
                if let Kind::Entry = k {
                    // The trampoline: records the stack, calls the function.
                    let ecx = self.conc(st, &vs[0])?;
                    let f = self.conc(st, &vs[3])?;
                    let i = f.wrapping_sub(FBASE) / 16;
                    if f < FBASE || i >= m.funcs.len() as u64 || self.kinds[i as usize] != Kind::Body {
                        return Err(Stop::Violation("memory".into(), "entry of a non-function".into()));
                    }
                    st.tokens += 1;
                    let tok = st.tokens;
                    st.mem.store_c(ecx + self.exit_sp_off, 8, tok).map_err(|f| self.fault(f.0, "store"))?;
                    next!();
                    self.enter(st, i as u32, &vs[..3], *dst, *normal)?;
                    st.frames.last_mut().unwrap().token = tok;
                    return Ok(());
                }
                if let Kind::ExitTramp = k {
                    let ecx = self.conc(st, &vs[0])?;
                    let r = self.load(st, &Ty::Int(8), ecx + self.exit_result_off)?;
                    let tok = self.load(st, &Ty::Int(64), ecx + self.exit_sp_off)?;
                    let tok = self.conc(st, &tok)?;
                    if tok == 0 || !st.frames.iter().any(|f| f.token == tok) {
                        return Err(Stop::Violation("memory".into(), "exit to a frame that is gone".into()));
                    }
                    while st.frames.last().unwrap().token != tok {
                        self.leave(st);
                    }
                    return self.ret(st, Some(r));
                }
                if let Kind::CoNew = k {
                    let f = self.conc(st, &vs[0])?;
                    let i = f.wrapping_sub(FBASE) / 16;
                    if f < FBASE || i >= m.funcs.len() as u64 || self.kinds[i as usize] != Kind::Body {
                        return Err(Stop::Error("thread of a non-function".into()));
                    }
                    if st.cos.is_empty() {
                        st.cos.push(Co::default());
                    }
                    let n = st.cos.len();
                    if n > 10 {
                        return Err(Stop::Error("too many threads".into()));
                    }
                    if let Some(d) = dst {
                        set!(*d, Val::C(n as u64));
                    }
                    next!();
                    if let Some(n) = normal {
                        self.jump(st, *n);
                    }
                    let mut co = Co { sp: STOP - ((n as u64) << 22), ..Co::default() };
                    std::mem::swap(&mut st.frames, &mut co.frames);
                    std::mem::swap(&mut st.regs, &mut co.regs);
                    std::mem::swap(&mut st.sp, &mut co.sp);
                    self.enter(st, i as u32, &vs[1..2], None, None)?;
                    std::mem::swap(&mut st.frames, &mut co.frames);
                    std::mem::swap(&mut st.regs, &mut co.regs);
                    std::mem::swap(&mut st.sp, &mut co.sp);
                    st.cos.push(co);
                    return Ok(());
                }
                if let Kind::CoSwitch = k {
                    let n = self.conc(st, &vs[0])? as usize;
                    next!();
                    if let Some(n) = normal {
                        self.jump(st, *n);
                    }
                    if n == st.co {
                        return Ok(());
                    }
                    if n >= st.cos.len() || st.cos[n].frames.is_empty() {
                        return Err(Stop::Error("switch to no thread".into()));
                    }
                    let new = std::mem::take(&mut st.cos[n]);
                    let old = Co {
                        frames: std::mem::replace(&mut st.frames, new.frames),
                        regs: std::mem::replace(&mut st.regs, new.regs),
                        sp: std::mem::replace(&mut st.sp, new.sp),
                    };
                    let c = std::mem::replace(&mut st.co, n);
                    st.cos[c] = old;
                    let f = self.fingerprint(st);
                    if !self.visited.insert(f) {
                        self.rep.merged += 1;
                        self.rep.states = self.visited.len() as u64;
                        return Err(Stop::Infeasible);
                    }
                    return Ok(());
                }
                let v = self.builtin(st, id, k, args, &vs, rt)?;
                if let (Some(d), Some(v)) = (dst, v) {
                    set!(*d, v);
                }
                next!();
                if let Some(n) = normal {
                    self.jump(st, *n);
                }
            }
        }
        Ok(())
    }

    fn switch(&mut self, st: &mut State, w: u32, e: Ex, def: u32, cases: &[(u64, u32)]) -> R<u32> {
        if let Some(k) = self.fixed(st, e) {
            return Ok(cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(def));
        }
        // One alternative per distinct target.
        let mut targets: Vec<(u32, Ex)> = Vec::new();
        let mut none = self.ar.c(1, 1);
        for (k, t) in cases {
            let kk = self.ar.c(w, *k);
            let eq = self.ar.eq(e, kk);
            let ne = self.ar.not(eq);
            none = self.ar.and(none, ne);
            match targets.iter_mut().find(|x| x.0 == *t) {
                Some(x) => x.1 = self.ar.or(x.1, eq),
                None => targets.push((*t, eq)),
            }
        }
        match targets.iter_mut().find(|x| x.0 == def) {
            Some(x) => x.1 = self.ar.or(x.1, none),
            None => targets.push((def, none)),
        }
        let mut feas: Vec<(u32, Ex, Option<Rc<MB>>)> = Vec::new();
        for (t, c) in targets {
            if self.ar.const_u64(c) == Some(0) {
                continue;
            }
            let hit = self.eval_model(st, c).is_some_and(|b| b[0] != 0);
            if hit {
                feas.push((t, c, st.model.clone()));
                continue;
            }
            let nc = self.ar.not(c);
            if st.known.contains(&nc) || st.pc.contains(&nc) {
                continue;
            }
            match self.z3.check(&mut self.ar, &st.pc, c) {
                (Sat::Sat, Some(m)) => feas.push((t, c, Self::wrap(m))),
                (Sat::Unsat, _) => st.known.push(nc),
                _ => feas.push((t, c, None)),
            }
        }
        if feas.is_empty() {
            return Err(Stop::Infeasible);
        }
        let single = feas.len() == 1;
        while feas.len() > 1 {
            let (_, c, m) = feas.pop().unwrap();
            let mut o = st.clone();
            o.pc.push(c);
            o.model = m;
            self.fork(o);
        }
        let (t, c, m) = feas.pop().unwrap();
        if !single {
            st.pc.push(c);
        }
        st.model = m;
        Ok(t)
    }

    fn bits_of(&mut self, t: &Ty, v: &Val) -> Ex {
        match (t, v) {
            (Ty::Vec(_, et), Val::A(l)) => {
                let l = l.clone();
                let mut r: Option<Ex> = None;
                for x in l.iter() {
                    let e = self.bits_of(et, x);
                    r = Some(match r {
                        None => e,
                        Some(lo) => self.ar.concat(e, lo),
                    });
                }
                r.unwrap()
            }
            _ => self.ex(v, t.bits()),
        }
    }
    fn from_bits(&mut self, t: &Ty, e: Ex) -> Val {
        match t {
            Ty::Vec(n, et) => {
                let w = et.bits();
                let v = (0..*n)
                    .map(|i| {
                        let x = self.ar.extract(e, i * w, w);
                        self.mk(x)
                    })
                    .collect();
                Val::A(Rc::new(v))
            }
            _ => self.mk(e),
        }
    }
    fn cast(&mut self, c: Cast, from: &Ty, to: &Ty, x: &Val) -> Val {
        if c == Cast::Same {
            return x.clone();
        }
        if c == Cast::Bitcast {
            if !from.is_agg() && !to.is_agg() {
                return x.clone();
            }
            let e = self.bits_of(from, x);
            return self.from_bits(to, e);
        }
        if let Val::A(l) = x {
            let (f, t) = (from.field(0), to.field(0));
            let v = l.clone().iter().map(|y| self.cast(c, &f, &t, y)).collect();
            return Val::A(Rc::new(v));
        }
        let (fw, tw) = (from.bits(), to.bits());
        if let (Val::C(v), true) = (x, tw <= 64) {
            return Val::C(match c {
                Cast::Trunc => mask(*v, tw),
                Cast::Zext => *v,
                _ => mask(sx(*v, fw) as u64, tw),
            });
        }
        let e = self.ex(x, fw);
        let e = match c {
            Cast::Trunc => self.ar.extract(e, 0, tw),
            Cast::Zext => self.ar.zext(e, tw),
            _ => self.ar.sext(e, tw),
        };
        self.mk(e)
    }

    fn map2(&mut self, t: &Ty, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Self, u32, &Val, &Val) -> Val) -> Val {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let et = t.field(0);
            let (x, y) = (x.clone(), y.clone());
            let v = (0..x.len()).map(|i| self.map2(&et, &x[i], &y[i], f)).collect();
            return Val::A(Rc::new(v));
        }
        f(self, t.bits(), a, b)
    }

    fn arith(&mut self, k: B2, w: u32, a: &Val, b: &Val) -> Val {
        match k {
            B2::UMax | B2::UMin | B2::SMax | B2::SMin => {
                let p = match k {
                    B2::UMax => P::Ugt,
                    B2::UMin => P::Ult,
                    B2::SMax => P::Sgt,
                    _ => P::Slt,
                };
                match self.icmp(p, w, a, b) {
                    Val::C(c) => {
                        if c != 0 {
                            a.clone()
                        } else {
                            b.clone()
                        }
                    }
                    Val::E(c) => self.select(&Ty::Int(w), c, a, b),
                    _ => panic!(),
                }
            }
            B2::UAdd | B2::SAdd | B2::Add => self.bin(B::Add, w, a, b),
            B2::USub | B2::SSub => self.bin(B::Sub, w, a, b),
            B2::UMul | B2::SMul => self.bin(B::Mul, w, a, b),
            B2::Or => self.bin(B::Or, w, a, b),
            B2::And => self.bin(B::And, w, a, b),
            B2::Xor => self.bin(B::Xor, w, a, b),
        }
    }
    /// Result and overflow bit.
    fn overflow(&mut self, k: B2, w: u32, a: &Val, b: &Val) -> (Val, Val) {
        let r = self.arith(k, w, a, b);
        let o = match k {
            B2::UAdd => self.icmp(P::Ult, w, &r, a),
            B2::USub => self.icmp(P::Ult, w, a, b),
            B2::SAdd | B2::SSub => {
                // Sign-extended arithmetic.
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let (x, y) = (self.ar.sext(x, w + 1), self.ar.sext(y, w + 1));
                let s = if k == B2::SAdd { self.ar.add(x, y) } else { self.ar.sub(x, y) };
                let hi = self.ar.extract(s, w, 1);
                let lo = self.ar.extract(s, w - 1, 1);
                let e = self.ar.xor(hi, lo);
                self.mk(e)
            }
            B2::UMul => {
                if let (Val::C(x), Val::C(y)) = (a, b) {
                    let p = *x as u128 * *y as u128;
                    Val::C((p >> w != 0) as u64)
                } else {
                    let (x, y) = (self.ex(a, w), self.ex(b, w));
                    let (mx, my) = (self.ar.umax(x), self.ar.umax(y));
                    if w <= 64 && (mx as u128 * my as u128) >> w == 0 {
                        Val::C(0)
                    } else if let Some(kv) = self.ar.const_u64(y).filter(|k| *k != 0 && w <= 64) {
                        // x * k overflows iff x > max / k
                        let lim = self.ar.c(w, mask(u64::MAX, w) / kv);
                        let e = self.ar.ult(lim, x);
                        self.mk(e)
                    } else if let Some(kv) = self.ar.const_u64(x).filter(|k| *k != 0 && w <= 64) {
                        let lim = self.ar.c(w, mask(u64::MAX, w) / kv);
                        let e = self.ar.ult(lim, y);
                        self.mk(e)
                    } else {
                        let (x, y) = (self.ar.zext(x, 2 * w), self.ar.zext(y, 2 * w));
                        let p = self.ar.mul(x, y);
                        let hi = self.ar.extract(p, w, w);
                        let z = self.ar.c(w, 0);
                        let e = self.ar.eq(hi, z);
                        let e = self.ar.not(e);
                        self.mk(e)
                    }
                }
            }
            B2::SMul => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let (x, y) = (self.ar.sext(x, 2 * w), self.ar.sext(y, 2 * w));
                let p = self.ar.mul(x, y);
                let lo = self.ar.extract(p, 0, w);
                let s = self.ar.sext(lo, 2 * w);
                let e = self.ar.eq(s, p);
                let e = self.ar.not(e);
                self.mk(e)
            }
            _ => panic!(),
        };
        (r, o)
    }

    fn builtin(&mut self, st: &mut State, id: u32, k: Kind, args: &[(Ty, O)], v: &[Val], rt: &Ty) -> R<Option<Val>> {
        self.usedv[id as usize] = true;
        let r = match k {
            Kind::SymBytes => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                let name = self.string(st, &v[2], &v[3]);
                let be = name.starts_with("be.");
                let mut i = 0;
                if n > 0 && !st.mem.accessible(p, n) {
                    return Err(self.fault(p, "store"));
                }
                while i < n {
                    let c = (n - i).min(32);
                    // Paths share their inputs' variables.
                    let key = (st.inputs.len() as u32, c as u32, name.clone());
                    let x = match self.invars.get(&key) {
                        Some(x) => *x,
                        None => {
                            let x = self.ar.var(&name, 8 * c as u32);
                            self.invars.insert(key, x);
                            x
                        }
                    };
                    for j in 0..c {
                        let o = if be { c - 1 - j } else { j };
                        st.mem.set_byte(p + i + j, Byte::S(x, o as u32));
                        let b = self.ar.extract(x, 8 * o as u32, 8);
                        st.inputs.push(b);
                    }
                    i += c;
                }
                None
            }
            Kind::Param => {
                let i = self.conc(st, &v[0])?;
                Some(Val::C(self.params.get(i as usize).copied().unwrap_or(0)))
            }
            Kind::Assume => {
                let z = Val::C(0);
                match self.icmp(P::Ne, 32, &v[0], &z) {
                    Val::C(0) => return Err(Stop::Infeasible),
                    Val::C(_) => {}
                    Val::E(c) => {
                        let hit = self.eval_model(st, c).is_some_and(|b| b[0] != 0);
                        if !hit {
                            match self.ask(st, c) {
                                (Sat::Sat, Some(m)) => st.model = Self::wrap(m),
                                (Sat::Unsat, _) => return Err(Stop::Infeasible),
                                _ => st.model = None,
                            }
                        }
                        if !st.pc.contains(&c) {
                            st.pc.push(c);
                        }
                    }
                    _ => panic!(),
                }
                None
            }
            Kind::Check => {
                let msg = self.string(st, &v[1], &v[2]);
                let z = Val::C(0);
                match self.icmp(P::Ne, 32, &v[0], &z) {
                    Val::C(0) => return Err(Stop::Violation("check".into(), msg)),
                    Val::C(_) => self.rep.checks.entry(msg).or_default().0 += 1,
                    Val::E(c) => {
                        self.rep.checks.entry(msg.clone()).or_default().1 += 1;
                        let nc = self.ar.not(c);
                        if !(st.pc.contains(&c) || st.known.contains(&c)) {
                            let bad = self.eval_model(st, nc).is_some_and(|b| b[0] != 0);
                            let res = if bad && self.ar.ufs.is_empty() {
                                (Sat::Sat, None)
                            } else {
                                self.z3.check(&mut self.ar, &st.pc, nc)
                            };
                            match res {
                                (Sat::Unsat, _) => st.known.push(c),
                                (Sat::Sat, _) => {
                                    // Continue where the check holds; report where it does not.
                                    st.pc.push(nc);
                                    return Err(Stop::Violation("check".into(), msg));
                                }
                                _ => {
                                    *self.rep.errors.entry(format!("undecided check: {msg}")).or_default() += 1;
                                }
                            }
                        }
                    }
                    _ => panic!(),
                }
                None
            }
            Kind::Cut => {
                let s = self.string(st, &v[0], &v[1]);
                return Err(Stop::Cut(s));
            }
            Kind::Cover => {
                let s = self.string(st, &v[0], &v[1]);
                let n = self.cover_ids.len() as u32;
                let id = *self.cover_ids.entry(s).or_insert(n);
                if !st.covers.contains(&id) {
                    st.covers.push(id);
                }
                None
            }
            Kind::Concretize => Some(Val::C(self.conc(st, &v[0])?)),
            Kind::Print => {
                let s = self.string(st, &v[0], &v[1]);
                match &v[2] {
                    Val::C(c) => eprintln!("PRINT {s} = {c:#x}"),
                    Val::E(e) => eprintln!("PRINT {s} = {}", self.ar.show(*e, 6)),
                    _ => {}
                }
                None
            }
            Kind::Malloc => {
                let n = self.conc(st, &v[0])?;
                Some(Val::C(self.malloc(st, n, 16)?))
            }
            Kind::Calloc => {
                let a = self.conc(st, &v[0])?;
                let b = self.conc(st, &v[1])?;
                Some(Val::C(self.malloc(st, a.saturating_mul(b), 16)?))
            }
            Kind::Memalign => {
                let al = self.conc(st, &v[1])?;
                let n = self.conc(st, &v[2])?;
                let p = self.malloc(st, n, al)?;
                self.store(st, &Ty::Ptr, as_c(&v[0]), &Val::C(p))?;
                Some(Val::C(0))
            }
            Kind::Realloc => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                let q = self.malloc(st, n, 16)?;
                if p != 0 {
                    let old = self.heap_size(st, p)?;
                    st.mem.copy(q, p, old.min(n)).map_err(|f| self.fault(f.0, "realloc"))?;
                    if old > 0 {
                        st.mem.mark(p, old, false);
                    }
                }
                Some(Val::C(q))
            }
            Kind::Free => {
                let p = self.conc(st, &v[0])?;
                if p != 0 {
                    let n = self.heap_size(st, p)?;
                    if n > 0 {
                        st.mem.mark(p, n, false);
                    }
                }
                None
            }
            Kind::Memcpy => {
                let n = self.conc(st, &v[2])?;
                if n > 0 {
                    let d = self.conc(st, &v[0])?;
                    let s = self.conc(st, &v[1])?;
                    st.mem.copy(d, s, n).map_err(|f| self.fault(f.0, "copy"))?;
                }
                Some(v[0].clone())
            }
            Kind::Memset => {
                let n = self.conc(st, &v[2])?;
                if n > 0 {
                    let d = self.conc(st, &v[0])?;
                    match &v[1] {
                        Val::C(c) => st.mem.fill(d, *c as u8, n).map_err(|f| self.fault(f.0, "fill"))?,
                        Val::E(e) => {
                            let b = self.ar.extract(*e, 0, 8);
                            for i in 0..n {
                                self.store_term(st, d + i, 1, b)?;
                            }
                        }
                        _ => panic!(),
                    }
                }
                Some(v[0].clone())
            }
            Kind::Bcmp | Kind::Memcmp => {
                let n = self.conc(st, &v[2])?;
                if n == 0 {
                    return Ok(Some(Val::C(0)));
                }
                let a = self.conc(st, &v[0])?;
                let b = self.conc(st, &v[1])?;
                let x = self.load_term(st, a, n)?;
                let y = self.load_term(st, b, n)?;
                let eq = self.ar.eq(x, y);
                let z = self.ar.c(32, 0);
                let one = self.ar.c(32, 1);
                let e = if k == Kind::Bcmp {
                    self.ar.ite(eq, z, one)
                } else {
                    let (x, y) = (self.ar.bswap(x), self.ar.bswap(y));
                    let lt = self.ar.ult(x, y);
                    let m1 = self.ar.c(32, 0xffff_ffff);
                    let ne = self.ar.ite(lt, m1, one);
                    self.ar.ite(eq, z, ne)
                };
                Some(self.mk(e))
            }
            Kind::Strlen => {
                let a = self.conc(st, &v[0])?;
                let mut n = 0;
                loop {
                    match st.mem.byte(a + n) {
                        Byte::C(0) => break,
                        Byte::C(_) => n += 1,
                        _ => return Err(Stop::Error("strlen".into())),
                    }
                }
                Some(Val::C(n))
            }
            Kind::Zero => Some(self.zero(rt)),
            Kind::ZeroOut2 => {
                let p = self.conc(st, &v[1])?;
                st.mem.fill(p, 0, 16).map_err(|f| self.fault(f.0, "store"))?;
                Some(Val::C(0))
            }
            Kind::Panic => {
                // The last pointer argument is the location.
                let mut loc = String::new();
                for x in v.iter().rev() {
                    if let Val::C(p) = x {
                        if let (Some(b), true) = (st.mem.bytes(*p, 24), st.mem.accessible(*p, 24)) {
                            let q = u64::from_le_bytes(b[0..8].try_into().unwrap());
                            let n = u64::from_le_bytes(b[8..16].try_into().unwrap());
                            let line = u32::from_le_bytes(b[16..20].try_into().unwrap());
                            if n < 400 && st.mem.accessible(q, n.max(1)) {
                                if let Some(s) = st.mem.bytes(q, n) {
                                    if s.ends_with(b".rs") || s.ends_with(b".rs\0") {
                                        loc = format!(" at {}:{line}", String::from_utf8_lossy(&s));
                                        break;
                                    }
                                }
                            }
                        }
                    }
                }
                return Err(Stop::Violation(
                    "panic".into(),
                    format!("panic{loc} ({})", demangle(&self.m.funcs[id as usize].name)),
                ));
            }
            Kind::Exit => return Err(Stop::Violation("exit".into(), "process exit".into())),
            Kind::Hash => Some(Val::C(0)),
            Kind::Keccak => {
                let out = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[2])?;
                let p = self.conc(st, &v[1])?;
                let conc = if n == 0 { Some(vec![]) } else { st.mem.bytes(p, n) };
                match conc {
                    Some(b) => {
                        let h = crate::keccak::keccak256(&b);
                        for (i, x) in h.iter().enumerate() {
                            self.store(st, &Ty::Int(8), out + i as u64, &Val::C(*x as u64))?;
                        }
                    }
                    None => {
                        let e = self.load_term(st, p, n)?;
                        let e = self.ar.bswap(e);
                        let h = self.ar.uf(1, vec![e], 256);
                        let h = self.ar.bswap(h);
                        self.store_term(st, out, 32, h)?;
                    }
                }
                None
            }
            Kind::Div => {
                let (p, n) = (self.conc(st, &v[0])?, self.conc(st, &v[1])?);
                let (q, d) = (self.conc(st, &v[2])?, self.conc(st, &v[3])?);
                let a = self.load_term(st, p, 8 * n)?;
                let b = self.load_term(st, q, 8 * d)?;
                let w = 64 * n.max(d) as u32;
                let aw = self.ar.zext(a, w);
                let bw = self.ar.zext(b, w);
                let z = self.ar.c(w, 0);
                let isz = self.ar.eq(bw, z);
                if self.branch(st, isz)? {
                    return Err(Stop::Violation("panic".into(), "division by zero in ruint".into()));
                }
                let quo = self.ar.div(Op::UDiv, aw, bw);
                let rem = self.ar.div(Op::URem, aw, bw);
                let quo = self.ar.extract(quo, 0, 64 * n as u32);
                let rem = self.ar.extract(rem, 0, 64 * d as u32);
                self.store_term(st, p, 8 * n, quo)?;
                self.store_term(st, q, 8 * d, rem)?;
                None
            }
            Kind::Neg => {
                let o = self.conc(st, &v[0])?;
                let pa = self.conc(st, &v[1])?;
                let a = self.load_term(st, pa, 32)?;
                let z = self.ar.c(256, 0);
                let e = self.ar.sub(z, a);
                self.store_term(st, o, 32, e)?;
                None
            }
            Kind::Pow | Kind::Mul | Kind::Add | Kind::Sub | Kind::ReduceMod => {
                let o = self.conc(st, &v[0])?;
                let pa = self.conc(st, &v[1])?;
                let pb = self.conc(st, &v[2])?;
                let a = self.load_term(st, pa, 32)?;
                let b = self.load_term(st, pb, 32)?;
                let e = if k == Kind::Pow {
                    self.pow(a, b)
                } else if k == Kind::Mul {
                    self.ar.mul(a, b)
                } else if k == Kind::Add {
                    self.ar.add(a, b)
                } else if k == Kind::Sub {
                    self.ar.sub(a, b)
                } else {
                    let z = self.ar.c(256, 0);
                    let c = self.ar.eq(b, z);
                    let r = self.ar.div(Op::URem, a, b);
                    self.ar.ite(c, z, r)
                };
                self.store_term(st, o, 32, e)?;
                None
            }
            Kind::AddMod | Kind::MulMod => {
                let o = self.conc(st, &v[0])?;
                let mut t = [0; 3];
                for i in 0..3 {
                    let p = self.conc(st, &v[i + 1])?;
                    t[i] = self.load_term(st, p, 32)?;
                }
                let w = if k == Kind::AddMod { 264 } else { 512 };
                // Canonical order of the commutative arguments.
                let (a, b) = (t[0].min(t[1]), t[0].max(t[1]));
                let (x, y, n) = (self.ar.zext(a, w), self.ar.zext(b, w), self.ar.zext(t[2], w));
                let s = if k == Kind::AddMod { self.ar.add(x, y) } else { self.ar.mul(x, y) };
                let r = self.ar.div(Op::URem, s, n);
                let r = self.ar.extract(r, 0, 256);
                let z = self.ar.c(256, 0);
                let c = self.ar.eq(t[2], z);
                let e = self.ar.ite(c, z, r);
                self.store_term(st, o, 32, e)?;
                None
            }
            Kind::Random => {
                let p = self.conc(st, &v[0])?;
                let n = self.conc(st, &v[1])?;
                st.mem.fill(p, 0, n).map_err(|f| self.fault(f.0, "store"))?;
                Some(Val::C(n))
            }
            Kind::ILifetime => {
                if let (false, Some(Val::C(p))) = (st.cos.is_empty(), v.last()) {
                    if let Some((a, e)) = st.mem.extent(*p) {
                        let _ = st.mem.fill(a, 0, e - a);
                    }
                }
                None
            }
            Kind::INop => {
                // An assumption the optimiser relies on: a false one is undefined behaviour.
                None
            }
            Kind::IFirst | Kind::IExpect => Some(v[0].clone()),
            Kind::ITrap => return Err(Stop::Violation("ub".into(), "trap reached".into())),
            Kind::IBswap => {
                let t = args[0].0.clone();
                let e = self.bits_of(&t, &v[0]);
                if t.is_agg() {
                    return Err(Stop::Error("vector bswap".into()));
                }
                let e = self.ar.bswap(e);
                Some(self.mk(e))
            }
            Kind::IFsh(left) => {
                let w = args[0].0.bits();
                if let (Val::C(s), true) = (&v[2], !args[0].0.is_agg()) {
                    let s = (*s % w as u64) as u32;
                    let (a, b) = (self.ex(&v[0], w), self.ex(&v[1], w));
                    let c = self.ar.concat(a, b);
                    let e = if left {
                        self.ar.extract(c, w - s, w)
                    } else {
                        self.ar.extract(c, s, w)
                    };
                    Some(self.mk(e))
                } else {
                    let (a, b, s) = (self.ex(&v[0], w), self.ex(&v[1], w), self.ex(&v[2], w));
                    let k = self.ar.c(w, w as u64);
                    let s = self.ar.div(Op::URem, s, k);
                    let c = self.ar.concat(a, b);
                    let s2 = self.ar.zext(s, 2 * w);
                    let e = if left {
                        let x = self.ar.shift(Op::Shl, c, s2);
                        self.ar.extract(x, w, w)
                    } else {
                        let x = self.ar.shift(Op::LShr, c, s2);
                        self.ar.extract(x, 0, w)
                    };
                    Some(self.mk(e))
                }
            }
            Kind::IMinMax(b) => {
                let t = args[0].0.clone();
                Some(self.map2(&t, &v[0], &v[1], &mut |s, w, x, y| s.arith(b, w, x, y)))
            }
            Kind::ISat(b) => {
                let t = args[0].0.clone();
                Some(self.map2(&t, &v[0], &v[1], &mut |s, w, x, y| {
                    let (r, o) = s.overflow(b, w, x, y);
                    let o = s.ex(&o, 1);
                    let lim = match b {
                        B2::UAdd => s.ar.sext_one(w),
                        B2::USub => s.ar.c(w, 0),
                        _ => {
                            // Saturate towards the sign of the first operand.
                            let xe = s.ex(x, w);
                            let neg = s.ar.extract(xe, w - 1, 1);
                            let ones = s.ar.sext_one(w);
                            let max = s.ar.lshr_k(ones, 1);
                            let min = s.ar.not_bits(max);
                            s.ar.ite(neg, min, max)
                        }
                    };
                    let r = s.ex(&r, w);
                    let e = s.ar.ite(o, lim, r);
                    s.mk(e)
                }))
            }
            Kind::IOvf(b) => {
                let w = args[0].0.bits();
                let (r, o) = self.overflow(b, w, &v[0], &v[1]);
                Some(Val::A(Rc::new(vec![r, o])))
            }
            Kind::ICtz(tr) => {
                let w = args[0].0.bits();
                if let Val::C(c) = v[0] {
                    let n = if c == 0 {
                        w as u64
                    } else if tr {
                        c.trailing_zeros() as u64
                    } else {
                        c.leading_zeros() as u64 - (64 - w as u64)
                    };
                    Some(Val::C(n))
                } else {
                    let e = self.ex(&v[0], w);
                    let e = self.ar.clz(e, tr);
                    Some(self.mk(e))
                }
            }
            Kind::ICtpop => {
                let w = args[0].0.bits();
                if let Val::C(c) = v[0] {
                    Some(Val::C(c.count_ones() as u64))
                } else {
                    let e = self.ex(&v[0], w);
                    let e = self.ar.popcount(e);
                    Some(self.mk(e))
                }
            }
            Kind::IBitrev => {
                let w = args[0].0.bits();
                let e = self.ex(&v[0], w);
                let mut r: Option<Ex> = None;
                for i in 0..w {
                    let b = self.ar.extract(e, w - 1 - i, 1);
                    r = Some(match r {
                        None => b,
                        Some(l) => self.ar.concat(b, l),
                    });
                }
                Some(self.mk(r.unwrap()))
            }
            Kind::ICmp3(s) => {
                let w = args[0].0.bits();
                let ow = rt.bits();
                let lt = self.icmp(if s { P::Slt } else { P::Ult }, w, &v[0], &v[1]);
                let gt = self.icmp(if s { P::Sgt } else { P::Ugt }, w, &v[0], &v[1]);
                let (lt, gt) = (self.ex(&lt, 1), self.ex(&gt, 1));
                let m1 = self.ar.sext_one(ow);
                let one = self.ar.c(ow, 1);
                let z = self.ar.c(ow, 0);
                let g = self.ar.ite(gt, one, z);
                let e = self.ar.ite(lt, m1, g);
                Some(self.mk(e))
            }
            Kind::IAbs => {
                let w = args[0].0.bits();
                let x = self.ex(&v[0], w);
                let z = self.ar.c(w, 0);
                let n = self.ar.sub(z, x);
                let neg = self.ar.extract(x, w - 1, 1);
                let e = self.ar.ite(neg, n, x);
                Some(self.mk(e))
            }
            Kind::IReduce(b) => {
                let t = args[0].0.field(0);
                let l = self.agg(&v[0]).clone();
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = self.arith(b, t.bits(), &r, x);
                }
                Some(r)
            }
            Kind::Unknown | Kind::Body | Kind::Entry | Kind::ExitTramp | Kind::CoNew | Kind::CoSwitch => {
                return Err(Stop::Error(format!("call of {}", demangle(&self.m.funcs[id as usize].name))));
            }
        };
        Ok(r)
    }

    fn pow(&mut self, a: Ex, b: Ex) -> Ex {
        if let (Some(mut x), Some(mut y)) = (self.ar.const_big(a), self.ar.const_big(b)) {
            let mut r = big_u64(256, 1);
            while y.iter().any(|z| *z != 0) {
                if y[0] & 1 != 0 {
                    r = apply(Op::Mul, 256, 256, &r, &x, 0);
                }
                x = apply(Op::Mul, 256, 256, &x, &x, 0);
                y = big_lshr(&y, 1, 256);
            }
            return self.ar.big(256, r);
        }
        if let Some(y) = self.ar.const_big(b) {
            // Small exponents exactly.
            if y[1..].iter().all(|z| *z == 0) && y[0] <= 4 {
                let mut r = self.ar.c(256, 1);
                for _ in 0..y[0] {
                    r = self.ar.mul(r, a);
                }
                return r;
            }
        }
        self.ar.uf(2, vec![a, b], 256)
    }

    /// Closed forms of special bases and exponents.
    fn pow_facts(&mut self, a: Ex, b: Ex, r: Ex) -> Vec<Ex> {
        let ar = &mut self.ar;
        let (zero, one) = (ar.c(256, 0), ar.c(256, 1));
        let max = ar.sub(zero, one);
        let b0 = ar.eq(b, zero);
        let odd = ar.extract(b, 0, 1);
        let mut facts = vec![(b0, one)];
        let x = ar.eq(b, one);
        facts.push((x, a));
        let two = ar.c(256, 2);
        let x = ar.eq(b, two);
        let sq = ar.mul(a, a);
        facts.push((x, sq));
        let x = ar.eq(a, zero);
        let v = ar.ite(b0, one, zero);
        facts.push((x, v));
        let x = ar.eq(a, max);
        let v = ar.ite(odd, max, one);
        facts.push((x, v));
        // A power of two: a shift.
        let am = ar.sub(a, one);
        let t = ar.and(a, am);
        let x = ar.eq(t, zero);
        let nz = ar.eq(a, zero);
        let nz = ar.not(nz);
        let x = ar.and(x, nz);
        let k = ar.clz(a, true);
        let k = ar.zext(k, 272);
        let k = ar.extract(k, 0, 16);
        let k = ar.zext(k, 272);
        let e = ar.zext(b, 272);
        let sh = ar.mul(e, k);
        let o = ar.c(272, 1);
        let v = ar.shift(Op::Shl, o, sh);
        let v = ar.extract(v, 0, 256);
        facts.push((x, v));
        facts
            .into_iter()
            .map(|(c, v)| {
                let n = ar.not(c);
                let e = ar.eq(r, v);
                ar.or(n, e)
            })
            .collect()
    }
}

fn as_c(v: &Val) -> u64 {
    match v {
        Val::C(c) => *c,
        _ => panic!("symbolic pointer"),
    }
}
