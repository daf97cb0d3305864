//! The solver: incremental QF_BV queries through Z3's C API.

use crate::expr::*;
use std::ffi::{c_char, c_uint, c_void, CStr, CString};
use std::time::Instant;

type P = *mut c_void;

#[link(name = "z3")]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_uint)>);
    fn Z3_get_error_msg(c: P, e: c_uint) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_solver_dec_ref(c: P, s: P);
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> i32;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sat {
    Sat,
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    /// Queries the incremental core did not decide.
    pub second: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
}

pub struct Z3 {
    c: P,
    s: P,
    bvs: Vec<P>,
    bls: Vec<P>,
    stack: Vec<Ex>,
    axioms: usize,
    pub stats: Stats,
    timeout_ms: u32,
    first_ms: u32,
    pub dump: Option<String>,
    ndump: u32,
    cache: FxMap<Vec<Ex>, Sat>,
    /// Models of small queries.
    models: FxMap<Vec<Ex>, Model>,
    /// The other incremental solver, for small queries, and what it holds.
    other: (P, Vec<Ex>, usize, usize),
    is_seen: FxMap<u32, ()>,
    /// Variables that were translated.
    seen: Vec<(u32, P, u32)>,
    /// Translations in which wide products and quotients are unconstrained words.
    abvs: Vec<P>,
    abls: Vec<P>,
    /// Facts about those words.
    lemmas: Vec<P>,
    asserted: usize,
}

extern "C" fn on_error(c: P, e: c_uint) {
    let m = unsafe { CStr::from_ptr(Z3_get_error_msg(c, e)) };
    eprintln!("z3 error: {m:?}");
    std::process::exit(70);
}

/// Time the incremental core gets for a query.
const FIRST_MS: u32 = 400;

unsafe fn new_solver(c: P, timeout_ms: u32) -> P {
    unsafe {
        let l = CString::new("QF_BV").unwrap();
        let s = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, l.as_ptr()));
        Z3_solver_inc_ref(c, s);
        let p = Z3_mk_params(c);
        Z3_params_inc_ref(c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
        Z3_solver_set_params(c, s, p);
        s
    }
}

/// Multiplications and divisions of wide words that bit-blasting is slow on.
fn hard(a: &Arena, e: Ex) -> bool {
    let n = a.node(e);
    match n.op {
        Op::Mul => n.w > 64 && !a.is_const(n.a) && !a.is_const(n.b),
        Op::UDiv | Op::URem | Op::SDiv | Op::SRem => {
            n.w > 64
                && a.const_big(n.b)
                    .is_none_or(|v| v.iter().map(|x| x.count_ones()).sum::<u32>() != 1)
        }
        _ => false,
    }
}

fn put(v: &mut Vec<P>, e: Ex, p: P) {
    if v.len() <= e as usize {
        v.resize(e as usize + 1024, std::ptr::null_mut());
    }
    v[e as usize] = p;
}

impl Z3 {
    unsafe fn solver(&self, timeout_ms: u32) -> P {
        unsafe { new_solver(self.c, timeout_ms) }
    }

    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context(cfg);
            Z3_set_error_handler(c, Some(on_error));
            let first = std::env::var("SYMEX_FIRST_MS").ok().and_then(|x| x.parse().ok());
            let first = timeout_ms.min(first.unwrap_or(FIRST_MS));
            let s = new_solver(c, first);
            let s2 = new_solver(c, first);
            Z3 {
                c,
                s,
                timeout_ms,
                first_ms: first,
                bvs: Vec::new(),
                bls: Vec::new(),
                stack: Vec::new(),
                axioms: 0,
                stats: Stats::default(),
                dump: None,
                ndump: 0,
                cache: FxMap::default(),
                models: FxMap::default(),
                other: (s2, Vec::new(), 0, 0),
                is_seen: FxMap::default(),
                seen: Vec::new(),
                abvs: Vec::new(),
                abls: Vec::new(),
                lemmas: Vec::new(),
                asserted: 0,
            }
        }
    }

    fn bv(&mut self, a: &Arena, e: Ex, abs: bool) -> P {
        if let Some(p) = (if abs { &self.abvs } else { &self.bvs }).get(e as usize) {
            if !p.is_null() {
                return *p;
            }
        }
        let n = *a.node(e);
        if abs && hard(a, e) {
            let p = unsafe { self.abstracted(a, e) };
            put(&mut self.abvs, e, p);
            return p;
        }
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    let s = Z3_mk_bv_sort(c, n.w);
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.k, s)
                    } else {
                        let t = CString::new(dec(&a.const_big(e).unwrap())).unwrap();
                        Z3_mk_numeral(c, t.as_ptr(), s)
                    }
                }
                Op::Var => {
                    let s = Z3_mk_bv_sort(c, n.w);
                    let nm = CString::new(format!("v{}", n.k)).unwrap();
                    let p = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s);
                    if self.is_seen.insert(n.k as u32, ()).is_none() {
                        self.seen.push((n.k as u32, p, n.w));
                    }
                    p
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let b = self.bl(a, e, abs);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::And | Op::Or | Op::Xor if n.w == 1 => {
                    let b = self.bl(a, e, abs);
                    let s = Z3_mk_bv_sort(c, 1);
                    Z3_mk_ite(c, b, Z3_mk_unsigned_int64(c, 1, s), Z3_mk_unsigned_int64(c, 0, s))
                }
                Op::Ite => {
                    let x = self.bl(a, n.a, abs);
                    let y = self.bv(a, n.b, abs);
                    let z = self.bv(a, n.c, abs);
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Extract => {
                    let x = self.bv(a, n.a, abs);
                    Z3_mk_extract(c, n.k as u32 + n.w - 1, n.k as u32, x)
                }
                Op::ZExt => {
                    let x = self.bv(a, n.a, abs);
                    Z3_mk_zero_ext(c, n.w - a.w(n.a), x)
                }
                Op::SExt => {
                    let x = self.bv(a, n.a, abs);
                    Z3_mk_sign_ext(c, n.w - a.w(n.a), x)
                }
                _ => {
                    let x = self.bv(a, n.a, abs);
                    let y = self.bv(a, n.b, abs);
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, x, y),
                        Op::Sub => Z3_mk_bvsub(c, x, y),
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                        Op::Concat => Z3_mk_concat(c, x, y),
                        _ => unreachable!(),
                    }
                }
            }
        };
        put(if abs { &mut self.abvs } else { &mut self.bvs }, e, p);
        p
    }

    fn bl(&mut self, a: &Arena, e: Ex, abs: bool) -> P {
        if let Some(p) = (if abs { &self.abls } else { &self.bls }).get(e as usize) {
            if !p.is_null() {
                return *p;
            }
        }
        let n = *a.node(e);
        debug_assert_eq!(n.w, 1);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq if a.w(n.a) == 1 => {
                    let x = self.bl(a, n.a, abs);
                    let y = self.bl(a, n.b, abs);
                    Z3_mk_eq(c, x, y)
                }
                Op::Eq | Op::Ult | Op::Slt => {
                    let x = self.bv(a, n.a, abs);
                    let y = self.bv(a, n.b, abs);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, x, y),
                        Op::Ult => Z3_mk_bvult(c, x, y),
                        _ => Z3_mk_bvslt(c, x, y),
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.bl(a, n.a, abs), self.bl(a, n.b, abs)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let x = self.bl(a, n.a, abs);
                    if a.const_u64(n.b) == Some(1) {
                        Z3_mk_not(c, x)
                    } else {
                        let y = self.bl(a, n.b, abs);
                        Z3_mk_xor(c, x, y)
                    }
                }
                Op::Ite => {
                    let x = self.bl(a, n.a, abs);
                    let y = self.bl(a, n.b, abs);
                    let z = self.bl(a, n.c, abs);
                    Z3_mk_ite(c, x, y, z)
                }
                _ => {
                    let x = self.bv(a, e, abs);
                    let one = Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1));
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        put(if abs { &mut self.abls } else { &mut self.bls }, e, p);
        p
    }

    /// An unconstrained word for a product or quotient, with a few facts about it.
    unsafe fn abstracted(&mut self, a: &Arena, e: Ex) -> P {
        let n = *a.node(e);
        let c = self.c;
        let (x, y) = (self.bv(a, n.a, true), self.bv(a, n.b, true));
        unsafe {
            let s = Z3_mk_bv_sort(c, n.w);
            let nm = CString::new(format!("h{e}")).unwrap();
            let p = Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s);
            let (zero, one) = (Z3_mk_unsigned_int64(c, 0, s), Z3_mk_unsigned_int64(c, 1, s));
            let implies = |l: P, r: P| {
                let v = [Z3_mk_not(c, l), r];
                Z3_mk_or(c, 2, v.as_ptr())
            };
            let is = |l: P, r: P| Z3_mk_eq(c, l, r);
            let not_above = |l: P, r: P| Z3_mk_not(c, Z3_mk_bvult(c, r, l));
            match n.op {
                Op::Mul => {
                    self.lemmas.push(implies(is(x, zero), is(p, zero)));
                    self.lemmas.push(implies(is(y, zero), is(p, zero)));
                    self.lemmas.push(implies(is(x, one), is(p, y)));
                    self.lemmas.push(implies(is(y, one), is(p, x)));
                }
                Op::UDiv => {
                    self.lemmas.push(implies(Z3_mk_not(c, is(y, zero)), not_above(p, x)));
                    self.lemmas.push(implies(is(y, one), is(p, x)));
                    self.lemmas.push(implies(Z3_mk_bvult(c, x, y), is(p, zero)));
                }
                Op::URem => {
                    self.lemmas.push(not_above(p, x));
                    self.lemmas.push(implies(Z3_mk_not(c, is(y, zero)), Z3_mk_bvult(c, p, y)));
                    self.lemmas.push(implies(Z3_mk_bvult(c, x, y), is(p, x)));
                }
                _ => {}
            }
            p
        }
    }

    fn sync(&mut self, a: &Arena, pc: &[Ex], cond: Ex) {
        for e in a.axioms.iter().chain(pc).chain([&cond]) {
            self.bl(a, *e, true);
        }
        unsafe {
            let mut k = 0;
            if a.axioms.len() == self.axioms && self.lemmas.len() == self.asserted {
                while k < pc.len() && k < self.stack.len() && self.stack[k] == pc[k] {
                    k += 1;
                }
            }
            if self.stack.len() > k {
                Z3_solver_pop(self.c, self.s, (self.stack.len() - k) as u32);
                self.stack.truncate(k);
            }
            while self.axioms < a.axioms.len() {
                let p = self.bl(a, a.axioms[self.axioms], true);
                Z3_solver_assert(self.c, self.s, p);
                self.axioms += 1;
            }
            while self.asserted < self.lemmas.len() {
                Z3_solver_assert(self.c, self.s, self.lemmas[self.asserted]);
                self.asserted += 1;
            }
            while k < pc.len() {
                let p = self.bl(a, pc[k], true);
                Z3_solver_push(self.c, self.s);
                Z3_solver_assert(self.c, self.s, p);
                self.stack.push(pc[k]);
                k += 1;
            }
        }
    }

    unsafe fn model(&self, s: P) -> Model {
        unsafe {
            let m = Z3_solver_get_model(self.c, s);
            Z3_model_inc_ref(self.c, m);
            let mut out = Model::default();
            for (k, v, w) in &self.seen {
                let mut r: P = std::ptr::null_mut();
                if Z3_model_eval(self.c, m, *v, true, &mut r) {
                    let s = CStr::from_ptr(Z3_get_numeral_string(self.c, r)).to_string_lossy();
                    out.insert(*k, crate::ll::parse_big(&s, *w));
                }
            }
            Z3_model_dec_ref(self.c, m);
            out
        }
    }

    unsafe fn dump(&self, s: P) {
        if let Some(d) = &self.dump {
            if self.ndump < 400 {
                let s = unsafe { CStr::from_ptr(Z3_solver_to_string(self.c, s)) };
                let _ = std::fs::write(
                    format!("{d}.{}.smt2", self.ndump),
                    format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s.to_string_lossy()),
                );
            }
        }
    }

    fn swap(&mut self) {
        std::mem::swap(&mut self.s, &mut self.other.0);
        std::mem::swap(&mut self.stack, &mut self.other.1);
        std::mem::swap(&mut self.axioms, &mut self.other.2);
        std::mem::swap(&mut self.asserted, &mut self.other.3);
    }
    /// The same for few conditions, which are likely to come again.
    pub fn check_small(&mut self, a: &mut Arena, pc: &[Ex], cond: Ex) -> (Sat, Option<Model>) {
        let mut key = pc.to_vec();
        key.push(cond);
        if let Some(m) = self.models.get(&key) {
            self.stats.cached += 1;
            return (Sat::Sat, Some(m.clone()));
        }
        self.swap();
        let (r, m) = self.check(a, pc, cond);
        self.swap();
        if let Some(m) = &m {
            self.models.insert(key, m.clone());
        }
        (r, m)
    }
    /// Is `pc && cond` satisfiable? A model is returned if so.
    pub fn check(&mut self, a: &mut Arena, pc: &[Ex], cond: Ex) -> (Sat, Option<Model>) {
        if a.const_u64(cond) == Some(0) {
            return (Sat::Unsat, None);
        }
        let mut key = pc.to_vec();
        key.push(cond);
        if let Some(r) = self.cache.get(&key) {
            if *r == Sat::Unsat {
                self.stats.cached += 1;
                return (Sat::Unsat, None);
            }
        }
        let t = Instant::now();
        self.sync(a, pc, cond);
        let (r, m) = unsafe {
            Z3_solver_push(self.c, self.s);
            let p = self.bl(a, cond, true);
            Z3_solver_assert(self.c, self.s, p);
            let mut r = Z3_solver_check(self.c, self.s);
            let mut model = (r == 1).then(|| self.model(self.s));
            if r == 0 {
                // What a check that was cut short leaves behind in the solver is not relied on.
                Z3_solver_dec_ref(self.c, self.s);
                self.s = self.solver(self.first_ms);
                self.stack.clear();
                self.axioms = 0;
                self.asserted = 0;
            } else {
                Z3_solver_pop(self.c, self.s, 1);
            }
            if let Some(m) = &model {
                // Does the model hold with the real products and quotients?
                let mut memo = FxMap::default();
                let real = a
                    .axioms
                    .iter()
                    .chain(pc)
                    .chain([&cond])
                    .all(|e| a.eval(*e, m, &mut memo)[0] & 1 == 1);
                if !real {
                    r = 0;
                    model = None;
                }
            }
            if r == 0 {
                // A solver of its own for this query, with nothing abstracted and the bits that
                // the path fixes filled in.
                self.stats.second += 1;
                let known = a.known(pc);
                let mut memo = FxMap::default();
                let all: Vec<Ex> = a.axioms.iter().chain(pc).chain([&cond]).copied().collect();
                let all: Vec<Ex> = all.iter().map(|e| a.rebuild(*e, &known, &mut memo)).collect();
                if all.iter().any(|e| a.const_u64(*e) == Some(0)) {
                    r = -1;
                } else {
                    let once = self.solver(self.timeout_ms);
                    for e in &all {
                        let p = self.bl(a, *e, false);
                        Z3_solver_assert(self.c, once, p);
                    }
                    self.dump(once);
                    let t1 = Instant::now();
                    r = Z3_solver_check(self.c, once);
                    if let (Ok(d), true) = (std::env::var("SYMEX_SLOW"), t1.elapsed().as_millis() > 900) {
                        let s = CStr::from_ptr(Z3_solver_to_string(self.c, once));
                        let _ = std::fs::write(
                            format!("{d}/{}.{}.{r}.smt2", std::process::id(), self.stats.second),
                            format!("; {:?}\n(set-logic QF_BV)\n{}\n(check-sat)\n", t1.elapsed(), s.to_string_lossy()),
                        );
                    }
                    if r == 1 {
                        let mut m = self.model(once);
                        for (v, (w, mask, val)) in &known {
                            let x = m.entry(*v).or_insert_with(|| vec![0; crate::expr::limbs(*w)]);
                            for i in 0..x.len() {
                                x[i] = x[i] & !mask[i] | val[i];
                            }
                        }
                        let mut memo = FxMap::default();
                        let wrong = a
                            .axioms
                            .iter()
                            .chain(pc)
                            .chain([&cond])
                            .position(|e| a.eval(*e, &m, &mut memo)[0] & 1 != 1);
                        if wrong.is_some() {
                            // Not decided: the job is reported as incomplete.
                            r = 0;
                        } else {
                            model = Some(m);
                        }
                    }
                    Z3_solver_dec_ref(self.c, once);
                }
            } else if self.dump.is_some() {
                let once = self.solver(self.timeout_ms);
                for e in a.axioms.iter().chain(pc).chain([&cond]) {
                    let p = self.bl(a, *e, false);
                    Z3_solver_assert(self.c, once, p);
                }
                self.dump(once);
                Z3_solver_dec_ref(self.c, once);
            }
            (r, model)
        };
        let dt = t.elapsed().as_secs_f64();
        self.stats.time += dt;
        self.stats.max_time = self.stats.max_time.max(dt);
        let res = match r {
            1 => {
                self.stats.sat += 1;
                Sat::Sat
            }
            -1 => {
                self.stats.unsat += 1;
                Sat::Unsat
            }
            _ => {
                self.stats.unknown += 1;
                Sat::Unknown
            }
        };
        if let Some(d) = &self.dump {
            let _ = std::fs::write(format!("{d}.{}.res", self.ndump), format!("{res:?}"));
            self.ndump += 1;
        }
        if res == Sat::Unsat {
            self.cache.insert(key, res);
        }
        (res, m)
    }
}

fn dec(v: &[u64]) -> String {
    let mut v = v.to_vec();
    let mut digits = Vec::new();
    while v.iter().any(|x| *x != 0) {
        let mut r = 0u128;
        for x in v.iter_mut().rev() {
            let t = (r << 64) | *x as u128;
            *x = (t / 1_000_000_000) as u64;
            r = t % 1_000_000_000;
        }
        digits.push(r as u32);
    }
    if digits.is_empty() {
        return "0".into();
    }
    let mut s = digits.pop().unwrap().to_string();
    while let Some(d) = digits.pop() {
        s.push_str(&format!("{d:09}"));
    }
    s
}
