//! Hash-consed bit-vector terms with a simplifier.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Ex = u32;
pub type Big = Vec<u64>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    /// Constant value (or index of a wide constant), variable number, low bit of an extract.
    pub k: u64,
}

#[derive(Default)]
pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<Node, Ex>,
    pub bigs: Vec<Big>,
    bigmap: FxMap<Big, u32>,
    /// Name and width of each variable.
    pub vars: Vec<(String, u32)>,
    /// Uninterpreted function applications: function, arguments, result variable.
    pub ufs: Vec<(u32, Vec<Ex>, Ex)>,
    ufmap: HashMap<(u32, Vec<Ex>), Ex>,
    /// Facts that hold on every path (congruence of uninterpreted functions).
    pub axioms: Vec<Ex>,
    umax_memo: FxMap<Ex, u64>,
}

pub fn limbs(w: u32) -> usize {
    (w as usize).div_ceil(64).max(1)
}
fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
pub fn norm(v: &mut Big, w: u32) {
    v.resize(limbs(w), 0);
    crate::ll::mask_big(v, w);
}
pub fn big_u64(w: u32, v: u64) -> Big {
    let mut b = vec![v];
    norm(&mut b, w);
    b
}
fn bit(v: &[u64], i: u32) -> bool {
    v.get(i as usize / 64).is_some_and(|x| x >> (i % 64) & 1 != 0)
}
fn big_cmp(a: &[u64], b: &[u64]) -> std::cmp::Ordering {
    for i in (0..a.len()).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn big_add(a: &Big, b: &Big, w: u32) -> Big {
    let mut r = Vec::with_capacity(a.len());
    let mut c = 0u128;
    for i in 0..a.len() {
        let t = a[i] as u128 + b[i] as u128 + c;
        r.push(t as u64);
        c = t >> 64;
    }
    norm(&mut r, w);
    r
}
pub fn big_not(a: &Big, w: u32) -> Big {
    let mut r: Big = a.iter().map(|x| !x).collect();
    norm(&mut r, w);
    r
}
pub fn big_neg(a: &Big, w: u32) -> Big {
    big_add(&big_not(a, w), &big_u64(w, 1), w)
}
fn big_mul(a: &Big, b: &Big, w: u32) -> Big {
    let n = a.len();
    let mut r = vec![0u64; n];
    for i in 0..n {
        let mut c = 0u128;
        for j in 0..n - i {
            let t = a[i] as u128 * b[j] as u128 + r[i + j] as u128 + c;
            r[i + j] = t as u64;
            c = t >> 64;
        }
    }
    norm(&mut r, w);
    r
}
pub fn big_shl(a: &Big, k: u32, w: u32) -> Big {
    let mut r = vec![0u64; limbs(w)];
    let (q, s) = (k as usize / 64, k % 64);
    for i in (0..r.len()).rev() {
        if i >= q {
            let mut v = a.get(i - q).copied().unwrap_or(0) << s;
            if s > 0 && i > q {
                v |= a.get(i - q - 1).copied().unwrap_or(0) >> (64 - s);
            }
            r[i] = v;
        }
    }
    norm(&mut r, w);
    r
}
/// `a >> k`, to width `w`.
pub fn big_lshr(a: &Big, k: u32, w: u32) -> Big {
    let mut r = vec![0u64; limbs(w)];
    let (q, s) = (k as usize / 64, k % 64);
    for i in 0..r.len() {
        let mut v = a.get(i + q).copied().unwrap_or(0) >> s;
        if s > 0 {
            v |= a.get(i + q + 1).copied().unwrap_or(0) << (64 - s);
        }
        r[i] = v;
    }
    norm(&mut r, w);
    r
}
fn big_divrem(a: &Big, b: &Big, w: u32) -> (Big, Big) {
    let n = a.len();
    let mut q = vec![0u64; n];
    if b.iter().all(|x| *x == 0) {
        let mut q = vec![u64::MAX; n];
        norm(&mut q, w);
        return (q, a.clone());
    }
    if n == 1 {
        return (vec![a[0] / b[0]], vec![a[0] % b[0]]);
    }
    let wide = w + 1;
    let mut r = vec![0u64; limbs(wide)];
    let mut bb = b.clone();
    norm(&mut bb, wide);
    for i in (0..w).rev() {
        r = big_shl(&r, 1, wide);
        if bit(a, i) {
            r[0] |= 1;
        }
        if big_cmp(&r, &bb) != std::cmp::Ordering::Less {
            r = big_add(&r, &big_neg(&bb, wide), wide);
            q[i as usize / 64] |= 1 << (i % 64);
        }
    }
    norm(&mut r, w);
    norm(&mut q, w);
    (q, r)
}
fn big_sext(a: &Big, from: u32, to: u32) -> Big {
    let mut r = a.clone();
    norm(&mut r, to);
    if bit(a, from - 1) {
        for i in from..to {
            r[i as usize / 64] |= 1 << (i % 64);
        }
    }
    r
}

/// Concrete semantics of every operator (also used to evaluate under a model).
pub fn apply(op: Op, w: u32, aw: u32, a: &Big, b: &Big, k: u64) -> Big {
    let bool_ = |x: bool| vec![x as u64];
    match op {
        Op::Add => big_add(a, b, w),
        Op::Sub => big_add(a, &big_neg(b, w), w),
        Op::Mul => big_mul(a, b, w),
        Op::UDiv => big_divrem(a, b, w).0,
        Op::URem => big_divrem(a, b, w).1,
        Op::SDiv | Op::SRem => {
            let (na, nb) = (bit(a, w - 1), bit(b, w - 1));
            let x = if na { big_neg(a, w) } else { a.clone() };
            let y = if nb { big_neg(b, w) } else { b.clone() };
            let (q, r) = big_divrem(&x, &y, w);
            if op == Op::SDiv {
                if na != nb {
                    big_neg(&q, w)
                } else {
                    q
                }
            } else if na {
                big_neg(&r, w)
            } else {
                r
            }
        }
        Op::And => a.iter().zip(b).map(|(x, y)| x & y).collect(),
        Op::Or => a.iter().zip(b).map(|(x, y)| x | y).collect(),
        Op::Xor => a.iter().zip(b).map(|(x, y)| x ^ y).collect(),
        Op::Shl | Op::LShr | Op::AShr => {
            let over = b[1..].iter().any(|x| *x != 0) || b[0] >= w as u64;
            let neg = op == Op::AShr && bit(a, w - 1);
            if over {
                if neg {
                    let mut r = vec![u64::MAX; limbs(w)];
                    norm(&mut r, w);
                    r
                } else {
                    vec![0; limbs(w)]
                }
            } else {
                let s = b[0] as u32;
                match op {
                    Op::Shl => big_shl(a, s, w),
                    Op::LShr => big_lshr(a, s, w),
                    _ => {
                        let r = big_lshr(a, s, w);
                        if s == 0 || s == w {
                            r
                        } else {
                            big_sext(&big_lshr(a, s, w - s), w - s, w)
                        }
                    }
                }
            }
        }
        Op::Eq => bool_(a == b),
        Op::Ult => bool_(big_cmp(a, b) == std::cmp::Ordering::Less),
        Op::Slt => {
            let (na, nb) = (bit(a, aw - 1), bit(b, aw - 1));
            bool_(if na != nb { na } else { big_cmp(a, b) == std::cmp::Ordering::Less })
        }
        Op::Extract => big_lshr(a, k as u32, w),
        Op::ZExt => {
            let mut r = a.clone();
            norm(&mut r, w);
            r
        }
        Op::SExt => big_sext(a, aw, w),
        Op::Concat => {
            // a high, b low; k = width of low.
            let mut r = big_shl(a, k as u32, w);
            for (i, x) in b.iter().enumerate() {
                if i < r.len() {
                    r[i] |= x;
                }
            }
            r
        }
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn node(&self, e: Ex) -> &Node {
        &self.n[e as usize]
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.n[e as usize].w
    }
    fn intern(&mut self, n: Node) -> Ex {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.n.len() as Ex;
        self.n.push(n);
        self.map.insert(n, e);
        e
    }
    pub fn c(&mut self, w: u32, v: u64) -> Ex {
        if w <= 64 {
            return self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask64(w) });
        }
        self.big(w, big_u64(w, v))
    }
    pub fn big(&mut self, w: u32, mut v: Big) -> Ex {
        norm(&mut v, w);
        if w <= 64 {
            return self.c(w, v[0]);
        }
        let k = match self.bigmap.get(&v) {
            Some(k) => *k,
            None => {
                let k = self.bigs.len() as u32;
                self.bigs.push(v.clone());
                self.bigmap.insert(v, k);
                k
            }
        };
        self.intern(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k as u64 })
    }
    pub fn is_const(&self, e: Ex) -> bool {
        self.n[e as usize].op == Op::Const
    }
    pub fn const_u64(&self, e: Ex) -> Option<u64> {
        let n = self.node(e);
        if n.op == Op::Const && n.w <= 64 {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn const_big(&self, e: Ex) -> Option<Big> {
        let n = self.node(e);
        if n.op != Op::Const {
            return None;
        }
        Some(if n.w <= 64 { vec![n.k] } else { self.bigs[n.k as usize].clone() })
    }
    fn is_zero(&self, e: Ex) -> bool {
        let n = self.node(e);
        n.op == Op::Const
            && if n.w <= 64 { n.k == 0 } else { self.bigs[n.k as usize].iter().all(|x| *x == 0) }
    }
    fn is_ones(&self, e: Ex) -> bool {
        match self.const_big(e) {
            Some(b) => {
                let w = self.w(e);
                (0..b.len()).all(|i| b[i] == mask64(w - 64 * i as u32))
            }
            None => false,
        }
    }
    pub fn var(&mut self, name: &str, w: u32) -> Ex {
        let k = self.vars.len() as u64;
        self.vars.push((name.to_string(), w));
        self.intern(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k })
    }
    /// Applications of uninterpreted functions the terms depend on.
    pub fn ufs_in(&self, es: &[Ex]) -> Vec<(u32, Vec<Ex>, Ex)> {
        if self.ufs.is_empty() {
            return Vec::new();
        }
        let mut seen = FxMap::default();
        let mut todo: Vec<Ex> = es.to_vec();
        let mut out: Vec<(u32, Vec<Ex>, Ex)> = Vec::new();
        while let Some(e) = todo.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = *self.node(e);
            match n.op {
                Op::Const => {}
                Op::Var => {
                    if let Some(u) = self.ufs.iter().find(|u| u.2 == e) {
                        out.push(u.clone());
                        todo.extend(&u.1);
                    }
                }
                Op::Extract | Op::ZExt | Op::SExt => todo.push(n.a),
                Op::Ite => todo.extend([n.a, n.b, n.c]),
                _ => todo.extend([n.a, n.b]),
            }
        }
        out
    }
    pub fn uf(&mut self, f: u32, args: Vec<Ex>, w: u32) -> Ex {
        if let Some(e) = self.ufmap.get(&(f, args.clone())) {
            return *e;
        }
        let v = self.var(&format!("uf{f}"), w);
        let same: Vec<(Vec<Ex>, Ex)> = self
            .ufs
            .iter()
            .filter(|(g, a, r)| {
                *g == f
                    && a.len() == args.len()
                    && a.iter().zip(&args).all(|(x, y)| self.w(*x) == self.w(*y))
                    && self.w(*r) == w
            })
            .map(|(_, a, r)| (a.clone(), *r))
            .collect();
        for (a, r) in same {
            let mut cond = self.c(1, 1);
            for (x, y) in a.iter().zip(&args) {
                let e = self.eq(*x, *y);
                cond = self.and(cond, e);
            }
            let nc = self.not(cond);
            let e = self.eq(r, v);
            let ax = self.or(nc, e);
            if !self.is_const(ax) {
                self.axioms.push(ax);
            }
        }
        self.ufs.push((f, args.clone(), v));
        self.ufmap.insert((f, args), v);
        v
    }
    fn raw(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Ex {
        self.intern(Node { op, w, a, b, c: 0, k: 0 })
    }
    fn fold(&mut self, op: Op, w: u32, a: Ex, b: Ex) -> Option<Ex> {
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op != Op::Const || nb.op != Op::Const {
            return None;
        }
        let x = self.const_big(a).unwrap();
        let y = self.const_big(b).unwrap();
        let r = apply(op, w, na.w, &x, &y, 0);
        Some(self.big(w, r))
    }

    // ----- arithmetic
    pub fn add(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if let Some(r) = self.fold(Op::Add, w, a, b) {
            return r;
        }
        if self.is_const(a) || (!self.is_const(b) && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if self.is_zero(b) {
            return a;
        }
        if w == 1 {
            return self.xor(a, b);
        }
        let na = *self.node(a);
        if na.op == Op::Add && self.is_const(na.b) {
            if self.is_const(b) {
                let k = self.fold(Op::Add, w, na.b, b).unwrap();
                return self.add(na.a, k);
            }
            let t = self.add(na.a, b);
            return self.add(t, na.b);
        }
        let nb = *self.node(b);
        if nb.op == Op::Add && self.is_const(nb.b) {
            let t = self.add(a, nb.a);
            return self.add(t, nb.b);
        }
        // (x - y) + y
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        self.raw(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if a == b {
            return self.c(w, 0);
        }
        if let Some(v) = self.const_big(b) {
            let n = big_neg(&v, w);
            let k = self.big(w, n);
            return self.add(a, k);
        }
        let na = *self.node(a);
        if na.op == Op::Add {
            if na.b == b {
                return na.a;
            }
            if na.a == b {
                return na.b;
            }
            if self.is_const(na.b) {
                let t = self.sub(na.a, b);
                return self.add(t, na.b);
            }
        }
        let nb = *self.node(b);
        if nb.op == Op::Add {
            if nb.a == a {
                let z = self.c(w, 0);
                return self.sub(z, nb.b);
            }
            if nb.b == a {
                let z = self.c(w, 0);
                return self.sub(z, nb.a);
            }
            if let Some(v) = self.const_big(nb.b) {
                let t = self.sub(a, nb.a);
                let n = big_neg(&v, w);
                let k = self.big(w, n);
                return self.add(t, k);
            }
        }
        self.raw(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Mul, w, a, b) {
            return r;
        }
        if self.is_const(a) || (!self.is_const(b) && a > b) {
            std::mem::swap(&mut a, &mut b);
        }
        if let Some(v) = self.const_big(b) {
            if v.iter().all(|x| *x == 0) {
                return b;
            }
            let ones: u32 = v.iter().map(|x| x.count_ones()).sum();
            if ones == 1 {
                let mut s = 0;
                while !bit(&v, s) {
                    s += 1;
                }
                return self.shl_k(a, s);
            }
        }
        self.raw(Op::Mul, w, a, b)
    }
    pub fn div(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(r) = self.fold(op, w, a, b) {
            return r;
        }
        if let Some(v) = self.const_big(b) {
            let ones: u32 = v.iter().map(|x| x.count_ones()).sum();
            if ones == 1 && (op == Op::UDiv || op == Op::URem) {
                let mut s = 0;
                while !bit(&v, s) {
                    s += 1;
                }
                if op == Op::UDiv {
                    return self.lshr_k(a, s);
                }
                if s == 0 {
                    return self.c(w, 0);
                }
                let e = self.extract(a, 0, s);
                return self.zext(e, w);
            }
        }
        self.raw(op, w, a, b)
    }
    // ----- shifts
    pub fn shl_k(&mut self, a: Ex, k: u32) -> Ex {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(w, 0);
        }
        let h = self.extract(a, 0, w - k);
        let z = self.c(k, 0);
        self.concat(h, z)
    }
    pub fn lshr_k(&mut self, a: Ex, k: u32) -> Ex {
        let w = self.w(a);
        if k == 0 {
            return a;
        }
        if k >= w {
            return self.c(w, 0);
        }
        let h = self.extract(a, k, w - k);
        self.zext(h, w)
    }
    pub fn shift(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(v) = self.const_big(b) {
            let k = if v[1..].iter().any(|x| *x != 0) || v[0] >= w as u64 { w } else { v[0] as u32 };
            return match op {
                Op::Shl => self.shl_k(a, k),
                Op::LShr => self.lshr_k(a, k),
                _ => {
                    let k = k.min(w - 1);
                    let h = self.extract(a, k, w - k);
                    self.sext(h, w)
                }
            };
        }
        if self.is_zero(a) {
            return a;
        }
        self.raw(op, w, a, b)
    }
    // ----- structure
    pub fn extract(&mut self, x: Ex, lo: u32, w: u32) -> Ex {
        let n = *self.node(x);
        debug_assert!(lo + w <= n.w && w > 0, "extract {lo} {w} of {}", n.w);
        if w == n.w {
            return x;
        }
        match n.op {
            Op::Const => {
                let v = self.const_big(x).unwrap();
                let r = big_lshr(&v, lo, w);
                return self.big(w, r);
            }
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::ZExt => {
                let wy = self.w(n.a);
                if lo >= wy {
                    return self.c(w, 0);
                }
                if lo + w <= wy {
                    return self.extract(n.a, lo, w);
                }
                let l = self.extract(n.a, lo, wy - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let wy = self.w(n.a);
                if lo + w <= wy {
                    return self.extract(n.a, lo, w);
                }
                if lo < wy {
                    let l = self.extract(n.a, lo, wy - lo);
                    return self.sext(l, w);
                }
                let s = self.extract(n.a, wy - 1, 1);
                return self.sext(s, w);
            }
            Op::And | Op::Or | Op::Xor => {
                let simple = |o: Op| matches!(o, Op::Const | Op::Concat | Op::ZExt | Op::SExt | Op::Extract);
                if simple(self.node(n.a).op) || simple(self.node(n.b).op) {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    return match n.op {
                        Op::And => self.and(a, b),
                        Op::Or => self.or(a, b),
                        _ => self.xor(a, b),
                    };
                }
            }
            Op::Ite => {
                let simple = |o: Op| matches!(o, Op::Const | Op::Concat | Op::ZExt | Op::SExt);
                if simple(self.node(n.b).op) || simple(self.node(n.c).op) {
                    let a = self.extract(n.b, lo, w);
                    let b = self.extract(n.c, lo, w);
                    return self.ite(n.a, a, b);
                }
            }
            // Not for single bytes: memory splits a stored word into them and must be able to merge them.
            Op::Add | Op::Sub | Op::Mul if lo == 0 && w > 8 => {
                let simple = |o: Op| matches!(o, Op::Const | Op::Concat | Op::ZExt | Op::SExt);
                if simple(self.node(n.a).op) && simple(self.node(n.b).op) || self.is_const(n.b) {
                    let a = self.extract(n.a, 0, w);
                    let b = self.extract(n.b, 0, w);
                    return match n.op {
                        Op::Add => self.add(a, b),
                        Op::Sub => self.sub(a, b),
                        _ => self.mul(a, b),
                    };
                }
            }
            _ => {}
        }
        self.intern(Node { op: Op::Extract, w, a: x, b: 0, c: 0, k: lo as u64 })
    }
    fn merge(&mut self, h: Ex, l: Ex) -> Option<Ex> {
        let (nh, nl) = (*self.node(h), *self.node(l));
        if nh.op == Op::Const && nl.op == Op::Const {
            let a = self.const_big(h).unwrap();
            let b = self.const_big(l).unwrap();
            let w = nh.w + nl.w;
            let r = apply(Op::Concat, w, nh.w, &a, &b, nl.w as u64);
            return Some(self.big(w, r));
        }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64 {
            return Some(self.extract(nh.a, nl.k as u32, nh.w + nl.w));
        }
        // The low part of a sum may have been narrowed.
        if nh.op == Op::Extract
            && nh.k == nl.w as u64
            && matches!(self.node(nh.a).op, Op::Add | Op::Sub | Op::Mul)
            && self.node(nh.a).op == nl.op
            && self.extract(nh.a, 0, nl.w) == l
        {
            return Some(self.extract(nh.a, 0, nh.w + nl.w));
        }
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a {
            let a = self.concat(nh.b, nl.b);
            let b = self.concat(nh.c, nl.c);
            return Some(self.ite(nh.a, a, b));
        }
        None
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        if let Some(m) = self.merge(h, l) {
            return m;
        }
        let (nh, nl) = (*self.node(h), *self.node(l));
        let w = nh.w + nl.w;
        if self.is_zero(h) {
            return self.zext(l, w);
        }
        if nh.op == Op::ZExt {
            let t = self.concat(nh.a, l);
            return self.zext(t, w);
        }
        if nh.op == Op::Concat {
            let t = self.concat(nh.b, l);
            return self.concat(nh.a, t);
        }
        if nl.op == Op::Concat {
            if let Some(m) = self.merge(h, nl.a) {
                return self.concat(m, nl.b);
            }
        }
        if nl.op == Op::ZExt {
            // Canonical: zero bits as an explicit piece.
            let wz = nl.w - self.w(nl.a);
            let z = self.c(wz, 0);
            if let Some(m) = self.merge(h, z) {
                return self.concat(m, nl.a);
            }
            let t = self.raw(Op::Concat, wz + self.w(nl.a), z, nl.a);
            return self.raw(Op::Concat, w, h, t);
        }
        self.raw(Op::Concat, w, h, l)
    }
    pub fn zext(&mut self, x: Ex, w: u32) -> Ex {
        let n = *self.node(x);
        if n.w == w {
            return x;
        }
        match n.op {
            Op::Const => {
                let v = self.const_big(x).unwrap();
                self.big(w, v)
            }
            Op::ZExt => self.zext(n.a, w),
            _ => self.raw(Op::ZExt, w, x, 0),
        }
    }
    pub fn sext(&mut self, x: Ex, w: u32) -> Ex {
        let n = *self.node(x);
        if n.w == w {
            return x;
        }
        match n.op {
            Op::Const => {
                let v = self.const_big(x).unwrap();
                let r = big_sext(&v, n.w, w);
                self.big(w, r)
            }
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.raw(Op::SExt, w, x, 0),
        }
    }
    /// Pieces of a term from low to high; `None` term for zero bits.
    fn pieces(&mut self, x: Ex, out: &mut Vec<(Ex, u32)>) {
        let n = *self.node(x);
        match n.op {
            Op::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            Op::ZExt => {
                let wi = self.w(n.a);
                self.pieces(n.a, out);
                let z = self.c(n.w - wi, 0);
                out.push((z, n.w - wi));
            }
            _ => out.push((x, n.w)),
        }
    }
    /// Splits a bitwise operation where one side is constant zero / ones on a piece.
    fn piecewise(&mut self, op: Op, a: Ex, b: Ex) -> Option<Ex> {
        let w = self.w(a);
        if w == 1 {
            return None;
        }
        let mut pa = Vec::new();
        let mut pb = Vec::new();
        self.pieces(a, &mut pa);
        self.pieces(b, &mut pb);
        // A constant operand splits at its runs of equal bits.
        for (p, one) in [(&mut pa, a), (&mut pb, b)] {
            if let Some(v) = self.const_big(one) {
                p.clear();
                let mut lo = 0;
                let mut runs = 0;
                while lo < w {
                    let mut hi = lo + 1;
                    while hi < w && bit(&v, hi) == bit(&v, lo) {
                        hi += 1;
                    }
                    let k = self.extract(one, lo, hi - lo);
                    p.push((k, hi - lo));
                    lo = hi;
                    runs += 1;
                    if runs > 9 {
                        return None;
                    }
                }
            }
        }
        if pa.len() + pb.len() <= 2 || pa.len() + pb.len() > 80 {
            return None;
        }
        let mut cuts: Vec<u32> = Vec::new();
        for p in [&pa, &pb] {
            let mut o = 0;
            for (_, pw) in p.iter() {
                o += pw;
                cuts.push(o);
            }
        }
        cuts.sort_unstable();
        cuts.dedup();
        // Useful only if some piece collapses.
        let mut segs = Vec::new();
        let mut lo = 0;
        let mut any = false;
        for hi in cuts {
            let x = self.extract(a, lo, hi - lo);
            let y = self.extract(b, lo, hi - lo);
            let z = self.is_const(x) || self.is_const(y) || x == y;
            let trivial = z
                && (self.is_zero(x) || self.is_zero(y) || x == y || (self.is_const(x) && self.is_const(y))
                    || (op == Op::And && (self.is_ones(x) || self.is_ones(y)))
                    || (op == Op::Or && (self.is_ones(x) || self.is_ones(y))));
            any |= trivial;
            segs.push((x, y));
            lo = hi;
        }
        if !any || segs.len() < 2 {
            return None;
        }
        let mut r: Option<Ex> = None;
        for (x, y) in segs {
            let s = match op {
                Op::And => self.and(x, y),
                Op::Or => self.or(x, y),
                _ => self.xor(x, y),
            };
            r = Some(match r {
                None => s,
                Some(l) => self.concat(s, l),
            });
        }
        r
    }
    fn sortc(&self, a: &mut Ex, b: &mut Ex) {
        if self.is_const(*a) || (!self.is_const(*b) && *a > *b) {
            std::mem::swap(a, b);
        }
    }
    pub fn and(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::And, w, a, b) {
            return r;
        }
        self.sortc(&mut a, &mut b);
        if a == b {
            return a;
        }
        if self.is_zero(b) {
            return b;
        }
        if self.is_ones(b) {
            return a;
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if w == 1 {
            if self.not(a) == b {
                return self.c(1, 0);
            }
            if na.op == Op::And && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::And && (nb.a == a || nb.b == a) {
                return b;
            }
            return self.raw(Op::And, w, a, b);
        }
        if na.op == Op::And && self.is_const(na.b) && self.is_const(b) {
            let k = self.and(na.b, b);
            return self.and(na.a, k);
        }
        if let Some(r) = self.piecewise(Op::And, a, b) {
            return r;
        }
        self.raw(Op::And, w, a, b)
    }
    pub fn or(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Or, w, a, b) {
            return r;
        }
        self.sortc(&mut a, &mut b);
        if a == b {
            return a;
        }
        if self.is_zero(b) {
            return a;
        }
        if self.is_ones(b) {
            return b;
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if w == 1 {
            if self.not(a) == b {
                return self.c(1, 1);
            }
            if na.op == Op::Or && (na.a == b || na.b == b) {
                return a;
            }
            if nb.op == Op::Or && (nb.a == a || nb.b == a) {
                return b;
            }
            return self.raw(Op::Or, w, a, b);
        }
        if let Some(r) = self.piecewise(Op::Or, a, b) {
            return r;
        }
        self.raw(Op::Or, w, a, b)
    }
    pub fn xor(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        if let Some(r) = self.fold(Op::Xor, w, a, b) {
            return r;
        }
        self.sortc(&mut a, &mut b);
        if a == b {
            return self.c(w, 0);
        }
        if self.is_zero(b) {
            return a;
        }
        let na = *self.node(a);
        let nb = *self.node(b);
        if na.op == Op::Xor {
            if self.is_const(na.b) && self.is_const(b) {
                let k = self.xor(na.b, b);
                return self.xor(na.a, k);
            }
            if na.b == b {
                return na.a;
            }
            if na.a == b {
                return na.b;
            }
        }
        if nb.op == Op::Xor {
            if nb.b == a {
                return nb.a;
            }
            if nb.a == a {
                return nb.b;
            }
        }
        if w > 1 {
            if let Some(r) = self.piecewise(Op::Xor, a, b) {
                return r;
            }
        } else if self.is_const(b) {
            // De-normalised boolean structure stays as Not(x).
        } else {
            // Pull negations out.
            let one = self.c(1, 1);
            if na.op == Op::Xor && na.b == one {
                let t = self.xor(na.a, b);
                return self.xor(t, one);
            }
            if nb.op == Op::Xor && nb.b == one {
                let t = self.xor(a, nb.a);
                return self.xor(t, one);
            }
        }
        self.raw(Op::Xor, w, a, b)
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let w = self.w(a);
        let mut v = vec![u64::MAX; limbs(w)];
        norm(&mut v, w);
        let k = self.big(w, v);
        self.xor(a, k)
    }
    // ----- predicates
    pub fn eq(&mut self, mut a: Ex, mut b: Ex) -> Ex {
        if a == b {
            return self.c(1, 1);
        }
        if let Some(r) = self.fold(Op::Eq, 1, a, b) {
            return r;
        }
        self.sortc(&mut a, &mut b);
        let (na, nb) = (*self.node(a), *self.node(b));
        debug_assert_eq!(na.w, nb.w);
        if na.w == 1 {
            if nb.op == Op::Const {
                return if nb.k == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        if nb.op == Op::Const {
            match na.op {
                Op::ZExt => {
                    let wi = self.w(na.a);
                    let hi = self.extract(b, wi, na.w - wi);
                    if !self.is_zero(hi) {
                        return self.c(1, 0);
                    }
                    let lo = self.extract(b, 0, wi);
                    return self.eq(na.a, lo);
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kh = self.extract(b, wl, na.w - wl);
                    let kl = self.extract(b, 0, wl);
                    let x = self.eq(na.a, kh);
                    if self.is_zero(x) {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Ite => {
                    if self.is_const(na.b) || self.is_const(na.c) {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                Op::Add if self.is_const(na.b) => {
                    let k = self.sub(b, na.b);
                    return self.eq(na.a, k);
                }
                Op::Xor => {
                    if self.is_const(na.b) {
                        let k = self.xor(b, na.b);
                        return self.eq(na.a, k);
                    }
                    if self.is_zero(b) {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Sub if self.is_zero(b) => return self.eq(na.a, na.b),
                Op::Or if self.is_zero(b) => {
                    let x = self.eq(na.a, b);
                    let y = self.eq(na.b, b);
                    return self.and(x, y);
                }
                Op::SExt => {
                    let wi = self.w(na.a);
                    let lo = self.extract(b, 0, wi);
                    let back = self.sext(lo, na.w);
                    if back != b {
                        return self.c(1, 0);
                    }
                    return self.eq(na.a, lo);
                }
                _ => {}
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.eq(na.a, nb.a);
        }
        if na.op == Op::Concat || nb.op == Op::Concat {
            // Split at a shared boundary when that decides a part syntactically.
            let wl = if na.op == Op::Concat { self.w(na.b) } else { self.w(nb.b) };
            let (ah, bh) = (self.extract(a, wl, na.w - wl), self.extract(b, wl, na.w - wl));
            let (al, bl) = (self.extract(a, 0, wl), self.extract(b, 0, wl));
            if ah == bh {
                return self.eq(al, bl);
            }
            if al == bl {
                return self.eq(ah, bh);
            }
            if (self.is_const(ah) && self.is_const(bh)) || (self.is_const(al) && self.is_const(bl)) {
                return self.c(1, 0);
            }
        }
        if na.op == Op::Add && nb.op == Op::Add {
            if na.a == nb.a {
                return self.eq(na.b, nb.b);
            }
            if na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
        }
        if na.op == Op::Add && na.a == b {
            let z = self.c(na.w, 0);
            return self.eq(na.b, z);
        }
        if nb.op == Op::Add && nb.a == a {
            let z = self.c(na.w, 0);
            return self.eq(nb.b, z);
        }
        self.raw(Op::Eq, 1, a, b)
    }
    /// An upper bound of an unsigned value, saturated to 64 bits.
    pub fn umax(&mut self, x: Ex) -> u64 {
        let n = *self.node(x);
        if n.w <= 16 && n.op != Op::Const && n.op != Op::And && n.op != Op::ZExt {
            return mask64(n.w);
        }
        if let Some(v) = self.umax_memo.get(&x) {
            return *v;
        }
        let m = mask64(n.w);
        let r = match n.op {
            Op::Const => {
                if n.w <= 64 {
                    n.k
                } else {
                    let v = &self.bigs[n.k as usize];
                    if v[1..].iter().any(|y| *y != 0) {
                        u64::MAX
                    } else {
                        v[0]
                    }
                }
            }
            Op::ZExt => self.umax(n.a),
            Op::And => self.umax(n.a).min(self.umax(n.b)),
            Op::Ite => self.umax(n.b).max(self.umax(n.c)),
            Op::URem => {
                let b = self.umax(n.b);
                let a = self.umax(n.a);
                if self.is_const(n.b) && b > 0 {
                    a.min(b - 1)
                } else {
                    a
                }
            }
            Op::UDiv if n.w <= 64 => {
                let a = self.umax(n.a);
                match self.const_u64(n.b) {
                    Some(k) if k > 0 => a / k,
                    _ => m,
                }
            }
            Op::Add if n.w <= 64 => match self.umax(n.a).checked_add(self.umax(n.b)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::Mul if n.w <= 64 => match self.umax(n.a).checked_mul(self.umax(n.b)) {
                Some(s) if s <= m => s,
                _ => m,
            },
            Op::Concat if n.w <= 64 => {
                let wl = self.w(n.b);
                let h = self.umax(n.a);
                (h << wl) | mask64(wl)
            }
            _ => m,
        };
        let r = r.min(m);
        self.umax_memo.insert(x, r);
        r
    }
    pub fn ult(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.c(1, 0);
        }
        if let Some(r) = self.fold(Op::Ult, 1, a, b) {
            return r;
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        debug_assert_eq!(na.w, nb.w);
        let w = na.w;
        if w == 1 {
            let t = self.not(a);
            return self.and(t, b);
        }
        if self.is_zero(b) || self.is_ones(a) {
            return self.c(1, 0);
        }
        if self.is_zero(a) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if self.is_ones(b) {
            let e = self.eq(a, b);
            return self.not(e);
        }
        if nb.op == Op::Const {
            let one = self.c(w, 1);
            if b == one {
                let z = self.c(w, 0);
                return self.eq(a, z);
            }
        }
        // Common zero extension.
        let za = if na.op == Op::ZExt { self.w(na.a) } else { w };
        let zb = if nb.op == Op::ZExt {
            self.w(nb.a)
        } else if let Some(v) = self.const_big(b) {
            let mut h = w;
            while h > 1 && !bit(&v, h - 1) {
                h -= 1;
            }
            h
        } else {
            w
        };
        let za = if let Some(v) = self.const_big(a) {
            let mut h = w;
            while h > 1 && !bit(&v, h - 1) {
                h -= 1;
            }
            h
        } else {
            za
        };
        let z = za.max(zb);
        if z < w {
            let x = self.extract(a, 0, z);
            let y = self.extract(b, 0, z);
            return self.ult(x, y);
        }
        let (ma, mb) = (self.umax(a), self.umax(b));
        if nb.op == Op::Const && ma < u64::MAX {
            let kb = self.const_big(b).unwrap();
            if kb[1..].iter().any(|x| *x != 0) || ma < kb[0] {
                return self.c(1, 1);
            }
        }
        if na.op == Op::Const && mb < u64::MAX {
            let ka = self.const_big(a).unwrap();
            if ka[1..].iter().any(|x| *x != 0) || ka[0] >= mb {
                return self.c(1, 0);
            }
        }
        // Ite of constants against a constant.
        if nb.op == Op::Const && na.op == Op::Ite && self.is_const(na.b) && self.is_const(na.c) {
            let x = self.ult(na.b, b);
            let y = self.ult(na.c, b);
            return self.ite(na.a, x, y);
        }
        if na.op == Op::Const && nb.op == Op::Ite && self.is_const(nb.b) && self.is_const(nb.c) {
            let x = self.ult(a, nb.b);
            let y = self.ult(a, nb.c);
            return self.ite(nb.a, x, y);
        }
        // Equal high parts.
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) && na.a == nb.a {
            return self.ult(na.b, nb.b);
        }
        self.raw(Op::Ult, 1, a, b)
    }
    pub fn slt(&mut self, a: Ex, b: Ex) -> Ex {
        if a == b {
            return self.c(1, 0);
        }
        if let Some(r) = self.fold(Op::Slt, 1, a, b) {
            return r;
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        let w = na.w;
        if self.is_zero(b) {
            return self.extract(a, w - 1, 1);
        }
        if self.is_ones(a) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        // Both non-negative.
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        if self.is_zero(sa) && self.is_zero(sb) {
            return self.ult(a, b);
        }
        if nb.op == Op::Const && na.op == Op::Ite && self.is_const(na.b) && self.is_const(na.c) {
            let x = self.slt(na.b, b);
            let y = self.slt(na.c, b);
            return self.ite(na.a, x, y);
        }
        let _ = nb;
        self.raw(Op::Slt, 1, a, b)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if a == b {
            return a;
        }
        let nc = *self.node(c);
        if nc.op == Op::Const {
            return if nc.k != 0 { a } else { b };
        }
        if nc.op == Op::Xor && self.is_const(nc.b) {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            if self.is_const(a) {
                return if self.is_zero(a) {
                    let n = self.not(c);
                    self.and(n, b)
                } else {
                    self.or(c, b)
                };
            }
            if self.is_const(b) {
                return if self.is_zero(b) {
                    self.and(c, a)
                } else {
                    let n = self.not(c);
                    self.or(n, a)
                };
            }
        }
        let (na, nb) = (*self.node(a), *self.node(b));
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if w > 1 && na.op == Op::Const && nb.op == Op::Const {
            let one = self.c(w, 1);
            let zero = self.c(w, 0);
            if a == one && b == zero {
                return self.zext(c, w);
            }
            if a == zero && b == one {
                let n = self.not(c);
                return self.zext(n, w);
            }
        }
        self.intern(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv | Op::URem | Op::SDiv | Op::SRem => self.div(op, a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl | Op::LShr | Op::AShr => self.shift(op, a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            _ => unreachable!(),
        }
    }
    /// All ones.
    pub fn sext_one(&mut self, w: u32) -> Ex {
        let v = vec![u64::MAX; limbs(w)];
        self.big(w, v)
    }
    pub fn not_bits(&mut self, x: Ex) -> Ex {
        let w = self.w(x);
        let o = self.sext_one(w);
        self.xor(x, o)
    }
    pub fn bswap(&mut self, x: Ex) -> Ex {
        let w = self.w(x);
        let mut r: Option<Ex> = None;
        // Result byte i (from low) is source byte n-1-i.
        for i in 0..w / 8 {
            let b = self.extract(x, w - 8 - 8 * i, 8);
            r = Some(match r {
                None => b,
                Some(l) => self.concat(b, l),
            });
        }
        r.unwrap()
    }
    pub fn popcount(&mut self, x: Ex) -> Ex {
        let w = self.w(x);
        let mut r = self.c(w, 0);
        for i in 0..w {
            let b = self.extract(x, i, 1);
            let z = self.zext(b, w);
            r = self.add(r, z);
        }
        r
    }
    /// Number of leading (or trailing) zeros.
    pub fn clz(&mut self, x: Ex, trailing: bool) -> Ex {
        let w = self.w(x);
        let mut r = self.c(w, w as u64);
        for i in 0..w {
            // Later iterations take precedence.
            let pos = if trailing { w - 1 - i } else { i };
            let b = self.extract(x, pos, 1);
            let k = self.c(w, if trailing { pos as u64 } else { (w - 1 - pos) as u64 });
            r = self.ite(b, k, r);
        }
        r
    }

    // ----- substitution
    /// Bits of variables that the conjuncts fix: variable -> (width, mask, value).
    pub fn known(&self, pc: &[Ex]) -> FxMap<u32, (u32, Big, Big)> {
        let mut m = FxMap::default();
        for e in pc {
            self.learn(*e, &[1], &mut m, 0);
        }
        m
    }
    fn learn(&self, e: Ex, v: &[u64], m: &mut FxMap<u32, (u32, Big, Big)>, depth: u32) {
        if depth > 400 {
            return;
        }
        let n = *self.node(e);
        let slice = |lo: u32, w: u32| -> Big { (0..w).fold(vec![0; limbs(w)], |mut r, i| {
            if bit(v, lo + i) {
                r[i as usize / 64] |= 1 << (i % 64);
            }
            r
        }) };
        match n.op {
            Op::Var => {
                let x = m.entry(n.k as u32).or_insert_with(|| (n.w, vec![0; limbs(n.w)], vec![0; limbs(n.w)]));
                for i in 0..n.w {
                    x.1[i as usize / 64] |= 1 << (i % 64);
                    x.2[i as usize / 64] &= !(1 << (i % 64));
                    if bit(v, i) {
                        x.2[i as usize / 64] |= 1 << (i % 64);
                    }
                }
            }
            Op::Extract => {
                let b = *self.node(n.a);
                if b.op == Op::Var {
                    let x = m.entry(b.k as u32).or_insert_with(|| (b.w, vec![0; limbs(b.w)], vec![0; limbs(b.w)]));
                    for i in 0..n.w {
                        let j = i + n.k as u32;
                        x.1[j as usize / 64] |= 1 << (j % 64);
                        x.2[j as usize / 64] &= !(1 << (j % 64));
                        if bit(v, i) {
                            x.2[j as usize / 64] |= 1 << (j % 64);
                        }
                    }
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                self.learn(n.a, &slice(lw, n.w - lw), m, depth + 1);
                self.learn(n.b, &slice(0, lw), m, depth + 1);
            }
            Op::ZExt => {
                let w = self.w(n.a);
                self.learn(n.a, &slice(0, w), m, depth + 1);
            }
            Op::And if (0..n.w).all(|i| bit(v, i)) => {
                self.learn(n.a, v, m, depth + 1);
                self.learn(n.b, v, m, depth + 1);
            }
            Op::Or if (0..n.w).all(|i| !bit(v, i)) => {
                self.learn(n.a, v, m, depth + 1);
                self.learn(n.b, v, m, depth + 1);
            }
            Op::Xor if self.is_const(n.b) => {
                let c = self.const_big(n.b).unwrap();
                let x: Big = (0..limbs(n.w)).map(|i| v.get(i).copied().unwrap_or(0) ^ c[i]).collect();
                self.learn(n.a, &x, m, depth + 1);
            }
            Op::Eq if v[0] & 1 == 1 => {
                if let Some(c) = self.const_big(n.b) {
                    self.learn(n.a, &c, m, depth + 1);
                } else if let Some(c) = self.const_big(n.a) {
                    self.learn(n.b, &c, m, depth + 1);
                }
            }
            _ => {}
        }
    }
    /// `e` with the known bits filled in.
    pub fn rebuild(&mut self, e: Ex, known: &FxMap<u32, (u32, Big, Big)>, memo: &mut FxMap<Ex, Ex>) -> Ex {
        let n = *self.node(e);
        if n.op == Op::Const {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let r = match n.op {
            Op::Var => match known.get(&(n.k as u32)) {
                None => e,
                Some((w, mask, val)) => {
                    let mut r: Option<Ex> = None;
                    let mut i = 0;
                    while i < *w {
                        let k = bit(mask, i);
                        let mut j = i;
                        while j < *w && bit(mask, j) == k {
                            j += 1;
                        }
                        let piece = if k {
                            let b: Big = (0..j - i).fold(vec![0; limbs(j - i)], |mut b, x| {
                                if bit(val, i + x) {
                                    b[x as usize / 64] |= 1 << (x % 64);
                                }
                                b
                            });
                            self.big(j - i, b)
                        } else {
                            self.extract(e, i, j - i)
                        };
                        r = Some(match r {
                            None => piece,
                            Some(l) => self.concat(piece, l),
                        });
                        i = j;
                    }
                    r.unwrap()
                }
            },
            Op::Ite => {
                let c = self.rebuild(n.a, known, memo);
                match self.const_u64(c) {
                    Some(0) => self.rebuild(n.c, known, memo),
                    Some(_) => self.rebuild(n.b, known, memo),
                    None => {
                        let x = self.rebuild(n.b, known, memo);
                        let y = self.rebuild(n.c, known, memo);
                        self.ite(c, x, y)
                    }
                }
            }
            Op::Extract => {
                let x = self.rebuild(n.a, known, memo);
                self.extract(x, n.k as u32, n.w)
            }
            Op::ZExt => {
                let x = self.rebuild(n.a, known, memo);
                self.zext(x, n.w)
            }
            Op::SExt => {
                let x = self.rebuild(n.a, known, memo);
                self.sext(x, n.w)
            }
            _ => {
                let x = self.rebuild(n.a, known, memo);
                let y = self.rebuild(n.b, known, memo);
                if x == n.a && y == n.b {
                    e
                } else {
                    match n.op {
                        Op::Concat => self.concat(x, y),
                        Op::Eq => self.eq(x, y),
                        Op::Ult => self.ult(x, y),
                        Op::Slt => self.slt(x, y),
                        _ => self.bin(n.op, x, y),
                    }
                }
            }
        };
        memo.insert(e, r);
        r
    }

    // ----- evaluation
    pub fn eval(&self, e: Ex, model: &Model, memo: &mut FxMap<Ex, Big>) -> Big {
        let n = *self.node(e);
        match n.op {
            Op::Const => return self.const_big(e).unwrap(),
            Op::Var => return model.get(&(n.k as u32)).cloned().unwrap_or_else(|| vec![0; limbs(n.w)]),
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return v.clone();
        }
        let r = if n.op == Op::Ite {
            let c = self.eval(n.a, model, memo);
            if c[0] != 0 {
                self.eval(n.b, model, memo)
            } else {
                self.eval(n.c, model, memo)
            }
        } else {
            let a = self.eval(n.a, model, memo);
            let unary = matches!(n.op, Op::Extract | Op::ZExt | Op::SExt);
            let b = if unary { vec![0] } else { self.eval(n.b, model, memo) };
            let k = if n.op == Op::Concat { self.w(n.b) as u64 } else { n.k };
            apply(n.op, n.w, self.w(n.a), &a, &b, k)
        };
        memo.insert(e, r.clone());
        r
    }
    pub fn show(&self, e: Ex, depth: u32) -> String {
        let n = self.node(e);
        match n.op {
            Op::Const => {
                if n.w <= 64 {
                    format!("{:#x}:{}", n.k, n.w)
                } else {
                    format!("{:x?}:{}", self.bigs[n.k as usize], n.w)
                }
            }
            Op::Var => format!("{}#{}:{}", self.vars[n.k as usize].0, n.k, n.w),
            _ if depth == 0 => format!("..{}", n.w),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::ZExt | Op::SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "(ite {} {} {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub type Model = FxMap<u32, Big>;
