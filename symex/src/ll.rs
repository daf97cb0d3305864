//! Parser for the textual LLVM IR of the code under test.

use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Struct(Rc<Vec<Ty>>, bool),
    Arr(u64, Rc<Ty>),
    Vec(u32, Rc<Ty>),
    Meta,
    Label,
}

impl Ty {
    /// Bytes a load or store of this type touches.
    pub fn access(&self) -> u64 {
        match self {
            Ty::Int(b) => b.div_ceil(8) as u64,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label => 0,
            Ty::Int(b) => {
                let n = b.div_ceil(8) as u64;
                let a = self.align();
                n.div_ceil(a) * a
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(f, _) => {
                let mut o = 0;
                for t in f.iter() {
                    o = self.up(o, t) + t.size();
                }
                let a = self.align();
                o.div_ceil(a) * a
            }
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => match **t {
                Ty::Int(b) => (*n as u64 * b as u64).div_ceil(8),
                _ => *n as u64 * t.size(),
            },
        }
    }
    fn up(&self, o: u64, t: &Ty) -> u64 {
        if let Ty::Struct(_, true) = self {
            return o;
        }
        let a = t.align();
        o.div_ceil(a) * a
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(b) => {
                let n = b.div_ceil(8) as u64;
                n.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, _) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(..) => self.size().next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, _) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    o = self.up(o, t);
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                panic!("field index");
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.size(),
            _ => panic!("field of scalar {self:?}"),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field of scalar"),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..))
    }
    /// Bits of a scalar.
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(b) => *b,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {self:?}"),
        }
    }
}

/// Constants.
#[derive(Clone, Debug)]
pub enum K {
    Int(Vec<u64>),
    Zero,
    Undef,
    Global(String),
    Agg(Vec<(Ty, K)>),
    Str(Vec<u8>),
    Splat(Box<(Ty, K)>),
    Gep(Ty, Box<K>, Vec<(Ty, K)>),
    Bin(&'static str, Box<K>, Box<K>),
    Cast(Box<K>),
}

#[derive(Clone, Debug)]
pub enum O {
    Reg(u32),
    /// Constant of at most 64 bits.
    C(u64),
    K(Rc<(Ty, K)>),
    /// Index of a constant table.
    V(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum P {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    Zext,
    Sext,
    Same,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(String, u32),
    Ptr(O),
    Asm(String),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(B, Ty, u32, O, O),
    ICmp(P, Ty, u32, O, O),
    Cast(Cast, Ty, Ty, u32, O),
    Select(Ty, bool, u32, O, O, O),
    Load(Ty, u32, O),
    Store(Ty, O, O),
    Gep(u32, O, i64, Box<[(O, u32, u64)]>),
    Alloca(u32, u64, u64),
    Call(Option<u32>, Ty, Callee, Box<[(Ty, O)]>, Option<u32>),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Box<[(u64, u32)]>),
    Ret(Option<O>),
    Unreachable,
    ExtractValue(u32, O, Box<[u32]>),
    InsertValue(Ty, u32, O, O, Box<[u32]>),
    ExtractElement(u32, O, O),
    InsertElement(Ty, u32, O, O, O),
    Shuffle(Ty, u32, O, O, Box<[i32]>),
    AtomicRmw(String, Ty, u32, O, O),
    CmpXchg(Ty, u32, O, O, O),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Blk {
    pub start: u32,
    /// Per predecessor: parallel moves.
    pub phis: Vec<(u32, Vec<(u32, O)>)>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: u32,
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub nregs: u32,
    pub code: Vec<I>,
    pub blocks: Vec<Blk>,
    pub defined: bool,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<K>,
    pub align: u64,
}

#[derive(Debug, Default)]
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub aliases: Vec<(String, K)>,
    pub types: HashMap<String, Ty>,
    pub asm: String,
}

#[derive(Clone, Debug, PartialEq)]
enum T {
    Id(String),
    Loc(String),
    Glob(String),
    Num(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    P(char),
    Bang(String),
    Hash,
    Dots,
}

fn quoted(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // b[i] is the opening quote.
    i += 1;
    let mut out = Vec::new();
    while b[i] != b'"' {
        if b[i] == b'\\' && i + 2 < b.len() {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                out.push(u8::from_str_radix(h, 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

fn lex(s: &str) -> Vec<T> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'%' | b'@' => {
                let name;
                if b[i + 1] == b'"' {
                    let (n, j) = quoted(b, i + 1);
                    name = String::from_utf8_lossy(&n).into_owned();
                    i = j;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && idc(b[j]) {
                        j += 1;
                    }
                    name = s[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'%' { T::Loc(name) } else { T::Glob(name) });
            }
            b'"' => {
                let (n, j) = quoted(b, i);
                out.push(T::Str(n));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (n, j) = quoted(b, i + 1);
                out.push(T::CStr(n));
                i = j;
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::Bang(s[i + 1..j].to_string()));
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::Hash);
                i = j;
            }
            b'.' if b[i..].starts_with(b"...") => {
                out.push(T::Dots);
                i += 3;
            }
            b'0'..=b'9' | b'-' => {
                let mut j = i + 1;
                while j < b.len() && (b[j].is_ascii_alphanumeric() || b[j] == b'.' || ((b[j] == b'+' || b[j] == b'-') && (b[j-1] == b'e' || b[j-1] == b'E') && !s[i..j].starts_with("0x"))) {
                    j += 1;
                }
                out.push(T::Num(s[i..j].to_string()));
                i = j;
            }
            _ if idc(c) => {
                let mut j = i + 1;
                while j < b.len() && idc(b[j]) {
                    j += 1;
                }
                out.push(T::Id(s[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(T::P(c as char));
                i += 1;
            }
        }
    }
    out
}

pub fn parse_big(s: &str, bits: u32) -> Vec<u64> {
    let n = (bits as usize).div_ceil(64).max(1);
    let (neg, d) = match s.strip_prefix('-') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let mut v = vec![0u64; n];
    for ch in d.bytes() {
        if !ch.is_ascii_digit() {
            panic!("bad integer {s}");
        }
        let mut carry = (ch - b'0') as u128;
        for x in v.iter_mut() {
            let t = *x as u128 * 10 + carry;
            *x = t as u64;
            carry = t >> 64;
        }
    }
    if neg {
        let mut c = true;
        for x in v.iter_mut() {
            let (a, o) = (!*x).overflowing_add(c as u64);
            *x = a;
            c = o;
        }
    }
    mask_big(&mut v, bits);
    v
}

pub fn mask_big(v: &mut [u64], bits: u32) {
    for (i, x) in v.iter_mut().enumerate() {
        let lo = i as u32 * 64;
        if lo >= bits {
            *x = 0;
        } else if bits - lo < 64 {
            *x &= (1u64 << (bits - lo)) - 1;
        }
    }
}

struct Ps<'a> {
    t: &'a [T],
    i: usize,
    types: &'a HashMap<String, Ty>,
}

impl<'a> Ps<'a> {
    fn peek(&self) -> Option<&'a T> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> &'a T {
        self.i += 1;
        &self.t[self.i - 1]
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&T::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("expected {c} at {:?} in {:?}", self.peek(), &self.t[..self.t.len().min(60)]);
        }
    }
    fn id(&self) -> Option<&'a str> {
        match self.peek() {
            Some(T::Id(s)) => Some(s),
            _ => None,
        }
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.id() == Some(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        if self.eat('(') {
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    T::P('(') => d += 1,
                    T::P(')') => d -= 1,
                    _ => {}
                }
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(T::Id(s)) => {
                matches!(&s[..], "ptr" | "void" | "float" | "double" | "metadata" | "label" | "half" | "fp128" | "x86_fp80")
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(T::P('{')) | Some(T::P('<')) | Some(T::P('[')) => true,
            Some(T::Loc(n)) => self.types.contains_key(n),
            _ => false,
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            T::Id(s) => match &s[..] {
                "ptr" => {
                    if self.eat_id("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "metadata" => Ty::Meta,
                "label" => Ty::Label,
                _ if s.starts_with('i') => Ty::Int(s[1..].parse().unwrap_or_else(|_| panic!("type {s}"))),
                _ => panic!("type {s} in {:?}", &self.t[..self.t.len().min(40)]),
            },
            T::Loc(n) => self.types.get(n).unwrap_or_else(|| panic!("type {n}")).clone(),
            T::P('{') => {
                let f = self.ty_list('}');
                Ty::Struct(Rc::new(f), false)
            }
            T::P('<') => {
                if self.eat('{') {
                    let f = self.ty_list('}');
                    self.expect('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let T::Num(n) = self.next() else { panic!() };
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.expect('>');
                    Ty::Vec(n.parse().unwrap(), Rc::new(t))
                }
            }
            T::P('[') => {
                let T::Num(n) = self.next() else { panic!() };
                let n = n.parse().unwrap();
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            x => panic!("type at {x:?} in {:?}", &self.t[..self.t.len().min(40)]),
        };
        t
    }
    fn ty_list(&mut self, end: char) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.eat(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat(end) {
                return f;
            }
            self.expect(',');
        }
    }
    fn skip_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(T::Id(s)) => {
                    if matches!(
                        &s[..],
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                            | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc"
                            | "add" | "sub" | "xor" | "splat" | "ptrtoaddr" | "asm" | "addrspacecast"
                    ) {
                        return;
                    }
                    self.i += 1;
                    if s == "align" {
                        if let Some(T::Num(_)) = self.peek() {
                            self.i += 1;
                        }
                    }
                    self.skip_parens();
                }
                Some(T::Str(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn konst(&mut self, ty: &Ty) -> K {
        match self.next() {
            T::Num(n) => match ty {
                Ty::Int(b) => {
                    if let Some(h) = n.strip_prefix("u0x").or(n.strip_prefix("s0x")) {
                        K::Int(vec![u64::from_str_radix(h, 16).unwrap()])
                    } else {
                        K::Int(parse_big(n, *b))
                    }
                }
                Ty::F64 | Ty::F32 => {
                    let v = if let Some(h) = n.strip_prefix("0x") {
                        u64::from_str_radix(h, 16).unwrap()
                    } else {
                        n.parse::<f64>().unwrap().to_bits()
                    };
                    K::Int(vec![if *ty == Ty::F32 { (f64::from_bits(v) as f32).to_bits() as u64 } else { v }])
                }
                _ => panic!("number of type {ty:?}"),
            },
            T::Id(s) => match &s[..] {
                "true" => K::Int(vec![1]),
                "false" => K::Int(vec![0]),
                "null" | "zeroinitializer" | "none" => K::Zero,
                "undef" | "poison" => K::Undef,
                "splat" => {
                    self.expect('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    self.expect(')');
                    K::Splat(Box::new((t, k)))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        if self.is_p('(') && matches!(&self.t[self.i - 1], T::Id(s) if s == "inrange") {
                            self.skip_parens();
                        }
                    }
                    self.expect('(');
                    let t = self.ty();
                    self.expect(',');
                    let bt = self.ty();
                    let base = self.konst(&bt);
                    let mut idx = Vec::new();
                    while self.eat(',') {
                        let it = self.ty();
                        let k = self.konst(&it);
                        idx.push((it, k));
                    }
                    self.expect(')');
                    K::Gep(t, Box::new(base), idx)
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" | "addrspacecast" => {
                    self.expect('(');
                    let t = self.ty();
                    let k = self.konst(&t);
                    assert!(self.eat_id("to"));
                    let _ = self.ty();
                    self.expect(')');
                    K::Cast(Box::new(k))
                }
                "add" | "sub" | "xor" => {
                    let op = match &s[..] {
                        "add" => "add",
                        "sub" => "sub",
                        _ => "xor",
                    };
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.expect('(');
                    let t = self.ty();
                    let a = self.konst(&t);
                    self.expect(',');
                    let t = self.ty();
                    let b = self.konst(&t);
                    self.expect(')');
                    K::Bin(op, Box::new(a), Box::new(b))
                }
                _ => panic!("constant {s} in {:?}", &self.t[..self.t.len().min(60)]),
            },
            T::Glob(g) => K::Global(g.clone()),
            T::CStr(s) => K::Str(s.clone()),
            T::P('{') => K::Agg(self.k_list('}')),
            T::P('[') => K::Agg(self.k_list(']')),
            T::P('<') => {
                if self.eat('{') {
                    let l = self.k_list('}');
                    self.expect('>');
                    K::Agg(l)
                } else {
                    K::Agg(self.k_list('>'))
                }
            }
            T::Bang(_) => {
                // metadata operand
                while let Some(t) = self.peek() {
                    if matches!(t, T::P(')') | T::P(',')) {
                        break;
                    }
                    self.i += 1;
                }
                K::Undef
            }
            x => panic!("constant at {x:?} in {:?}", &self.t[..self.t.len().min(60)]),
        }
    }
    fn k_list(&mut self, end: char) -> Vec<(Ty, K)> {
        let mut f = Vec::new();
        if self.eat(end) {
            return f;
        }
        loop {
            let t = self.ty();
            let k = self.konst(&t);
            f.push((t, k));
            if self.eat(end) {
                return f;
            }
            self.expect(',');
        }
    }
}

struct Fp<'a> {
    names: HashMap<String, u32>,
    bnames: HashMap<String, u32>,
    types: &'a HashMap<String, Ty>,
}

impl Fp<'_> {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.names.len() as u32;
        *self.names.entry(n.to_string()).or_insert(l)
    }
    fn blk(&mut self, n: &str) -> u32 {
        let l = self.bnames.len() as u32;
        *self.bnames.entry(n.to_string()).or_insert(l)
    }
    fn val(&mut self, p: &mut Ps<'_>, ty: &Ty) -> O {
        if let Some(T::Loc(n)) = p.peek() {
            p.i += 1;
            return O::Reg(self.reg(n));
        }
        let k = p.konst(ty);
        match (&k, ty) {
            (K::Int(v), Ty::Int(b)) if *b <= 64 => O::C(v[0]),
            (K::Zero | K::Undef, Ty::Int(b)) if *b <= 64 => O::C(0),
            (K::Zero | K::Undef, Ty::Ptr) => O::C(0),
            (K::Int(v), Ty::F32 | Ty::F64) => O::C(v[0]),
            _ => O::K(Rc::new((ty.clone(), k))),
        }
    }
    fn tval(&mut self, p: &mut Ps<'_>) -> (Ty, O) {
        let t = p.ty();
        p.skip_attrs();
        let v = self.val(p, &t);
        (t, v)
    }
    fn label(&mut self, p: &mut Ps<'_>) -> u32 {
        assert!(p.eat_id("label"));
        let T::Loc(n) = p.next() else { panic!() };
        self.blk(n)
    }
}

enum Parsed {
    I(I),
    Phi(u32, Vec<(O, u32)>),
}

fn inst(fp: &mut Fp<'_>, toks: &[T]) -> Parsed {
    let types = fp.types;
    let mut p = Ps { t: toks, i: 0, types };
    let mut dst = None;
    if let (Some(T::Loc(n)), Some(T::P('='))) = (toks.first(), toks.get(1)) {
        dst = Some(fp.reg(n));
        p.i = 2;
    }
    let d = dst.unwrap_or(u32::MAX);
    let T::Id(op) = p.next() else { panic!("{toks:?}") };
    let i = match &op[..] {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl"
        | "lshr" | "ashr" => {
            let b = match &op[..] {
                "add" => B::Add,
                "sub" => B::Sub,
                "mul" => B::Mul,
                "udiv" => B::UDiv,
                "sdiv" => B::SDiv,
                "urem" => B::URem,
                "srem" => B::SRem,
                "and" => B::And,
                "or" => B::Or,
                "xor" => B::Xor,
                "shl" => B::Shl,
                "lshr" => B::LShr,
                _ => B::AShr,
            };
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty();
            let x = fp.val(&mut p, &t);
            p.expect(',');
            let y = fp.val(&mut p, &t);
            I::Bin(b, t, d, x, y)
        }
        "icmp" => {
            let mut pred = None;
            while !p.at_type() {
                let T::Id(s) = p.next() else { panic!() };
                pred = match &s[..] {
                    "eq" => Some(P::Eq),
                    "ne" => Some(P::Ne),
                    "ult" => Some(P::Ult),
                    "ule" => Some(P::Ule),
                    "ugt" => Some(P::Ugt),
                    "uge" => Some(P::Uge),
                    "slt" => Some(P::Slt),
                    "sle" => Some(P::Sle),
                    "sgt" => Some(P::Sgt),
                    "sge" => Some(P::Sge),
                    _ => pred,
                };
            }
            let t = p.ty();
            let x = fp.val(&mut p, &t);
            p.expect(',');
            let y = fp.val(&mut p, &t);
            I::ICmp(pred.unwrap(), t, d, x, y)
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty();
            let x = fp.val(&mut p, &t);
            assert!(p.eat_id("to"));
            let t2 = p.ty();
            let k = match &op[..] {
                "trunc" => Cast::Trunc,
                "zext" => Cast::Zext,
                "sext" => Cast::Sext,
                "bitcast" => Cast::Bitcast,
                _ => {
                    if t.bits() > t2.bits() {
                        Cast::Trunc
                    } else if t.bits() < t2.bits() {
                        Cast::Zext
                    } else {
                        Cast::Same
                    }
                }
            };
            I::Cast(k, t, t2, d, x)
        }
        "freeze" => {
            let (t, v) = fp.tval(&mut p);
            I::Cast(Cast::Same, t.clone(), t, d, v)
        }
        "select" => {
            while !p.at_type() {
                p.i += 1;
            }
            let ct = p.ty();
            let c = fp.val(&mut p, &ct);
            p.expect(',');
            let (t, a) = fp.tval(&mut p);
            p.expect(',');
            let (_, b) = fp.tval(&mut p);
            I::Select(t, matches!(ct, Ty::Vec(..)), d, c, a, b)
        }
        "load" => {
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty();
            p.expect(',');
            let (_, a) = fp.tval(&mut p);
            I::Load(t, d, a)
        }
        "store" => {
            while !p.at_type() {
                p.i += 1;
            }
            let (t, v) = fp.tval(&mut p);
            p.expect(',');
            let (_, a) = fp.tval(&mut p);
            I::Store(t, v, a)
        }
        "getelementptr" => {
            while !p.at_type() {
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens();
                }
            }
            let t = p.ty();
            p.expect(',');
            let (bt, base) = fp.tval(&mut p);
            if matches!(bt, Ty::Vec(..)) {
                return Parsed::I(I::Unsupported("vector gep".into()));
            }
            let mut off = 0i64;
            let mut idx = Vec::new();
            let mut cur = t.clone();
            let mut first = true;
            while p.eat(',') {
                if let Some(T::Bang(_)) = p.peek() {
                    break;
                }
                let (it, v) = fp.tval(&mut p);
                let bits = it.bits();
                let sx = |c: u64| ((c << (64 - bits)) as i64) >> (64 - bits);
                let scale;
                if first {
                    scale = t.size();
                    first = false;
                } else if let Ty::Struct(..) = cur {
                    let O::C(c) = v else { panic!("struct gep index") };
                    off += cur.field_off(c as usize) as i64;
                    cur = cur.field(c as usize);
                    continue;
                } else {
                    cur = cur.field(0);
                    scale = cur.size();
                }
                match v {
                    O::C(c) => off = off.wrapping_add(sx(c).wrapping_mul(scale as i64)),
                    v => idx.push((v, bits, scale)),
                }
            }
            I::Gep(d, base, off, idx.into())
        }
        "alloca" => {
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty();
            let mut n = 1;
            let mut align = t.align();
            while p.eat(',') {
                if p.eat_id("align") {
                    let T::Num(a) = p.next() else { panic!() };
                    align = a.parse().unwrap();
                } else if p.at_type() {
                    let (_, v) = fp.tval(&mut p);
                    let O::C(c) = v else { panic!("dynamic alloca") };
                    n = c;
                } else {
                    break;
                }
            }
            I::Alloca(d, t.size() * n, align)
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            let invoke = op == "invoke";
            if op != "call" && !invoke {
                assert!(p.eat_id("call"));
            }
            while !p.at_type() {
                p.i += 1;
                if p.is_p('(') {
                    p.skip_parens();
                }
            }
            let rt = p.ty();
            p.skip_attrs();
            if p.is_p('(') {
                // Function type of a variadic callee.
                p.skip_parens();
                p.skip_attrs();
            }
            let callee = match p.next() {
                T::Glob(g) => Callee::Fn(g.clone(), u32::MAX),
                T::Loc(n) => Callee::Ptr(O::Reg(fp.reg(n))),
                T::Id(s) if s == "asm" => {
                    let mut txt = String::new();
                    while !p.is_p('(') {
                        if let T::Str(s) = p.next() {
                            txt.push_str(&String::from_utf8_lossy(s));
                            txt.push('|');
                        }
                    }
                    Callee::Asm(txt)
                }
                T::Id(_) => {
                    p.i -= 1;
                    let k = p.konst(&Ty::Ptr);
                    Callee::Ptr(O::K(Rc::new((Ty::Ptr, k))))
                }
                x => panic!("callee {x:?} in {toks:?}"),
            };
            p.expect('(');
            let mut args = Vec::new();
            if !p.eat(')') {
                loop {
                    args.push(fp.tval(&mut p));
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',');
                }
            }
            let mut normal = None;
            if invoke {
                while !p.eat_id("to") {
                    p.i += 1;
                }
                normal = Some(fp.label(&mut p));
            }
            I::Call(if rt == Ty::Void { None } else { dst }, rt, callee, args.into(), normal)
        }
        "br" => {
            if p.id() == Some("label") {
                I::Br(fp.label(&mut p))
            } else {
                let (_, c) = fp.tval(&mut p);
                p.expect(',');
                let a = fp.label(&mut p);
                p.expect(',');
                let b = fp.label(&mut p);
                I::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (t, v) = fp.tval(&mut p);
            p.expect(',');
            let def = fp.label(&mut p);
            p.expect('[');
            let mut cs = Vec::new();
            while !p.eat(']') {
                let (_, c) = fp.tval(&mut p);
                p.expect(',');
                let l = fp.label(&mut p);
                let O::C(c) = c else { return Parsed::I(I::Unsupported("wide switch".into())) };
                cs.push((c, l));
            }
            I::Switch(t.bits(), v, def, cs.into())
        }
        "ret" => {
            if p.id() == Some("void") {
                I::Ret(None)
            } else {
                let (_, v) = fp.tval(&mut p);
                I::Ret(Some(v))
            }
        }
        "unreachable" => I::Unreachable,
        "phi" => {
            while !p.at_type() {
                p.i += 1;
            }
            let t = p.ty();
            let mut inc = Vec::new();
            loop {
                if !p.eat('[') {
                    break;
                }
                let v = fp.val(&mut p, &t);
                p.expect(',');
                let T::Loc(n) = p.next() else { panic!() };
                inc.push((v, fp.blk(n)));
                p.expect(']');
                if !p.eat(',') {
                    break;
                }
            }
            return Parsed::Phi(d, inc);
        }
        "extractvalue" => {
            let (_, v) = fp.tval(&mut p);
            let mut ix = Vec::new();
            while p.eat(',') {
                let T::Num(n) = p.next() else { break };
                ix.push(n.parse().unwrap());
            }
            I::ExtractValue(d, v, ix.into())
        }
        "insertvalue" => {
            let (t, v) = fp.tval(&mut p);
            p.expect(',');
            let (_, e) = fp.tval(&mut p);
            let mut ix = Vec::new();
            while p.eat(',') {
                let T::Num(n) = p.next() else { break };
                ix.push(n.parse().unwrap());
            }
            I::InsertValue(t, d, v, e, ix.into())
        }
        "extractelement" => {
            let (_, v) = fp.tval(&mut p);
            p.expect(',');
            let (_, i) = fp.tval(&mut p);
            I::ExtractElement(d, v, i)
        }
        "insertelement" => {
            let (t, v) = fp.tval(&mut p);
            p.expect(',');
            let (_, e) = fp.tval(&mut p);
            p.expect(',');
            let (_, i) = fp.tval(&mut p);
            I::InsertElement(t, d, v, e, i)
        }
        "shufflevector" => {
            let (t, a) = fp.tval(&mut p);
            p.expect(',');
            let (_, b) = fp.tval(&mut p);
            p.expect(',');
            let mt = p.ty();
            let n = mt.nfields();
            let k = p.konst(&mt);
            let m: Vec<i32> = match k {
                K::Zero | K::Undef => vec![0; n],
                K::Splat(s) => match s.1 {
                    K::Int(v) => vec![v[0] as i32; n],
                    _ => vec![0; n],
                },
                K::Agg(l) => l
                    .into_iter()
                    .map(|(_, k)| match k {
                        K::Int(v) => v[0] as i32,
                        K::Zero => 0,
                        _ => -1,
                    })
                    .collect(),
                _ => panic!("shuffle mask"),
            };
            let Ty::Vec(_, et) = t else { panic!() };
            I::Shuffle(Ty::Vec(n as u32, et), d, a, b, m.into())
        }
        "atomicrmw" => {
            p.eat_id("volatile");
            let T::Id(o) = p.next() else { panic!() };
            let (_, a) = fp.tval(&mut p);
            p.expect(',');
            let (t, v) = fp.tval(&mut p);
            I::AtomicRmw(o.clone(), t, d, a, v)
        }
        "cmpxchg" => {
            while !p.at_type() {
                p.i += 1;
            }
            let (_, a) = fp.tval(&mut p);
            p.expect(',');
            let (t, c) = fp.tval(&mut p);
            p.expect(',');
            let (_, n) = fp.tval(&mut p);
            I::CmpXchg(t, d, a, c, n)
        }
        "fence" => I::Nop,
        "landingpad" | "resume" | "cleanuppad" => I::Unsupported(op.clone()),
        _ => I::Unsupported(op.clone()),
    };
    Parsed::I(i)
}

pub fn parse(text: &str) -> Module {
    let mut m = Module::default();
    // Named types first.
    let lines: Vec<&str> = text.lines().collect();
    let mut pending: Vec<(String, Vec<T>)> = Vec::new();
    for l in &lines {
        if l.starts_with('%') && l.contains(" = type ") {
            let toks = lex(l);
            let T::Loc(n) = &toks[0] else { panic!() };
            if let Some(T::Id(s)) = toks.get(3) {
                if s == "opaque" {
                    m.types.insert(n.clone(), Ty::Struct(Rc::new(vec![]), false));
                    continue;
                }
            }
            pending.push((n.clone(), toks[3..].to_vec()));
        }
    }
    while !pending.is_empty() {
        let before = pending.len();
        pending.retain(|(n, t)| {
            let ok = t.iter().all(|x| match x {
                T::Loc(k) => m.types.contains_key(k),
                _ => true,
            });
            if ok {
                let types = m.types.clone();
                let mut p = Ps { t, i: 0, types: &types };
                let ty = p.ty();
                m.types.insert(n.clone(), ty);
            }
            !ok
        });
        assert!(pending.len() < before, "recursive types");
    }
    let types = m.types.clone();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("module asm") {
            // One block may span several quoted lines.
            let mut j = i;
            loop {
                let toks = lex(lines[j]);
                for t in toks {
                    if let T::Str(s) = t {
                        m.asm.push_str(&String::from_utf8_lossy(&s));
                        m.asm.push('\n');
                    }
                }
                j += 1;
                if j >= lines.len() || !(lines[j].trim_start().starts_with('"')) {
                    break;
                }
            }
            i = j;
            continue;
        }
        if l.starts_with('@') {
            let toks = lex(l);
            let mut p = Ps { t: &toks, i: 0, types: &types };
            let T::Glob(name) = p.next() else { panic!() };
            p.expect('=');
            let mut external = false;
            let mut alias = false;
            loop {
                match p.next() {
                    T::Id(s) => match &s[..] {
                        "global" | "constant" => break,
                        "external" | "extern_weak" => external = true,
                        "alias" => {
                            alias = true;
                            break;
                        }
                        "ifunc" => break,
                        _ => p.skip_parens(),
                    },
                    x => panic!("global {x:?}"),
                }
            }
            if alias {
                let _ = p.ty();
                p.expect(',');
                let t = p.ty();
                let k = p.konst(&t);
                m.aliases.push((name.clone(), k));
                i += 1;
                continue;
            }
            let ty = p.ty();
            let init = if external { None } else { Some(p.konst(&ty)) };
            let mut align = ty.align().max(8);
            while p.i < toks.len() {
                if p.eat_id("align") {
                    if let T::Num(a) = p.next() {
                        align = a.parse().unwrap();
                    }
                } else {
                    p.i += 1;
                }
            }
            m.globals.push(Global { name: name.clone(), ty, init, align });
            i += 1;
            continue;
        }
        if l.starts_with("define") || l.starts_with("declare") {
            let toks = lex(l);
            let mut p = Ps { t: &toks, i: 1, types: &types };
            // Return type: the type right before the global name.
            let gi = toks.iter().position(|t| matches!(t, T::Glob(_))).unwrap();
            let mut ret = Ty::Void;
            while p.i < gi {
                if p.at_type() {
                    ret = p.ty();
                } else {
                    p.i += 1;
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
            }
            let T::Glob(name) = p.next() else { panic!() };
            let mut fp = Fp { names: HashMap::new(), bnames: HashMap::new(), types: &types };
            let mut params = Vec::new();
            p.expect('(');
            let mut n = 0;
            if !p.eat(')') {
                loop {
                    if p.peek() == Some(&T::Dots) {
                        p.i += 1;
                        p.expect(')');
                        break;
                    }
                    let t = p.ty();
                    p.skip_attrs();
                    params.push(t);
                    if let Some(T::Loc(nm)) = p.peek() {
                        p.i += 1;
                        fp.reg(nm);
                    } else {
                        fp.reg(&n.to_string());
                    }
                    n += 1;
                    if p.eat(')') {
                        break;
                    }
                    p.expect(',');
                }
            }
            let fid = m.funcs.len() as u32;
            m.fidx.insert(name.clone(), fid);
            let mut f = Func {
                name: name.clone(),
                nparams: params.len() as u32,
                params,
                ret,
                nregs: 0,
                code: Vec::new(),
                blocks: Vec::new(),
                defined: l.starts_with("define"),
            };
            i += 1;
            if f.defined {
                let mut blocks: HashMap<u32, (u32, Vec<(u32, Vec<(O, u32)>)>)> = HashMap::new();
                let mut cur: Option<u32> = None;
                while lines[i] != "}" {
                    let l = lines[i];
                    if l.is_empty() || l.starts_with(';') {
                        i += 1;
                        continue;
                    }
                    if !l.starts_with(' ') {
                        // Block label.
                        let lab = l.split(';').next().unwrap().trim().trim_end_matches(':');
                        let lab = if let Some(s) = lab.strip_prefix('"') {
                            s.trim_end_matches('"').to_string()
                        } else {
                            lab.to_string()
                        };
                        let b = fp.blk(&lab);
                        if blocks.is_empty() && cur.is_none() {
                            assert!(b == 0);
                        }
                        blocks.insert(b, (f.code.len() as u32, Vec::new()));
                        cur = Some(b);
                        i += 1;
                        continue;
                    }
                    if cur.is_none() {
                        // Unlabelled entry block: numbered after the parameters.
                        let b = fp.blk(&n.to_string());
                        assert!(b == 0);
                        blocks.insert(b, (0, Vec::new()));
                        cur = Some(b);
                    }
                    let mut stmt = l.to_string();
                    let tl = l.trim_start();
                    i += 1;
                    if tl.starts_with("switch ") && !tl.contains(']') {
                        while !lines[i].trim_start().starts_with(']') {
                            stmt.push(' ');
                            stmt.push_str(lines[i]);
                            i += 1;
                        }
                        stmt.push_str(" ]");
                        i += 1;
                    } else if lines[i].trim_start().starts_with("to label") {
                        stmt.push(' ');
                        stmt.push_str(lines[i]);
                        i += 1;
                    } else {
                        while lines[i].starts_with("          ")
                            && (lines[i].trim_start().starts_with("cleanup")
                                || lines[i].trim_start().starts_with("catch")
                                || lines[i].trim_start().starts_with("filter"))
                        {
                            i += 1;
                        }
                    }
                    let toks = lex(&stmt);
                    if toks.is_empty() {
                        continue;
                    }
                    match inst(&mut fp, &toks) {
                        Parsed::I(x) => f.code.push(x),
                        Parsed::Phi(d, inc) => blocks.get_mut(&cur.unwrap()).unwrap().1.push((d, inc)),
                    }
                }
                let nb = fp.bnames.len() as u32;
                for b in 0..nb {
                    let mut blk = Blk::default();
                    if let Some((start, phis)) = blocks.remove(&b) {
                        blk.start = start;
                        for (d, inc) in phis {
                            for (v, pred) in inc {
                                match blk.phis.iter_mut().find(|x| x.0 == pred) {
                                    Some(e) => {
                                        if !e.1.iter().any(|m| m.0 == d) {
                                            e.1.push((d, v))
                                        }
                                    }
                                    None => blk.phis.push((pred, vec![(d, v)])),
                                }
                            }
                        }
                    } else {
                        blk.start = u32::MAX;
                    }
                    f.blocks.push(blk);
                }
                f.nregs = fp.names.len() as u32;
                i += 1;
            }
            m.funcs.push(f);
            continue;
        }
        i += 1;
    }
    // Link direct calls.
    let idx = &m.fidx;
    for f in m.funcs.iter_mut() {
        for x in f.code.iter_mut() {
            if let I::Call(_, _, Callee::Fn(n, id), _, _) = x {
                if let Some(i) = idx.get(n) {
                    *id = *i;
                }
            }
        }
    }
    m
}
