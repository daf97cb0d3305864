//! A `revmc` backend that records the IR the real translator emits, and an evaluator for it.
//!
//! The real LLVM backend cannot be linked in this sandbox, so the semantics of each builder
//! operation is taken from the LLVM language reference for the instruction `revmc-llvm` emits.
//! Operations whose LLVM result is poison (over-wide shifts) or undefined (division by zero,
//! reaching `unreachable`) are reported instead of being given a value.

use revmc_backend::*;
use ruint::aliases::U256;
use std::path::Path;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Ptr,
    Int(u32),
    /// Array of integers: element bits, length.
    Arr(u32, u32),
}

impl Ty {
    pub fn bits(self) -> u32 {
        match self {
            Ty::Ptr => 64,
            Ty::Int(b) => b,
            Ty::Arr(b, n) => b * n,
        }
    }
    pub fn bytes(self) -> usize {
        match self {
            Ty::Ptr => 8,
            Ty::Int(b) => b.div_ceil(8) as usize,
            Ty::Arr(b, n) => b.div_ceil(8) as usize * n as usize,
        }
    }
}

pub type V = u32;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    UMax,
    UMin,
    UAddSat,
}

#[derive(Clone, Debug)]
pub enum Op {
    Param(u32),
    Const(U256),
    StrPtr(u32),
    SlotAddr(u32),
    Load(V),
    Store(V, V),
    Bin(Bin, V, V),
    Icmp(IntCC, V, V),
    Select(V, V, V),
    Phi(Vec<(V, u32)>),
    Zext(V),
    Sext(V),
    Trunc(V),
    Bswap(V),
    Not(V),
    Clz(V),
    Gep(Ty, V, Vec<V>),
    Call(u32, Vec<V>),
    Memcpy(V, V, V),
    Assume(V),
    IsConst(V),
    // Terminators.
    Br(u32),
    Brif(V, u32, u32),
    Switch(V, u32, Vec<(u64, u32)>),
    Ret(Option<V>),
    Unreachable,
}

#[derive(Clone, Debug)]
pub struct Inst {
    pub op: Op,
    pub ty: Ty,
}

#[derive(Clone, Debug, Default)]
pub struct Block {
    pub insts: Vec<V>,
}

#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub params: Vec<Ty>,
    pub ret: Option<Ty>,
    pub address: Option<usize>,
    pub insts: Vec<Inst>,
    pub blocks: Vec<Block>,
    pub slots: Vec<Ty>,
    pub cur: Option<u32>,
    /// Pointer parameters whose contents need not be there after the function's return.
    pub dead: u32,
    /// What is promised about the pointer parameters of an external function.
    pub promises: [Promise; 4],
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Promise {
    pub read_only: bool,
    pub write_only: bool,
    /// Bytes that can be accessed.
    pub size: usize,
    /// Bytes that are written before they are read.
    pub initializes: usize,
}

#[derive(Debug)]
pub struct RecBackend {
    pub config: BackendConfig,
    pub funcs: Vec<Func>,
    /// The functions before this one went with a module that was cleared.
    pub first: usize,
    pub strs: Vec<String>,
}

impl RecBackend {
    pub fn new() -> Self {
        let config = BackendConfig { debug_assertions: false, ..Default::default() };
        Self { config, funcs: Vec::new(), first: 0, strs: Vec::new() }
    }
}

impl BackendTypes for RecBackend {
    type Type = Ty;
    type Value = V;
    type StackSlot = u32;
    type BasicBlock = u32;
    type Function = u32;
}

impl TypeMethods for RecBackend {
    fn type_ptr(&self) -> Ty {
        Ty::Ptr
    }
    fn type_ptr_sized_int(&self) -> Ty {
        Ty::Int(64)
    }
    fn type_int(&self, bits: u32) -> Ty {
        Ty::Int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        Ty::Arr(ty.bits(), size)
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        ty.bits()
    }
}

impl Backend for RecBackend {
    type Builder<'a> = RecBuilder<'a>;
    type FuncId = u32;

    fn ir_extension(&self) -> &'static str {
        "rec"
    }
    fn set_module_name(&mut self, _name: &str) {}
    fn config(&self) -> &BackendConfig {
        &self.config
    }
    fn apply_config(&mut self, config: BackendConfig) {
        self.config = config;
    }
    fn dump_ir(&mut self, _path: &Path) -> Result<()> {
        Ok(())
    }
    fn dump_disasm(&mut self, _path: &Path) -> Result<()> {
        Ok(())
    }
    fn is_aot(&self) -> bool {
        false
    }
    fn function_name_is_unique(&self, name: &str) -> bool {
        !self.funcs[self.first..].iter().any(|f| f.name == name)
    }
    fn build_function(
        &mut self,
        name: &str,
        ret: Option<Ty>,
        params: &[Ty],
        _param_names: &[&str],
        _linkage: Linkage,
    ) -> Result<(RecBuilder<'_>, u32)> {
        let id = self.funcs.len() as u32;
        self.funcs.push(Func::new(name, params, ret, None));
        let mut b = RecBuilder { be: self, f: id };
        let e = b.create_block("entry");
        b.switch_to_block(e);
        Ok((b, id))
    }
    fn verify_module(&mut self) -> Result<()> {
        Ok(())
    }
    fn optimize_module(&mut self) -> Result<()> {
        Ok(())
    }
    fn write_object<W: std::io::Write>(&mut self, _w: W) -> Result<()> {
        Ok(())
    }
    fn jit_function(&mut self, _id: u32) -> Result<usize> {
        Ok(1)
    }
    fn function_name(&self, id: u32) -> Option<&str> {
        self.funcs.get(id as usize).map(|f| &f.name[..])
    }
    fn clear_ir(&mut self) -> Result<()> {
        self.first = self.funcs.len();
        Ok(())
    }
    unsafe fn free_function(&mut self, _id: u32) -> Result<()> {
        Ok(())
    }
    unsafe fn free_all_functions(&mut self) -> Result<()> {
        Ok(())
    }
}

impl Func {
    fn new(name: &str, params: &[Ty], ret: Option<Ty>, address: Option<usize>) -> Self {
        Self {
            name: name.to_string(),
            params: params.to_vec(),
            ret,
            address,
            insts: Vec::new(),
            blocks: Vec::new(),
            slots: Vec::new(),
            cur: None,
            dead: 0, promises: Default::default(),
        }
    }
}

#[allow(missing_debug_implementations)]
pub struct RecBuilder<'a> {
    be: &'a mut RecBackend,
    f: u32,
}

impl BackendTypes for RecBuilder<'_> {
    type Type = Ty;
    type Value = V;
    type StackSlot = u32;
    type BasicBlock = u32;
    type Function = u32;
}

impl TypeMethods for RecBuilder<'_> {
    fn type_ptr(&self) -> Ty {
        Ty::Ptr
    }
    fn type_ptr_sized_int(&self) -> Ty {
        Ty::Int(64)
    }
    fn type_int(&self, bits: u32) -> Ty {
        Ty::Int(bits)
    }
    fn type_array(&self, ty: Ty, size: u32) -> Ty {
        Ty::Arr(ty.bits(), size)
    }
    fn type_bit_width(&self, ty: Ty) -> u32 {
        ty.bits()
    }
}

impl RecBuilder<'_> {
    fn func(&mut self) -> &mut Func {
        &mut self.be.funcs[self.f as usize]
    }
    fn emit(&mut self, op: Op, ty: Ty) -> V {
        let f = self.func();
        let v = f.insts.len() as V;
        f.insts.push(Inst { op, ty });
        let cur = f.cur.expect("no current block") as usize;
        f.blocks[cur].insts.push(v);
        v
    }
    /// Constants and parameters are not part of a block.
    fn constant(&mut self, op: Op, ty: Ty) -> V {
        let f = self.func();
        let v = f.insts.len() as V;
        f.insts.push(Inst { op, ty });
        v
    }
    fn ty(&mut self, v: V) -> Ty {
        self.func().insts[v as usize].ty
    }
    fn bin(&mut self, op: Bin, a: V, b: V) -> V {
        let ta = self.ty(a);
        let tb = self.ty(b);
        assert!(ta == tb, "operand types differ: {ta:?} {tb:?}");
        self.emit(Op::Bin(op, a, b), ta)
    }
    fn imm(&mut self, like: V, imm: i64) -> V {
        let ty = self.ty(like);
        self.iconst(ty, imm)
    }
}

pub fn mask(bits: u32) -> U256 {
    if bits >= 256 { U256::MAX } else { (U256::ONE << bits as usize) - U256::ONE }
}

impl Builder for RecBuilder<'_> {
    fn create_block(&mut self, _name: &str) -> u32 {
        let f = self.func();
        f.blocks.push(Block::default());
        f.blocks.len() as u32 - 1
    }
    fn create_block_after(&mut self, _after: u32, name: &str) -> u32 {
        self.create_block(name)
    }
    fn switch_to_block(&mut self, block: u32) {
        self.func().cur = Some(block);
    }
    fn seal_block(&mut self, _block: u32) {}
    fn seal_all_blocks(&mut self) {}
    fn set_current_block_cold(&mut self) {}
    fn current_block(&mut self) -> Option<u32> {
        self.func().cur
    }
    fn block_addr(&mut self, _block: u32) -> Option<V> {
        None
    }
    fn add_comment_to_current_inst(&mut self, _comment: &str) {}

    fn fn_param(&mut self, index: usize) -> V {
        let ty = self.func().params[index];
        self.constant(Op::Param(index as u32), ty)
    }
    fn num_fn_params(&self) -> usize {
        self.be.funcs[self.f as usize].params.len()
    }
    fn bool_const(&mut self, value: bool) -> V {
        self.constant(Op::Const(U256::from(value as u64)), Ty::Int(1))
    }
    fn iconst(&mut self, ty: Ty, value: i64) -> V {
        let v = if value < 0 {
            (U256::ZERO.wrapping_sub(U256::from(value.unsigned_abs()))) & mask(ty.bits())
        } else {
            U256::from(value as u64) & mask(ty.bits())
        };
        self.constant(Op::Const(v), ty)
    }
    fn uconst(&mut self, ty: Ty, value: u64) -> V {
        let v = U256::from(value) & mask(ty.bits());
        self.constant(Op::Const(v), ty)
    }
    fn iconst_256(&mut self, value: impl TryInto<U256>) -> V {
        let v = value.try_into().ok().expect("invalid U256 value");
        self.constant(Op::Const(v), Ty::Int(256))
    }
    fn str_const(&mut self, value: &str) -> V {
        self.be.strs.push(value.to_string());
        let i = self.be.strs.len() as u32 - 1;
        self.constant(Op::StrPtr(i), Ty::Ptr)
    }
    fn nullptr(&mut self) -> V {
        self.constant(Op::Const(U256::ZERO), Ty::Ptr)
    }
    fn new_stack_slot_raw(&mut self, ty: Ty, _name: &str) -> u32 {
        let f = self.func();
        f.slots.push(ty);
        f.slots.len() as u32 - 1
    }
    fn stack_load(&mut self, ty: Ty, slot: u32, name: &str) -> V {
        let p = self.stack_addr(ty, slot);
        self.load(ty, p, name)
    }
    fn stack_store(&mut self, value: V, slot: u32) {
        let ty = self.ty(value);
        let p = self.stack_addr(ty, slot);
        self.store(value, p)
    }
    fn stack_addr(&mut self, _ty: Ty, slot: u32) -> V {
        self.constant(Op::SlotAddr(slot), Ty::Ptr)
    }
    fn load(&mut self, ty: Ty, ptr: V, _name: &str) -> V {
        assert!(self.ty(ptr) == Ty::Ptr);
        self.emit(Op::Load(ptr), ty)
    }
    fn load_aligned(&mut self, ty: Ty, ptr: V, _align: usize, name: &str) -> V {
        self.load(ty, ptr, name)
    }
    fn store(&mut self, value: V, ptr: V) {
        assert!(self.ty(ptr) == Ty::Ptr);
        let ty = self.ty(value);
        self.emit(Op::Store(value, ptr), ty);
    }
    fn store_aligned(&mut self, value: V, ptr: V, _align: usize) {
        self.store(value, ptr)
    }
    fn nop(&mut self) {}
    fn ret(&mut self, values: &[V]) {
        assert!(values.len() <= 1);
        self.emit(Op::Ret(values.first().copied()), Ty::Int(0));
    }
    fn assume(&mut self, cond: V) {
        self.emit(Op::Assume(cond), Ty::Int(0));
    }
    fn icmp(&mut self, cond: IntCC, lhs: V, rhs: V) -> V {
        assert!(self.ty(lhs) == self.ty(rhs), "icmp operand types differ");
        self.emit(Op::Icmp(cond, lhs, rhs), Ty::Int(1))
    }
    fn icmp_imm(&mut self, cond: IntCC, lhs: V, rhs: i64) -> V {
        let rhs = self.imm(lhs, rhs);
        self.icmp(cond, lhs, rhs)
    }
    fn is_null(&mut self, ptr: V) -> V {
        let n = self.nullptr();
        self.icmp(IntCC::Equal, ptr, n)
    }
    fn is_not_null(&mut self, ptr: V) -> V {
        let n = self.nullptr();
        self.icmp(IntCC::NotEqual, ptr, n)
    }
    fn br(&mut self, dest: u32) {
        self.emit(Op::Br(dest), Ty::Int(0));
    }
    fn brif(&mut self, cond: V, then_block: u32, else_block: u32) {
        assert!(self.ty(cond) == Ty::Int(1));
        self.emit(Op::Brif(cond, then_block, else_block), Ty::Int(0));
    }
    fn switch(&mut self, index: V, default: u32, targets: &[(u64, u32)], _cold: bool) {
        self.emit(Op::Switch(index, default, targets.to_vec()), Ty::Int(0));
    }
    fn br_indirect(&mut self, _address: V, _destinations: &[u32]) {
        unimplemented!("br_indirect")
    }
    fn phi(&mut self, ty: Ty, incoming: &[(V, u32)]) -> V {
        self.emit(Op::Phi(incoming.to_vec()), ty)
    }
    fn select(&mut self, cond: V, a: V, b: V) -> V {
        assert!(self.ty(cond) == Ty::Int(1));
        assert!(self.ty(a) == self.ty(b), "select operand types differ");
        let ty = self.ty(a);
        self.emit(Op::Select(cond, a, b), ty)
    }
    fn iadd(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Add, a, b)
    }
    fn isub(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Sub, a, b)
    }
    fn imul(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Mul, a, b)
    }
    fn udiv(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UDiv, a, b)
    }
    fn sdiv(&mut self, a: V, b: V) -> V {
        self.bin(Bin::SDiv, a, b)
    }
    fn urem(&mut self, a: V, b: V) -> V {
        self.bin(Bin::URem, a, b)
    }
    fn srem(&mut self, a: V, b: V) -> V {
        self.bin(Bin::SRem, a, b)
    }
    fn iadd_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.iadd(a, b)
    }
    fn isub_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.isub(a, b)
    }
    fn imul_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.imul(a, b)
    }
    fn uadd_overflow(&mut self, a: V, b: V) -> (V, V) {
        let r = self.iadd(a, b);
        let o = self.icmp(IntCC::UnsignedLessThan, r, b);
        (r, o)
    }
    fn usub_overflow(&mut self, a: V, b: V) -> (V, V) {
        let r = self.isub(a, b);
        let o = self.icmp(IntCC::UnsignedLessThan, a, b);
        (r, o)
    }
    fn uadd_sat(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UAddSat, a, b)
    }
    fn umax(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UMax, a, b)
    }
    fn umin(&mut self, a: V, b: V) -> V {
        self.bin(Bin::UMin, a, b)
    }
    fn bswap(&mut self, v: V) -> V {
        let ty = self.ty(v);
        self.emit(Op::Bswap(v), ty)
    }
    fn bitor(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Or, a, b)
    }
    fn bitand(&mut self, a: V, b: V) -> V {
        self.bin(Bin::And, a, b)
    }
    fn bitxor(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Xor, a, b)
    }
    fn bitnot(&mut self, v: V) -> V {
        let ty = self.ty(v);
        self.emit(Op::Not(v), ty)
    }
    fn clz(&mut self, v: V) -> V {
        let ty = self.ty(v);
        self.emit(Op::Clz(v), ty)
    }
    fn bitor_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.bitor(a, b)
    }
    fn bitand_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.bitand(a, b)
    }
    fn bitxor_imm(&mut self, a: V, b: i64) -> V {
        let b = self.imm(a, b);
        self.bitxor(a, b)
    }
    fn ishl(&mut self, a: V, b: V) -> V {
        self.bin(Bin::Shl, a, b)
    }
    fn ushr(&mut self, a: V, b: V) -> V {
        self.bin(Bin::LShr, a, b)
    }
    fn sshr(&mut self, a: V, b: V) -> V {
        self.bin(Bin::AShr, a, b)
    }
    fn zext(&mut self, ty: Ty, v: V) -> V {
        assert!(ty.bits() >= self.ty(v).bits());
        self.emit(Op::Zext(v), ty)
    }
    fn sext(&mut self, ty: Ty, v: V) -> V {
        assert!(ty.bits() >= self.ty(v).bits());
        self.emit(Op::Sext(v), ty)
    }
    fn ireduce(&mut self, to: Ty, v: V) -> V {
        assert!(to.bits() <= self.ty(v).bits());
        self.emit(Op::Trunc(v), to)
    }
    fn inttoptr(&mut self, v: V, ty: Ty) -> V {
        self.emit(Op::Zext(v), ty)
    }
    fn gep(&mut self, ty: Ty, ptr: V, indexes: &[V], _name: &str) -> V {
        assert!(self.ty(ptr) == Ty::Ptr);
        self.emit(Op::Gep(ty, ptr, indexes.to_vec()), Ty::Ptr)
    }
    fn tail_call(&mut self, function: u32, args: &[V], _tail: TailCallKind) -> Option<V> {
        assert!(function as usize >= self.be.first, "call of a function that was cleared");
        let n = self.be.funcs[function as usize].params.len();
        assert!(n == args.len(), "call argument count");
        for i in 0..n {
            let want = self.be.funcs[function as usize].params[i];
            let got = self.ty(args[i]);
            assert!(want == got, "call argument type: {want:?} {got:?}");
        }
        let ret = self.be.funcs[function as usize].ret;
        let v = self.emit(Op::Call(function, args.to_vec()), ret.unwrap_or(Ty::Int(0)));
        ret.map(|_| v)
    }
    fn is_compile_time_known(&mut self, v: V) -> Option<V> {
        Some(self.emit(Op::IsConst(v), Ty::Int(1)))
    }
    fn memcpy(&mut self, dst: V, src: V, len: V) {
        self.emit(Op::Memcpy(dst, src, len), Ty::Int(0));
    }
    fn unreachable(&mut self) {
        self.emit(Op::Unreachable, Ty::Int(0));
    }
    fn get_or_build_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        _linkage: Linkage,
        build: impl FnOnce(&mut Self),
    ) -> u32 {
        if let Some(f) = self.get_function(name) {
            return f;
        }
        let id = self.be.funcs.len() as u32;
        self.be.funcs.push(Func::new(name, params, ret, None));
        let prev = std::mem::replace(&mut self.f, id);
        let e = self.create_block("entry");
        self.switch_to_block(e);
        build(self);
        self.f = prev;
        id
    }
    fn get_function(&mut self, name: &str) -> Option<u32> {
        let first = self.be.first;
        self.be.funcs[first..].iter().position(|f| f.name == name).map(|i| (first + i) as u32)
    }
    fn get_printf_function(&mut self) -> u32 {
        unimplemented!("printf")
    }
    fn add_function(
        &mut self,
        name: &str,
        params: &[Ty],
        ret: Option<Ty>,
        address: Option<usize>,
        _linkage: Linkage,
        _call_conv: CallConv,
    ) -> u32 {
        self.be.funcs.push(Func::new(name, params, ret, address));
        self.be.funcs.len() as u32 - 1
    }
    fn add_function_attribute(
        &mut self,
        function: Option<u32>,
        attribute: Attribute,
        loc: FunctionAttributeLocation,
    ) {
        let FunctionAttributeLocation::Param(i) = loc else { return };
        let f = &mut self.be.funcs[function.unwrap_or(self.f) as usize];
        let Some(p) = f.promises.get_mut(i as usize) else { return };
        match attribute {
            Attribute::DeadOnReturn => f.dead |= 1 << i,
            Attribute::ReadOnly | Attribute::ReadNone => p.read_only = true,
            Attribute::WriteOnly => p.write_only = true,
            Attribute::Dereferenceable(n) => p.size = n as usize,
            Attribute::Initializes(n) => p.initializes = n as usize,
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Evaluation.

/// Upper bound on evaluated IR instructions per call of a compiled function.
pub const MAX_STEPS: usize = 200_000;

/// The result value given to an operation whose LLVM semantics is poison.
const POISON: U256 = U256::from_limbs([
    0xBADBADBADBADBAD1,
    0xBADBADBADBADBAD2,
    0xBADBADBADBADBAD3,
    0xBADBADBADBADBAD4,
]);

#[inline(never)]
fn sign(v: U256, bits: u32) -> bool {
    v.bit(bits as usize - 1)
}

#[inline(never)]
fn slt(a: U256, b: U256, bits: u32) -> bool {
    let (sa, sb) = (sign(a, bits), sign(b, bits));
    if sa != sb { sa } else { a < b }
}

#[inline(never)]
fn load(ptr: u64, ty: Ty) -> U256 {
    unsafe {
        match ty.bytes() {
            1 => U256::from((ptr as *const u8).read() & if ty.bits() == 1 { 1 } else { 0xff }),
            2 => U256::from((ptr as *const u16).read_unaligned()),
            4 => U256::from((ptr as *const u32).read_unaligned()),
            8 => U256::from((ptr as *const u64).read_unaligned()),
            n if n <= 32 => {
                let mut buf = [0u8; 32];
                std::ptr::copy_nonoverlapping(ptr as *const u8, buf.as_mut_ptr(), n);
                U256::from_le_bytes(buf)
            }
            n => panic!("load of {n} bytes"),
        }
    }
}

#[inline(never)]
fn store(ptr: u64, ty: Ty, v: U256) {
    unsafe {
        match ty.bytes() {
            1 => (ptr as *mut u8).write(v.as_limbs()[0] as u8),
            2 => (ptr as *mut u16).write_unaligned(v.as_limbs()[0] as u16),
            4 => (ptr as *mut u32).write_unaligned(v.as_limbs()[0] as u32),
            8 => (ptr as *mut u64).write_unaligned(v.as_limbs()[0]),
            n if n <= 32 => {
                let buf: [u8; 32] = v.to_le_bytes();
                std::ptr::copy_nonoverlapping(buf.as_ptr(), ptr as *mut u8, n);
            }
            n => panic!("store of {n} bytes"),
        }
    }
}

#[inline(never)]
fn lo(v: U256) -> u64 {
    v.as_limbs()[0]
}

#[inline(never)]
fn bin_small(op: Bin, a: u64, b: u64, bits: u32) -> u64 {
    let m = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
    let sx = |v: u64| ((v << (64 - bits)) as i64) >> (64 - bits);
    (match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => {
            crate::sym::check(b != 0, "emitted IR divides by zero");
            a / b
        }
        Bin::URem => {
            crate::sym::check(b != 0, "emitted IR divides by zero");
            a % b
        }
        Bin::SDiv => {
            crate::sym::check(b != 0, "emitted IR divides by zero");
            sx(a).wrapping_div(sx(b)) as u64
        }
        Bin::SRem => {
            crate::sym::check(b != 0, "emitted IR divides by zero");
            sx(a).wrapping_rem(sx(b)) as u64
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl => {
            if b >= bits as u64 {
                POISON.as_limbs()[0]
            } else {
                a << b
            }
        }
        Bin::LShr => {
            if b >= bits as u64 {
                POISON.as_limbs()[0]
            } else {
                a >> b
            }
        }
        Bin::AShr => {
            if b >= bits as u64 {
                POISON.as_limbs()[0]
            } else {
                (sx(a) >> b) as u64
            }
        }
        Bin::UMax => a.max(b),
        Bin::UMin => a.min(b),
        Bin::UAddSat => {
            let r = a.wrapping_add(b) & m;
            if r < a { m } else { r }
        }
    }) & m
}

#[inline(never)]
fn bin_big(op: Bin, a: U256, b: U256, bits: u32) -> U256 {
    let m = mask(bits);
    (match op {
        Bin::Add => a.wrapping_add(b),
        Bin::Sub => a.wrapping_sub(b),
        Bin::Mul => a.wrapping_mul(b),
        Bin::UDiv => {
            crate::sym::check(!b.is_zero(), "emitted IR divides by zero");
            a.wrapping_div(b)
        }
        Bin::URem => {
            crate::sym::check(!b.is_zero(), "emitted IR divides by zero");
            a.wrapping_rem(b)
        }
        Bin::SDiv | Bin::SRem => {
            // LLVM sdiv/srem: division by zero and MIN / -1 are undefined.
            crate::sym::check(!b.is_zero(), "emitted IR divides by zero");
            let min = U256::ONE << (bits as usize - 1);
            crate::sym::check(!(a == min && b == m), "emitted IR overflows a signed division");
            assert!(bits == 256);
            if op == Bin::SDiv {
                revm_interpreter::instructions::i256::i256_div(a, b)
            } else {
                revm_interpreter::instructions::i256::i256_mod(a, b)
            }
        }
        Bin::And => a & b,
        Bin::Or => a | b,
        Bin::Xor => a ^ b,
        Bin::Shl | Bin::LShr | Bin::AShr => {
            if b >= U256::from(bits) {
                POISON
            } else {
                let s = lo(b) as usize;
                match op {
                    Bin::Shl => a << s,
                    Bin::LShr => a >> s,
                    _ => {
                        assert!(bits == 256);
                        a.arithmetic_shr(s)
                    }
                }
            }
        }
        Bin::UMax => a.max(b),
        Bin::UMin => a.min(b),
        Bin::UAddSat => {
            let r = a.wrapping_add(b) & m;
            if r < a { m } else { r }
        }
    }) & m
}

#[inline(never)]
fn icmp(cc: IntCC, a: U256, b: U256, bits: u32) -> bool {
    match cc {
        IntCC::Equal => a == b,
        IntCC::NotEqual => a != b,
        IntCC::UnsignedLessThan => a < b,
        IntCC::UnsignedGreaterThanOrEqual => a >= b,
        IntCC::UnsignedGreaterThan => a > b,
        IntCC::UnsignedLessThanOrEqual => a <= b,
        IntCC::SignedLessThan => slt(a, b, bits),
        IntCC::SignedGreaterThanOrEqual => !slt(a, b, bits),
        IntCC::SignedGreaterThan => slt(b, a, bits),
        IntCC::SignedLessThanOrEqual => !slt(b, a, bits),
    }
}

/// Evaluates function `f` of `be` with the given parameters.
///
/// # Safety
/// The pointers must be valid for the accesses the function makes.
#[inline(never)]
pub unsafe fn eval(be: &RecBackend, f: u32, args: &[u64]) -> u64 {
    let func = &be.funcs[f as usize];
    assert!(!func.blocks.is_empty(), "call of a function without a body: {}", func.name);
    let n = func.insts.len();
    let mut vals: Vec<U256> = vec![U256::ZERO; n];
    let mut slots: Vec<Vec<u64>> = Vec::with_capacity(func.slots.len());
    for ty in &func.slots {
        // Contents of a fresh slot are undefined: poisoned, so that reading them is visible.
        slots.push(vec![0xA5A5_A5A5_A5A5_A5A5u64; ty.bytes().div_ceil(8)]);
    }
    for (i, inst) in func.insts.iter().enumerate() {
        match &inst.op {
            Op::Param(p) => vals[i] = U256::from(args[*p as usize]),
            Op::Const(c) => vals[i] = *c,
            Op::StrPtr(s) => vals[i] = U256::from(be.strs[*s as usize].as_ptr() as u64),
            Op::SlotAddr(s) => vals[i] = U256::from(slots[*s as usize].as_mut_ptr() as u64),
            _ => {}
        }
    }
    let mut prev = u32::MAX;
    let mut cur = 0u32;
    let mut steps = 0usize;
    loop {
        let block = &func.blocks[cur as usize];
        let mut next = u32::MAX;
        // Phis read their operands simultaneously.
        let mut k = 0;
        let mut phis: Vec<(V, U256)> = Vec::new();
        while k < block.insts.len() {
            let v = block.insts[k];
            let Op::Phi(inc) = &func.insts[v as usize].op else { break };
            let mut found = false;
            for &(x, b) in inc {
                if b == prev {
                    phis.push((v, vals[x as usize]));
                    found = true;
                    break;
                }
            }
            crate::sym::check(found, "emitted IR: phi without an entry for its predecessor");
            k += 1;
        }
        for (v, x) in phis {
            vals[v as usize] = x;
        }
        while k < block.insts.len() {
            steps += 1;
            if steps > MAX_STEPS {
                crate::sym::cut("IR step bound");
            }
            let vi = block.insts[k] as usize;
            k += 1;
            let inst = &func.insts[vi];
            let ty = inst.ty;
            macro_rules! v {
                ($x:expr) => {
                    vals[*$x as usize]
                };
            }
            match &inst.op {
                Op::Load(p) => vals[vi] = load(lo(v!(p)), ty),
                Op::Store(x, p) => store(lo(v!(p)), ty, v!(x)),
                Op::Bin(op, a, b) => {
                    let bits = ty.bits();
                    vals[vi] = if bits <= 64 {
                        U256::from(bin_small(*op, lo(v!(a)), lo(v!(b)), bits))
                    } else {
                        bin_big(*op, v!(a), v!(b), bits)
                    };
                }
                Op::Icmp(cc, a, b) => {
                    let bits = func.insts[*a as usize].ty.bits();
                    vals[vi] = U256::from(icmp(*cc, v!(a), v!(b), bits) as u64);
                }
                Op::Select(c, a, b) => {
                    let r = if lo(v!(c)) & 1 != 0 { v!(a) } else { v!(b) };
                    vals[vi] = r;
                }
                Op::Zext(x) => vals[vi] = v!(x),
                Op::Sext(x) => {
                    let bits = func.insts[*x as usize].ty.bits();
                    let mut r = v!(x);
                    if sign(r, bits) {
                        r |= !mask(bits);
                    }
                    vals[vi] = r & mask(ty.bits());
                }
                Op::Trunc(x) => vals[vi] = v!(x) & mask(ty.bits()),
                Op::Bswap(x) => {
                    let b: [u8; 32] = v!(x).to_be_bytes();
                    let r = U256::from_le_bytes(b);
                    vals[vi] = r >> (256 - ty.bits()) as usize;
                }
                Op::Not(x) => vals[vi] = !v!(x) & mask(ty.bits()),
                Op::Clz(x) => {
                    vals[vi] =
                        U256::from(v!(x).leading_zeros() - (256 - ty.bits() as usize));
                }
                Op::Gep(ety, p, idx) => {
                    let mut addr = lo(v!(p));
                    for (i, ix) in idx.iter().enumerate() {
                        let bits = func.insts[*ix as usize].ty.bits();
                        let x = lo(v!(ix));
                        let x = if bits < 64 {
                            (((x << (64 - bits)) as i64) >> (64 - bits)) as u64
                        } else {
                            x
                        };
                        let size = if i == 0 {
                            ety.bytes()
                        } else {
                            let Ty::Arr(b, _) = ety else { panic!("gep into a scalar") };
                            b.div_ceil(8) as usize
                        };
                        addr = addr.wrapping_add(x.wrapping_mul(size as u64));
                    }
                    vals[vi] = U256::from(addr);
                }
                Op::Call(callee, cargs) => {
                    let mut a = [0u64; 4];
                    for (i, x) in cargs.iter().enumerate() {
                        a[i] = lo(v!(x));
                    }
                    let callee_f = &be.funcs[*callee as usize];
                    let r = match callee_f.address {
                        Some(addr) => unsafe { call_native(addr, a, &callee_f.promises) },
                        None => unsafe { eval(be, *callee, &a[..cargs.len()]) },
                    };
                    if callee_f.ret.is_some() {
                        vals[vi] = U256::from(r);
                    }
                }
                Op::Memcpy(d, s, l) => unsafe {
                    std::ptr::copy_nonoverlapping(
                        lo(v!(s)) as *const u8,
                        lo(v!(d)) as *mut u8,
                        lo(v!(l)) as usize,
                    )
                },
                Op::Assume(c) => {
                    crate::sym::check(lo(v!(c)) & 1 != 0, "emitted IR assumes a false condition");
                }
                Op::IsConst(_) => vals[vi] = U256::ZERO,
                Op::Br(b) => {
                    next = *b;
                    break;
                }
                Op::Brif(c, a, b) => {
                    next = if lo(v!(c)) & 1 != 0 { *a } else { *b };
                    break;
                }
                Op::Switch(x, default, targets) => {
                    next = *default;
                    let x = v!(x);
                    for (val, b) in targets {
                        if x == U256::from(*val) {
                            next = *b;
                            break;
                        }
                    }
                    break;
                }
                Op::Ret(x) => return x.map_or(0, |x| lo(v!(&x))),
                Op::Unreachable => {
                    crate::sym::check(false, "emitted IR reaches unreachable");
                }
                Op::Phi(_) => panic!("phi after a non-phi"),
                Op::Param(_) | Op::Const(_) | Op::StrPtr(_) | Op::SlotAddr(_) => {}
            }
        }
        if next == u32::MAX {
            crate::sym::check(false, "emitted IR: block without terminator");
        }
        prev = cur;
        cur = next;
    }
}

/// Calls a builtin. A code generator makes use of what is promised about it: stores to what it
/// initializes may be dropped, and what it only reads is taken to be unchanged.
#[inline(never)]
unsafe fn call_native(addr: usize, a: [u64; 4], promises: &[Promise; 4]) -> u64 {
    let f: unsafe extern "C" fn(u64, u64, u64, u64) -> u64 =
        unsafe { std::mem::transmute(addr) };
    let mut saved = [[0u64; 64]; 2];
    let mut n = 0;
    for (p, x) in promises.iter().zip(a) {
        if p.initializes > 0 {
            unsafe { std::ptr::write_bytes(x as *mut u8, 0x5a, p.initializes) };
        }
        if p.read_only && p.size > 0 && p.size <= 512 && n < 2 {
            unsafe {
                std::ptr::copy_nonoverlapping(x as *const u8, saved[n].as_mut_ptr() as *mut u8, p.size)
            };
            n += 1;
        }
    }
    let r = unsafe { f(a[0], a[1], a[2], a[3]) };
    n = 0;
    for (p, x) in promises.iter().zip(a) {
        if p.read_only && p.size > 0 && p.size <= 512 && n < 2 {
            let mut d = 0;
            for i in 0..p.size / 8 {
                d |= unsafe { (x as *const u64).add(i).read_unaligned() } ^ saved[n][i];
            }
            crate::sym::check(d == 0, "a builtin changes what it is declared only to read");
            n += 1;
        }
    }
    r
}
