//! Transactions through revm's EVM and through the same EVM wrapped for compiled code.

use crate::ir::{self, RecBackend};
use crate::sym;
use revm_bytecode::{Bytecode, opcode as op};
use revm_context::{BlockEnv, CfgEnv, Context, Evm, FrameStack, Journal, TxEnv};
use revm_context_interface::result::{EVMError, ExecutionResult, HaltReason};
use revm_database_interface::{DBErrorMarker, Database, DatabaseCommit};
use revm_handler::{
    EthFrame, ExecuteCommitEvm, ExecuteEvm, PrecompileProvider, SystemCallEvm, instructions::EthInstructions,
};
use revm_inspector::{InspectCommitEvm, InspectEvm, InspectSystemCallEvm, Inspector};
use revm_interpreter::{
    CallInputs, CallOutcome, CallScheme, CreateInputs, CreateOutcome, InstructionResult, InterpreterResult,
    interpreter::EthInterpreter,
};
use revm_primitives::{Address, AddressMap, AddressSet, B256, Bytes, Log, TxKind, U256, hardfork::SpecId, keccak256};
use revm_state::{Account, AccountInfo, EvmState};
use revmc_codegen::EvmCompiler;
use revmc_context::{EvmCompilerFn, EvmContext, EvmStack, RawEvmCompilerFn};
use std::ptr::NonNull;

// ---------------------------------------------------------------------------------------------
// Programs.

struct Slot {
    be: *const RecBackend,
    f: u32,
    code: Vec<u8>,
    spec: SpecId,
}
static mut SLOTS: Vec<Slot> = Vec::new();

#[allow(static_mut_refs)]
fn slots() -> &'static mut Vec<Slot> {
    unsafe { &mut SLOTS }
}

unsafe fn run(
    i: usize,
    ecx: NonNull<EvmContext<'_>>,
    stack: NonNull<EvmStack>,
    stack_len: NonNull<usize>,
) -> InstructionResult {
    let s = &slots()[i];
    let c = unsafe { ecx.as_ref() };
    sym::cover("compiled code runs");
    sym::check(!unsafe { OFF }, "compiled code of a replaced backend runs");
    sym::check(
        unsafe { &*c.bytecode } == &s.code[..] && c.spec_id == s.spec,
        "code runs that was compiled from other code or for another hardfork",
    );
    let r = unsafe {
        ir::eval(&*s.be, s.f, &[ecx.as_ptr() as u64, stack.as_ptr() as u64, stack_len.as_ptr() as u64])
    };
    unsafe { std::mem::transmute::<u8, InstructionResult>(r as u8) }
}

macro_rules! programs {
    ($($n:ident $i:expr),*) => {
        $(#[unsafe(no_mangle)]
        #[inline(never)]
        unsafe extern "C" fn $n(a: NonNull<EvmContext<'_>>, b: NonNull<EvmStack>, c: NonNull<usize>) -> InstructionResult {
            unsafe { run($i, a, b, c) }
        })*
        static FNS: &[RawEvmCompilerFn] = &[$($n),*];
    };
}
programs!(vh_compiled0 0, vh_compiled1 1, vh_compiled2 2, vh_compiled3 3, vh_compiled4 4, vh_compiled5 5, vh_compiled6 6, vh_compiled7 7);

/// revmc's compiler on `code`.
pub fn compile(code: &[u8], spec: SpecId) -> EvmCompilerFn {
    let s = slots();
    let i = match s.iter().position(|x| x.code == code && x.spec == spec) {
        Some(i) => i,
        None => {
            let mut c = Box::new(EvmCompiler::new(RecBackend::new()));
            c.debug_assertions(false);
            c.frame_pointers(false);
            let f = c.translate("f", code, spec).ok().unwrap();
            let be = c.backend() as *const RecBackend;
            s.push(Slot { be, f, code: code.to_vec(), spec });
            std::mem::forget(c);
            s.len() - 1
        }
    };
    EvmCompilerFn::new(FNS[i])
}

// ---------------------------------------------------------------------------------------------
// The world.

#[derive(Debug)]
pub struct DbErr;
impl std::fmt::Display for DbErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("db")
    }
}
impl std::error::Error for DbErr {}
impl DBErrorMarker for DbErr {}

#[derive(Clone, Debug)]
struct Acc {
    at: Address,
    info: AccountInfo,
    storage: Vec<(U256, U256)>,
}

#[derive(Clone, Debug)]
pub struct Db {
    accounts: Vec<Acc>,
    /// Reading this slot of A fails.
    bad: Option<U256>,
}

impl Database for Db {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        Ok(self.accounts.iter().find(|x| x.at == a).map(|x| x.info.clone()))
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DbErr> {
        Ok(self
            .accounts
            .iter()
            .find(|x| x.info.code_hash == h)
            .and_then(|x| x.info.code.clone())
            .unwrap_or_default())
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        if self.bad == Some(k) {
            return Err(DbErr);
        }
        Ok(self
            .accounts
            .iter()
            .find(|x| x.at == a)
            .and_then(|x| x.storage.iter().find(|y| y.0 == k))
            .map_or(U256::ZERO, |y| y.1))
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        Ok(B256::from(U256::from(n + 77)))
    }
}

impl DatabaseCommit for Db {
    fn commit(&mut self, changes: AddressMap<Account>) {
        for (at, acc) in changes {
            if !acc.is_touched() {
                continue;
            }
            let i = match self.accounts.iter().position(|x| x.at == at) {
                Some(i) => i,
                None => {
                    self.accounts.push(Acc { at, info: AccountInfo::default(), storage: Vec::new() });
                    self.accounts.len() - 1
                }
            };
            if acc.is_selfdestructed() {
                self.accounts.remove(i);
                continue;
            }
            let x = &mut self.accounts[i];
            x.info = acc.info;
            for (k, v) in acc.storage {
                x.storage.retain(|y| y.0 != k);
                x.storage.push((k, v.present_value));
            }
        }
    }
}

/// No precompiled contracts.
#[derive(Clone, Default)]
pub struct NoPre(AddressSet);
impl<CTX: revm_context_interface::ContextTr> PrecompileProvider<CTX> for NoPre {
    type Output = InterpreterResult;
    fn set_spec(&mut self, _: <CTX::Cfg as revm_context_interface::Cfg>::Spec) -> bool {
        false
    }
    fn run(&mut self, _: &mut CTX, _: &CallInputs) -> Result<Option<InterpreterResult>, String> {
        Ok(None)
    }
    fn warm_addresses(&self) -> &AddressSet {
        &self.0
    }
}

#[derive(PartialEq, Clone, Debug)]
enum Ev {
    Call(Address, Address, Address, U256, CallScheme, u64, bool),
    CallEnd(u8, Bytes, u64),
    Create(Address, U256, Bytes, u64),
    CreateEnd(u8, Option<Address>, Bytes, u64),
    Log(Log),
    Destroy(Address, Address, U256),
}

#[derive(Default)]
pub struct Watch {
    evs: Vec<Ev>,
}

/// Exceptional halts are one class.
fn class(r: InstructionResult) -> u8 {
    if r.is_ok() {
        r as u8
    } else if r.is_revert() {
        254
    } else {
        255
    }
}

impl<CTX> Inspector<CTX, EthInterpreter> for Watch {
    fn log(&mut self, _: &mut CTX, log: Log) {
        self.evs.push(Ev::Log(log));
    }
    fn call(&mut self, _: &mut CTX, i: &mut CallInputs) -> Option<CallOutcome> {
        let v = i.value.get();
        self.evs.push(Ev::Call(i.bytecode_address, i.target_address, i.caller, v, i.scheme, i.gas_limit, i.is_static));
        None
    }
    fn call_end(&mut self, _: &mut CTX, _: &CallInputs, o: &mut CallOutcome) {
        let c = class(o.result.result);
        let g = if c == 255 { 0 } else { o.result.gas.remaining() };
        self.evs.push(Ev::CallEnd(c, o.result.output.clone(), g));
    }
    fn create(&mut self, _: &mut CTX, i: &mut CreateInputs) -> Option<CreateOutcome> {
        self.evs.push(Ev::Create(i.caller(), i.value(), i.init_code().clone(), i.gas_limit()));
        None
    }
    fn create_end(&mut self, _: &mut CTX, _: &CreateInputs, o: &mut CreateOutcome) {
        let c = class(o.result.result);
        let g = if c == 255 { 0 } else { o.result.gas.remaining() };
        self.evs.push(Ev::CreateEnd(c, o.address, o.result.output.clone(), g));
    }
    fn selfdestruct(&mut self, a: Address, b: Address, v: U256) {
        self.evs.push(Ev::Destroy(a, b, v));
    }
}

type Ctx = Context<BlockEnv, TxEnv, CfgEnv, Db, Journal<Db>, ()>;
type Plain = Evm<Ctx, Watch, EthInstructions<EthInterpreter, Ctx>, NoPre, EthFrame<EthInterpreter>>;

fn plain(db: &Db, spec: SpecId, block: &BlockEnv) -> Plain {
    let mut ctx: Ctx = Context::new(db.clone(), spec);
    ctx.block = block.clone();
    Evm {
        ctx,
        inspector: Watch::default(),
        instruction: EthInstructions::new_mainnet_with_spec(spec),
        precompiles: NoPre::default(),
        frame_stack: FrameStack::new_prealloc(8),
    }
}

fn block() -> BlockEnv {
    BlockEnv { number: sym::u256("number"), timestamp: sym::u256("timestamp"), ..Default::default() }
}

fn change_spec(e: &mut Plain, spec: SpecId) {
    e.ctx.cfg.set_spec_and_mainnet_gas_params(spec);
    e.instruction = EthInstructions::new_mainnet_with_spec(spec);
}

// ---------------------------------------------------------------------------------------------
// Contracts.

const EOA: u16 = 0x7001;
const A: u16 = 0x7aaa;
const B: u16 = 0x7bbb;
const X: u16 = 0x7ccc;

fn addr(x: u16) -> Address {
    Address::from_word(B256::from(U256::from(x)))
}

struct Asm(Vec<u8>);
impl Asm {
    fn o(mut self, b: &[u8]) -> Self {
        self.0.extend_from_slice(b);
        self
    }
    fn p(self, v: u16) -> Self {
        if v < 256 { self.o(&[op::PUSH1, v as u8]) } else { self.o(&[op::PUSH2, (v >> 8) as u8, v as u8]) }
    }
    fn call(self, kind: u8, to: u16, value: u16) -> Self {
        let a = self.p(32).p(64).p(32).p(0);
        let a = if kind == op::CALL || kind == op::CALLCODE { a.p(value) } else { a };
        a.p(to).p(50_000).o(&[kind])
    }
}

/// A: keeps slot 0, logs, calls B, keeps the result and gives it back; called by somebody else
/// than the sender it is short.
fn code_a(kind: u8, value: u16, push0: bool) -> Vec<u8> {
    let a = Asm(vec![]);
    let a = a.o(&[op::CALLER, op::ORIGIN, op::EQ]);
    let at = a.0.len() + 1;
    let a = a.p(0).o(&[op::JUMPI]);
    // Called back.
    let a = a.p(7).p(3).o(&[op::SSTORE, op::CALLVALUE]).p(0).o(&[op::MSTORE]).p(32).p(0).o(&[op::RETURN]);
    let here = a.0.len() as u8;
    let mut a = a.o(&[op::JUMPDEST]);
    a.0[at] = here;
    let a = a.p(0).o(&[op::SLOAD, op::DUP1]).p(1).o(&[op::SSTORE]).p(0).o(&[op::MSTORE]);
    let a = a.p(9).p(32).p(0).o(&[op::LOG1]);
    let a = a.call(kind, B, value).o(&[op::DUP1]).p(2).o(&[op::SSTORE]).p(32).o(&[op::MSTORE]);
    let a = a.o(&[op::RETURNDATASIZE]).p(96).o(&[op::MSTORE]);
    let a = if push0 { a.o(&[op::PUSH0, op::POP]) } else { a };
    let a = a.p(96).p(32);
    let a = a.p(0).o(&[op::SLOAD]);
    let n = a.0.len() as u16 + 4;
    // Odd words revert.
    a.p(1).o(&[op::AND]).p(n + 3).o(&[op::JUMPI, op::RETURN, op::JUMPDEST, op::REVERT]).0
}

fn code_b(kind: u64) -> Vec<u8> {
    let a = Asm(vec![]);
    match kind {
        // Adds up and remembers the caller.
        0 => a
            .p(0)
            .o(&[op::CALLDATALOAD])
            .p(1)
            .o(&[op::SLOAD, op::ADD])
            .p(0)
            .o(&[op::MSTORE])
            .p(32)
            .p(0)
            .o(&[op::RETURN])
            .0,
        1 => a.p(4).p(0).o(&[op::LOG0]).p(X).o(&[op::SELFDESTRUCT]).0,
        2 => a.p(0).o(&[op::CALLDATALOAD]).p(0).o(&[op::MSTORE]).p(5).p(0).o(&[op::REVERT]).0,
        // Calls A back.
        3 => a.call(op::CALL, A, 1).p(0).o(&[op::SLOAD, op::SSTORE]).p(32).p(64).o(&[op::RETURN]).0,
        4 => a.p(5).p(5).o(&[op::SSTORE, op::INVALID]).0,
        // Creates: the init code stores its argument and deploys one byte.
        5 => {
            let init = [op::PUSH1, 9, op::PUSH1, 1, op::SSTORE, op::PUSH1, 0, op::PUSH1, 0, op::MSTORE, op::PUSH1, 1, op::PUSH1, 31, op::RETURN];
            let mut w = [0u8; 32];
            w[32 - init.len()..].copy_from_slice(&init);
            a.o(&[op::PUSH32]).o(&w).p(0).o(&[op::MSTORE]).p(init.len() as u16).p(32 - init.len() as u16).p(1).o(&[op::CREATE]).p(0).o(&[op::MSTORE]).p(32).p(0).o(&[op::RETURN]).0
        }
        // The block and the chain.
        7 => a
            .o(&[op::CHAINID, op::NUMBER, op::ADD, op::TIMESTAMP, op::SUB, op::COINBASE, op::XOR])
            .p(0)
            .o(&[op::MSTORE])
            .p(32)
            .p(0)
            .o(&[op::RETURN])
            .0,
        // The precompiled contract that copies.
        8 => a
            .p(77)
            .p(0)
            .o(&[op::MSTORE])
            .p(32)
            .p(0)
            .p(32)
            .p(0)
            .p(0)
            .p(4)
            .p(9000)
            .o(&[op::CALL])
            .p(32)
            .o(&[op::MSTORE])
            .p(64)
            .p(0)
            .o(&[op::RETURN])
            .0,
        // Itself again, until the argument is used up.
        _ => a
            .p(1)
            .o(&[op::SLOAD, op::DUP1])
            .p(5)
            .o(&[op::GT])
            .p(1)
            .o(&[op::ADD])
            .p(1)
            .o(&[op::SSTORE])
            .p(0)
            .o(&[op::MSTORE])
            .p(32)
            .p(0)
            .o(&[op::RETURN])
            .0,
    }
}

fn account(at: u16, balance: U256, code: Vec<u8>, storage: Vec<(U256, U256)>) -> Acc {
    let code = Bytecode::new_legacy(Bytes::from(code));
    let mut info = AccountInfo::default();
    info.balance = balance;
    info.nonce = 1;
    info.code_hash = if code.is_empty() { revm_primitives::KECCAK_EMPTY } else { code.hash_slow() };
    info.code = Some(code);
    Acc { at: addr(at), info, storage }
}

fn tx(nonce: u64, create: Option<Vec<u8>>, gas: u64) -> TxEnv {
    TxEnv {
        caller: addr(EOA),
        nonce,
        gas_limit: gas,
        gas_price: 0,
        kind: if create.is_some() { TxKind::Create } else { TxKind::Call(addr(A)) },
        data: create.map_or(Bytes::new(), Bytes::from),
        value: U256::from(3),
        ..Default::default()
    }
}

// ---------------------------------------------------------------------------------------------
// Comparison.

type Res = Result<(ExecutionResult, EvmState), EVMError<DbErr>>;

/// What a state changes, without what was only looked at: code that fails for want of gas may have
/// looked at less.
fn changes(a: &EvmState, b: &EvmState) {
    for (k, x) in a {
        let y = b.get(k);
        sym::check(x.is_touched() == y.is_some_and(|y| y.is_touched()), "the set of accounts touched differs");
        if let Some(y) = y {
            sym::check(x.info.balance == y.info.balance && x.info.nonce == y.info.nonce, "balance or nonce differs");
            sym::check(x.info.code_hash == y.info.code_hash, "code differs");
            sym::check(
                x.is_selfdestructed() == y.is_selfdestructed() && x.is_created() == y.is_created(),
                "account status differs",
            );
        }
        for (s, v) in &x.storage {
            if v.present_value != v.original_value {
                let u = y.and_then(|y| y.storage.get(s));
                sym::check(u.is_some_and(|u| u.present_value == v.present_value), "storage differs");
            }
        }
    }
}

fn same_state(a: &EvmState, b: &EvmState, any_gas: bool) {
    if any_gas {
        changes(a, b);
        changes(b, a);
        return;
    }
    sym::check(a.len() == b.len(), "the set of accounts touched differs");
    for (k, x) in a {
        let Some(y) = b.get(k) else {
            sym::check(false, "an account is missing in the state");
            return;
        };
        sym::check(x.info.balance == y.info.balance && x.info.nonce == y.info.nonce, "balance or nonce differs");
        sym::check(x.info.code_hash == y.info.code_hash, "code differs");
        sym::check(x.status == y.status, "account status differs");
        sym::check(x.storage.len() == y.storage.len(), "the set of slots touched differs");
        for (s, v) in &x.storage {
            let Some(u) = y.storage.get(s) else {
                sym::check(false, "a slot is missing in the state");
                return;
            };
            sym::check(v.present_value == u.present_value && v.original_value == u.original_value, "storage differs");
        }
    }
}

fn compare(a: &Res, b: &Res, any_gas: bool) {
    match (a, b) {
        (Ok((x, sx)), Ok((y, sy))) => {
            sym::check(x.tx_gas_used() == y.tx_gas_used(), "gas used differs from the plain EVM's");
            sym::check(x.logs() == y.logs(), "logs differ from the plain EVM's");
            match (x, y) {
                (ExecutionResult::Success { reason: r, output: o, gas: g, .. }, ExecutionResult::Success { reason: s, output: p, gas: h, .. }) => {
                    sym::cover("success");
                    sym::check(r == s && o == p && g == h, "result differs from the plain EVM's");
                }
                (ExecutionResult::Revert { output: o, .. }, ExecutionResult::Revert { output: p, .. }) => {
                    sym::cover("revert");
                    sym::check(o == p, "revert data differ from the plain EVM's");
                }
                (ExecutionResult::Halt { .. }, ExecutionResult::Halt { .. }) => sym::cover("halt"),
                _ => sym::check(false, "outcome differs from the plain EVM's"),
            }
            same_state(sx, sy, any_gas);
        }
        (Err(EVMError::Database(_)), Err(EVMError::Database(_))) => sym::cover("database error"),
        (Err(_), Err(_)) => sym::cover("invalid"),
        _ => sym::check(false, "one fails, the other does not"),
    }
}

fn world(a: Vec<u8>, b: Vec<u8>, balance: U256, word: U256) -> Db {
    Db {
        accounts: vec![
            account(EOA, U256::from(1u64 << 60), vec![], vec![]),
            account(A, balance, a, vec![(U256::ZERO, word)]),
            account(B, U256::from(50), b, vec![(U256::ZERO, U256::from(4)), (U256::from(1), U256::from(6))]),
        ],
        bad: None,
    }
}

/// Params: 0 wrapper (0 of revmc-context, 1 of revmc-runtime), 1 hardfork, 2 the call's opcode (0:
/// a creating transaction), 3 kind of callee, 4 flags (1 inspected, 2 second transaction, 4 which is
/// for another hardfork, 8 system call, 16 the database may fail, 32 any gas limit, 64 symbolic
/// balance, 128 the second transaction is run by replaying, 256 the backend is replaced by a disabled
/// one between, 512 states are committed by the EVM), 5 the second hardfork.
#[unsafe(no_mangle)]
pub extern "C" fn h_evm() {
    let p = |i| sym::param(i);
    let spec = SpecId::try_from_u8(p(1) as u8).unwrap();
    let flags = p(4);
    let word = sym::u256("word");
    let low = if flags & 64 != 0 { U256::from(sym::u8("balance")) } else { U256::from(100) };
    let a = code_a(if p(2) == 0 { op::CALL } else { p(2) as u8 }, 2, flags & 4 != 0);
    let mut db = world(a, code_b(p(3)), low, word);
    db.bad = (flags & 16 != 0).then(|| U256::from(sym::choose(3, "bad slot")));
    let gas = if flags & 32 != 0 {
        let g = sym::u64("gas");
        sym::assume(g >= 21_000 && g < 200_000);
        g
    } else {
        400_000
    };
    slots().clear();
    unsafe { OFF = false };
    let block = block();
    let e1 = plain(&db, spec, &block);
    let e2 = plain(&db, spec, &block);
    let second = SpecId::try_from_u8(p(5) as u8).unwrap();
    if p(0) == 0 {
        // Some of the programs are there, others found on demand, others never.
        let mut fns = revm_primitives::map::B256Map::default();
        let mut demand = Vec::new();
        for x in &db.accounts[1..] {
            let Some(code) = &x.info.code else { continue };
            match sym::choose(3, "where") {
                0 => {}
                1 => {
                    fns.insert(x.info.code_hash, compile(&code.original_bytes(), spec).into_inner());
                }
                _ => demand.push(x.info.code_hash),
            }
        }
        let mut e2 = revmc_context::JitEvm::with_on_miss(e2, fns, move |h: B256, c: &[u8]| {
            sym::check(keccak256(c) == h, "the hash asked for is not that of its code");
            demand.contains(&h).then(|| compile(c, spec))
        });
        let mut e1 = e1;
        go(&mut e1, &mut e2, flags, gas, p(2) == 0, |_, _| (), |_, _| unreachable!());
    } else {
        let mut e2 = crate::revm_evm::JitEvm::new(e2, crate::runtime::JitBackend::new());
        let mut e1 = e1;
        if flags & 8 != 0 {
            sys(&mut e1, &mut e2, flags, second);
        } else {
            go(&mut e1, &mut e2, flags, gas, p(2) == 0, |e1, e2| {
                if flags & 4 != 0 {
                    change_spec(e1, second);
                    change_spec(e2.inner_mut(), second);
                }
                if flags & 256 != 0 {
                    e2.set_backend(crate::runtime::JitBackend::disabled());
                    unsafe { OFF = true };
                }
            }, |e2, t| if flags & 1 != 0 { e2.inspect_tx_commit(t) } else { e2.transact_commit(t) });
        }
    }
    sym::cover("end");
}

/// No compiled code may run any more.
static mut OFF: bool = false;

/// Through alloy's interface. Params: 0 whether an inspector is given, 1 hardfork, 2 the call's opcode,
/// 3 kind of callee, 4 flags (1 inspection is switched, 2 second transaction, 8 system call after).
#[unsafe(no_mangle)]
pub extern "C" fn h_alloy() {
    use alloy_evm::{EvmEnv, EvmFactory, eth::EthEvmFactory};
    let p = |i| sym::param(i);
    let spec = SpecId::try_from_u8(p(1) as u8).unwrap();
    let word = sym::u256("word");
    let db = world(code_a(p(2) as u8, 2, false), code_b(p(3)), U256::from(100), word);
    slots().clear();
    let mut cfg_env = CfgEnv::new_with_spec(spec);
    cfg_env.chain_id = sym::u64("chain");
    let env = EvmEnv { cfg_env, block_env: block() };
    let f1 = EthEvmFactory::default();
    let f2 = crate::alloy_evm::JitEvmFactory::new(crate::runtime::JitBackend::new());
    if p(0) == 0 {
        let e1 = f1.create_evm(db.clone(), env.clone());
        let e2 = f2.create_evm(db, env);
        alloy(e1, e2, p(4), |_, _| ());
    } else {
        let e1 = f1.create_evm_with_inspector(db.clone(), env.clone(), Watch::default());
        let e2 = f2.create_evm_with_inspector(db, env, Watch::default());
        alloy(e1, e2, p(4), |x: &Watch, y: &Watch| {
            if !x.evs.is_empty() {
                sym::cover("inspected");
            }
            sym::check(
                x.evs.len() == y.evs.len() && x.evs == y.evs,
                "the inspector sees something else than in the plain EVM",
            );
        });
    }
    sym::cover("end");
}

fn alloy<X, Y>(mut e1: X, mut e2: Y, flags: u64, look: impl Fn(&X::Inspector, &X::Inspector))
where
    X: alloy_evm::Evm<DB = Db, Tx = TxEnv, Error = EVMError<DbErr>, HaltReason = HaltReason, Spec = SpecId, BlockEnv = BlockEnv>,
    Y: alloy_evm::Evm<
            DB = Db,
            Tx = TxEnv,
            Error = EVMError<DbErr>,
            HaltReason = HaltReason,
            Spec = SpecId,
            BlockEnv = BlockEnv,
            Inspector = X::Inspector,
        >,
{
    sym::check(
        e1.chain_id() == e2.chain_id() && e1.block() == e2.block() && e1.cfg_env() == e2.cfg_env(),
        "the environment differs",
    );
    for n in 0..if flags & 2 != 0 { 2 } else { 1 } {
        if n == 1 && flags & 1 != 0 {
            let on = sym::choose(2, "inspect") == 1;
            e1.set_inspector_enabled(on);
            e2.set_inspector_enabled(on);
        }
        let (r1, r2): (Res, Res) = if n == 1 && flags & 8 != 0 {
            let data = Bytes::from_static(&[1, 2, 3]);
            (
                e1.transact_system_call(addr(EOA), addr(A), data.clone()).map(|x| (x.result, x.state)),
                e2.transact_system_call(addr(EOA), addr(A), data).map(|x| (x.result, x.state)),
            )
        } else {
            let t = tx(1 + n, None, 400_000);
            (e1.transact_raw(t.clone()).map(|x| (x.result, x.state)), e2.transact_raw(t).map(|x| (x.result, x.state)))
        };
        // alloy's own EVM shows inspectors no system calls, revmc's does.
        if n == 0 || flags & 8 == 0 {
            look(e1.inspector(), e2.inspector());
        }
        compare(&r1, &r2, false);
        if let (Ok((_, s1)), Ok((_, s2))) = (r1, r2) {
            e1.db_mut().commit(s1);
            e2.db_mut().commit(s2);
        } else {
            return;
        }
    }
    let ((d1, v1), (d2, v2)) = (e1.finish(), e2.finish());
    sym::check(v1 == v2, "the environment given back differs");
    same_db(&d1, &d2);
}

fn same_db(a: &Db, b: &Db) {
    sym::check(a.accounts.len() == b.accounts.len(), "the databases differ");
    for x in &a.accounts {
        let y = b.accounts.iter().find(|y| y.at == x.at);
        sym::check(
            y.is_some_and(|y| {
                x.info.balance == y.info.balance
                    && x.info.nonce == y.info.nonce
                    && x.info.code_hash == y.info.code_hash
                    && x.storage.len() == y.storage.len()
                    && x.storage.iter().all(|u| y.storage.contains(u))
            }),
            "the databases differ",
        );
    }
}

trait Wrapped: std::ops::DerefMut<Target = Plain> {}
impl<T: std::ops::DerefMut<Target = Plain>> Wrapped for T {}

fn go<W>(e1: &mut Plain, e2: &mut W, flags: u64, gas: u64, create: bool, between: impl Fn(&mut Plain, &mut W), commit: impl Fn(&mut W, TxEnv) -> Result<ExecutionResult, EVMError<DbErr>>)
where
    W: Wrapped
        + ExecuteEvm<Tx = TxEnv, State = EvmState, ExecutionResult = ExecutionResult, Error = EVMError<DbErr>>
        + InspectEvm,
{
    let init = || {
        let a = code_a(op::CALL, 0, false);
        // As init code it goes on with what it did.
        create.then(|| a.clone())
    };
    for n in 0..if flags & 2 != 0 { 2 } else { 1 } {
        if n == 1 {
            between(e1, e2);
        }
        let t = tx(1 + n, init(), gas);
        let (r1, r2): (Res, Res) = if n == 1 && flags & 128 != 0 {
            e1.ctx.tx = t.clone();
            (**e2).ctx.tx = t;
            (e1.replay().map(|x| (x.result, x.state)), e2.replay().map(|x| (x.result, x.state)))
        } else if flags & 512 != 0 {
            let (r1, r2) = if flags & 1 != 0 {
                (e1.inspect_tx_commit(t.clone()), commit(e2, t))
            } else {
                (e1.transact_commit(t.clone()), commit(e2, t))
            };
            compare(&r1.map(|x| (x, EvmState::default())), &r2.map(|x| (x, EvmState::default())), flags & 32 != 0);
            same_db(&e1.ctx.journaled_state.database, &(**e2).ctx.journaled_state.database);
            continue;
        } else if flags & 1 != 0 {
            e1.inspector.evs.clear();
            (**e2).inspector.evs.clear();
            let r = (
                e1.inspect_one_tx(t.clone()).map(|x| (x, e1.finalize())),
                e2.inspect_one_tx(t).map(|x| (x, e2.finalize())),
            );
            let (x, y) = (&e1.inspector.evs, &(**e2).inspector.evs);
            // Failing code stops early, and what it logged before is of no effect.
            if flags & 32 == 0 {
                sym::check(x.len() == y.len() && x == y, "the inspector sees something else than in the plain EVM");
            }
            r
        } else {
            (e1.transact_one(t.clone()).map(|x| (x, e1.finalize())), e2.transact_one(t).map(|x| (x, e2.finalize())))
        };
        compare(&r1, &r2, flags & 32 != 0);
        if let (Ok((_, s1)), Ok((_, s2))) = (r1, r2) {
            e1.ctx.journaled_state.database.commit(s1);
            (**e2).ctx.journaled_state.database.commit(s2);
        } else {
            return;
        }
    }
}

fn sys(e1: &mut Plain, e2: &mut crate::revm_evm::JitEvm<Plain>, flags: u64, second: SpecId) {
    for n in 0..2 {
        if n == 1 && flags & 4 != 0 {
            change_spec(e1, second);
            change_spec(e2.inner_mut(), second);
        }
        let data = Bytes::from_static(&[1, 2, 3]);
        let (r1, r2): (Res, Res) = if flags & 1 != 0 {
            e1.inspector.evs.clear();
            e2.inner_mut().inspector.evs.clear();
            let r = (
                e1.inspect_one_system_call_with_caller(addr(EOA), addr(A), data.clone()).map(|x| (x, e1.finalize())),
                e2.inspect_one_system_call_with_caller(addr(EOA), addr(A), data).map(|x| (x, e2.finalize())),
            );
            let (x, y) = (&e1.inspector.evs, &e2.inner().inspector.evs);
            sym::check(x.len() == y.len() && x == y, "the inspector sees something else than in the plain EVM");
            r
        } else {
            (
                e1.system_call_one_with_caller(addr(EOA), addr(A), data.clone()).map(|x| (x, e1.finalize())),
                e2.system_call_one_with_caller(addr(EOA), addr(A), data).map(|x| (x, e2.finalize())),
            )
        };
        compare(&r1, &r2, flags & 32 != 0);
        if let (Ok((_, s1)), Ok((_, s2))) = (r1, r2) {
            e1.ctx.journaled_state.database.commit(s1);
            e2.inner_mut().ctx.journaled_state.database.commit(s2);
        } else {
            return;
        }
    }
}

pub static ENTRIES: &[(&str, extern "C" fn())] = &[("h_evm", h_evm), ("h_alloy", h_alloy)];
