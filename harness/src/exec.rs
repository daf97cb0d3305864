//! Runs a program through the real compiler and through the interpreter and compares what a
//! caller can observe.

use crate::ir::{self, RecBackend};
use crate::sym;
use revm_bytecode::Bytecode;
use revm_context_interface::{
    cfg::GasParams,
    context::{SStoreResult, SelfDestructResult, StateLoad},
    host::LoadError,
    journaled_state::AccountInfoLoad,
};
use revm_interpreter::{
    CallInput, FrameInput, Gas, Host, InputsImpl, InstructionResult, Interpreter, InterpreterAction,
    SharedMemory,
    instructions::{gas_table_spec, instruction_table},
    interpreter::{EthInterpreter, ExtBytecode},
};
use revm_primitives::{Address, B256, Bytes, Log, U256, hardfork::SpecId};
use revm_state::AccountInfo;
use revmc_codegen::EvmCompiler;
use revmc_context::{EvmCompilerFn, EvmContext, EvmStack};
use std::ptr::NonNull;

// ---------------------------------------------------------------------------------------------
// The host: an arbitrary environment. Every answer is a fresh symbolic value; the n-th call of a
// run gets the n-th answer, so that two runs making the same calls see the same environment.

// The request to skip a cold load is left out: it is a hint that depends on the gas left at that
// moment, and compiled code charges a whole section ahead.
#[derive(Clone, PartialEq, Debug)]
pub enum Event {
    BlockHash(u64),
    SelfDestruct(Address, Address),
    Log(Log),
    SStore(Address, U256, U256),
    SLoad(Address, U256),
    TStore(Address, U256, U256),
    TLoad(Address, U256),
    Account(Address, bool),
    BlobHash(usize),
}

#[derive(Clone)]
pub struct Env {
    pub words: [U256; 12],
    pub addrs: [Address; 2],
    pub prevrandao: Option<U256>,
    pub max_initcode: usize,
    pub amsterdam_gas: bool,
    /// Whether hosts may report database errors.
    pub db_errors: bool,
    /// Whether an account is reported empty exactly if it has no balance, nonce and code.
    pub empty_is_empty: bool,
    /// Sizes of code an account may have.
    pub code_len: usize,
}

pub struct Answer {
    pub w: [U256; 3],
    pub flags: u8,
    pub account: AccountInfo,
}

pub struct Answers(pub Vec<Answer>);

pub struct SymHost<'a> {
    pub env: &'a Env,
    pub answers: *mut Answers,
    pub pos: usize,
    pub gas_params: GasParams,
    pub trace: Vec<Event>,
    /// Account the last load returned.
    cur: AccountInfo,
}

impl<'a> SymHost<'a> {
    pub fn new(env: &'a Env, answers: &'a mut Answers, gas_params: GasParams) -> Self {
        Self { env, answers, pos: 0, gas_params, trace: Vec::new(), cur: AccountInfo::default() }
    }
    fn next(&mut self, kind: u8) -> &Answer {
        let i = self.pos;
        self.pos += 1;
        let a = unsafe { &mut (*self.answers).0 };
        if i >= 24 {
            sym::cut("host call bound");
        }
        while a.len() <= i {
            let mut ans = Answer {
                w: [U256::ZERO; 3],
                flags: sym::u8("host.flags"),
                account: AccountInfo::default(),
            };
            match kind {
                0 => {}
                1 => ans.w[0] = sym::u256("host.word"),
                2 => {
                    ans.w[0] = sym::u256("host.original");
                    ans.w[1] = sym::u256("host.present");
                }
                _ => {
                    ans.account.balance = sym::u256("host.balance");
                    ans.account.nonce = sym::u64("host.nonce");
                    let mut h = [0u8; 32];
                    sym::fill(&mut h, "host.codehash");
                    ans.account.code_hash = B256::from(h);
                    if self.env.empty_is_empty {
                        // What the journal reports since EIP-161.
                        let z = h.iter().fold(0, |a, b| a | b) == 0;
                        let k = h
                            .iter()
                            .zip(revm_primitives::KECCAK_EMPTY.iter())
                            .fold(0, |a, (b, c)| a | (b ^ c))
                            == 0;
                        let l = ans.account.balance.as_limbs();
                        let e = (z | k) & ((l[0] | l[1] | l[2] | l[3] | ans.account.nonce) == 0);
                        sym::assume(e == (ans.flags & 4 != 0));
                    }
                    let code = sym::bytes(self.env.code_len, "host.code");
                    if !code.is_empty() {
                        // Not a delegation designator: those are followed by the host itself.
                        sym::assume(code[0] != 0xef);
                    }
                    ans.account.code = Some(if code.is_empty() {
                        Bytecode::new_legacy(Bytes::from(code))
                    } else {
                        // Where jumps may go does not matter to who reads the code.
                        let (n, mut code) = (code.len(), code);
                        code.resize(n + 33, 0);
                        let jumps = revm_bytecode::JumpTable::from_slice(&vec![0; n / 8 + 1], n);
                        unsafe { Bytecode::new_analyzed(Bytes::from(code), n, jumps) }
                    });
                }
            }
            a.push(ans);
        }
        unsafe { &(&(*self.answers).0)[i] }
    }
    fn err(&self, flags: u8, skip: bool) -> Option<LoadError> {
        if self.env.db_errors && flags & 2 != 0 {
            return Some(LoadError::DBError);
        }
        if skip && flags & 1 != 0 {
            return Some(LoadError::ColdLoadSkipped);
        }
        None
    }
}

impl Host for SymHost<'_> {
    fn basefee(&self) -> U256 {
        self.env.words[0]
    }
    fn blob_gasprice(&self) -> U256 {
        self.env.words[1]
    }
    fn gas_limit(&self) -> U256 {
        self.env.words[2]
    }
    fn difficulty(&self) -> U256 {
        self.env.words[3]
    }
    fn prevrandao(&self) -> Option<U256> {
        self.env.prevrandao
    }
    fn block_number(&self) -> U256 {
        self.env.words[4]
    }
    fn timestamp(&self) -> U256 {
        self.env.words[5]
    }
    fn beneficiary(&self) -> Address {
        self.env.addrs[0]
    }
    fn slot_num(&self) -> U256 {
        self.env.words[6]
    }
    fn chain_id(&self) -> U256 {
        self.env.words[7]
    }
    fn effective_gas_price(&self) -> U256 {
        self.env.words[8]
    }
    fn caller(&self) -> Address {
        self.env.addrs[1]
    }
    fn blob_hash(&self, number: usize) -> Option<U256> {
        // Two blobs.
        match number {
            0 => Some(self.env.words[9]),
            1 => Some(self.env.words[10]),
            _ => None,
        }
    }
    fn max_initcode_size(&self) -> usize {
        self.env.max_initcode
    }
    fn gas_params(&self) -> &GasParams {
        &self.gas_params
    }
    fn is_amsterdam_eip8037_enabled(&self) -> bool {
        self.env.amsterdam_gas
    }
    fn block_hash(&mut self, number: u64) -> Option<B256> {
        self.trace.push(Event::BlockHash(number));
        let db = self.env.db_errors;
        let a = self.next(1);
        if db && a.flags & 2 != 0 {
            return None;
        }
        Some(B256::from(a.w[0]))
    }
    fn selfdestruct(
        &mut self,
        address: Address,
        target: Address,
        skip: bool,
    ) -> Result<StateLoad<SelfDestructResult>, LoadError> {
        self.trace.push(Event::SelfDestruct(address, target));
        let f = self.next(0).flags;
        if let Some(e) = self.err(f, skip) {
            return Err(e);
        }
        Ok(StateLoad::new(
            SelfDestructResult {
                had_value: f & 4 != 0,
                target_exists: f & 8 != 0,
                previously_destroyed: f & 16 != 0,
            },
            f & 1 != 0,
        ))
    }
    fn log(&mut self, log: Log) {
        self.trace.push(Event::Log(log));
    }
    fn sstore_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        value: U256,
        skip: bool,
    ) -> Result<StateLoad<SStoreResult>, LoadError> {
        self.trace.push(Event::SStore(address, key, value));
        let a = self.next(2);
        let (f, o, p) = (a.flags, a.w[0], a.w[1]);
        if let Some(e) = self.err(f, skip) {
            return Err(e);
        }
        Ok(StateLoad::new(
            SStoreResult { original_value: o, present_value: p, new_value: value },
            f & 1 != 0,
        ))
    }
    fn sload_skip_cold_load(
        &mut self,
        address: Address,
        key: U256,
        skip: bool,
    ) -> Result<StateLoad<U256>, LoadError> {
        self.trace.push(Event::SLoad(address, key));
        let a = self.next(1);
        let (f, w) = (a.flags, a.w[0]);
        if let Some(e) = self.err(f, skip) {
            return Err(e);
        }
        Ok(StateLoad::new(w, f & 1 != 0))
    }
    fn tstore(&mut self, address: Address, key: U256, value: U256) {
        self.trace.push(Event::TStore(address, key, value));
    }
    fn tload(&mut self, address: Address, key: U256) -> U256 {
        self.trace.push(Event::TLoad(address, key));
        self.next(1).w[0]
    }
    fn load_account_info_skip_cold_load(
        &mut self,
        address: Address,
        load_code: bool,
        skip: bool,
    ) -> Result<AccountInfoLoad<'_>, LoadError> {
        self.trace.push(Event::Account(address, load_code));
        let a = self.next(3);
        let (f, account) = (a.flags, a.account.clone());
        if let Some(e) = self.err(f, skip) {
            return Err(e);
        }
        self.cur = account;
        Ok(AccountInfoLoad::new(&self.cur, f & 1 != 0, f & 4 != 0))
    }
}

// ---------------------------------------------------------------------------------------------
// Running.

#[derive(Clone, Debug)]
pub struct Opts {
    pub inspect_stack: bool,
    pub single_error: bool,
    pub dedup: bool,
    pub dse: bool,
    pub compiler_gas_limit: Option<u64>,
    /// Gas is charged.
    pub metering: bool,
    /// The compiler has compiled other programs before.
    pub reuse: bool,
}

impl Default for Opts {
    fn default() -> Self {
        Self {
            inspect_stack: false,
            single_error: true,
            dedup: true,
            dse: true,
            compiler_gas_limit: None,
            metering: true,
            reuse: false,
        }
    }
}

/// Inputs of one run.
#[derive(Clone)]
pub struct World {
    pub spec: SpecId,
    pub gas: u64,
    /// State gas (EIP-8037).
    pub reservoir: u64,
    pub calldata: Vec<u8>,
    /// Whether the frame is a child of another one.
    pub child: bool,
    pub stack: Vec<U256>,
    pub is_static: bool,
    pub return_data: Vec<u8>,
    pub target: Address,
    pub caller: Address,
    pub value: U256,
    pub env: Env,
    /// Prices other than the fork's.
    pub prices: Option<GasParams>,
    /// Upper bound on interpreted instructions.
    pub max_steps: u32,
    /// Gas is known to suffice: a host failure must come through as such.
    pub strict_fatal: bool,
    /// Maximum number of frames entered (each result resumes the program).
    pub max_calls: usize,
}

impl World {
    /// Everything concrete and unremarkable.
    pub fn concrete(spec: SpecId) -> Self {
        let mut words = [U256::ZERO; 12];
        for (i, w) in words.iter_mut().enumerate() {
            *w = U256::from_limbs([0x1111 * (i as u64 + 1), i as u64 + 7, 3, 0x5000 + i as u64]);
        }
        Self {
            spec,
            gas: 1_000_000,
            reservoir: 0,
            calldata: Vec::new(),
            child: false,
            stack: Vec::new(),
            is_static: false,
            return_data: Vec::new(),
            target: Address::repeat_byte(0x77),
            caller: Address::repeat_byte(0xca),
            value: U256::from(0x1234_5678_9abcu64),
            env: Env {
                words,
                addrs: [Address::repeat_byte(0xc0), Address::repeat_byte(0x0e)],
                prevrandao: Some(U256::from_limbs([9, 8, 7, 6])),
                max_initcode: 49152,
                amsterdam_gas: false,
                db_errors: false,
                empty_is_empty: spec.is_enabled_in(SpecId::SPURIOUS_DRAGON),
                code_len: 0,
            },
            prices: None,
            strict_fatal: false,
            max_steps: 400,
            max_calls: 0,
        }
    }
    /// The environment words symbolic.
    pub fn symbolic_env(&mut self) {
        for w in self.env.words.iter_mut() {
            *w = sym::u256("env");
        }
        for a in self.env.addrs.iter_mut() {
            let mut b = [0u8; 20];
            sym::fill(&mut b, "env.addr");
            *a = Address::from(b);
        }
        self.env.prevrandao = Some(sym::u256("prevrandao"));
        let mut b = [0u8; 20];
        sym::fill(&mut b, "target");
        self.target = Address::from(b);
        sym::fill(&mut b, "caller");
        self.caller = Address::from(b);
        self.value = sym::u256("callvalue");
    }
}

struct Compiled {
    be: *const RecBackend,
    f: u32,
}
static mut CURRENT: Compiled = Compiled { be: std::ptr::null(), f: 0 };

/// Stands for the machine code of the compiled function: evaluates the recorded IR.
#[unsafe(no_mangle)]
#[inline(never)]
pub unsafe extern "C" fn vh_compiled(
    ecx: NonNull<EvmContext<'_>>,
    stack: NonNull<EvmStack>,
    stack_len: NonNull<usize>,
) -> InstructionResult {
    let (be, f) = unsafe { (&*CURRENT.be, CURRENT.f) };
    let dead = be.funcs[f as usize].dead;
    let len = unsafe { *stack_len.as_ptr() };
    let r = unsafe {
        ir::eval(
            be,
            f,
            &[ecx.as_ptr() as u64, stack.as_ptr() as u64, stack_len.as_ptr() as u64],
        )
    };
    // A code generator may leave out stores to what is dead.
    if dead & 2 != 0 {
        unsafe { std::ptr::write_bytes(stack.as_ptr() as *mut u8, 0x5a, 20 * 32) };
    }
    if dead & 4 != 0 {
        unsafe { *stack_len.as_ptr() = len };
    }
    unsafe { std::mem::transmute::<u8, InstructionResult>(r as u8) }
}

pub fn compiler(opts: &Opts) -> EvmCompiler<RecBackend> {
    let mut c = EvmCompiler::new(RecBackend::new());
    c.debug_assertions(false);
    c.frame_pointers(false);
    c.inspect_stack(opts.inspect_stack);
    c.single_error(opts.single_error);
    c.set_dedup(opts.dedup);
    c.set_dse(opts.dse);
    if let Some(g) = opts.compiler_gas_limit {
        c.set_compiler_gas_limit(g);
    }
    c.gas_metering(opts.metering);
    c
}

/// A bit of everything: constants, folded ones, memory, storage, logs, jumps known and not, a call.
const BEFORE: &[u8] = &[
    0x60, 0x05, 0x60, 0x07, 0x0a, 0x60, 0x20, 0x52, 0x60, 0x01, 0x35, 0x60, 0x02, 0x55, 0x60, 0x10, 0x35, 0x60, 0x18, 0x57, 0x60, 0x03, 0x35, 0x56,
    0x5b, 0x60, 0x01, 0x60, 0x21, 0x60, 0x00, 0xa1, 0x60, 0x22, 0x56, 0x5b, 0x5b, 0x60, 0x00, 0x80, 0x80, 0x80, 0x80, 0x30, 0x5a, 0xf1, 0x50, 0x60,
    0x20, 0x80, 0x20, 0x60, 0x00, 0x60, 0x20, 0xf3,
];

/// Compiles something else with the same compiler, under other options.
fn compile_before(c: &mut EvmCompiler<RecBackend>, opts: &Opts, code: &[u8]) {
    let other = |c: &mut EvmCompiler<RecBackend>, yes: bool| {
        c.inspect_stack(opts.inspect_stack ^ yes);
        c.single_error(opts.single_error ^ yes);
        c.set_dedup(opts.dedup ^ yes);
        c.set_dse(opts.dse ^ yes);
    };
    let how = sym::choose(4, "before");
    other(c, true);
    let (before, spec) = if how & 1 != 0 { (BEFORE, SpecId::FRONTIER) } else { (code, SpecId::AMSTERDAM) };
    let name = if how & 2 != 0 { "f" } else { "g" };
    sym::check(c.translate(name, before, spec).is_ok(), "the compiler rejects the program before");
    if how & 2 != 0 {
        sym::check(c.clear_ir().is_ok(), "the compiler cannot be cleared");
    }
    other(c, false);
}

/// How a run ended.
pub struct Outcome {
    pub action: InterpreterAction,
    pub stack: Vec<U256>,
    pub memory: Vec<u8>,
    pub gas: Gas,
}

fn interpreter(code: &[u8], w: &World) -> Interpreter {
    let bytecode = Bytecode::new_legacy(Bytes::copy_from_slice(code));
    // Little room at first: growing moves the memory.
    let mut memory = SharedMemory::with_capacity(64);
    let call_input = if w.child {
        // The calldata lies in the caller's memory, whose buffer this frame shares.
        let n = w.calldata.len();
        memory.resize(n + 3);
        memory.set(2, &w.calldata);
        memory = memory.new_child_context();
        CallInput::SharedBuffer(2..2 + n)
    } else {
        CallInput::Bytes(Bytes::copy_from_slice(&w.calldata))
    };
    let input = InputsImpl {
        target_address: w.target,
        bytecode_address: Some(w.target),
        caller_address: w.caller,
        input: call_input,
        call_value: w.value,
    };
    let mut int = Interpreter::new(
        memory,
        ExtBytecode::new(bytecode),
        input,
        w.is_static,
        w.spec,
        w.gas,
    );
    for x in &w.stack {
        let _ = int.stack.push(*x);
    }
    int.return_data.0 = Bytes::copy_from_slice(&w.return_data);
    int.gas.set_reservoir(w.reservoir);
    int
}

/// The result of a child frame, as a caller frame sees it.
pub struct ChildResult {
    pub word: U256,
    pub output: Vec<u8>,
    /// Gas the caller has when it continues.
    pub gas: u64,
}

fn apply_child(int: &mut Interpreter, action: &InterpreterAction, r: &ChildResult) {
    // The child used the same buffer, which may have moved.
    let mut child = int.memory.new_child_context();
    child.resize(256);
    child.set(0, &[0xcc; 256]);
    drop(child);
    int.memory.free_child_context();
    int.return_data.0 = Bytes::copy_from_slice(&r.output);
    let _ = int.stack.push(r.word);
    if let InterpreterAction::NewFrame(FrameInput::Call(c)) = action {
        let range = c.return_memory_offset.clone();
        let n = range.len().min(r.output.len());
        int.memory.set(range.start, &r.output[..n]);
    }
    int.gas.set_remaining(r.gas);
}

fn outcome(int: &Interpreter, action: InterpreterAction) -> Outcome {
    Outcome {
        action,
        stack: int.stack.data().to_vec(),
        memory: int.memory.context_memory().to_vec(),
        gas: int.gas,
    }
}

/// Compares two events-lists and outcomes piecewise so that a report names what differs.
fn compare(
    a: &Outcome,
    b: &Outcome,
    ta: &[Event],
    tb: &[Event],
    inspect_stack: bool,
    strict_fatal: bool,
    metering: bool,
) -> bool {
    match (&a.action, &b.action) {
        (InterpreterAction::Return(x), InterpreterAction::Return(y)) => {
            if x.result.is_ok_or_revert() {
                sym::cover("success or revert");
                sym::check(x.result == y.result, "result differs from the interpreter's");
                sym::check(
                    !metering || x.gas.remaining() == y.gas.remaining(),
                    "remaining gas differs from the interpreter's",
                );
                sym::check(
                    x.gas.refunded() == y.gas.refunded(),
                    "gas refund differs from the interpreter's",
                );
                sym::check(!metering || x.gas == y.gas, "gas state differs from the interpreter's");
                sym::check(
                    x.output.len() == y.output.len() && x.output == y.output,
                    "output differs from the interpreter's",
                );
                sym::check(ta.len() == tb.len() && ta == tb, "host effects differ");
                if inspect_stack {
                    sym::check(a.stack.len() == b.stack.len(), "stack length differs");
                    sym::check(a.stack == b.stack, "stack differs");
                }
            } else {
                sym::cover("failure");
                sym::check(
                    y.result.is_halt() && !y.result.is_ok_or_revert(),
                    "compiled code succeeds where the interpreter fails",
                );
                // A database failure is not an out-of-gas: it aborts the transaction.
                let fa = x.result == InstructionResult::FatalExternalError;
                let fb = y.result == InstructionResult::FatalExternalError;
                // Charging a section ahead may run out of gas before the database is asked.
                if fb {
                    sym::check(fa, "fatal external error where the interpreter has none");
                }
                if fa && strict_fatal {
                    sym::check(fb, "fatal external error reported as another failure");
                }
            }
            false
        }
        (InterpreterAction::NewFrame(x), InterpreterAction::NewFrame(y)) => {
            sym::cover("call or create");
            sym::check(x == y, "frame request differs from the interpreter's");
            sym::check(a.gas == b.gas, "gas left at a call differs from the interpreter's");
            sym::check(a.stack.len() == b.stack.len(), "stack length at a call differs");
            sym::check(a.memory.len() == b.memory.len(), "memory size at a call differs");
            sym::check(a.memory == b.memory, "memory contents at a call differ");
            sym::check(ta.len() == tb.len() && ta == tb, "host effects before a call differ");
            true
        }
        _ => {
            sym::check(false, "one side requests a frame, the other returns");
            false
        }
    }
}

trait ResultExt {
    fn is_ok_or_revert(&self) -> bool;
}
impl ResultExt for InstructionResult {
    fn is_ok_or_revert(&self) -> bool {
        self.is_ok() || self.is_revert()
    }
}

/// Compiles `code` and runs it against the interpreter in `w`.
pub fn run_both(code: &[u8], w: &World, opts: &Opts) {
    // Interpreter.
    let mut answers = Answers(Vec::new());
    let gas_params = w.prices.clone().unwrap_or_else(|| GasParams::new_spec(w.spec));
    let answers_p: *mut Answers = &mut answers;

    let mut c = compiler(opts);
    if opts.reuse {
        compile_before(&mut c, opts, code);
    }
    if let Some(p) = &w.prices {
        c.set_gas_params(p.clone());
    }
    let f = match c.translate("f", code, w.spec) {
        Ok(f) => f,
        Err(_) => {
            sym::check(false, "the compiler rejects the program");
            return;
        }
    };
    unsafe {
        CURRENT = Compiled { be: c.backend(), f };
    }

    let mut h1 = SymHost::new(&w.env, unsafe { &mut *answers_p }, gas_params.clone());
    let mut h2 = SymHost::new(&w.env, unsafe { &mut *answers_p }, gas_params);
    let mut i1 = interpreter(code, w);
    let mut i2 = interpreter(code, w);
    let table = instruction_table::<EthInterpreter, SymHost<'_>>();
    let gas_table = gas_table_spec(w.spec);
    let compiled = EvmCompilerFn::new(vh_compiled);
    let mut calls = 0;
    let mut steps = 0u32;
    loop {
        i1.bytecode.action = None;
        let a1 = run_plain(&mut i1, &table, &gas_table, &mut h1, &mut steps, w.max_steps);
        let o1 = outcome(&i1, a1);
        let a2 = unsafe { compiled.call_with_interpreter(&mut i2, &mut h2) };
        let o2 = outcome(&i2, a2);
        let again = compare(&o1, &o2, &h1.trace, &h2.trace, opts.inspect_stack, w.strict_fatal, opts.metering);
        if !again {
            break;
        }
        if calls >= w.max_calls {
            sym::cut("call bound");
        }
        calls += 1;
        let child = ChildResult {
            word: sym::u256("child.word"),
            output: sym::bytes(sym::choose(3, "child.output_len") as usize * 17, "child.output"),
            gas: sym::u64("child.gas"),
        };
        sym::assume(child.gas <= w.gas);
        // Shown equal above.
        i2.gas = i1.gas;
        apply_child(&mut i1, &o1.action, &child);
        apply_child(&mut i2, &o2.action, &child);
    }
    std::mem::forget(c);
}

fn run_plain<'a>(
    int: &mut Interpreter,
    table: &revm_interpreter::InstructionTable<EthInterpreter, SymHost<'a>>,
    gas_table: &revm_interpreter::GasTable,
    host: &mut SymHost<'a>,
    steps: &mut u32,
    max_steps: u32,
) -> InterpreterAction {
    let e = loop {
        *steps += 1;
        if *steps > max_steps {
            sym::cut("interpreter step bound");
        }
        if let Err(e) = int.step(table, gas_table, host) {
            break e;
        }
    };
    if int.bytecode.action.is_none() {
        int.halt(e);
    }
    int.take_next_action()
}
