use crate::exec::*;
use crate::prog::*;
use crate::sym;
use revm_bytecode::opcode as op;
use revm_context_interface::cfg::{GasParams, gas_params::GasId};
use revm_primitives::{U256, hardfork::SpecId};

pub fn spec(i: u64) -> SpecId {
    SpecId::try_from_u8(i as u8).unwrap()
}

/// Gas: unconstrained, or bounded so that unreachable memory stays unreachable.
fn sym_gas(max: u64) -> u64 {
    let g = sym::u64("gas");
    sym::assume(g <= max);
    g
}

pub const GAS_ANY: u64 = u64::MAX;
pub const GAS_MEM: u64 = 30_000_000;

// Flags of the entries' parameters.
pub const F_CONST: u64 = 1; // operands are constants in the code
pub const F_STATIC: u64 = 2; // symbolic static flag
pub const F_INSPECT: u64 = 4; // stack inspection on, operands on the initial stack
pub const F_DB: u64 = 8; // host may fail
pub const F_MULTI: u64 = 16; // distinct error codes
pub const F_NOOPT: u64 = 32; // optional passes off
pub const F_ENV: u64 = 64; // symbolic environment
pub const F_CODE: u64 = 128; // accounts have code
pub const F_RET: u64 = 256; // return data present
pub const F_MEM: u64 = 512; // symbolic initial memory contents

pub const F_STATEGAS: u64 = 1024; // EIP-8037 state gas

pub const F_PLENTY: u64 = 2048; // gas always suffices
pub const F_FEW: u64 = 4096; // few gas values: around the need

pub const F_CHILD: u64 = 8192; // a frame inside another one: its memory starts inside the buffer

pub const F_PRICES: u64 = 1 << 14; // other prices than the fork's
pub const F_ANYPRICES: u64 = 1 << 18; // any prices
pub const F_LIMIT: u64 = 1 << 15; // any budget for folding constants
pub const F_REUSE: u64 = 1 << 16; // the compiler has compiled other programs before
pub const F_MIX: u64 = 1 << 20; // each operand a constant in the code or not
pub const F_END: u64 = 1 << 19; // nothing after the instruction
pub const F_FREE: u64 = 1 << 17; // gas metering off

/// The fork's prices, but those of instructions' dynamic parts others, each its own, or any.
fn other_prices(s: SpecId, any: bool) -> GasParams {
    let mut p = GasParams::new_spec(s);
    let ids = [
        GasId::exp_byte_gas(),
        GasId::extcodecopy_per_word(),
        GasId::copy_per_word(),
        GasId::logdata(),
        GasId::logtopic(),
        GasId::mcopy_per_word(),
        GasId::keccak256_per_word(),
        GasId::memory_linear_cost(),
        GasId::initcode_per_word(),
        GasId::create(),
        GasId::transfer_value_cost(),
        GasId::cold_account_additional_cost(),
        GasId::new_account_cost(),
        GasId::warm_storage_read_cost(),
        GasId::sstore_static(),
        GasId::sstore_set_without_load_cost(),
        GasId::sstore_reset_without_cold_load_cost(),
        GasId::sstore_clearing_slot_refund(),
        GasId::selfdestruct_refund(),
        GasId::call_stipend(),
        GasId::cold_storage_additional_cost(),
        GasId::cold_storage_cost(),
        GasId::new_account_cost_for_selfdestruct(),
        GasId::sstore_set_refund(),
        GasId::sstore_reset_refund(),
    ];
    let mut own = 1;
    let prices: Vec<_> = ids
        .iter()
        .map(|&id| {
            own += 38;
            (id, if any { sym::u16("price") as u64 } else { own })
        })
        .collect();
    p.override_gas(prices);
    p.override_gas([(GasId::memory_quadratic_reduction(), 300), (GasId::call_stipend_reduction(), 48)]);
    p
}

pub fn opts(flags: u64) -> Opts {
    Opts {
        inspect_stack: flags & F_INSPECT != 0,
        single_error: flags & F_MULTI == 0,
        dedup: flags & F_NOOPT == 0,
        dse: flags & F_NOOPT == 0,
        compiler_gas_limit: if flags & F_LIMIT != 0 { Some(sym::u64("compiler gas limit")) } else { None },
        metering: flags & F_FREE == 0,
        reuse: flags & F_REUSE != 0,
    }
}

pub fn world(s: SpecId, flags: u64, max_gas: u64) -> World {
    let mut w = World::concrete(s);
    w.gas = sym_gas(max_gas);
    if flags & F_PLENTY != 0 {
        sym::assume(w.gas >= 1_000_000);
    }
    if flags & F_STATIC != 0 {
        w.is_static = sym::boolean("static");
    }
    if flags & F_ENV != 0 {
        w.symbolic_env();
    }
    if flags & (F_PRICES | F_ANYPRICES) != 0 {
        w.prices = Some(other_prices(s, flags & F_ANYPRICES != 0));
    }
    w.child = flags & F_CHILD != 0;
    w.env.db_errors = flags & F_DB != 0;
    if flags & F_DB != 0 {
        w.strict_fatal = true;
        w.gas = 29_000_000;
    }
    if flags & F_STATEGAS != 0 {
        w.env.amsterdam_gas = true;
        w.reservoir = sym::u64("reservoir");
        sym::assume(w.reservoir <= 1 << 40);
    }
    if flags & F_CODE != 0 {
        w.env.code_len = 35;
    }
    if flags & F_RET != 0 {
        w.return_data = sym::bytes(35, "returndata");
    }
    w
}

/// Pushes an operand in the way the flags ask for.
pub fn place(p: &mut Prog, w: &mut World, x: U256, flags: u64) {
    if flags & F_CONST != 0 || flags & F_MIX != 0 && pick(&[0, 1]) == 1 {
        p.constant(&x);
    } else if flags & F_INSPECT != 0 {
        w.stack.push(x);
        p.height += 1;
    } else {
        p.arg(&x);
    }
}

/// 64 bytes of memory with symbolic contents.
pub fn fill_memory(p: &mut Prog) {
    for i in 0..2u8 {
        let x = sym::u256("be.memory");
        p.arg(&x).push1(32 * i).op(op::MSTORE);
        p.height -= 2;
    }
}


fn amsterdam(s: SpecId) -> bool {
    s.is_enabled_in(SpecId::AMSTERDAM)
}

/// A symbolic opcode, one path per value.
pub fn sym_op(lo: u64, hi: u64) -> u8 {
    let o = sym::u8("opcode") as u64;
    sym::assume((o >= lo) & (o <= hi));
    sym::concretize(o) as u8
}

/// An element of a table, one path per element.
pub fn pick(t: &[u8]) -> u8 {
    let i = sym::u8("pick") as usize;
    sym::assume(i < t.len());
    t[sym::concretize(i as u64) as usize]
}

pub fn finish(p: &Prog, w: &mut World, flags: u64) {
    w.calldata = p.calldata.clone();
    run_both(&p.code, w, &opts(flags));
}

/// One instruction, any operands, any gas.
/// Params: spec, first opcode, last opcode, memory mode, flags.
#[unsafe(no_mangle)]
pub extern "C" fn h_op1() {
    let (s, lo, hi, mode, flags) =
        (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3), sym::param(4));
    let o = sym_op(lo, hi);
    let mem = touches_memory(o);
    let mut w = world(s, flags, if mem { GAS_MEM } else { GAS_ANY });
    let mut p = Prog::default();
    if flags & F_MEM != 0 {
        fill_memory(&mut p);
    }
    if !mem && o != op::MSIZE {
        // Memory for the results, so that nothing after the instruction has a price of its own.
        p.push1(0).push(&[1, 0]).op(op::MSTORE);
    }
    if matches!(o, op::CREATE | op::CREATE2) {
        w.env.max_initcode = sym::usize("max initcode size");
    }
    let (ins, outs) = io(o).unwrap_or((0, 0));
    let mut xs = Vec::new();
    for i in 0..ins {
        xs.push(operand(kind(o, i), mode, 64 + 40 * ins));
    }
    for x in xs.iter().rev() {
        place(&mut p, &mut w, *x, flags);
    }
    let il = imm_len(o, amsterdam(s));
    if il > 0 && o >= op::DUPN {
        for i in 0..40 {
            p.push1(i + 100);
        }
    }
    p.op(o);
    let imm = sym::bytes(il, "be.immediate");
    p.ops(&imm);
    if flags & F_END == 0 {
        p.dump(0x80, outs.min(4));
        p.ops(&[op::JUMPDEST, op::PUSH1, op::JUMPDEST, op::STOP]);
    }
    if flags & F_ENV != 0 && mode > 0 && matches!(o, op::CALLDATALOAD | op::CALLDATASIZE | op::CALLDATACOPY) {
        // Of any length.
        let n = pick(&[0, 1, 31, 33]) as usize;
        let more = sym::bytes(n, "calldata");
        p.calldata.extend(more);
    }
    w.max_calls = 1;
    finish(&p, &mut w, flags);
}

/// Opcode classes of the sequence entries.
fn class(c: u64) -> &'static [u8] {
    match c {
        // Words to words.
        0 => &[
            0x01, 0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13,
            0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d, 0x1e,
        ],
        // Stack shuffling.
        1 => &[0x50, 0x5f, 0x80, 0x81, 0x82, 0x83, 0x90, 0x91, 0x92],
        // Cheap environment and counters.
        2 => &[
            0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47,
            0x48, 0x4a, 0x58, 0x59, 0x5a,
        ],
        // Word operations the compiler has rewriting rules for.
        3 => &[0x01, 0x02, 0x03, 0x04, 0x0a, 0x0b, 0x10, 0x14, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x1b, 0x1c, 0x1d],
        // Everything that leaves the program going and touches no host state.
        4 => &[
            0x01, 0x03, 0x04, 0x0a, 0x10, 0x15, 0x16, 0x1b, 0x33, 0x35, 0x36, 0x50, 0x58, 0x59, 0x5a,
            0x5b, 0x5f, 0x80, 0x81, 0x82, 0x90, 0x91, 0x92,
        ],
        // State access.
        5 => &[0x31, 0x3b, 0x3f, 0x40, 0x49, 0x54, 0x55, 0x5c, 0x5d, 0xff],
        // A small mixture for long sequences.
        _ => &[0x01, 0x03, 0x15, 0x50, 0x5a, 0x80, 0x81, 0x90, 0x91],
    }
}

/// The bytes of a word. Shape 0: any 32 bytes; 1, 2, 3: any 1, 2 or 8 bytes; 4: 32 bytes of which
/// the first and the last are any; 5: one of the values arithmetic treats specially; 6: any power
/// of two.
pub fn shaped(shape: u64) -> Vec<u8> {
    match shape {
        0 => sym::bytes(32, "be.word"),
        1 => sym::bytes(1, "be.word"),
        2 => sym::bytes(2, "be.word"),
        3 => sym::bytes(8, "be.word"),
        4 => {
            let b = sym::bytes(2, "be.word");
            let mut v = vec![0; 32];
            v[0] = b[0];
            v[31] = b[1];
            v
        }
        5 => {
            let one = U256::from(1);
            let t = [
                U256::ZERO,
                one,
                U256::from(2),
                U256::from(3),
                U256::from(31),
                U256::from(32),
                U256::from(255),
                U256::from(256),
                one << 32,
                one << 64,
                one << 128,
                (one << 128) - one,
                one << 255,
                (one << 255) - one,
                (one << 255) + one,
                U256::MAX - one,
                U256::MAX,
            ];
            let i: Vec<u8> = (0..t.len() as u8).collect();
            t[pick(&i) as usize].to_be_bytes::<32>().to_vec()
        }
        _ => {
            let k = sym::concretize(sym::u8("shift") as u64) as usize;
            (U256::from(1) << k).to_be_bytes::<32>().to_vec()
        }
    }
}

/// A straight line of instructions over symbolic words.
/// Params: spec, flags, number of words, mask of constant words (bit i) and shapes of the words
/// (four bits each from bit 8 on), shard or 255, then the classes, one per instruction. `shard`
/// fixes the first instruction.
#[unsafe(no_mangle)]
pub extern "C" fn h_seq() {
    let (s, flags, n, mask, shard, len) = (
        spec(sym::param(0)),
        sym::param(1),
        sym::param(2),
        sym::param(3),
        sym::param(4),
        sym::param(5),
    );
    let mut w = world(s, flags, GAS_ANY);
    let mut p = Prog::default();
    for i in 0..n {
        let shape = mask >> (8 + 4 * i) & 15;
        if mask >> i & 1 != 0 {
            p.push(&shaped(shape));
        } else {
            let x = U256::from_be_slice(&shaped(shape));
            place(&mut p, &mut w, x, flags & !F_CONST);
        }
    }
    let mut h = n as i64;
    for i in 0..len {
        let t = class(sym::param(6 + i));
        let o = if i == 0 && shard < 255 {
            t[shard as usize % t.len()]
        } else {
            pick(t)
        };
        let (ins, outs) = io(o).unwrap();
        p.op(o);
        h += outs as i64 - ins as i64;
    }
    p.dump(0, h.clamp(0, 6) as usize);
    finish(&p, &mut w, flags);
}

/// Memory instructions in a row.
/// Params: spec, flags, length, first instruction's shard or 255, mode.
#[unsafe(no_mangle)]
pub extern "C" fn h_mem() {
    let (s, flags, len, shard, mode) = (
        spec(sym::param(0)),
        sym::param(1),
        sym::param(2),
        sym::param(3),
        sym::param(4),
    );
    let mut w = world(s, flags, GAS_MEM);
    let mut p = Prog::default();
    const OPS: [u8; 9] = [
        op::MSTORE, op::MLOAD, op::MSTORE8, op::MCOPY, op::CALLDATACOPY, op::CODECOPY, op::KECCAK256,
        op::MSIZE, op::RETURNDATACOPY,
    ];
    let mut outs_total = 0;
    // Mode 2: something that may move the memory between two accesses.
    const ENDS: [u8; 3] = [op::MSTORE, op::MLOAD, op::MSTORE8];
    let known = if mode == 2 { pick(&[0, 1, 2]) } else { 0 };
    for i in 0..len {
        let o = if mode == 2 {
            if i == 1 { OPS[shard as usize] } else { pick(&ENDS[..if i == 0 { 2 } else { 3 }]) }
        } else if i == 0 && shard < 255 {
            OPS[shard as usize]
        } else {
            pick(&OPS)
        };
        let (ins, outs) = io(o).unwrap();
        let mut xs = Vec::new();
        for k in 0..ins {
            let kd = kind(o, k);
            xs.push(if kd == Kind::Any {
                sym::u256("be.word")
            } else {
                let t: &[u8] = match (kd, mode) {
                    (Kind::Off, 2) if i == 0 => &[0],
                    (Kind::Off, 2) if i == 2 => &[0, 1],
                    (Kind::Off, 2) => &[0, 130],
                    (_, 2) => &[0, 130],
                    (Kind::Off, 0) => &[0, 33],
                    (Kind::Off, _) => &[0, 1, 31, 32, 64],
                    (_, 0) => &[0, 33],
                    (_, _) => &[0, 1, 32, 33],
                };
                U256::from(pick(t))
            });
        }
        // Constant or only known at run time, all operands alike.
        let c = if mode == 2 { known == 1 || known == 2 && i != 1 } else { pick(&[0, 1]) == 1 };
        for x in xs.iter().rev() {
            if c {
                p.constant(x);
            } else {
                p.arg(x);
            }
        }
        p.op(o);
        outs_total += outs;
    }
    p.dump(0x80, outs_total);
    finish(&p, &mut w, flags);
}

/// Code with symbolic bytes in the middle, every value: nothing is assumed about instructions,
/// immediates and jump destinations.
/// Params: spec, flags, number of bytes, first byte or 256.
#[unsafe(no_mangle)]
pub extern "C" fn h_any() {
    let (s, flags, n, first) = (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let mut w = world(s, flags, GAS_MEM);
    let mut p = Prog::default();
    p.arg(&U256::from(pick(&[0, 64])));
    p.constant(&U256::from(1));
    p.arg(&U256::from(33));
    p.constant(&U256::from(0x4b));
    for i in 0..n {
        if i == 0 && first < 256 {
            p.op(first as u8);
        } else {
            p.op(sym_op(0, 255));
        }
    }
    p.ops(&[op::JUMPDEST, op::MSIZE, op::PUSH1, 0x80, op::MSTORE, op::PUSH1, 0xa0, op::MSTORE]);
    p.ops(&[op::PUSH1, 0xc0, op::PUSH1, 0, op::RETURN]);
    w.max_calls = 1;
    finish(&p, &mut w, flags);
}

/// An instruction whose result nobody uses.
/// Params: spec, flags, first opcode, last opcode.
#[unsafe(no_mangle)]
pub extern "C" fn h_dead() {
    let (s, flags, lo, hi) = (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let o = sym_op(lo, hi);
    let Some((ins, outs)) = io(o) else { return };
    if outs == 0 || (0x5f..0xa0).contains(&o) || o >= op::DUPN && o < op::CREATE {
        return;
    }
    let mut w = world(s, flags, GAS_MEM);
    w.max_calls = 1;
    let mut p = Prog::default();
    let below = sym::u256("be.below");
    p.arg(&below);
    let mut xs = Vec::new();
    for i in 0..ins {
        xs.push(operand(kind(o, i), 3, 64));
    }
    for x in xs.iter().rev() {
        place(&mut p, &mut w, *x, flags & F_CONST);
    }
    p.op(o);
    match pick(&[0, 1, 2, 3]) {
        0 => p.op(op::POP),
        1 => p.ops(&[op::DUP1, op::POP, op::POP]),
        // Replaced by another word.
        2 => p.ops(&[op::CALLER, op::SWAP1, op::POP, op::POP]),
        // Dropped in the next block.
        _ => {
            let t = p.pc() as u16 + 4;
            p.ops(&[op::PUSH2, (t >> 8) as u8, t as u8, op::JUMP, op::JUMPDEST, op::POP])
        }
    };
    p.dump(0x80, 1);
    finish(&p, &mut w, flags);
}

/// Code that ends inside a PUSH.
/// Params: spec, flags, first PUSH, last PUSH.
#[unsafe(no_mangle)]
pub extern "C" fn h_tail() {
    let (s, flags, lo, hi) = (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let o = sym_op(lo, hi);
    let mut w = world(s, flags, GAS_MEM);
    let mut p = Prog::default();
    let n = (o - op::PUSH1 + 1) as u64;
    let have = sym::choose(n + 1, "bytes") as usize;
    let imm = sym::bytes(have, "be.immediate");
    match pick(&[0, 1, 2]) {
        0 => {}
        // Jump over or into it.
        1 => {
            let d = sym::u8("dest");
            sym::assume(d < 40);
            w.stack.push(U256::from(d));
            p.op(op::JUMP).op(op::JUMPDEST);
        }
        _ => {
            w.stack.push(sym::u256("below"));
        }
    }
    p.op(o);
    p.ops(&imm);
    finish(&p, &mut w, flags);
}

pub static ENTRIES: &[(&str, extern "C" fn())] = &[
    ("h_op1", h_op1),
    ("h_seq", h_seq),
    ("h_mem", h_mem),
    ("h_any", h_any),
    ("h_dead", h_dead),
    ("h_tail", h_tail),
    ("h_cfg", crate::cfg::h_cfg),
    ("h_tmpl", crate::cfg::h_tmpl),
    ("h_dup", crate::cfg::h_dup),
    ("h_stack", crate::cfg::h_stack),
    ("h_calls", crate::cfg::h_calls),
    ("h_dse", crate::cfg::h_dse),
    ("h_under", crate::cfg::h_under),
    ("h_end", crate::cfg::h_end),
    ("h_compile", crate::cfg::h_compile),
    ("h_asm", crate::text::h_asm),
    ("h_word", crate::text::h_word),
];
