//! Programs with control flow.

use crate::entries::*;
use crate::exec::*;
use crate::prog::*;
use crate::sym;
use revm_bytecode::opcode as op;
use revm_primitives::U256;

/// Ends the program with what the stack holds (two words) and the memory size.
fn exit(p: &mut Prog, n: u8) {
    for i in 0..n {
        p.ops(&[op::PUSH1, 32 * i, op::MSTORE]);
    }
    p.ops(&[op::PUSH1, 32 * n, op::PUSH1, 0, op::RETURN]);
}

/// A program of `k` blocks, each with a symbolic body and a symbolic terminator; targets are
/// symbolic among the blocks.
/// Params: spec, flags, blocks, body alphabet, shard of the first block's choices (255: none),
/// terminator alphabet.
#[unsafe(no_mangle)]
pub extern "C" fn h_cfg() {
    let (s, flags, k, alpha, shard, talpha) = (
        spec(sym::param(0)),
        sym::param(1),
        sym::param(2) as usize,
        sym::param(3),
        sym::param(4),
        sym::param(5),
    );
    let mut w = world(s, flags, 30_000_000);
    w.max_steps = 70;
    let mut p = Prog::default();
    for _ in 0..2 {
        let x = sym::u256("be.word");
        p.arg(&x);
    }
    // Positions of the blocks' starts are patched in once all are laid out.
    let mut starts = Vec::new();
    let mut patches: Vec<(usize, usize)> = Vec::new();
    let bodies: &[u8] = match alpha {
        0 => &[0, 1, 2],
        1 => &[0, 1, 2, 3, 4, 5],
        2 => &[0, 6, 7, 8],
        _ => &[0, 1, 9, 10],
    };
    let terms: &[u8] = match talpha {
        0 => &[0, 1, 2],
        1 => &[0, 1, 2, 3, 4],
        2 => &[0, 1, 2, 5, 6],
        _ => &[0, 1, 2, 3, 4, 5, 6, 7],
    };
    let mut left = shard;
    let mut choose = |t: &[u8], first: bool| -> u8 {
        if first && shard < 255 {
            let i = left % t.len() as u64;
            left /= t.len() as u64;
            t[i as usize]
        } else {
            pick(t)
        }
    };
    let targets: Vec<u8> = (1..k as u8).collect();
    for b in 0..k {
        starts.push(p.pc());
        if b > 0 {
            p.op(op::JUMPDEST);
        }
        match choose(bodies, b == 0) {
            0 => {}
            1 => {
                p.push1(b as u8 + 0x11);
            }
            2 => {
                p.op(op::POP);
            }
            3 => {
                p.op(op::DUP1);
            }
            4 => {
                p.op(op::SWAP1);
            }
            5 => {
                p.op(op::ADD);
            }
            6 => {
                // Memory of a size that depends on the block.
                p.ops(&[op::DUP1, op::PUSH1, 32 * b as u8, op::MSTORE]);
            }
            7 => {
                p.ops(&[op::MSIZE, op::ADD]);
            }
            8 => {
                p.ops(&[op::GAS, op::ADD]);
            }
            9 => {
                // The address of a block as a word: later jumps may use it.
                let t = pick(&targets) as usize;
                p.push1(0);
                patches.push((p.pc() - 1, t));
            }
            _ => {
                p.ops(&[op::PUSH1, 0x20, op::SWAP1]);
            }
        }
        match choose(terms, b == 0) {
            0 => exit(&mut p, 1),
            1 => {
                let t = pick(&targets) as usize;
                p.push1(0);
                patches.push((p.pc() - 1, t));
                p.op(op::JUMP);
            }
            2 => {
                let t = pick(&targets) as usize;
                // The condition is the top of the stack, which stays.
                p.ops(&[op::DUP1, op::PUSH1, 0]);
                patches.push((p.pc() - 1, t));
                p.op(op::JUMPI);
            }
            3 => {
                // Wherever the top of the stack says.
                p.op(op::JUMP);
            }
            4 => {
                // Falls through.
            }
            5 => {
                p.op(op::INVALID);
            }
            6 => {
                // Returns to an address below the top.
                p.ops(&[op::SWAP1, op::JUMP]);
            }
            _ => {
                p.ops(&[op::PUSH1, 0, op::PUSH1, 0, op::REVERT]);
            }
        }
    }
    for (at, t) in patches {
        p.code[at] = starts[t] as u8;
    }
    finish(&p, &mut w, flags);
}

/// Fixed shapes with symbolic details.
/// Params: spec, flags, shape, shard.
#[unsafe(no_mangle)]
pub extern "C" fn h_tmpl() {
    let (s, flags, shape, shard) =
        (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let mut w = world(s, flags, 30_000_000);
    w.max_steps = 120;
    let mut p = Prog::default();
    match shape {
        // A conditional jump to any place, including the middle of immediates.
        0 => {
            let c = sym::u256("be.cond");
            p.arg(&c);
            let t = sym::u8("be.target");
            p.push1(t).op(op::JUMPI);
            p.push1(7);
            exit(&mut p, 1);
            p.ops(&[op::JUMPDEST, op::PUSH2, op::JUMPDEST, op::JUMPDEST]);
            exit(&mut p, 1);
            p.ops(&[op::JUMPDEST, op::PUSH32, op::JUMPDEST]);
            sym::assume((t as usize) < p.pc() + 3);
        }
        // An unconditional one, to a constant computed from two.
        1 => {
            let o = pick(&[op::ADD, op::SUB, op::XOR, op::OR, op::AND]);
            let (a, b) = (sym::u8("be.a"), sym::u8("be.b"));
            sym::assume((a < 40) & (b < 12));
            p.push1(a).push1(b).op(o).op(op::JUMP);
            p.push1(7);
            exit(&mut p, 1);
            p.ops(&[op::JUMPDEST]).push1(8);
            exit(&mut p, 1);
            p.ops(&[op::JUMPDEST]).push1(9);
            exit(&mut p, 1);
        }
        // A function called from two places.
        2 => {
            let o = pick(&[op::ADD, op::MUL, op::POP, op::DUP2, op::SWAP1, op::GAS, op::MSIZE, op::CALLER]);
            let (x, y) = (sym::u256("be.x"), sym::u256("be.y"));
            let c = sym::u256("be.c");
            p.arg(&c);
            // Call site one: return address, two arguments.
            p.push1(0);
            let r1 = p.pc() - 1;
            p.arg(&x);
            p.constant(&y);
            p.push1(0).op(op::JUMP);
            let f1 = p.pc() - 2;
            p.code[r1] = p.pc() as u8;
            p.op(op::JUMPDEST);
            p.push1(0);
            let r2 = p.pc() - 1;
            p.constant(&y);
            p.arg(&x);
            p.push1(0).op(op::JUMP);
            let f2 = p.pc() - 2;
            let r2t = p.pc();
            p.code[r2] = r2t as u8;
            p.op(op::JUMPDEST);
            exit(&mut p, 2);
            let f = p.pc() as u8;
            p.code[f1] = f;
            p.code[f2] = f;
            // The function may be entered by its second call site with a wrong return address.
            if shard == 1 {
                p.code[r2] = sym::u8("be.ret");
                let v = p.code[r2];
                sym::assume((v as usize) < p.pc() + 12);
            }
            p.op(op::JUMPDEST).op(o);
            // Bring the return address to the top.
            match o {
                op::ADD | op::MUL | op::POP => p.op(op::SWAP1),
                op::SWAP1 => p.op(op::SWAP2),
                _ => p.op(op::SWAP3),
            };
            p.op(op::JUMP);
        }
        // A loop.
        3 => {
            let n = sym::u256("be.n");
            let x = sym::u256("be.x");
            p.arg(&x).arg(&n);
            let top = p.pc() as u8;
            p.op(op::JUMPDEST);
            // x := x op n; n := n - 1
            let o = pick(&[op::ADD, op::MUL, op::XOR, op::AND]);
            p.ops(&[op::DUP1, op::SWAP2, o, op::SWAP1]);
            p.ops(&[op::PUSH1, 1, op::SWAP1, op::SUB, op::DUP1, op::PUSH1, top, op::JUMPI]);
            exit(&mut p, 2);
            w.max_steps = 60;
        }
        // Two ways to the same block with different constants; the block uses the constant in an
        // instruction, or jumps to it.
        4 => {
            let c = sym::u256("be.cond");
            let (a, b) = (sym::u256("be.a"), sym::u256("be.b"));
            let o = pick(&[op::ADD, op::DUP1, op::ISZERO, op::JUMP, op::MLOAD, op::JUMPI, op::EXP, op::POP]);
            p.arg(&a);
            p.arg(&c).push1(0).op(op::JUMPI);
            let at = p.pc() - 2;
            let (mut ca, mut cb) = (a, b);
            if matches!(o, op::JUMP | op::JUMPI | op::MLOAD) {
                ca = U256::from(pick(&[0, 75, 89]));
                cb = U256::from(pick(&[1, 75, 89]));
            }
            if o == op::EXP {
                ca = U256::from(pick(&[0, 2, 3]));
                cb = U256::from(pick(&[1, 2, 255]));
            }
            p.constant(&ca).push1(0).op(op::JUMP);
            let join1 = p.pc() - 2;
            p.code[at] = p.pc() as u8;
            p.op(op::JUMPDEST);
            p.constant(&cb);
            p.code[join1] = p.pc() as u8;
            p.op(op::JUMPDEST).op(o);
            while p.pc() < 75 + 20 && p.pc() % 14 != 89 % 14 {
                p.op(op::JUMPDEST);
            }
            p.op(op::JUMPDEST);
            exit(&mut p, 1);
            p.op(op::JUMPDEST).push1(0x55);
            exit(&mut p, 1);
        }
        // A jump whose target depends on input, with several destinations.
        5 => {
            let t = sym::u256("be.target");
            let l = t.as_limbs();
            sym::assume(((l[1] | l[2] | l[3]) == 0) & (l[0] < 80) | (l[3] != 0) | ((l[1] != 0) & (l[0] < 60)));
            p.push1(3);
            p.arg(&t).op(op::JUMP);
            for i in 0..3u8 {
                p.ops(&[op::JUMPDEST]).push1(i + 0x40);
                if i == 1 {
                    p.op(op::POP);
                    p.push1(0x5b);
                }
                exit(&mut p, 2);
            }
        }
        // Memory sizes at a join.
        6 => {
            let c = sym::u256("be.cond");
            let v = sym::u256("be.v");
            let offs: [u8; 3] = [pick(&[0, 32, 64]), pick(&[0, 32, 33]), pick(&[0, 31, 64])];
            p.arg(&v);
            p.arg(&c).push1(0).op(op::JUMPI);
            let at = p.pc() - 2;
            p.ops(&[op::DUP1, op::PUSH1, offs[0], op::MSTORE]);
            p.push1(0).op(op::JUMP);
            let j = p.pc() - 2;
            p.code[at] = p.pc() as u8;
            p.op(op::JUMPDEST);
            p.ops(&[op::DUP1, op::PUSH1, offs[1], op::MSTORE8]);
            p.code[j] = p.pc() as u8;
            p.op(op::JUMPDEST);
            p.ops(&[op::PUSH1, offs[2], op::MLOAD, op::MSIZE, op::GAS]);
            p.dump(0x80, 4);
        }
        // A conditional whose condition is known.
        7 => {
            let c = sym::u256("be.cond");
            let o = pick(&[op::ISZERO, op::JUMPDEST, op::NOT]);
            p.constant(&c).op(o).push1(0).op(op::JUMPI);
            let at = p.pc() - 2;
            p.push1(1);
            exit(&mut p, 1);
            p.code[at] = p.pc() as u8 + pick(&[0, 1]);
            p.op(op::JUMPDEST).push1(2);
            exit(&mut p, 1);
        }
        // Stack heights that differ at a join.
        8 => {
            let c = sym::u256("be.cond");
            let (a, b) = (sym::u256("be.a"), sym::u256("be.b"));
            let n = pick(&[0, 1, 2]);
            p.arg(&a);
            p.arg(&c).push1(0).op(op::JUMPI);
            let at = p.pc() - 2;
            for _ in 0..n {
                p.constant(&b);
            }
            p.push1(0).op(op::JUMP);
            let j = p.pc() - 2;
            p.code[at] = p.pc() as u8;
            p.op(op::JUMPDEST);
            let o = pick(&[op::POP, op::DUP1, op::JUMPDEST, op::CALLER]);
            p.op(o);
            p.code[j] = p.pc() as u8;
            p.op(op::JUMPDEST);
            let o = pick(&[op::POP, op::DUP2, op::SWAP1, op::ADD, op::JUMPDEST]);
            p.op(o);
            exit(&mut p, 1);
        }
        // A return address below more words than the analysis follows, on one of two ways to the
        // block that jumps to it. The words go in one block or in two.
        10 => {
            let c = sym::u256("be.cond");
            let n = pick(&[8, 62, 64, 65, 90]) as usize;
            let split = pick(&[0, 1]) == 1;
            w.max_steps = 300;
            let mut fix = Vec::new();
            let label = |p: &mut Prog, fix: &mut Vec<(usize, usize)>, l: usize| {
                p.ops(&[op::PUSH2, 0, 0]);
                fix.push((p.pc() - 2, l));
            };
            let mut at = [0usize; 6];
            p.arg(&c);
            label(&mut p, &mut fix, 0);
            p.op(op::JUMPI);
            label(&mut p, &mut fix, 4);
            label(&mut p, &mut fix, 3);
            p.op(op::JUMP);
            at[0] = p.pc();
            p.op(op::JUMPDEST);
            label(&mut p, &mut fix, 5);
            for _ in 0..n {
                p.op(op::PUSH0);
            }
            label(&mut p, &mut fix, 1);
            p.op(op::JUMP);
            at[1] = p.pc();
            p.op(op::JUMPDEST);
            for _ in 0..if split { n / 2 } else { n } {
                p.op(op::POP);
            }
            label(&mut p, &mut fix, 2);
            p.op(op::JUMP);
            at[2] = p.pc();
            p.op(op::JUMPDEST);
            for _ in 0..if split { n - n / 2 } else { 0 } {
                p.op(op::POP);
            }
            label(&mut p, &mut fix, 3);
            p.op(op::JUMP);
            at[3] = p.pc();
            p.ops(&[op::JUMPDEST, op::JUMP]);
            for i in 0..2u8 {
                at[4 + i as usize] = p.pc();
                p.op(op::JUMPDEST).push1(i + 1);
                exit(&mut p, 1);
            }
            for (i, l) in fix {
                p.code[i] = (at[l] >> 8) as u8;
                p.code[i + 1] = at[l] as u8;
            }
        }
        // Recursion through a table of return addresses: two nested calls.
        _ => {
            let x = sym::u256("be.x");
            // main: push r0, arg, call g; g calls f twice.
            p.push1(0);
            let r0 = p.pc() - 1;
            p.arg(&x).push1(0).op(op::JUMP);
            let g1 = p.pc() - 2;
            p.code[r0] = p.pc() as u8;
            p.op(op::JUMPDEST);
            exit(&mut p, 1);
            // g(ret, x)
            p.code[g1] = p.pc() as u8;
            p.op(op::JUMPDEST);
            let mut fs = Vec::new();
            for _ in 0..2 {
                p.push1(0);
                let r = p.pc() - 1;
                p.ops(&[op::SWAP1]).push1(0).op(op::JUMP);
                fs.push(p.pc() - 2);
                p.code[r] = p.pc() as u8;
                p.op(op::JUMPDEST);
            }
            p.ops(&[op::SWAP1, op::JUMP]);
            // f(ret, x)
            let f = p.pc() as u8;
            for a in fs {
                p.code[a] = f;
            }
            let o = pick(&[op::ISZERO, op::NOT, op::MLOAD, op::DUP1]);
            p.op(op::JUMPDEST);
            if o == op::DUP1 {
                p.ops(&[op::DUP1, op::ADD]);
            } else if o == op::MLOAD {
                p.ops(&[op::CALLVALUE, op::XOR]);
            } else {
                p.op(o);
            }
            p.ops(&[op::SWAP1, op::JUMP]);
        }
    }
    finish(&p, &mut w, flags);
}

/// Two blocks made of symbolic bytes; the input decides which one runs.
/// Params: spec, flags, shape, shard.
#[unsafe(no_mangle)]
pub extern "C" fn h_dup() {
    let (s, flags, shape, shard) =
        (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let mut w = world(s, flags | F_PLENTY, 30_000_000);
    w.max_steps = 60;
    let mut p = Prog::default();
    let c = sym::u256("be.cond");
    let x = sym::u256("be.x");
    p.arg(&x).arg(&x);
    p.arg(&c).push1(0).op(op::JUMPI);
    let at = p.pc() - 2;
    let body = |p: &mut Prog, first: bool| match shape {
        // A push of one to three bytes and three instructions.
        0 => {
            let n = if first && shard < 255 { shard as u8 % 3 + 1 } else { pick(&[1, 2, 3]) };
            let imm = sym::bytes(n as usize, "be.imm");
            p.push(&imm);
            if n < 3 {
                let o = pick(&[op::POP, op::CALLER, op::DUP1, op::ADD]);
                p.op(o);
            }
            if n < 2 {
                let o = pick(&[op::POP, op::CALLER, op::DUP1, op::ADD]);
                p.op(o);
            }
        }
        // Position-dependent and context-dependent contents.
        1 => {
            let o = pick(&[op::PC, op::GAS, op::MSIZE, op::CALLER, op::DUP1, op::POP]);
            p.op(o);
            let o = pick(&[op::PC, op::GAS, op::MSIZE, op::CALLER, op::DUP1, op::ISZERO]);
            p.op(o);
        }
        // An immediate, in the second block followed by more instructions.
        3 => {
            let n = if shard < 255 { shard % 4 + 1 } else { 3 };
            let imm = sym::bytes(n as usize, "be.imm");
            p.push(&imm);
            if !first {
                for _ in 0..3 {
                    let o = pick(&[op::POP, op::CALLER, op::DUP1]);
                    p.op(o);
                }
            }
        }
        // Immediates of the same length that may be equal.
        _ => {
            let a = sym::bytes(2, "be.imm");
            let b = sym::bytes(2, "be.imm");
            p.push(&a).push(&b);
            let o = pick(&[op::ADD, op::POP, op::SWAP1]);
            p.op(o);
        }
    };
    body(&mut p, true);
    exit(&mut p, 2);
    p.code[at] = p.pc() as u8;
    p.op(op::JUMPDEST);
    // The second block starts with a jump destination; so that both can be alike, a third one
    // follows behind a second branch.
    let d = sym::u256("be.cond2");
    p.arg(&d).push1(0).op(op::JUMPI);
    let at = p.pc() - 2;
    body(&mut p, false);
    exit(&mut p, 2);
    p.code[at] = p.pc() as u8;
    p.op(op::JUMPDEST);
    exit(&mut p, 2);
    finish(&p, &mut w, flags);
}

/// Stack limits: an initial height near a limit, then instructions that move it.
/// Params: spec, flags, mode, length.
#[unsafe(no_mangle)]
pub extern "C" fn h_stack() {
    let (s, flags, mode, len) =
        (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let mut w = world(s, flags | F_PLENTY, 30_000_000);
    w.max_steps = 1400;
    let mut p = Prog::default();
    let pool = [
        op::POP, op::PUSH1, op::DUP1, op::DUP3, op::DUP16, op::SWAP1, op::SWAP16, op::ADD, op::ADDMOD,
        op::CALLER, op::ISZERO, op::JUMPDEST,
    ];
    let near_full = mode & 1 != 0;
    let h = if near_full {
        1024 - pick(&[0, 1, 2, 3]) as usize
    } else {
        pick(&[0, 1, 2, 3, 16, 17]) as usize
    };
    if flags & F_INSPECT != 0 {
        for i in 0..h {
            w.stack.push(U256::from(i as u64 + 1));
        }
    } else if near_full {
        // Grown by a loop, fifteen words at a time.
        p.push1(68);
        let top = p.pc() as u8;
        p.op(op::JUMPDEST);
        for _ in 0..15 {
            p.op(op::DUP1);
        }
        p.ops(&[op::PUSH1, 1, op::SWAP1, op::SUB, op::DUP1, op::PUSH1, top, op::JUMPI]);
        for i in 1021..h {
            p.push1(i as u8);
        }
        w.max_steps = 1800;
    } else {
        for i in 0..h {
            p.push1(i as u8);
        }
    }
    if mode & 2 != 0 {
        // A block boundary between.
        let at = p.pc();
        p.ops(&[op::PUSH2, 0, 0, op::JUMP, op::JUMPDEST]);
        p.code[at + 1..at + 3].copy_from_slice(&((at + 4) as u16).to_be_bytes());
    }
    for _ in 0..len {
        let o = pick(&pool);
        p.op(o);
        if o == op::PUSH1 {
            p.op(0x2a);
        }
    }
    if near_full {
        p.op(op::STOP);
    } else {
        p.ops(&[op::PUSH1, 0, op::MSTORE, op::PUSH1, 32, op::PUSH1, 0, op::RETURN]);
    }
    finish(&p, &mut w, flags);
}

/// Calls and creations, with words and memory that have to survive them.
/// Params: spec, flags, first instruction, second instruction (0: none), mode.
#[unsafe(no_mangle)]
pub extern "C" fn h_calls() {
    let (s, flags, o1, o2, mode) = (
        spec(sym::param(0)),
        sym::param(1),
        sym::param(2) as u8,
        sym::param(3) as u8,
        sym::param(4),
    );
    let mut w = world(s, flags, GAS_MEM);
    w.max_calls = 2;
    if matches!(o1, op::CREATE | op::CREATE2) || matches!(o2, op::CREATE | op::CREATE2) {
        w.env.max_initcode = sym::usize("max initcode size");
    }
    let mut p = Prog::default();
    fill_memory(&mut p);
    // Words below the operands: one constant, one not.
    let live = sym::u256("be.live");
    p.constant(&U256::from(0xabcdu64));
    p.arg(&live);
    let mut rest = 2;
    for o in [o1, o2] {
        if o == 0 {
            continue;
        }
        let (ins, _) = io(o).unwrap();
        let mut xs = Vec::new();
        for i in 0..ins {
            let k = kind(o, i);
            xs.push(match k {
                Kind::Any => sym::u256("be.word"),
                Kind::Off => U256::from(if mode & 1 != 0 { pick(&[0, 33, 64]) } else { 32 }),
                _ => U256::from(if mode & 1 != 0 { pick(&[0, 1, 34]) } else { 33 }),
            });
        }
        let c = mode & 2 != 0;
        for (i, x) in xs.iter().enumerate().rev() {
            if c && kind(o, i) != Kind::Any {
                p.constant(x);
            } else {
                p.arg(x);
            }
        }
        p.op(o);
        rest += 1;
        if mode & 4 != 0 {
            // The result decides where to go.
            p.op(op::DUP1);
            let at = p.pc() + 1;
            p.ops(&[op::PUSH2, 0, 0, op::JUMPI, op::CALLER, op::POP, op::JUMPDEST]);
            let t = (p.pc() - 1) as u16;
            p.code[at..at + 2].copy_from_slice(&t.to_be_bytes());
        }
    }
    p.op(op::RETURNDATASIZE);
    rest += 1;
    p.dump(0x80, rest);
    finish(&p, &mut w, flags);
}

/// Values computed and dropped: what is dead, and what only seems so.
/// Params: spec, flags, shape.
#[unsafe(no_mangle)]
pub extern "C" fn h_dse() {
    let (s, flags, shape) = (spec(sym::param(0)), sym::param(1), sym::param(2));
    let mut w = world(s, flags, 30_000_000);
    w.max_calls = 1;
    let mut p = Prog::default();
    let (x, y, z) = (sym::u256("be.x"), sym::u256("be.y"), sym::u256("be.z"));
    p.arg(&x).arg(&y);
    // One operand possibly a constant.
    if pick(&[0, 1]) == 1 {
        p.constant(&z);
    } else {
        p.arg(&z);
    }
    let shuffle = [op::POP, op::DUP1, op::DUP2, op::DUP3, op::SWAP1, op::SWAP2];
    let compute = [op::ADD, op::ISZERO, op::CALLER, op::PUSH0, op::GAS, op::MSIZE, op::CALLDATALOAD];
    let mut h = 3i64;
    let put = |p: &mut Prog, h: &mut i64, o: u8| {
        let (i, u) = io(o).unwrap();
        p.op(o);
        *h += u as i64 - i as i64;
    };
    match shape {
        // Shuffles around a computation.
        0..=5 => {
            put(&mut p, &mut h, shuffle[shape as usize]);
            let o = pick(&compute);
            put(&mut p, &mut h, o);
            for _ in 0..2 {
                let o = pick(&shuffle);
                put(&mut p, &mut h, o);
            }
        }
        // A result dropped whose computation is not free.
        6 => {
            let o = pick(&[op::MLOAD, op::EXP, op::SLOAD, op::KECCAK256, op::BALANCE, op::MSTORE, op::TLOAD, op::EXTCODESIZE]);
            if o == op::MLOAD || o == op::KECCAK256 || o == op::MSTORE {
                p.push1(pick(&[0, 33]));
                p.push1(pick(&[0, 33]));
                h += 2;
            }
            put(&mut p, &mut h, o);
            let o = pick(&shuffle);
            put(&mut p, &mut h, o);
            put(&mut p, &mut h, op::POP);
        }
        // Dead in one block, needed in the next.
        7 => {
            for _ in 0..2 {
                let o = pick(&shuffle);
                put(&mut p, &mut h, o);
            }
            let c = sym::u256("be.cond");
            p.arg(&c).push1(0).op(op::JUMPI);
            let at = p.pc() - 2;
            p.op(op::POP);
            exit(&mut p, 1);
            p.code[at] = p.pc() as u8;
            p.op(op::JUMPDEST);
        }
        // A frame request in between: what lies below has to be there.
        _ => {
            let o = pick(&shuffle);
            put(&mut p, &mut h, o);
            let o = pick(&shuffle);
            put(&mut p, &mut h, o);
            for _ in 0..6 {
                p.push1(0);
            }
            p.op(op::GAS).op(op::CALL);
            h += 1;
            let o = pick(&shuffle);
            put(&mut p, &mut h, o);
        }
    }
    p.dump(0x80, h.clamp(0, 5) as usize);
    finish(&p, &mut w, flags);
}

/// Every opcode on a stack too short for it, and one just long enough.
/// Params: spec, flags, first opcode, last opcode.
#[unsafe(no_mangle)]
pub extern "C" fn h_under() {
    let (s, flags, lo, hi) = (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let o = sym_op(lo, hi);
    let mut w = world(s, flags, GAS_MEM);
    w.max_calls = 1;
    let mut p = Prog::default();
    let (ins, _) = io(o).unwrap_or((0, 0));
    let n = sym::choose(ins.min(7) as u64 + 1, "height") as usize;
    // Far down only the last ones matter.
    let n = if ins > 7 && n > 3 { ins - 7 + n } else { n };
    for i in 0..n {
        let _ = i;
        if flags & F_INSPECT != 0 {
            w.stack.push(U256::from(3));
        } else {
            p.push1(3);
        }
    }
    p.op(o);
    let il = imm_len(o, s.is_enabled_in(revm_primitives::hardfork::SpecId::AMSTERDAM));
    for _ in 0..il {
        p.op(0);
    }
    p.op(op::STOP);
    finish(&p, &mut w, flags);
}

/// An ending with other words below, values in memory and stack inspection.
/// Params: spec, flags, last instruction.
#[unsafe(no_mangle)]
pub extern "C" fn h_end() {
    let (s, flags, o) = (spec(sym::param(0)), sym::param(1), sym::param(2) as u8);
    let mut w = world(s, flags, GAS_MEM);
    let mut p = Prog::default();
    fill_memory(&mut p);
    let below = pick(&[0, 1, 2]);
    for i in 0..below {
        let x = sym::u256("be.below");
        if i == 0 {
            place(&mut p, &mut w, x, flags & F_INSPECT);
        } else {
            p.constant(&x);
        }
    }
    let (ins, _) = io(o).unwrap_or((0, 0));
    let mut xs = Vec::new();
    for i in 0..ins {
        xs.push(operand(kind(o, i), 0, 64));
    }
    for x in xs.iter().rev() {
        place(&mut p, &mut w, *x, flags & F_CONST);
    }
    // Behind a jump or not.
    match pick(&[0, 1, 2]) {
        0 => {}
        1 => {
            let t = p.pc() as u16 + 4;
            p.ops(&[op::PUSH2, (t >> 8) as u8, t as u8, op::JUMP, op::JUMPDEST]);
        }
        _ => {
            let c = sym::u256("be.cond");
            p.arg(&c);
            let t = p.pc() as u16 + 6;
            p.ops(&[op::PUSH2, (t >> 8) as u8, t as u8, op::JUMPI, op::CALLER, op::POP, op::JUMPDEST]);
        }
    }
    p.op(o);
    finish(&p, &mut w, flags);
}

/// Compiles arbitrary bytes: no crash, no error, and the code ends in an orderly way.
/// Params: spec, flags, number of bytes, first of the values of the first byte.
#[unsafe(no_mangle)]
pub extern "C" fn h_compile() {
    let (s, flags, n, lo) = (spec(sym::param(0)), sym::param(1), sym::param(2), sym::param(3));
    let mut code = Vec::new();
    // A start: nothing, two constants, or a value and a destination.
    match pick(&[0, 1, 2]) {
        0 => {}
        1 => code.extend_from_slice(&[op::PUSH1, 7, op::PUSH1, 5]),
        _ => code.extend_from_slice(&[op::CALLER, op::JUMPDEST, op::PUSH1, 1]),
    }
    for i in 0..n {
        let w = if n > 2 { 2 } else { 16 };
        let b = if i == 0 { sym_op(lo, lo + w - 1) } else { sym_op(0, 255) };
        code.push(b);
    }
    if pick(&[0, 1]) == 1 {
        code.extend_from_slice(&[op::JUMPDEST, op::ADD, op::PUSH32, 1]);
    }
    let mut c = compiler(&opts(flags));
    let r = c.translate("f", &code[..], s);
    sym::cover("compiled");
    sym::check(r.is_ok(), "the compiler rejects a program");
    std::mem::forget(c);
}
