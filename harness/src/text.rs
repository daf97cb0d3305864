//! The assembler, the disassembler, and words and stacks as callers see them.

use crate::sym;
use revm_bytecode::opcode as op;
use revm_primitives::hardfork::SpecId;
use revmc_codegen::{decode_pair, decode_single, encode_pair, encode_single, format_bytecode, min_imm_len, op_info_map, parse_asm, OpcodesIter};
use revmc_context::{EvmStack, EvmWord};
use ruint::aliases::U256;

/// Digits of a number, and its value.
fn digits(n: usize, hex: bool) -> (String, U256) {
    digits_as(n, hex, n < 2)
}

/// A number of any value below a limit, in decimal or hexadecimal digits.
fn small(limit: u8) -> (String, u8) {
    let v = sym::u8("number");
    sym::assume(v < limit);
    let v = sym::concretize(v as u64) as u8;
    let hex = sym::boolean("hex");
    let digit = |d: u8| (if d < 10 { b'0' + d } else { b'a' + d - 10 }) as char;
    let mut s = String::new();
    if hex {
        s.push_str("0x");
        s.push(digit(v / 16));
        s.push(digit(v % 16));
    } else {
        s.push(digit(v / 100));
        s.push(digit(v / 10 % 10));
        s.push(digit(v % 10));
    }
    (s, v)
}

fn digits_as(n: usize, hex: bool, cases: bool) -> (String, U256) {
    let mut s = String::new();
    let mut v = U256::ZERO;
    if hex {
        s.push_str("0x");
    }
    for i in 0..n {
        if n > 8 && i != 0 && i + 2 < n {
            s.push('0');
            v = v * U256::from(if hex { 16 } else { 10 });
            continue;
        }
        let d = sym::u8("digit");
        let base = if hex { 16 } else { 10 };
        sym::assume(d < base);
        let upper = if hex && cases { sym::boolean("upper") } else { false };
        let c = if d < 10 {
            b'0' + d
        } else if upper {
            b'A' + d - 10
        } else {
            b'a' + d - 10
        };
        // More than 256 bits are no number.
        if hex && n == 65 && i == 0 {
            sym::assume(d == 0);
        }
        s.push(c as char);
        v = v * U256::from(base) + U256::from(d);
    }
    (s, v)
}

/// The least number of bytes that holds the value.
fn width(v: U256) -> usize {
    let b = v.to_be_bytes::<32>();
    32 - b.iter().take_while(|x| **x == 0).count()
}

fn emit(out: &mut Vec<u8>, o: u8, v: U256, n: usize) {
    out.push(o);
    out.extend_from_slice(&v.to_be_bytes::<32>()[32 - n..]);
}

/// Sources of instructions with numbers of any value, against what they have to mean.
fn instructions(n: usize, nd: usize, only: u64) {
    let mut s = String::new();
    let mut want = Vec::new();
    let mut ok = true;
    for _ in 0..n {
        match if only < 13 { only } else { sym::choose(12, "kind") } {
            k @ (0 | 1) => {
                let (t, v) = digits(nd, k == 0);
                s.push_str("PUSH ");
                s.push_str(&t);
                let w = sym::concretize(width(v) as u64) as usize;
                emit(&mut want, op::PUSH0 + w as u8, v, w);
            }
            k @ (2 | 3) => {
                let w = [1usize, 2, 20, 32][sym::choose(4, "width") as usize];
                let (t, v) = digits(nd, k == 2);
                s.push_str(["PUSH1 ", "PUSH2 ", "PUSH20 ", "PUSH32 "][[1usize, 2, 20, 32].iter().position(|x| *x == w).unwrap()]);
                s.push_str(&t);
                ok &= sym::concretize(width(v) as u64) as usize <= w;
                if ok {
                    emit(&mut want, op::PUSH0 + w as u8, v, w);
                }
            }
            k @ (4 | 5) => {
                let (t, v) = small(255);
                s.push_str(if k == 4 { "DUP " } else { "SWAP " });
                s.push_str(&t);
                if (1..=16).contains(&v) {
                    want.push(if k == 4 { op::DUP1 } else { op::SWAP1 } + v - 1);
                } else if let 17..=235 = v {
                    want.extend([if k == 4 { op::DUPN } else { op::SWAPN }, v.wrapping_sub(145)]);
                } else {
                    ok = false;
                }
            }
            k @ (6 | 7) => {
                let (t, v) = small(255);
                s.push_str(if k == 6 { "DUPN " } else { "SWAPN " });
                s.push_str(&t);
                if let 17..=235 = v {
                    want.extend([if k == 6 { op::DUPN } else { op::SWAPN }, v.wrapping_sub(145)]);
                } else {
                    ok = false;
                }
            }
            12 => {
                let (t, n) = small(32);
                let (u, m) = small(32);
                s.push_str("EXCHANGE ");
                s.push_str(&t);
                s.push(' ');
                s.push_str(&u);
                if n >= 1 && n < m && n + m <= 30 {
                    // EIP-8024.
                    let k = if m <= 16 { 16 * (n - 1) + m - 1 } else { 16 * (29 - m) + n - 1 };
                    want.extend([op::EXCHANGE, k ^ 143]);
                } else {
                    ok = false;
                }
            }
            8 => {
                s.push_str("ADD ; more\n");
                want.push(op::ADD);
            }
            9 => {
                s.push_str("\tJUMPDEST\r\n");
                want.push(op::JUMPDEST);
            }
            10 => {
                s.push_str("RET_WORD");
                want.extend([op::PUSH0, op::MSTORE, op::PUSH1, 0x20, op::PUSH0, op::RETURN]);
            }
            _ => {
                // No number belongs here.
                s.push_str("MLOAD 0x1");
                ok = false;
            }
        }
        s.push(if sym::boolean("line") { '\n' } else { ' ' });
    }
    match parse_asm(&s) {
        Ok(code) => {
            sym::cover("assembled");
            sym::check(ok, "the assembler accepts what means nothing");
            sym::check(code == want, "the assembler's code is not what the source says");
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(!ok, "the assembler rejects a valid source");
        }
    }
}

/// Labels before, between and after code of lengths around where a push needs another byte.
fn labels(far: u64) {
    let mut s = String::new();
    let before = sym::choose(3, "before") as usize;
    let mut fixed = false;
    let fill = |s: &mut String, n: usize| {
        for _ in 0..n / 33 {
            s.push_str("PUSH32 0x1 ");
        }
        for _ in 0..n % 33 {
            s.push_str("STOP ");
        }
    };
    if before == 0 {
        s.push_str("a: ");
    }
    let n = match far {
        0 => sym::choose(3, "gap"),
        _ => 244 + sym::choose(16, "gap"),
    } as usize;
    s.push_str("JUMPDEST ");
    match sym::choose(4, "push") {
        0 => s.push_str("PUSH %a "),
        1 => {
            s.push_str("PUSH1 %a ");
            fixed = true;
        }
        2 => s.push_str("PUSH2 %b PUSH %a "),
        _ => s.push_str("PUSH %b PUSH %a PUSH3 %a "),
    }
    fill(&mut s, n);
    if before == 1 {
        s.push_str("a: ");
    }
    s.push_str("CALLER b: GAS PUSH %b ");
    if before == 2 {
        s.push_str("a: ORIGIN");
    }
    let r = parse_asm(&s);
    let Ok(code) = r else {
        // Only a push too narrow for its label has no meaning.
        sym::cover("rejected");
        sym::check(fixed && before != 0 && n > 200, "the assembler rejects a valid source");
        return;
    };
    sym::cover("assembled");
    // Where the marks are, and where pushes lead.
    let (mut a, mut b) = (0, 0);
    let mut end = 0;
    let mut pushes = Vec::new();
    for (pc, o) in OpcodesIter::new(&code, SpecId::AMSTERDAM).with_pc() {
        match o.opcode {
            op::CALLER => {
                b = pc + 1;
                if before == 1 {
                    a = pc;
                }
            }
            op::ORIGIN => a = pc,
            op::PUSH0..=op::PUSH31 => {
                let v = o.immediate.map_or(U256::ZERO, U256::from_be_slice);
                pushes.push((o.opcode - op::PUSH0, v));
            }
            _ => {}
        }
        end = pc + 1 + o.immediate.map_or(0, |i| i.len());
    }
    sym::check(end == code.len(), "the assembler's code ends inside an instruction");
    sym::check(code.get(b) == Some(&op::GAS), "a mark is not where it was put");
    for (w, v) in pushes {
        sym::check(v == U256::from(a) || v == U256::from(b), "a label leads elsewhere");
        sym::check(width(v) <= w as usize, "a label does not fit");
    }
    let first = code.iter().position(|x| (op::PUSH0..=op::PUSH31).contains(x)).unwrap();
    let first = OpcodesIter::new(&code[first..], SpecId::AMSTERDAM).next().unwrap();
    let to_b = s.contains("JUMPDEST PUSH2 %b") || s.contains("JUMPDEST PUSH %b");
    let v = first.immediate.map_or(U256::ZERO, U256::from_be_slice);
    sym::check(v == U256::from(if to_b { b } else { a }), "a push has another label's place");
}

/// Any text.
fn any_text(n: usize, first: u64) {
    let b = sym::bytes(n, "text");
    if first != 0 {
        sym::assume(b.iter().all(|x| *x < 128));
    }
    let Ok(t) = std::str::from_utf8(&b) else { return };
    let mut s = String::from(
        ["", "PUSH1 ", "PUSH %a", "#define F", "#define", "#define F(a", "#define F(a,b)a\nF", "#define F(a,b) $a\nF(", "a:PUSH", "EXCHANGE 1 ", "DUPN ", "PUSH 0x"]
            [first as usize],
    );
    s.push_str(t);
    match parse_asm(&s) {
        Ok(_) => sym::cover("assembled"),
        Err(_) => sym::cover("rejected"),
    }
}

/// Macros with arguments.
fn macros() {
    let (t, v) = digits(2, true);
    let (u, x) = digits(2, true);
    let (wv, wx) = (sym::concretize(width(v) as u64) as usize, sym::concretize(width(x) as u64) as usize);
    let mut s = String::from("#define TWO(a, b) PUSH $b PUSH $a SUB ; $a\n#define ONE TWO(1, 2)\n#define NONE() POP\n");
    let swapped = sym::boolean("swapped");
    let mut want = Vec::new();
    let (p, q, vp, vq, wp, wq) = if swapped { (&u, &t, x, v, wx, wv) } else { (&t, &u, v, x, wv, wx) };
    s.push_str("TWO(");
    s.push_str(p);
    s.push_str(", ");
    s.push_str(q);
    s.push_str(") NONE()");
    emit(&mut want, op::PUSH0 + wq as u8, vq, wq);
    emit(&mut want, op::PUSH0 + wp as u8, vp, wp);
    want.extend([op::SUB, op::POP]);
    match sym::choose(4, "then") {
        0 => {}
        // Bodies are not expanded again, so that this has no meaning; nor have wrong numbers of arguments.
        k => {
            s.push_str(["", " TWO(1)", " NONE(1)", " TWO(1, 2"][k as usize]);
            want.clear();
        }
    }
    match parse_asm(&s) {
        Ok(code) => {
            sym::cover("assembled");
            sym::check(code == want && !want.is_empty(), "a macro's code is not what its definition says");
        }
        Err(_) => {
            sym::cover("rejected");
            sym::check(want.is_empty(), "the assembler rejects a valid source");
        }
    }
}

/// Code printed and assembled again; instructions found one by one.
fn printed(n: usize, spec: SpecId) {
    let mut code = sym::bytes(n, "code");
    let info = op_info_map(spec);
    let mut at = 0;
    let mut complete = true;
    let mut starts = Vec::new();
    while at < n {
        let o = sym::concretize(code[at] as u64) as u8;
        code[at] = o;
        starts.push(at);
        let i = info[o as usize];
        let mut len = 0;
        if i.is_unknown() || i.is_disabled() || matches!(o, op::DUPN | op::SWAPN | op::EXCHANGE) {
            complete = false;
        }
        if !i.is_unknown() && !i.is_disabled() {
            len = min_imm_len(o) as usize;
            let plain = match o {
                op::PUSH1..=op::PUSH32 => (o - op::PUSH0) as usize,
                op::DUPN | op::SWAPN | op::EXCHANGE => 1,
                _ => 0,
            };
            sym::check(len == plain, "an instruction's immediate has another length");
        }
        at += 1 + len;
    }
    complete &= at == n;
    let mut k = 0;
    for (pc, o) in OpcodesIter::new(&code, spec).with_pc() {
        sym::check(k < starts.len() && starts[k] == pc && o.opcode == code[pc], "an instruction is found elsewhere");
        let next = starts.get(k + 1).copied().unwrap_or(at);
        if next <= n {
            sym::check(o.immediate.unwrap_or(&[]) == &code[pc + 1..next], "an immediate is not the code's");
        } else {
            sym::check(o.immediate.is_none(), "an immediate beyond the code's end");
        }
        k += 1;
    }
    sym::check(k == starts.len(), "instructions are missing");
    let text = format_bytecode(&code, spec);
    if complete {
        sym::cover("printed");
        match parse_asm(&text) {
            Ok(again) => sym::check(again == code, "printed code assembles to other code"),
            Err(_) => sym::check(false, "printed code does not assemble"),
        }
    }
}

/// The encodings of stack positions.
fn positions() {
    let x = sym::u8("byte");
    let d = decode_single(x);
    // EIP-8024.
    let want = if x <= 90 {
        Some(x as u16 + 145)
    } else if x >= 128 {
        Some(x as u16 - 111)
    } else {
        None
    };
    sym::check(d.map(|v| v as u16) == want, "a position is decoded wrongly");
    if let Some(n) = d {
        sym::check(encode_single(n) == Some(x), "a position is encoded as another");
    }
    let n = sym::u8("position");
    sym::check(encode_single(n).is_some() == (17..=235).contains(&n), "which positions can be encoded is wrong");
    let p = decode_pair(x);
    let want = if x > 81 && x < 128 {
        None
    } else {
        let k = x ^ 143;
        let (q, r) = (k / 16, k % 16);
        Some(if q < r { (q + 1, r + 1) } else { (r + 1, 29 - q) })
    };
    sym::check(p == want, "a pair is decoded wrongly");
    if let Some((n, m)) = p {
        sym::check(encode_pair(n, m) == Some(x), "a pair is encoded as another");
        sym::check(n >= 1 && n < m && n as u32 + m as u32 <= 30, "a pair out of range");
    }
    let (n, m) = (sym::u8("n"), sym::u8("m"));
    if let Some(y) = encode_pair(n, m) {
        sym::check(decode_pair(y) == Some((n, m)), "a pair is encoded as another");
    } else {
        sym::check(n == 0 || n >= m || n as u32 + m as u32 > 30, "a pair cannot be encoded");
    }
    sym::cover("assembled");
}

/// Params: kind, size, more.
#[unsafe(no_mangle)]
pub extern "C" fn h_asm() {
    let (kind, n, m) = (sym::param(0), sym::param(1), sym::param(2));
    match kind {
        0 => any_text(n as usize, m),
        1 => instructions(n as usize, m as usize, sym::param(3)),
        2 => labels(n),
        3 => printed(n as usize, crate::entries::spec(m)),
        4 => positions(),
        _ => macros(),
    }
}

/// Words. Params: kind.
#[unsafe(no_mangle)]
pub extern "C" fn h_word() {
    if sym::param(0) != 0 {
        return stacks();
    }
    let u = sym::u256("word");
    let be = u.to_be_bytes::<32>();
    let le = u.to_le_bytes::<32>();
    let w = EvmWord::from_u256(u);
    sym::check(EvmWord::from(u) == w, "a word differs by how it was made");
    sym::check(EvmWord::from_be_bytes(be.into()) == w, "a word from big-endian bytes is another");
    sym::check(EvmWord::from_le_bytes(le.into()) == w, "a word from little-endian bytes is another");
    sym::check(EvmWord::from_ne_bytes(le.into()) == w, "a word from native bytes is another");
    let k = sym::choose(33, "length") as usize;
    let cut = |v: U256| if k == 32 { v } else { v & ((U256::from(1) << (8 * k)) - U256::from(1)) };
    sym::check(EvmWord::from_be_slice(&be[32 - k..]).to_u256() == cut(u), "a word from a big-endian slice is another");
    sym::check(EvmWord::from_le_slice(&le[..k]).to_u256() == cut(u), "a word from a little-endian slice is another");
    sym::check(w.to_be_bytes().0 == be, "a word's big-endian bytes are another's");
    sym::check(w.to_le_bytes().0 == le, "a word's little-endian bytes are another's");
    sym::check(w.to_ne_bytes().0 == le, "a word's native bytes are another's");
    sym::check(w.to_u256() == u && *w.as_u256() == u && w.into_u256() == u, "a word's number is another");
    sym::check(EvmWord::from_be(w.to_be()) == w && EvmWord::from_le(w.to_le()) == w, "a word turned twice is another");
    sym::check(w.swap_bytes().to_be_bytes().0 == le, "a word's bytes turned are not");
    let mut v = w;
    *v.as_u256_mut() = u.wrapping_add(U256::from(1));
    sym::check(v.to_u256() == u.wrapping_add(U256::from(1)), "a word is not what was written");
    sym::check(w.to_address().0 .0 == be[12..], "a word's address is another");
    sym::check(EvmWord::ZERO.to_u256() == U256::ZERO && EvmWord::default() == EvmWord::ZERO, "zero is not");
    let l = u.as_limbs();
    let small = l[1] == 0 && l[2] == 0 && l[3] == 0;
    let r: Result<usize, _> = (&w).try_into();
    sym::check(r.as_ref().ok().copied() == small.then_some(l[0] as usize), "a word's size is another");
    let r2: Result<usize, _> = w.try_into();
    sym::check(r2.ok() == r.as_ref().ok().copied(), "a word's size differs by how it is asked");
    let r3: Result<usize, _> = (&mut v).try_into();
    let _ = r3;
    sym::cover("word");
}

fn stacks() {
    let mut s = revm_interpreter::Stack::new();
    let n = [0usize, 1, 3, 1021, 1023][sym::choose(5, "height") as usize];
    let some = [sym::u256("a"), sym::u256("b"), sym::u256("c")];
    for i in 0..n {
        sym::assume(s.push(if n <= 3 || i >= n - 3 { some[(n - 1 - i).min(2)] } else { U256::from(i) }));
    }
    let x = EvmWord::from_u256(sym::u256("pushed"));
    {
        let (t, len) = EvmStack::from_interpreter_stack(&mut s);
        sym::check(*len == n, "a stack of another height");
        unsafe {
            for k in 0..n.min(3) {
                sym::check(t.from_top_unchecked(*len, k).to_u256() == some[k], "a word from the top is another");
                sym::check(t.get(n - 1 - k).unwrap().to_u256() == some[k], "a word of the stack is another");
                sym::check(t.get_unchecked(n - 1 - k).to_u256() == some[k], "a word of the stack is another");
            }
            if n > 0 {
                sym::check(t.top_unchecked(*len).to_u256() == some[0], "the top is another");
                sym::check(t.as_slice(n)[n - 1].to_u256() == some[0], "the top of the slice is another");
            }
            t.push(x, len);
            sym::check(*len == n + 1 && *t.top_unchecked(*len) == x, "a pushed word is not on top");
            if n > 0 {
                *t.from_top_unchecked_mut(*len, 1) = x;
                t.set(0, EvmWord::from_u256(some[1]));
            }
            sym::check(t.get(1024).is_none() && t.get_mut(1024).is_none(), "a word beyond the stack");
        }
    }
    sym::check(s.len() == n + 1, "the interpreter's stack has another height");
    sym::check(s.peek(0) == Ok(x.to_u256()), "the interpreter's top is another");
    if n > 1 {
        sym::check(s.peek(1) == Ok(x.to_u256()), "the interpreter's stack was not written");
        sym::check(s.peek(n) == Ok(some[1]), "the interpreter's bottom was not written");
    }
    sym::cover("word");
}
