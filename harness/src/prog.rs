//! Building programs with symbolic parts.

use crate::sym;
use revm_bytecode::opcode as op;
use revm_primitives::U256;

#[derive(Default, Clone)]
pub struct Prog {
    pub code: Vec<u8>,
    pub calldata: Vec<u8>,
    /// Words on the stack as far as the builder knows.
    pub height: usize,
}

impl Prog {
    pub fn op(&mut self, b: u8) -> &mut Self {
        self.code.push(b);
        self
    }
    pub fn ops(&mut self, b: &[u8]) -> &mut Self {
        self.code.extend_from_slice(b);
        self
    }
    /// `PUSHn bytes`.
    pub fn push(&mut self, b: &[u8]) -> &mut Self {
        self.code.push(op::PUSH1 + b.len() as u8 - 1);
        self.code.extend_from_slice(b);
        self.height += 1;
        self
    }
    pub fn push1(&mut self, b: u8) -> &mut Self {
        self.push(&[b])
    }
    /// Pushes `w` as a constant.
    pub fn constant(&mut self, w: &U256) -> &mut Self {
        self.push(&w.to_be_bytes::<32>())
    }
    /// Pushes `w` through calldata: the compiler does not know it.
    pub fn arg(&mut self, w: &U256) -> &mut Self {
        let off = self.calldata.len();
        self.calldata.extend_from_slice(&w.to_be_bytes::<32>());
        if off < 256 {
            self.push1(off as u8);
        } else {
            self.push(&(off as u16).to_be_bytes());
        }
        self.op(op::CALLDATALOAD)
    }
    pub fn pc(&self) -> usize {
        self.code.len()
    }
    /// Returns MSIZE, the memory below `mem` and the top `n` stack words.
    pub fn dump(&mut self, mem: u16, n: usize) -> &mut Self {
        self.op(op::MSIZE);
        let mut at = mem;
        for _ in 0..n + 1 {
            self.push(&at.to_be_bytes()).op(op::MSTORE);
            at += 32;
        }
        self.push(&at.to_be_bytes()).push1(0).op(op::RETURN)
    }
}

/// What an operand means.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Any,
    /// A memory offset.
    Off,
    /// A length in memory.
    Len,
    /// An offset into calldata, code or return data.
    Src,
    /// A jump destination.
    Dest,
}

use Kind::*;

/// Operands of `o`, the top of the stack first, where they are not all plain words.
pub fn kinds(o: u8) -> &'static [Kind] {
    match o {
        op::KECCAK256 => &[Off, Len],
        op::CALLDATALOAD => &[Src],
        op::CALLDATACOPY | op::CODECOPY | op::RETURNDATACOPY => &[Off, Src, Len],
        op::EXTCODECOPY => &[Any, Off, Src, Len],
        op::MLOAD => &[Off],
        op::MSTORE | op::MSTORE8 => &[Off, Any],
        op::MCOPY => &[Off, Off, Len],
        op::LOG0..=op::LOG4 => &[Off, Len],
        op::CREATE => &[Any, Off, Len],
        op::CREATE2 => &[Any, Off, Len],
        op::CALL | op::CALLCODE => &[Any, Any, Any, Off, Len, Off, Len],
        op::DELEGATECALL | op::STATICCALL => &[Any, Any, Off, Len, Off, Len],
        op::RETURN | op::REVERT => &[Off, Len],
        op::JUMP => &[Dest],
        op::JUMPI => &[Dest, Any],
        _ => &[],
    }
}

pub fn kind(o: u8, i: usize) -> Kind {
    kinds(o).get(i).copied().unwrap_or(Any)
}

pub fn touches_memory(o: u8) -> bool {
    kinds(o).iter().any(|k| matches!(k, Off | Len))
}

fn below(w: &U256, n: u64) -> bool {
    let l = w.as_limbs();
    ((l[1] | l[2] | l[3]) == 0) & (l[0] < n)
}

/// Values beyond every reachable memory size that still fit a machine word.
const FAR: [u64; 4] = [1 << 40, u64::MAX - 31, u64::MAX - 1, u64::MAX];

fn table(k: Kind, mode: u64) -> Vec<u64> {
    let mut v: Vec<u64> = match (k, mode) {
        (_, 3) => return vec![33],
        (Off, 0) => vec![0, 33],
        (Off, 1) => vec![0, 1, 31, 32, 33, 64],
        (Len, 0) => vec![0, 33],
        (Len, 1) => vec![0, 1, 31, 32, 33, 97],
        (Src, 0) => vec![0, 33],
        (Src, 1) => vec![0, 1, 3, 31, 32, 34, 35, 36, 256],
        (Off | Len, 2) => (0..66).collect(),
        (_, _) => (0..260).collect(),
    };
    if mode > 0 || k == Src {
        v.extend(FAR);
    }
    v
}

/// A symbolic operand of the given meaning. Offsets and lengths come from a table (`mode` 0: few,
/// 1: around the word boundaries, 2: every small value) or are any value of more than 64 bits.
pub fn operand(k: Kind, mode: u64, code_len: usize) -> U256 {
    match k {
        Any => sym::u256("be.operand"),
        Dest => {
            let w = sym::u256("be.dest");
            sym::assume(below(&w, code_len as u64 + 8) | !below(&w, u32::MAX as u64));
            w
        }
        _ => {
            let t = table(k, mode);
            let c = sym::usize("operand.class");
            sym::assume(c < t.len() + (mode != 3) as usize);
            let c = sym::concretize(c as u64) as usize;
            if c < t.len() {
                U256::from(t[c])
            } else {
                let w = sym::u256("be.operand");
                let l = w.as_limbs();
                sym::assume((l[1] | l[2] | l[3]) != 0);
                w
            }
        }
    }
}

/// Immediate bytes that follow the opcode in the code (a legacy program, `amsterdam`: EIP-8024).
pub fn imm_len(o: u8, amsterdam: bool) -> usize {
    match o {
        op::PUSH1..=op::PUSH32 => (o - op::PUSH1 + 1) as usize,
        op::DUPN | op::SWAPN | op::EXCHANGE if amsterdam => 1,
        _ => 0,
    }
}

/// Inputs and outputs of an opcode; unknown ones have none.
pub fn io(o: u8) -> Option<(usize, usize)> {
    match o {
        // Their depth is in the immediate.
        op::DUPN | op::SWAPN | op::EXCHANGE => Some((0, 0)),
        op::DUP1..=op::DUP16 => {
            let n = (o - op::DUP1 + 1) as usize;
            Some((n, n + 1))
        }
        op::SWAP1..=op::SWAP16 => {
            let n = (o - op::SWAP1 + 2) as usize;
            Some((n, n))
        }
        _ => op::OPCODE_INFO[o as usize].map(|i| (i.inputs() as usize, i.outputs() as usize)),
    }
}
