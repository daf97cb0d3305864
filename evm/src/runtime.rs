//! A backend that answers each lookup as it likes: what the real one says depends on time.

use crate::{scen, sym};
use alloy_primitives::{B256, Bytes};
use revm_primitives::hardfork::SpecId;
use revmc_context::EvmCompilerFn;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct RuntimeCacheKey {
    pub code_hash: B256,
    pub spec_id: SpecId,
}

#[derive(Clone, Debug)]
pub struct LookupRequest {
    pub key: RuntimeCacheKey,
    pub code: Bytes,
}

#[derive(Clone, Debug)]
pub enum LookupDecision {
    Compiled(Arc<CompiledProgram>),
    Interpret(InterpretReason),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum InterpretReason {
    Disabled,
    Ineligible,
    NotReady,
    JitFailed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ProgramKind {
    Aot,
    Jit,
}

#[derive(Debug)]
pub struct CompiledProgram {
    pub func: EvmCompilerFn,
    pub key: RuntimeCacheKey,
    pub kind: ProgramKind,
}

#[derive(Clone, Debug, Default)]
pub struct JitBackend {
    off: bool,
}

impl JitBackend {
    pub fn disabled() -> Self {
        Self { off: true }
    }
    pub fn new() -> Self {
        Self { off: false }
    }
    pub fn enabled(&self) -> bool {
        !self.off
    }
    pub fn lookup(&self, req: LookupRequest) -> LookupDecision {
        if self.off {
            return LookupDecision::Interpret(InterpretReason::Disabled);
        }
        sym::check(
            revm_primitives::keccak256(&req.code) == req.key.code_hash,
            "a lookup's key is not that of its code",
        );
        if sym::choose(2, "ready") == 0 {
            sym::cover("interpreted");
            return LookupDecision::Interpret(InterpretReason::NotReady);
        }
        LookupDecision::Compiled(Arc::new(CompiledProgram {
            func: scen::compile(&req.code, req.key.spec_id),
            key: req.key,
            kind: ProgramKind::Jit,
        }))
    }
}
