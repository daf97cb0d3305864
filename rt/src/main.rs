//! `revmc-runtime`'s source (copied next to this file from /repo by the build, with `std` replaced
//! by `crate::vstd`) between models of its surroundings.

#![allow(dead_code, unused_imports, unused_macros, unexpected_cfgs, private_interfaces)]
#[macro_use]
extern crate tracing;
extern crate self as crossbeam_channel;
extern crate self as crossbeam_queue;
extern crate self as dashmap;
extern crate self as libloading;
extern crate self as quanta;
extern crate self as rayon;
extern crate self as revmc_llvm;
extern crate self as tempfile;

macro_rules! thread_local {
    ($($(#[$a:meta])* $v:vis static $n:ident: $t:ty = const { $e:expr };)*) => {
        $($v static $n: $crate::vstd::LocalKey<$t> = $crate::vstd::LocalKey::new(|| $e);)*
    };
    ($($(#[$a:meta])* $v:vis static $n:ident: $t:ty = $e:expr;)*) => {
        $($v static $n: $crate::vstd::LocalKey<$t> = $crate::vstd::LocalKey::new(|| $e);)*
    };
}

mod models;
mod runtime;
mod scen;
mod sched;
mod sym;
mod vstd;

pub use ::eyre;
pub use models::*;
pub use revmc_backend::OptimizationLevel;
pub use revmc_codegen::*;
pub use revmc_context::{EvmCompilerFn, RawEvmCompilerFn};
pub use models::{EvmCompiler, Linker};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let Some(e) = scen::ENTRIES.iter().find(|e| e.0 == args[1]) else {
        println!("REPLAY: no such entry");
        std::process::exit(5);
    };
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let mut lines = text.lines();
    let r = sym::replay();
    r.params = lines.next().unwrap_or("").split_whitespace().map(|x| x.parse::<u64>().unwrap()).collect();
    let hex = lines.next().unwrap_or("").trim();
    r.inputs =
        (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    (e.1)();
    println!("REPLAY: completed, {} checks held", sym::replay().checks);
    std::process::exit(0);
}
