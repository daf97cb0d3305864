//! Native replay of the entries on whole transactions, see ../../harness/src/main.rs.

#![allow(dead_code, unexpected_cfgs, unused_imports)]
#[path = "ir.rs"]
mod ir;
mod alloy_evm;
mod revm_evm;
mod runtime;
mod scen;
mod sym;

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let f = scen::ENTRIES.iter().find(|(n, _)| *n == args[1]).expect("entry").1;
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let mut lines = text.lines();
    let params = lines.next().unwrap();
    let r = sym::replay();
    r.params = params.split_whitespace().map(|x| x.parse().unwrap()).collect();
    r.inputs = hex(lines.next().unwrap_or(""));
    f();
    println!("REPLAY: completed, {} checks held", r.checks);
}
