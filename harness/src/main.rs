//! Native replay: `vh <entry> <replay-file>`; the file has the job parameters on its first line
//! (space separated, decimal) and the input bytes in hex on the second.

#![allow(dead_code, unexpected_cfgs)]
mod cfg;
mod entries;
mod exec;
mod ir;
mod prog;
mod sym;
mod text;

/// What is freed or outgrown is overwritten and never used again, so that stale pointers show.
#[cfg(vnative)]
mod alloc {
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
    /// For tools that watch the heap themselves.
    pub static PLAIN: AtomicBool = AtomicBool::new(false);
    struct Moving;
    #[global_allocator]
    static ALLOC: Moving = Moving;
    unsafe impl GlobalAlloc for Moving {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            unsafe { System.alloc(l) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            unsafe { System.alloc_zeroed(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            unsafe {
                if !PLAIN.load(Relaxed) && l.size() < 1 << 20 {
                    p.write_bytes(0x5a, l.size());
                } else {
                    System.dealloc(p, l);
                }
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            unsafe {
                let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
                if !q.is_null() {
                    std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                    self.dealloc(p, l);
                }
                q
            }
        }
    }
}

fn hex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// `vh code key=value ...` runs one concrete program through both. `input` are the host's answers.
fn code(args: &[String]) {
    let get = |k: &str| args.iter().find_map(|a| a.strip_prefix(k)?.strip_prefix('='));
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let flags = num("flags", 0);
    let mut w = exec::World::concrete(entries::spec(num("spec", 13)));
    w.gas = num("gas", 1_000_000);
    w.is_static = num("static", 0) != 0;
    w.calldata = hex(get("calldata").unwrap_or(""));
    w.return_data = hex(get("returndata").unwrap_or(""));
    w.env.db_errors = flags & entries::F_DB != 0;
    w.strict_fatal = flags & entries::F_DB != 0;
    w.env.amsterdam_gas = flags & entries::F_STATEGAS != 0;
    w.reservoir = num("reservoir", 0);
    w.env.code_len = num("codelen", 0) as usize;
    w.max_steps = 100_000;
    w.max_calls = num("calls", 0) as usize;
    for x in get("stack").unwrap_or("").split(',').filter(|x| !x.is_empty()) {
        w.stack.push(ruint::aliases::U256::from_str_radix(x, 16).unwrap());
    }
    sym::replay().inputs = hex(get("input").unwrap_or(""));
    exec::run_both(&hex(get("code").unwrap()), &w, &entries::opts(flags));
    println!("REPLAY: completed, {} checks held", sym::replay().checks);
}

fn main() {
    #[cfg(vnative)]
    alloc::PLAIN.store(std::env::var_os("VH_PLAIN").is_some(), std::sync::atomic::Ordering::Relaxed);
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "code" {
        return code(&args[2..]);
    }
    let Some(e) = entries::ENTRIES.iter().find(|e| e.0 == args[1]) else {
        println!("REPLAY: no such entry");
        std::process::exit(5);
    };
    let text = std::fs::read_to_string(&args[2]).unwrap();
    let mut lines = text.lines();
    let r = sym::replay();
    r.params = lines
        .next()
        .unwrap_or("")
        .split_whitespace()
        .map(|x| x.parse::<u64>().unwrap())
        .collect();
    let hex = lines.next().unwrap_or("").trim();
    r.inputs =
        (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    (e.1)();
    println!("REPLAY: completed, {} checks held", sym::replay().checks);
}
