//! `symex MODULE.ll JOBS WORKERS`: explores every job and prints one JSON line per job.
//!
//! A job line is `<id> <seconds> <entry> <param>...`.

#[allow(dead_code)]
mod exec;
#[allow(dead_code)]
mod expr;
mod keccak;
#[allow(dead_code)]
mod ll;
mod mem;
mod z3;

use std::io::Write;
use std::time::Duration;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn job(ex: &mut exec::Exec, line: &str, end: Option<std::time::Instant>) -> String {
    let mut it = line.split_whitespace();
    let id = it.next().unwrap().to_string();
    let mut secs: f64 = it.next().unwrap().parse().unwrap();
    if let Some(e) = end {
        let left = e.saturating_duration_since(std::time::Instant::now()).as_secs_f64();
        if left < 0.5 {
            return format!("{{\"id\":{},\"skipped\":true}}", js(&id));
        }
        secs = secs.min(left);
    }
    let entry = it.next().unwrap().to_string();
    let params: Vec<u64> = it.map(|x| x.parse().unwrap()).collect();
    if let Ok(d) = std::env::var("SYMEX_DUMP") {
        ex.z3.dump = Some(format!("{d}/{id}"));
    }
    if !ex.m.fidx.contains_key(&entry) {
        return format!("{{\"id\":{},\"error\":\"no such entry\"}}", js(&id));
    }
    ex.run(&entry, &params, Duration::from_secs_f64(secs));
    let r = &ex.rep;
    let map = |m: &std::collections::BTreeMap<String, u64>| {
        let v: Vec<String> = m.iter().map(|(k, n)| format!("{}:{n}", js(k))).collect();
        format!("{{{}}}", v.join(","))
    };
    let viol: Vec<String> = r
        .violations
        .iter()
        .map(|(k, m, h)| format!("{{\"kind\":{},\"msg\":{},\"input\":{}}}", js(k), js(m), js(h)))
        .collect();
    let checks: Vec<String> =
        r.checks.iter().map(|(k, (a, b))| format!("{}:[{a},{b}]", js(k))).collect();
    let fns: Vec<String> =
        ex.used.iter().map(|i| js(&exec::demangle(&ex.m.funcs[*i as usize].name))).collect();
    let samples: Vec<String> = r
        .samples
        .iter()
        .map(|(h, c)| format!("[{},[{}]]", js(h), c.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")))
        .collect();
    let s = &ex.z3.stats;
    let par: Vec<String> = params.iter().map(|p| p.to_string()).collect();
    format!(
        "{{\"id\":{},\"entry\":{},\"params\":[{}],\"paths\":{},\"cuts\":{},\"errors\":{},\"violations\":[{}],\"covers\":{},\"checks\":{{{}}},\"samples\":[{}],\"steps\":{},\"forks\":{},\"left\":{},\"merged\":{},\"states\":{},\"timeout\":{},\"wall\":{:.3},\"max_pc\":{},\"terms\":{},\"queries\":{{\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"second\":{}}},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"functions\":[{}]}}",
        js(&id), js(&entry), par.join(","), r.paths, map(&r.cuts), map(&r.errors), viol.join(","),
        map(&r.covers), checks.join(","), samples.join(","), r.steps, r.forks, r.left, r.merged, r.states, r.timeout, r.wall, r.max_pc,
        ex.ar.n.len(), s.sat, s.unsat, s.unknown, s.cached, s.second, s.time, s.max_time, fns.join(",")
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let jobs: Vec<String> = std::fs::read_to_string(&args[2])
        .unwrap()
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| l.to_string())
        .collect();
    let workers: usize = args.get(3).and_then(|x| x.parse().ok()).unwrap_or(8);
    let timeout: u32 = std::env::var("SYMEX_QUERY_MS").ok().and_then(|x| x.parse().ok()).unwrap_or(10_000);
    // No job runs past this many seconds from now.
    let end = std::env::var("SYMEX_DEADLINE")
        .ok()
        .and_then(|x| x.parse().ok())
        .map(|s: f64| std::time::Instant::now() + Duration::from_secs_f64(s));
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || {
            let m = ll::parse(&text);
            drop(text);
            // One process per job; the module is shared copy-on-write.
            let mut ex = exec::Exec::new(m, timeout);
            let mut running = 0;
            let mut rc = 0;
            for j in &jobs {
                if running >= workers {
                    let mut s = 0;
                    unsafe { waitpid(-1, &mut s, 0) };
                    if s != 0 {
                        rc = 1;
                    }
                    running -= 1;
                }
                let pid = unsafe { fork() };
                if pid == 0 {
                    let o = job(&mut ex, j, end) + "\n";
                    let so = std::io::stdout();
                    let mut so = so.lock();
                    // Lines longer than a pipe buffer must not interleave.
                    let _ = lock_write(&mut so, o.as_bytes());
                    unsafe { _exit(0) };
                }
                running += 1;
            }
            while running > 0 {
                let mut s = 0;
                unsafe { waitpid(-1, &mut s, 0) };
                if s != 0 {
                    rc = 1;
                }
                running -= 1;
            }
            rc
        })
        .unwrap();
    std::process::exit(h.join().unwrap_or(2));
}

fn lock_write(o: &mut impl Write, b: &[u8]) -> std::io::Result<()> {
    let f = std::fs::File::open(std::env::args().nth(2).unwrap())?;
    f.lock()?;
    o.write_all(b)?;
    o.flush()?;
    f.unlock()
}
