//! Symbolic executor for LLVM bitcode produced by rustc, deciding assertions
//! with Z3.
mod exec;
mod expr;
mod fp;
mod llvm;
mod z3;

use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn inputs_json(i: &[(String, Vec<u8>)]) -> String {
    let v: Vec<String> = i.iter().map(|(n, b)| format!("[{},\"{}\"]", esc(n), hex(b))).collect();
    format!("[{}]", v.join(","))
}

fn strs(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","))
}

fn result_json(x: &Exec, wall: f64, pending: usize) -> String {
    let s = &x.st;
    let mut o = String::from("{");
    let _ = write!(o, "\"paths\":{},\"assumed\":{},\"insts\":{},\"forks\":{},\"max_steps\":{},\"pending\":{},\"decided\":{},\"retries\":{},", s.paths, s.assumed, s.insts, s.forks, s.max_steps, pending, s.decided, x.s.retries);
    let inc: Vec<String> = s.incomplete.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(o, "\"incomplete\":{{{}}},", inc.join(","));
    let asr: Vec<String> = s.asserts.iter().map(|(k, v)| format!("{}:[{},{}]", esc(k), v.0, v.1)).collect();
    let _ = write!(o, "\"asserts\":{{{}}},", asr.join(","));
    let cov: Vec<String> = s.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
    let _ = write!(o, "\"covers\":{{{}}},", cov.join(","));
    let rep: Vec<String> = s
        .reports
        .iter()
        .map(|r| format!("{{\"kind\":{},\"msg\":{},\"trace\":{},\"inputs\":{}}}", esc(&r.kind), esc(&r.msg), strs(&r.trace), inputs_json(&r.inputs)))
        .collect();
    let _ = write!(o, "\"reports\":[{}],", rep.join(","));
    let sam: Vec<String> = s
        .samples
        .iter()
        .map(|r| format!("{{\"inputs\":{},\"obs\":\"{}\",\"covers\":{}}}", inputs_json(&r.inputs), hex(&r.obs), strs(&r.covers)))
        .collect();
    let _ = write!(o, "\"samples\":[{}],", sam.join(","));
    let funcs: Vec<String> = s.funcs.iter().map(|&f| x.m.funcs[f as usize].name.clone()).collect();
    let _ = write!(o, "\"funcs\":{},", strs(&funcs));
    let locs: Vec<String> = x.locs.iter().enumerate().filter(|(_, &b)| b).map(|(i, _)| format!("{}:{}", x.m.locs[i].0, x.m.locs[i].1)).collect();
    let _ = write!(o, "\"locs\":{},", strs(&locs));
    let _ = write!(o, "\"dump\":{},", strs(&x.s.dump));
    let _ = write!(
        o,
        "\"queries\":{},\"cache_hits\":{},\"unsat\":{},\"unknown\":{},\"solver_time\":{:.3},\"max_query\":{:.3},\"nodes\":{},\"wall\":{:.3}}}",
        x.s.queries,
        x.s.cache_hits,
        x.s.unsat,
        x.s.unknown,
        x.s.time,
        x.s.max_query,
        x.a.nodes.len(),
        wall
    );
    o
}

fn real_main() {
    let mut args: HashMap<String, String> = HashMap::new();
    let mut params = HashMap::new();
    let mut it = std::env::args().skip(1);
    while let Some(k) = it.next() {
        let v = it.next().unwrap_or_default();
        if k == "--param" {
            let (a, b) = v.split_once('=').unwrap();
            params.insert(a.parse::<u64>().unwrap(), b.parse::<i64>().unwrap() as u64);
        } else {
            args.insert(k, v);
        }
    }
    let get = |k: &str, d: &str| args.get(k).cloned().unwrap_or(d.to_string());
    let t0 = Instant::now();
    let m = llvm::load(&args["--bc"]);
    let load_time = t0.elapsed().as_secs_f64();
    let h = &args["--harness"];
    let f = match m.by_name.get(h) {
        Some(&f) => f,
        None => {
            eprintln!("no function {}", h);
            std::process::exit(2);
        }
    };
    let workers: usize = get("--workers", "8").parse().unwrap();
    let limit: f64 = get("--time", "600").parse().unwrap();
    let out = get("--out", "/dev/stdout");
    let mut x = Exec::new(&m, get("--rlimit", "40000000").parse().unwrap());
    x.params = params;
    x.step_limit = get("--steps", "20000000").parse().unwrap();
    x.max_samples = get("--samples", "4").parse().unwrap();
    x.max_values = get("--max-values", "2048").parse().unwrap();
    x.s.dump_max = get("--dump", "0").parse().unwrap();
    x.verbose = args.contains_key("--verbose");
    let seed: u64 = get("--seed", "1").parse().unwrap();
    x.rng = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    x.deadline = Some(t0 + Duration::from_secs_f64(limit));
    if let Some(r) = args.get("--replay") {
        let t = std::fs::read_to_string(r).unwrap();
        let mut v = Vec::new();
        for l in t.lines() {
            let mut p = l.split_whitespace();
            let n = p.next().unwrap_or("").to_string();
            let hx = p.next().unwrap_or("");
            v.push((n, (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect()));
        }
        x.replay = Some(v);
    }
    let mut queue = std::collections::VecDeque::new();
    queue.push_back(x.initial(f));
    let target = if workers > 1 { get("--split", "400").parse().unwrap() } else { usize::MAX };
    if workers > 1 {
        while let Some(s) = queue.pop_front() {
            let mut w = Vec::new();
            x.run(s, &mut w, true);
            queue.extend(w);
            if queue.len() >= target {
                break;
            }
        }
    } else {
        while let Some(s) = queue.pop_back() {
            let mut w: Vec<State> = Vec::new();
            x.run(s, &mut w, false);
            queue.extend(w);
        }
    }
    let n = queue.len();
    let mut parts = 0;
    if n > 0 {
        let states: Vec<State> = queue.into_iter().collect();
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        assert!(shared as isize != -1);
        let ctr = unsafe { &*(shared as *const std::sync::atomic::AtomicUsize) };
        let mut pids = Vec::new();
        for w in 0..workers.min(n) {
            let pid = unsafe { fork() };
            if pid == 0 {
                let keep_asserts = std::mem::take(&mut x.st);
                drop(keep_asserts);
                x.s.queries = 0;
                x.s.retries = 0;
                x.s.cache_hits = 0;
                x.s.unsat = 0;
                x.s.unknown = 0;
                x.s.time = 0.0;
                x.s.max_query = 0.0;
                x.s.dump.clear();
                x.rng = (seed + 77 * (w as u64 + 1)).wrapping_mul(0x9E3779B97F4A7C15) | 1;
                let mut pending = 0;
                loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= n {
                        break;
                    }
                    let mut stack = vec![states[i].clone()];
                    while let Some(s) = stack.pop() {
                        x.run(s, &mut stack, false);
                    }
                    pending += 1;
                }
                let j = result_json(&x, t0.elapsed().as_secs_f64(), pending);
                std::fs::write(format!("{}.{}", out, w), j).unwrap();
                unsafe { _exit(0) };
            }
            pids.push(pid);
        }
        parts = pids.len();
        for p in pids {
            let mut st = 0;
            unsafe { waitpid(p, &mut st, 0) };
            if st != 0 {
                eprintln!("worker failed with status {:#x}", st);
                std::process::exit(3);
            }
        }
    }
    let j = result_json(&x, t0.elapsed().as_secs_f64(), 0);
    let j = format!("{},\"split\":{},\"parts\":{},\"load_time\":{:.3},\"module_insts\":{},\"module_funcs\":{},\"z3\":{}}}", &j[..j.len() - 1], n, parts, load_time, m.ninsts, m.funcs.iter().filter(|f| !f.decl).count(), esc(&z3::version()));
    if out == "/dev/stdout" {
        println!("{}", j);
    } else {
        std::fs::write(out, j).unwrap();
    }
}

fn main() {
    if std::env::args().nth(1).as_deref() == Some("--selftest") {
        return fp::selftest();
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
