mod exec;
mod ir;
mod ll;
mod selftest;
mod term;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn main() {
    let mut a = std::env::args().skip(1);
    let (mut ll, mut entry, mut out) = (String::new(), String::new(), String::new());
    let mut params = Vec::new();
    let mut workers = 8usize;
    let (mut max_steps, mut max_viol, mut max_paths, mut secs, mut qto) = (20_000_000u64, 8u64, 5_000_000u64, 300u64, 60_000u32);
    let mut dump = None;
    while let Some(x) = a.next() {
        let mut n = || a.next().expect("argument");
        match x.as_str() {
            "--ll" => ll = n(),
            "--entry" => entry = n(),
            "--out" => out = n(),
            "--params" => params = n().split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect(),
            "--workers" => workers = n().parse().unwrap(),
            "--max-steps" => max_steps = n().parse().unwrap(),
            "--max-viol" => max_viol = n().parse().unwrap(),
            "--max-paths" => max_paths = n().parse().unwrap(),
            "--secs" => secs = n().parse().unwrap(),
            "--query-ms" => qto = n().parse().unwrap(),
            "--selftest" => return selftest::run(n().parse().unwrap()),
            "--dump" => dump = Some(n()),
            _ => panic!("argument {x}"),
        }
    }
    let t0 = Instant::now();
    let m = match ll::Module::load(&ll) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("gsx: {e}");
            std::process::exit(3);
        }
    };
    let e = match m.fidx.get(&entry) {
        Some(e) => *e,
        None => {
            eprintln!("gsx: no entry {entry}");
            std::process::exit(3);
        }
    };
    let sh = Arc::new(Shared {
        m,
        entry: e,
        params,
        queue: Mutex::new((vec![Job { decisions: vec![], model: vec![] }], 0)),
        cv: Condvar::new(),
        nworkers: workers,
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        npaths: AtomicU64::new(0),
        nviol: AtomicU64::new(0),
        max_steps,
        max_viol,
        max_paths,
        deadline: Instant::now() + Duration::from_secs(secs),
    });
    let load_s = t0.elapsed().as_secs_f64();
    let mut hs = Vec::new();
    for _ in 0..workers {
        let sh = sh.clone();
        let dump = dump.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    let sh2 = sh.clone();
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                        let mut w = Worker::new(sh, qto);
                        w.z.dump = dump.map(|d| (d, 40));
                        w.main_loop();
                        (w.stats, w.z.stats.clone(), w.paths, w.errors, w.funcs)
                    }));
                    if r.is_err() {
                        sh2.stop.store(true, Ordering::Relaxed);
                        sh2.cv.notify_all();
                    }
                    r
                })
                .unwrap(),
        );
    }
    let mut late = 0;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(20));
        if sh.stop.load(Ordering::Relaxed) || Instant::now() > sh.deadline {
            late += 1;
            if late % 50 == 49 {
                z3::interrupt();
            }
        }
    }
    let mut st = Stats::default();
    let mut zs = z3::SolverStats::default();
    let mut paths = Vec::new();
    let mut errors = Vec::new();
    let mut funcs: BTreeSet<u32> = BTreeSet::new();
    for h in hs {
        match h.join().unwrap() {
            Ok((s, z, p, e, f)) => {
                st.paths += s.paths;
                st.forks += s.forks;
                st.branches += s.branches;
                st.sym_branches += s.sym_branches;
                st.steps += s.steps;
                st.assume_killed += s.assume_killed;
                st.asserts += s.asserts;
                st.sym_asserts += s.sym_asserts;
                st.concretizations += s.concretizations;
                st.sym_loads += s.sym_loads;
                zs.queries += z.queries;
                zs.sat += z.sat;
                zs.hard += z.hard;
                zs.unsat += z.unsat;
                zs.cache_hits += z.cache_hits;
                zs.time_us += z.time_us;
                zs.max_us = zs.max_us.max(z.max_us);
                paths.extend(p);
                errors.extend(e);
                funcs.extend(f);
            }
            Err(_) => errors.push("engine worker panicked".into()),
        }
    }
    // deterministic order
    paths.sort_by(|a, b| a.inputs.cmp(&b.inputs));
    let mut reach: BTreeMap<u64, u64> = BTreeMap::new();
    let mut status: BTreeMap<String, u64> = BTreeMap::new();
    for p in &paths {
        for r in &p.reached {
            *reach.entry(*r).or_default() += 1;
        }
        *status.entry(p.status.clone()).or_default() += 1;
    }
    let mut f = std::io::BufWriter::new(std::fs::File::create(format!("{out}.paths")).expect("out"));
    for p in &paths {
        let hx: String = p.out.iter().map(|b| format!("{b:02x}")).collect();
        let ins: Vec<String> = p.inputs.iter().map(|x| x.to_string()).collect();
        writeln!(f, "{}|{}|{}|{}", p.status, ins.join(","), hx, p.detail).unwrap();
    }
    f.flush().unwrap();
    let mut j = String::from("{\n");
    let mut kv = |k: &str, v: String| j.push_str(&format!(" \"{k}\": {v},\n"));
    kv("entry", format!("\"{}\"", esc(&entry)));
    kv("z3", format!("\"{}\"", esc(&z3::version())));
    kv("load_s", format!("{load_s:.3}"));
    kv("wall_s", format!("{:.3}", t0.elapsed().as_secs_f64()));
    kv("paths", st.paths.to_string());
    kv("assume_killed", st.assume_killed.to_string());
    kv("forks", st.forks.to_string());
    kv("instructions", st.steps.to_string());
    kv("branches", st.branches.to_string());
    kv("symbolic_branches", st.sym_branches.to_string());
    kv("concretizations", st.concretizations.to_string());
    kv("symbolic_loads", st.sym_loads.to_string());
    kv("asserts", st.asserts.to_string());
    kv("symbolic_asserts", st.sym_asserts.to_string());
    kv("queries", zs.queries.to_string());
    kv("query_second_solver", zs.hard.to_string());
    kv("query_sat", zs.sat.to_string());
    kv("query_unsat", zs.unsat.to_string());
    kv("query_cache_hits", zs.cache_hits.to_string());
    kv("solver_s", format!("{:.3}", zs.time_us as f64 / 1e6));
    kv("solver_max_ms", format!("{:.3}", zs.max_us as f64 / 1e3));
    let s: Vec<String> = status.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    kv("status", format!("{{{}}}", s.join(", ")));
    let s: Vec<String> = reach.iter().map(|(k, v)| format!("\"{k}\": {v}")).collect();
    kv("reach", format!("{{{}}}", s.join(", ")));
    let s: Vec<String> = errors.iter().take(10).map(|e| format!("\"{}\"", esc(e))).collect();
    kv("errors", format!("[{}]", s.join(", ")));
    let s: Vec<String> = funcs.iter().map(|e| format!("\"{}\"", esc(&sh.m.funcs[*e as usize].name))).collect();
    j.push_str(&format!(" \"functions\": [{}]\n}}\n", s.join(", ")));
    std::fs::write(format!("{out}.json"), j).expect("out");
    if !errors.is_empty() {
        std::process::exit(3);
    }
}
