//! Native execution of harnesses on concrete inputs (against the real, natively compiled code).
//! usage: replay ENTRY PARAMS FILE    -- one case per line "status|in,in,..|outhex|detail"
//!        replay ENTRY PARAMS --one "in,in,.."
//! Prints one line per case: "status|outhex|detail" (or only disagreements and a summary for a file).
use std::cell::RefCell;
use std::io::BufRead;
use std::panic::{catch_unwind, panic_any};

struct Viol(u64);
struct Assume;
struct Starved;

#[derive(Default)]
struct S {
    ins: Vec<u64>,
    pos: usize,
    out: Vec<u8>,
    params: Vec<u64>,
    reached: Vec<u64>,
}
thread_local!(static ST: RefCell<S> = RefCell::new(S::default()));

fn next() -> u64 {
    let v = ST.with(|s| {
        let mut s = s.borrow_mut();
        let p = s.pos;
        s.pos += 1;
        s.ins.get(p).copied()
    });
    match v {
        Some(v) => v,
        None => panic_any(Starved),
    }
}
#[no_mangle]
extern "C-unwind" fn sx_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C-unwind" fn sx_range(lo: u64, hi: u64) -> u64 {
    let v = next();
    if v < lo || v > hi {
        panic_any(Assume)
    }
    v
}
#[no_mangle]
extern "C-unwind" fn sx_fork(v: u64) -> u64 {
    v
}
#[no_mangle]
extern "C-unwind" fn sx_assume(c: bool) {
    if !c {
        panic_any(Assume)
    }
}
#[no_mangle]
extern "C-unwind" fn sx_assert(c: bool, id: u64) {
    if !c {
        panic_any(Viol(id))
    }
}
#[no_mangle]
extern "C-unwind" fn sx_out(p: *const u8, n: usize) {
    let b = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(p, n) } };
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.out.extend_from_slice(b);
        s.out.push(0xff);
    })
}
#[no_mangle]
extern "C-unwind" fn sx_reach(id: u64) {
    ST.with(|s| {
        let r = &mut s.borrow_mut().reached;
        if !r.contains(&id) {
            r.push(id)
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sx_param(i: u64) -> u64 {
    ST.with(|s| s.borrow().params.get(i as usize).copied().unwrap_or(0))
}

fn run(f: extern "C-unwind" fn(), ins: Vec<u64>) -> (String, Vec<u8>, String, Vec<u64>) {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.ins = ins;
        s.pos = 0;
        s.out.clear();
        s.reached.clear();
    });
    let r = catch_unwind(|| f());
    let (out, reached) = ST.with(|s| (s.borrow().out.clone(), s.borrow().reached.clone()));
    let (st, d) = match r {
        Ok(()) => ("ok", String::new()),
        Err(e) => {
            if let Some(v) = e.downcast_ref::<Viol>() {
                ("viol", v.0.to_string())
            } else if e.is::<Assume>() {
                ("assume", String::new())
            } else if e.is::<Starved>() {
                ("starved", String::new())
            } else if let Some(s) = e.downcast_ref::<String>() {
                ("panic", s.clone())
            } else if let Some(s) = e.downcast_ref::<&str>() {
                ("panic", s.to_string())
            } else {
                ("panic", String::new())
            }
        }
    };
    (st.into(), out, d, reached)
}

fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push_str(&format!("{x:02x}"));
    }
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = match gh::table().into_iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1,
        None => {
            eprintln!("no harness {}", a[1]);
            std::process::exit(3);
        }
    };
    let nums = |s: &str| -> Vec<u64> { s.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let params = nums(&a[2]);
    ST.with(|s| s.borrow_mut().params = params);
    std::panic::set_hook(Box::new(|_| {}));
    if a[3] == "--one" {
        let (st, out, d, reached) = run(f, nums(&a[4]));
        println!("{st}|{}|{}", hex(&out), d.replace('\n', " "));
        println!("reached {reached:?}");
        println!("output {:?}", out.split(|b| *b == 0xff).map(|s| String::from_utf8_lossy(s).into_owned()).collect::<Vec<_>>());
        std::process::exit((st != "ok") as i32);
    }
    let file = std::io::BufReader::new(std::fs::File::open(&a[3]).unwrap());
    let (mut n, mut bad) = (0u64, 0u64);
    for line in file.lines() {
        let line = line.unwrap();
        let p: Vec<&str> = line.splitn(4, '|').collect();
        if p[0] == "limit" {
            continue;
        }
        let (st, out, d, _) = run(f, nums(p[1]));
        n += 1;
        let same = st == p[0] && (hex(&out) == p[2]) && (st != "viol" || d == p[3]);
        if !same {
            bad += 1;
            if bad <= 5 {
                println!("DISAGREE in={} engine={}|{}|{} native={}|{}|{}", p[1], p[0], p[2], p[3], st, hex(&out), d.replace('\n', " "));
            }
        }
    }
    println!("replayed {n} disagreements {bad}");
    std::process::exit((bad > 0) as i32);
}
