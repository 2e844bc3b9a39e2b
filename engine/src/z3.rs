//! Minimal FFI to libz3 and the solver used by one worker.
use crate::term::*;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_is_numeral_ast(c: P, a: P) -> bool;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, comp: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_interrupt(c: P);
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_get_full_version() -> *const c_char;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
}

/// The contexts of all workers, so that long queries can be ended when the time is over.
static CONTEXTS: std::sync::Mutex<Vec<usize>> = std::sync::Mutex::new(Vec::new());

/// Ends the queries which are running; the ones that did not finish are unknown.
pub fn interrupt() {
    for c in CONTEXTS.lock().unwrap().iter() {
        unsafe { Z3_interrupt(*c as P) }
    }
}

extern "C" fn on_error(_c: P, e: c_int) {
    eprintln!("gsx: z3 error code {e}");
    std::process::exit(3);
}

pub fn version() -> String {
    unsafe { std::ffi::CStr::from_ptr(Z3_get_full_version()).to_string_lossy().into_owned() }
}

pub enum Res {
    Unsat,
    Sat(Vec<(usize, u64)>),
    Unknown,
}

#[derive(Default, Clone)]
pub struct SolverStats {
    pub queries: u64,
    pub hard: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cache_hits: u64,
    pub time_us: u64,
    pub max_us: u64,
}

#[derive(Clone, Copy)]
enum Z {
    B(P), // Bool sort
    V(P), // BitVec sort
}

pub struct Z3 {
    ctx: P,
    solver: P,
    /// Non-incremental bit-vector solver for the queries the first one does not decide quickly.
    hard: P,
    bv: HashMap<u32, P>,
    map: Vec<Option<Z>>,
    vars: HashMap<(usize, u32), P>,
    cache: HashMap<Vec<T>, Option<Vec<(usize, u64)>>>,
    pub stats: SolverStats,
    pub dump: Option<(String, usize)>,
}

impl Z3 {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_error);
            CONTEXTS.lock().unwrap().push(ctx as usize);
            let solver = Z3_mk_simple_solver(ctx);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), 60.min(timeout_ms));
            Z3_solver_set_params(ctx, solver, p);
            let l = CString::new("QF_BV").unwrap();
            let hard = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, hard);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, hard, p);
            Z3 {
                ctx,
                solver,
                hard,
                bv: HashMap::new(),
                map: Vec::new(),
                vars: HashMap::new(),
                cache: HashMap::new(),
                stats: SolverStats::default(),
                dump: None,
            }
        }
    }

    fn bvsort(&mut self, w: u32) -> P {
        let ctx = self.ctx;
        *self.bv.entry(w).or_insert_with(|| unsafe { Z3_mk_bv_sort(ctx, w) })
    }

    fn num(&mut self, w: u32, k: u128) -> P {
        let s = self.bvsort(w);
        unsafe {
            if k <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, k as u64, s)
            } else {
                let n = CString::new(k.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, n.as_ptr(), s)
            }
        }
    }

    fn as_bool(&mut self, z: Z) -> P {
        match z {
            Z::B(p) => p,
            Z::V(p) => unsafe {
                let one = self.num(1, 1);
                Z3_mk_eq(self.ctx, p, one)
            },
        }
    }
    fn as_bv(&mut self, z: Z) -> P {
        match z {
            Z::V(p) => p,
            Z::B(p) => unsafe {
                let one = self.num(1, 1);
                let zero = self.num(1, 0);
                Z3_mk_ite(self.ctx, p, one, zero)
            },
        }
    }

    fn tr(&mut self, ar: &Arena, t: T) -> Z {
        if self.map.len() < ar.nodes.len() {
            self.map.resize(ar.nodes.len() + 1024, None);
        }
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.map[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = &ar.nodes[x as usize];
            let na = match n.op {
                Op::Const | Op::Var => 0,
                Op::Extract | Op::ZExt | Op::SExt => 1,
                Op::Ite => 3,
                _ => 2,
            };
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for c in &ch[..na] {
                if self.map[*c as usize].is_none() {
                    stack.push(*c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let ctx = self.ctx;
            let g = |s: &Self, i: usize| s.map[ch[i] as usize].unwrap();
            let r = unsafe {
                match n.op {
                    Op::Const => {
                        if n.w == 1 {
                            Z::B(if n.k == 1 { Z3_mk_true(ctx) } else { Z3_mk_false(ctx) })
                        } else {
                            Z::V(self.num(n.w, n.k))
                        }
                    }
                    Op::Var => {
                        let id = n.k as usize;
                        let s = self.bvsort(n.w);
                        let name = CString::new(format!("v{}_{}", id, n.w)).unwrap();
                        let sym = Z3_mk_string_symbol(ctx, name.as_ptr());
                        let p = Z3_mk_const(ctx, sym, s);
                        self.vars.insert((id, n.w), p);
                        Z::V(p)
                    }
                    Op::Eq | Op::Ult | Op::Slt => {
                        let (a, b) = (g(self, 0), g(self, 1));
                        let (a, b) = (self.as_bv(a), self.as_bv(b));
                        Z::B(match n.op {
                            Op::Eq => Z3_mk_eq(ctx, a, b),
                            Op::Ult => Z3_mk_bvult(ctx, a, b),
                            _ => Z3_mk_bvslt(ctx, a, b),
                        })
                    }
                    Op::And | Op::Or | Op::Xor if n.w == 1 => {
                        let (a, b) = (g(self, 0), g(self, 1));
                        let (a, b) = (self.as_bool(a), self.as_bool(b));
                        let ab = [a, b];
                        Z::B(match n.op {
                            Op::And => Z3_mk_and(ctx, 2, ab.as_ptr()),
                            Op::Or => Z3_mk_or(ctx, 2, ab.as_ptr()),
                            _ => {
                                if ar.cst(ch[1]) == Some(1) {
                                    Z3_mk_not(ctx, a)
                                } else {
                                    Z3_mk_xor(ctx, a, b)
                                }
                            }
                        })
                    }
                    Op::Ite => {
                        let (c, a, b) = (g(self, 0), g(self, 1), g(self, 2));
                        let c = self.as_bool(c);
                        if n.w == 1 {
                            let (a, b) = (self.as_bool(a), self.as_bool(b));
                            Z::B(Z3_mk_ite(ctx, c, a, b))
                        } else {
                            let (a, b) = (self.as_bv(a), self.as_bv(b));
                            Z::V(Z3_mk_ite(ctx, c, a, b))
                        }
                    }
                    Op::Extract => {
                        let a = g(self, 0);
                        let a = self.as_bv(a);
                        Z::V(Z3_mk_extract(ctx, (n.k >> 16) as c_uint, (n.k & 0xffff) as c_uint, a))
                    }
                    Op::ZExt | Op::SExt => {
                        let a = g(self, 0);
                        let a = self.as_bv(a);
                        let d = n.w - ar.w(ch[0]);
                        Z::V(if n.op == Op::ZExt { Z3_mk_zero_ext(ctx, d, a) } else { Z3_mk_sign_ext(ctx, d, a) })
                    }
                    _ => {
                        let (a, b) = (g(self, 0), g(self, 1));
                        let (a, b) = (self.as_bv(a), self.as_bv(b));
                        let f: unsafe extern "C" fn(P, P, P) -> P = match n.op {
                            Op::Add => Z3_mk_bvadd,
                            Op::Sub => Z3_mk_bvsub,
                            Op::Mul => Z3_mk_bvmul,
                            Op::UDiv => Z3_mk_bvudiv,
                            Op::URem => Z3_mk_bvurem,
                            Op::SDiv => Z3_mk_bvsdiv,
                            Op::SRem => Z3_mk_bvsrem,
                            Op::And => Z3_mk_bvand,
                            Op::Or => Z3_mk_bvor,
                            Op::Xor => Z3_mk_bvxor,
                            Op::Shl => Z3_mk_bvshl,
                            Op::LShr => Z3_mk_bvlshr,
                            Op::AShr => Z3_mk_bvashr,
                            Op::Concat => Z3_mk_concat,
                            _ => unreachable!(),
                        };
                        Z::V(f(ctx, a, b))
                    }
                }
            };
            self.map[x as usize] = Some(r);
            stack.pop();
        }
        self.map[t as usize].unwrap()
    }

    /// Decide satisfiability of the conjunction of `cs` (width-1 terms).
    pub fn check(&mut self, ar: &Arena, mut cs: Vec<T>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(&cs) {
            self.stats.cache_hits += 1;
            return match r {
                None => Res::Unsat,
                Some(m) => Res::Sat(m.clone()),
            };
        }
        let t0 = Instant::now();
        let mut vs: VarSet = [0; 4];
        let zs: Vec<P> = cs
            .iter()
            .map(|&c| {
                vs_union(&mut vs, &ar.vars[c as usize]);
                let z = self.tr(ar, c);
                self.as_bool(z)
            })
            .collect();
        let r = unsafe {
            Z3_solver_push(self.ctx, self.solver);
            for &z in &zs {
                Z3_solver_assert(self.ctx, self.solver, z);
            }
            let mut used = self.solver;
            let mut c = Z3_solver_check(self.ctx, self.solver);
            if c == 0 {
                used = self.hard;
                Z3_solver_reset(self.ctx, used);
                for &z in &zs {
                    Z3_solver_assert(self.ctx, used, z);
                }
                c = Z3_solver_check(self.ctx, used);
                self.stats.hard += 1;
            }
            if let Some((dir, left)) = &mut self.dump {
                if *left > 0 && (self.stats.queries % 7 == 0) {
                    *left -= 1;
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.ctx, self.solver)).to_string_lossy().into_owned();
                    let tag = if c == 1 { "sat" } else if c == -1 { "unsat" } else { "unknown" };
                    let _ = std::fs::write(
                        format!("{dir}/q{:?}_{}.{tag}.smt2", std::thread::current().id(), self.stats.queries).replace(['(', ')'], ""),
                        format!("(set-logic QF_BV)\n{s}\n(check-sat)\n"),
                    );
                }
            }
            let r = match c {
                1 => {
                    let m = Z3_solver_get_model(self.ctx, used);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut out = Vec::new();
                    for (&(id, _w), &p) in self.vars.iter() {
                        if vs[id / 64] >> (id % 64) & 1 == 1 {
                            let mut v: P = std::ptr::null_mut();
                            if Z3_model_eval(self.ctx, m, p, false, &mut v) && Z3_is_numeral_ast(self.ctx, v) {
                                let mut u = 0u64;
                                if Z3_get_numeral_uint64(self.ctx, v, &mut u) {
                                    out.push((id, u));
                                }
                            }
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.ctx, self.solver, 1);
            r
        };
        let us = t0.elapsed().as_micros() as u64;
        self.stats.queries += 1;
        self.stats.time_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match &r {
            Res::Unsat => {
                self.stats.unsat += 1;
                self.cache.insert(cs, None);
            }
            Res::Sat(m) => {
                self.stats.sat += 1;
                self.cache.insert(cs, Some(m.clone()));
            }
            Res::Unknown => {}
        }
        r
    }
}
