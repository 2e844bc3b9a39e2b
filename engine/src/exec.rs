//! The symbolic executor: one `Worker` explores states depth-first; every symbolic decision is
//! recorded so that a state can be handed to another worker as a list of decisions.
use crate::ir::*;
use crate::ll::*;
use crate::term::*;
use crate::z3::{Res, Z3};
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    T(T),
    A(Rc<Vec<Val>>),
}

#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u8>,
    pub sym: Option<Vec<T>>, // NONE = concrete
    pub ro: bool,
}
const NONE: T = u32::MAX;

#[derive(Clone)]
struct Frame {
    func: Arc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: usize,
    ret: Option<u32>,
    allocas: Vec<u32>,
}

/// A decision: made by which step, what was decided, and whether there was an alternative.
#[derive(Clone, Copy)]
pub struct Dec {
    at: u64,
    v: u64,
    forked: bool,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    objs: Vec<Option<Rc<Obj>>>,
    gl: HashMap<u32, Rc<Obj>>,
    free: Vec<u32>,
    pc: Vec<T>,
    model: Vec<u64>,
    nvars: usize,
    decisions: Vec<Dec>,
    dpos: usize,
    outs: Vec<(Vec<u8>, Option<Vec<T>>)>,
    reached: Vec<u64>,
    steps: u64,
    ins_dpos: usize,
    ins_pc: usize,
    asserts: u64,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Panic(String),
    AssumeFail,
    Violation(u64),
    Err(String),
    Limit,
}

/// The witness of `sx::unsupported`.
const UNSUPPORTED: u64 = 900;

type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct PathRec {
    pub status: String,
    pub detail: String,
    pub inputs: Vec<u64>,
    pub out: Vec<u8>,
    pub reached: Vec<u64>,
    pub steps: u64,
    pub symbolic: bool,
}

pub struct Job {
    pub decisions: Vec<Dec>,
    pub model: Vec<u64>,
}

pub struct Shared {
    pub m: Module,
    pub entry: u32,
    pub params: Vec<u64>,
    pub queue: Mutex<(Vec<Job>, usize)>, // jobs, idle workers
    pub cv: Condvar,
    pub nworkers: usize,
    pub hungry: AtomicUsize,
    pub stop: AtomicBool,
    pub npaths: AtomicU64,
    pub nviol: AtomicU64,
    pub max_steps: u64,
    pub max_viol: u64,
    pub max_paths: u64,
    pub deadline: Instant,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub paths: u64,
    pub forks: u64,
    pub branches: u64,
    pub sym_branches: u64,
    pub steps: u64,
    pub assume_killed: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub concretizations: u64,
    pub sym_loads: u64,
}

pub struct Worker {
    pub sh: Arc<Shared>,
    pub ar: Arena,
    pub z: Z3,
    stack: Vec<State>,
    ginit: Vec<Option<Rc<Obj>>>,
    fcache: Vec<Option<Arc<Func>>>,
    pub stats: Stats,
    pub paths: Vec<PathRec>,
    pub errors: Vec<String>,
    pub funcs: HashSet<u32>,
    ng: u32,
}

fn m_(w: u32) -> u128 {
    mask(w)
}

impl Worker {
    pub fn new(sh: Arc<Shared>, timeout_ms: u32) -> Self {
        let ng = sh.m.globals.len() as u32;
        let nf = sh.m.funcs.len();
        Worker {
            ar: Arena::new(),
            z: Z3::new(timeout_ms),
            stack: Vec::new(),
            ginit: vec![None; ng as usize],
            fcache: vec![None; nf],
            stats: Stats::default(),
            paths: Vec::new(),
            errors: Vec::new(),
            funcs: HashSet::new(),
            ng,
            sh,
        }
    }

    fn func(&mut self, id: u32) -> R<Arc<Func>> {
        if let Some(f) = &self.fcache[id as usize] {
            return Ok(f.clone());
        }
        let f = self.sh.m.func(id).map_err(Stop::Err)?;
        self.funcs.insert(id);
        self.fcache[id as usize] = Some(f.clone());
        Ok(f)
    }

    pub fn main_loop(&mut self) {
        loop {
            // local work first
            while let Some(st) = self.stack.pop() {
                if self.sh.stop.load(Ordering::Relaxed) {
                    self.stack.clear();
                    break;
                }
                self.run(st);
            }
            let job = {
                let sh = self.sh.clone();
                let mut q = sh.queue.lock().unwrap();
                q.1 += 1;
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        sh.cv.notify_all();
                        return;
                    }
                    if let Some(j) = q.0.pop() {
                        q.1 -= 1;
                        sh.hungry.store(q.1.saturating_sub(q.0.len()), Ordering::Relaxed);
                        break j;
                    }
                    if q.1 == sh.nworkers {
                        sh.stop.store(true, Ordering::Relaxed);
                        sh.cv.notify_all();
                        return;
                    }
                    sh.hungry.store(q.1.saturating_sub(q.0.len()), Ordering::Relaxed);
                    q = sh.cv.wait_timeout(q, std::time::Duration::from_millis(50)).unwrap().0;
                }
            };
            match self.initial(job) {
                Ok(st) => self.stack.push(st),
                Err(e) => {
                    self.errors.push(format!("{e:?}"));
                    self.sh.stop.store(true, Ordering::Relaxed);
                }
            }
        }
    }

    fn initial(&mut self, j: Job) -> R<State> {
        let f = self.func(self.sh.entry)?;
        Ok(State {
            frames: vec![Frame { regs: vec![Val::C(0); f.nregs as usize], func: f, blk: 0, ip: 0, ret: None, allocas: vec![] }],
            objs: Vec::new(),
            gl: HashMap::new(),
            free: Vec::new(),
            pc: Vec::new(),
            model: j.model,
            nvars: 0,
            decisions: j.decisions,
            dpos: 0,
            outs: Vec::new(),
            reached: Vec::new(),
            steps: 0,
            ins_dpos: 0,
            ins_pc: 0,
            asserts: 0,
        })
    }

    // ---------------------------------------------------------------- solver interface

    fn slice(&self, st: &State, extra: T) -> Vec<T> {
        let mut vs = self.ar.vars[extra as usize];
        let mut inc = vec![false; st.pc.len()];
        let mut out = vec![extra];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !inc[i] && vs_inter(&self.ar.vars[*c as usize], &vs) {
                    inc[i] = true;
                    vs_union(&mut vs, &self.ar.vars[*c as usize]);
                    out.push(*c);
                    ch = true;
                }
            }
            if !ch {
                return out;
            }
        }
    }

    /// Is `pc && extra` satisfiable? Returns an updated model.
    fn sat(&mut self, st: &State, extra: T) -> R<Option<Vec<u64>>> {
        if let Some(k) = self.ar.cst(extra) {
            return Ok(if k == 1 { Some(st.model.clone()) } else { None });
        }
        let cs = self.slice(st, extra);
        match self.z.check(&self.ar, cs) {
            Res::Unsat => Ok(None),
            Res::Sat(m) => {
                let mut model = st.model.clone();
                for (i, v) in m {
                    if i < model.len() {
                        model[i] = v;
                    }
                }
                debug_assert_eq!(self.ar.eval(extra, &model), 1);
                Ok(Some(model))
            }
            Res::Unknown => {
                // No answer in the end, but what is found on the way counts.
                self.failed(st, "solver answered unknown (timeout)".into());
                Ok(None)
            }
        }
    }

    /// The next decision of the prefix being replayed, if there is one at this instruction. Where
    /// another worker found a condition to be a constant and this one does not, the model (which
    /// satisfies the whole prefix) tells its value.
    fn replayed(&mut self, st: &mut State) -> R<Option<Option<u64>>> {
        while st.dpos < st.decisions.len() {
            let d = st.decisions[st.dpos];
            if d.at > st.steps {
                return Ok(Some(None));
            }
            st.dpos += 1;
            if d.at == st.steps {
                return Ok(Some(Some(d.v)));
            }
            if d.forked {
                return Err(Stop::Err("replay went another way".into()));
            }
        }
        Ok(None)
    }

    fn push_alt(&mut self, st: &State, dec: u64, model: Vec<u64>) {
        self.stats.forks += 1;
        let mut decisions = st.decisions[..st.dpos].to_vec();
        decisions.push(Dec { at: st.steps, v: dec, forked: true });
        let sh = self.sh.clone();
        if sh.hungry.load(Ordering::Relaxed) > 0 {
            let mut q = sh.queue.lock().unwrap();
            if q.1 > q.0.len() {
                q.0.push(Job { decisions, model });
                sh.hungry.store(q.1.saturating_sub(q.0.len()), Ordering::Relaxed);
                sh.cv.notify_one();
                return;
            }
        }
        let mut a = st.clone();
        a.decisions = decisions;
        a.model = model;
        a.dpos = st.ins_dpos;
        a.steps -= 1;
        a.pc.truncate(st.ins_pc);
        self.stack.push(a);
    }

    fn decide(&mut self, st: &mut State, cond: T) -> R<bool> {
        if let Some(k) = self.ar.cst(cond) {
            return Ok(k == 1);
        }
        let nc = self.ar.not(cond);
        let b = self.ar.eval(cond, &st.model) == 1;
        if let Some(d) = self.replayed(st)? {
            if d.map_or(false, |d| (d & 1 == 1) != b) {
                return Err(Stop::Err("replay disagrees with its model".into()));
            }
            if d.map_or(true, |d| d < 2) {
                st.pc.push(if b { cond } else { nc });
            }
            return Ok(b);
        }
        self.stats.sym_branches += 1;
        let (mine, other) = if b { (cond, nc) } else { (nc, cond) };
        match self.sat(st, other)? {
            Some(m) => {
                self.push_alt(st, !b as u64, m);
                st.decisions.push(Dec { at: st.steps, v: b as u64, forked: true });
                st.pc.push(mine);
            }
            None => st.decisions.push(Dec { at: st.steps, v: 2 + b as u64, forked: false }),
        }
        st.dpos += 1;
        Ok(b)
    }

    fn concretize(&mut self, st: &mut State, t: T, cap: usize) -> R<u128> {
        if let Some(k) = self.ar.cst(t) {
            return Ok(k);
        }
        let w = self.ar.w(t);
        if w > 64 {
            return Err(Stop::Err("concretize wide value".into()));
        }
        if let Some(d) = self.replayed(st)? {
            let v = self.ar.eval(t, &st.model);
            if d.map_or(false, |d| d as u128 != v) {
                return Err(Stop::Err("replay disagrees with its model".into()));
            }
            let k = self.ar.konst(w, v);
            let e = self.ar.eq(t, k);
            if self.ar.cst(e).is_none() {
                st.pc.push(e);
            }
            return Ok(v);
        }
        self.stats.concretizations += 1;
        let v0 = self.ar.eval(t, &st.model);
        let k0 = self.ar.konst(w, v0);
        let e0 = self.ar.eq(t, k0);
        let mut excl = self.ar.not(e0);
        let mut n = 1;
        loop {
            match self.sat(st, excl)? {
                None => break,
                Some(m) => {
                    let v = self.ar.eval(t, &m);
                    n += 1;
                    if n > cap {
                        return Err(Stop::Err(format!("more than {cap} values when concretizing in {}", self.where_(st))));
                    }
                    let k = self.ar.konst(w, v);
                    let e = self.ar.eq(t, k);
                    let ne = self.ar.not(e);
                    excl = self.ar.bin(Op::And, excl, ne);
                    self.push_alt(st, v as u64, m);
                }
            }
        }
        st.decisions.push(Dec { at: st.steps, v: v0 as u64, forked: n > 1 });
        st.dpos += 1;
        st.pc.push(e0);
        Ok(v0)
    }

    fn where_(&self, st: &State) -> String {
        st.frames.iter().rev().take(6).map(|f| f.func.name.clone()).collect::<Vec<_>>().join(" < ")
    }

    // ---------------------------------------------------------------- memory

    fn alloc(&mut self, st: &mut State, size: u64) -> R<u64> {
        if size > (1 << 28) {
            return Err(Stop::Err(format!("allocation of {size} bytes")));
        }
        let o = Rc::new(Obj { bytes: vec![0; size as usize], sym: None, ro: false });
        let id = if let Some(i) = st.free.pop() {
            st.objs[i as usize] = Some(o);
            i
        } else {
            st.objs.push(Some(o));
            st.objs.len() as u32 - 1
        };
        Ok(((self.ng as u64) + 1 + id as u64) << 32)
    }

    fn dealloc(&mut self, st: &mut State, addr: u64) -> R<()> {
        let id = (addr >> 32) as i64 - 1 - self.ng as i64;
        if id < 0 || addr & 0xffff_ffff != 0 || id as usize >= st.objs.len() || st.objs[id as usize].is_none() {
            return Err(Stop::Err(format!("invalid free of {addr:#x} in {}", self.where_(st))));
        }
        st.objs[id as usize] = None;
        st.free.push(id as u32);
        Ok(())
    }

    fn obj(&mut self, st: &State, addr: u64) -> R<Rc<Obj>> {
        let hi = (addr >> 32) as u32;
        if hi == 0 || addr >= FUNC_BASE {
            return Err(Stop::Err(format!("bad pointer {addr:#x} in {}", self.where_(st))));
        }
        let i = hi - 1;
        if i < self.ng {
            if let Some(o) = st.gl.get(&i) {
                return Ok(o.clone());
            }
            if let Some(o) = &self.ginit[i as usize] {
                return Ok(o.clone());
            }
            let b = self.sh.m.global_bytes(i).map_err(Stop::Err)?;
            let o = Rc::new(Obj { bytes: (*b).clone(), sym: None, ro: self.sh.m.globals[i as usize].constant });
            self.ginit[i as usize] = Some(o.clone());
            return Ok(o);
        }
        match st.objs.get((i - self.ng) as usize) {
            Some(Some(o)) => Ok(o.clone()),
            _ => Err(Stop::Err(format!("dangling pointer {addr:#x} in {}", self.where_(st)))),
        }
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64) -> R<&'a mut Obj> {
        let i = ((addr >> 32) as u32).wrapping_sub(1);
        if i < self.ng {
            if !st.gl.contains_key(&i) {
                let o = self.obj(st, addr)?;
                if o.ro {
                    return Err(Stop::Err("store to constant".into()));
                }
                st.gl.insert(i, o);
            }
            return Ok(Rc::make_mut(st.gl.get_mut(&i).unwrap()));
        }
        let k = i.wrapping_sub(self.ng) as usize;
        if addr >= FUNC_BASE || k >= st.objs.len() || st.objs[k].is_none() {
            let w = self.where_(st);
            return Err(Stop::Err(format!("store through bad pointer {addr:#x} in {w}")));
        }
        Ok(Rc::make_mut(st.objs[k].as_mut().unwrap()))
    }

    fn byte_t(&mut self, o: &Obj, i: usize) -> T {
        if let Some(s) = &o.sym {
            if s[i] != NONE {
                return s[i];
            }
        }
        self.ar.konst(8, o.bytes[i] as u128)
    }

    fn load_bits(&mut self, o: &Obj, off: usize, w: u32) -> Option<Val> {
        let n = ((w + 7) / 8) as usize;
        if off + n > o.bytes.len() {
            return None;
        }
        let symbolic = match &o.sym {
            None => false,
            Some(s) => s[off..off + n].iter().any(|t| *t != NONE),
        };
        if !symbolic {
            let mut k = 0u128;
            for i in (0..n).rev() {
                k = (k << 8) | o.bytes[off + i] as u128;
            }
            return Some(Val::C(k & m_(w)));
        }
        let mut t = self.byte_t(o, off);
        for i in 1..n {
            let b = self.byte_t(o, off + i);
            t = self.ar.concat(b, t);
        }
        if (n as u32) * 8 > w {
            t = self.ar.extract(t, w - 1, 0);
        }
        Some(self.norm(t))
    }

    fn norm(&self, t: T) -> Val {
        match self.ar.cst(t) {
            Some(k) => Val::C(k),
            None => Val::T(t),
        }
    }

    fn load_ty(&mut self, st: &State, o: &Obj, off: usize, ty: &Ty) -> R<Val> {
        if ty.is_scalar() {
            return match self.load_bits(o, off, ty.bits()) {
                Some(v) => Ok(v),
                None => Err(Stop::Err(format!("load out of bounds: {off}+{} of {} in {}", ty.size(), o.bytes.len(), self.where_(st)))),
            };
        }
        let n = ty.n_fields();
        let mut v = Vec::with_capacity(n);
        for i in 0..n {
            let (fo, ft) = ty.field(i);
            v.push(self.load_ty(st, o, off + fo as usize, &ft)?);
        }
        Ok(Val::A(Rc::new(v)))
    }

    fn store_ty(&mut self, st: &mut State, addr: u64, ty: &Ty, v: &Val) -> R<()> {
        if !ty.is_scalar() {
            if let Val::A(a) = v {
                for (i, x) in a.clone().iter().enumerate() {
                    let (fo, ft) = ty.field(i);
                    self.store_ty(st, addr + fo, &ft, x)?;
                }
                return Ok(());
            }
            return Err(Stop::Err("aggregate store".into()));
        }
        let w = ty.bits();
        let n = ((w + 7) / 8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::C(k) => {
                let wh = if self.obj_mut(st, addr)?.bytes.len() < off + n { Some(self.where_(st)) } else { None };
                if let Some(w) = wh {
                    return Err(Stop::Err(format!("store out of bounds in {w}")));
                }
                let o = self.obj_mut(st, addr)?;
                for i in 0..n {
                    o.bytes[off + i] = (k >> (8 * i)) as u8;
                }
                if let Some(s) = &mut o.sym {
                    for i in 0..n {
                        s[off + i] = NONE;
                    }
                }
            }
            Val::T(t) => {
                let full = self.ar.zext(*t, n as u32 * 8);
                let bs: Vec<T> = (0..n as u32).map(|i| self.ar.extract(full, i * 8 + 7, i * 8)).collect();
                let cs: Vec<Option<u128>> = bs.iter().map(|b| self.ar.cst(*b)).collect();
                let wh = self.where_(st);
                let o = self.obj_mut(st, addr)?;
                if o.bytes.len() < off + n {
                    return Err(Stop::Err(format!("store out of bounds in {wh}")));
                }
                let len = o.bytes.len();
                let s = o.sym.get_or_insert_with(|| vec![NONE; len]);
                for i in 0..n {
                    match cs[i] {
                        Some(k) => {
                            o.bytes[off + i] = k as u8;
                            s[off + i] = NONE;
                        }
                        None => s[off + i] = bs[i],
                    }
                }
            }
            Val::A(_) => return Err(Stop::Err("scalar store of aggregate".into())),
        }
        Ok(())
    }

    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let so = self.obj(st, src)?;
        let soff = (src & 0xffff_ffff) as usize;
        let doff = (dst & 0xffff_ffff) as usize;
        if soff + n > so.bytes.len() {
            return Err(Stop::Err(format!("memcpy source out of bounds in {}", self.where_(st))));
        }
        let data = so.bytes[soff..soff + n].to_vec();
        let sym = so.sym.as_ref().map(|s| s[soff..soff + n].to_vec()).filter(|s| s.iter().any(|t| *t != NONE));
        drop(so);
        let wh = self.where_(st);
        let o = self.obj_mut(st, dst)?;
        if doff + n > o.bytes.len() {
            return Err(Stop::Err(format!("memcpy destination out of bounds in {wh}")));
        }
        o.bytes[doff..doff + n].copy_from_slice(&data);
        let len = o.bytes.len();
        match sym {
            Some(s) => {
                let d = o.sym.get_or_insert_with(|| vec![NONE; len]);
                d[doff..doff + n].copy_from_slice(&s);
            }
            None => {
                if let Some(d) = &mut o.sym {
                    for x in &mut d[doff..doff + n] {
                        *x = NONE;
                    }
                }
            }
        }
        Ok(())
    }

    fn bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Vec<T>> {
        if n == 0 {
            return Ok(vec![]);
        }
        let o = self.obj(st, addr)?;
        let off = (addr & 0xffff_ffff) as usize;
        if off + n > o.bytes.len() {
            return Err(Stop::Err(format!("read out of bounds in {}", self.where_(st))));
        }
        Ok((0..n).map(|i| self.byte_t(&o, off + i)).collect())
    }

    /// Load through a symbolic address.
    fn load_sym(&mut self, st: &mut State, addr: T, ty: &Ty) -> R<Val> {
        self.stats.sym_loads += 1;
        let hi = self.ar.extract(addr, 63, 32);
        let id = self.concretize(st, hi, 64)? as u64;
        let lo = self.ar.extract(addr, 31, 0);
        if let Some(k) = self.ar.cst(lo) {
            let o = self.obj(st, id << 32)?;
            return self.load_ty(st, &o, k as usize, ty);
        }
        let o = self.obj(st, id << 32)?;
        let size = o.bytes.len() as u64;
        let n = ty.size();
        if ty.is_scalar() && size <= 1024 && size >= n {
            let lim = self.ar.konst(32, (size - n) as u128);
            let oob = self.ar.ult(lim, lo);
            let inb = match self.replayed(st)? {
                // recorded below: 1 (in bounds, table) or 0 (fall back)
                Some(Some(d)) => d == 1,
                Some(None) => self.sat(st, oob)?.is_none(),
                None => {
                    let r = self.sat(st, oob)?.is_none();
                    st.decisions.push(Dec { at: st.steps, v: r as u64, forked: false });
                    st.dpos += 1;
                    r
                }
            };
            if inb {
                let mut stride = 1u64;
                let mut start = 0u64;
                for s in [3u32, 2, 1] {
                    let lowb = self.ar.extract(lo, s - 1, 0);
                    if let Some(k) = self.ar.cst(lowb) {
                        stride = 1 << s;
                        start = k as u64;
                        break;
                    }
                }
                let w = ty.bits();
                let mut ent: Vec<(u64, T)> = Vec::new();
                let mut off = start;
                while off + n <= size {
                    let v = self.load_bits(&o, off as usize, w).unwrap();
                    let t = self.t_of(&v, w);
                    ent.push((off, t));
                    off += stride;
                }
                // default = most common value, runs as ranges
                let mut cnt: HashMap<T, usize> = HashMap::new();
                for (_, t) in &ent {
                    *cnt.entry(*t).or_default() += 1;
                }
                let mut best = ent[0].1;
                for (_, t) in &ent {
                    if cnt[t] > cnt[&best] {
                        best = *t;
                    }
                }
                let mut res = best;
                let mut i = 0;
                while i < ent.len() {
                    let mut j = i;
                    while j + 1 < ent.len() && ent[j + 1].1 == ent[i].1 {
                        j += 1;
                    }
                    if ent[i].1 != best {
                        let c = if i == j {
                            let k = self.ar.konst(32, ent[i].0 as u128);
                            self.ar.eq(lo, k)
                        } else {
                            let k = self.ar.konst(32, ent[i].0 as u128);
                            let d = self.ar.bin(Op::Sub, lo, k);
                            let l = self.ar.konst(32, (ent[j].0 - ent[i].0 + 1) as u128);
                            self.ar.ult(d, l)
                        };
                        res = self.ar.ite(c, ent[i].1, res);
                    }
                    i = j + 1;
                }
                return Ok(self.norm(res));
            }
        }
        let k = self.concretize(st, lo, 512)?;
        self.load_ty(st, &o, k as usize, ty)
    }

    // ---------------------------------------------------------------- values

    #[inline]
    fn get(&self, f: &Frame, o: &Opd) -> Val {
        match o {
            Opd::Reg(r) => f.regs[*r as usize].clone(),
            Opd::C(k) => Val::C(*k),
            Opd::Agg(a) => Val::A(Rc::new(a.iter().map(|x| self.get(f, x)).collect())),
        }
    }

    fn t_of(&mut self, v: &Val, w: u32) -> T {
        match v {
            Val::C(k) => self.ar.konst(w, *k),
            Val::T(t) => *t,
            Val::A(_) => panic!("aggregate as term"),
        }
    }

    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if w > 128 {
            return Err(Stop::Err(format!("arithmetic on {w} bits")));
        }
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = Vec::with_capacity(x.len());
            for (p, q) in x.iter().zip(y.iter()) {
                v.push(self.bin(op, w, p, q)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::URem => Op::URem,
            BinOp::SDiv => Op::SDiv,
            BinOp::SRem => Op::SRem,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
        };
        if let (Val::C(x), Val::C(y)) = (a, b) {
            return Ok(Val::C(fold(o, w, *x, *y)));
        }
        let (x, y) = (self.t_of(a, w), self.t_of(b, w));
        let t = self.ar.bin(o, x, y);
        Ok(self.norm(t))
    }

    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::A(x), Val::A(y)) = (a, b) {
            let mut v = Vec::with_capacity(x.len());
            for (p1, q) in x.iter().zip(y.iter()) {
                v.push(self.icmp(p, w, p1, q)?);
            }
            return Ok(Val::A(Rc::new(v)));
        }
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x, w), sext(y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
            };
            return Ok(Val::C(r as u128));
        }
        let (x, y) = (self.t_of(a, w), self.t_of(b, w));
        let t = match p {
            Pred::Eq => self.ar.eq(x, y),
            Pred::Ne => {
                let e = self.ar.eq(x, y);
                self.ar.not(e)
            }
            Pred::Ult => self.ar.ult(x, y),
            Pred::Ugt => self.ar.ult(y, x),
            Pred::Ule => {
                let e = self.ar.ult(y, x);
                self.ar.not(e)
            }
            Pred::Uge => {
                let e = self.ar.ult(x, y);
                self.ar.not(e)
            }
            Pred::Slt => self.ar.slt(x, y),
            Pred::Sgt => self.ar.slt(y, x),
            Pred::Sle => {
                let e = self.ar.slt(y, x);
                self.ar.not(e)
            }
            Pred::Sge => {
                let e = self.ar.slt(x, y);
                self.ar.not(e)
            }
        };
        Ok(self.norm(t))
    }

    fn cast(&mut self, c: CastOp, fw: u32, tw: u32, v: &Val) -> R<Val> {
        if fw > 128 || tw > 128 {
            return Err(Stop::Err(format!("conversion of {fw} to {tw} bits")));
        }
        match v {
            Val::A(x) => {
                let mut o = Vec::with_capacity(x.len());
                for e in x.iter() {
                    o.push(self.cast(c, fw, tw, e)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            Val::C(k) => Ok(Val::C(match c {
                CastOp::Trunc | CastOp::Bit => k & m_(tw),
                CastOp::ZExt => *k,
                CastOp::SExt => (sext(*k, fw) as u128) & m_(tw),
            })),
            Val::T(t) => {
                let r = match c {
                    CastOp::Trunc => self.ar.extract(*t, tw - 1, 0),
                    CastOp::ZExt => self.ar.zext(*t, tw),
                    CastOp::SExt => self.ar.sext_t(*t, tw),
                    CastOp::Bit => *t,
                };
                Ok(self.norm(r))
            }
        }
    }

    fn select(&mut self, c: &Val, a: &Val, b: &Val, ty: &Ty) -> R<Val> {
        match c {
            Val::C(k) => Ok(if *k == 1 { a.clone() } else { b.clone() }),
            Val::A(cs) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let et = ty.field(0).1;
                    let mut v = Vec::new();
                    for i in 0..cs.len() {
                        v.push(self.select(&cs[i], &x[i], &y[i], &et)?);
                    }
                    Ok(Val::A(Rc::new(v)))
                }
                _ => Err(Stop::Err("vector select".into())),
            },
            Val::T(t) => match (a, b) {
                (Val::A(x), Val::A(y)) => {
                    let mut v = Vec::new();
                    for i in 0..x.len() {
                        let ft = ty.field(i).1;
                        v.push(self.select(c, &x[i], &y[i], &ft)?);
                    }
                    Ok(Val::A(Rc::new(v)))
                }
                _ => {
                    let w = ty.bits();
                    let (x, y) = (self.t_of(a, w), self.t_of(b, w));
                    let r = self.ar.ite(*t, x, y);
                    Ok(self.norm(r))
                }
            },
        }
    }

    fn conc(&mut self, st: &mut State, v: &Val, w: u32, cap: usize) -> R<u128> {
        match v {
            Val::C(k) => Ok(*k & m_(w)),
            Val::T(t) => self.concretize(st, *t, cap),
            Val::A(_) => Err(Stop::Err("aggregate concretize".into())),
        }
    }

    // ---------------------------------------------------------------- execution

    fn failed(&mut self, st: &State, e: String) {
        self.errors.push(format!("{e} (after inputs {:?})", &st.model[..st.nvars.min(st.model.len())]));
        if self.errors.len() >= 5 {
            self.sh.stop.store(true, Ordering::Relaxed);
        }
    }

    fn finish(&mut self, st: &mut State, s: Stop) {
        self.stats.steps += st.steps;
        self.stats.asserts += st.asserts;
        let (status, detail) = match s {
            Stop::Done => ("ok", String::new()),
            Stop::AssumeFail if st.reached.contains(&UNSUPPORTED) => {
                self.failed(st, "the harness does not understand what the code does".into());
                return;
            }
            Stop::AssumeFail => {
                self.stats.assume_killed += 1;
                return;
            }
            Stop::Panic(m) => ("panic", m),
            Stop::Violation(i) => ("viol", format!("{i}")),
            Stop::Limit => ("limit", String::new()),
            Stop::Err(e) => {
                self.failed(st, e);
                return;
            }
        };
        self.stats.paths += 1;
        let n = self.sh.npaths.fetch_add(1, Ordering::Relaxed) + 1;
        if n > self.sh.max_paths {
            self.errors.push(format!("more than {} paths", self.sh.max_paths));
            self.sh.stop.store(true, Ordering::Relaxed);
        }
        if Instant::now() > self.sh.deadline {
            self.errors.push("time limit of the exploration reached".into());
            self.sh.stop.store(true, Ordering::Relaxed);
        }
        if status != "ok" {
            let v = self.sh.nviol.fetch_add(1, Ordering::Relaxed) + 1;
            if v >= self.sh.max_viol {
                self.sh.stop.store(true, Ordering::Relaxed);
            }
        }
        let mut out = Vec::new();
        for (b, s) in st.outs.iter() {
            for i in 0..b.len() {
                let x = match s {
                    Some(s) if s[i] != NONE => self.ar.eval(s[i], &st.model) as u8,
                    _ => b[i],
                };
                out.push(x);
            }
            out.push(0xff);
        }
        self.paths.push(PathRec {
            status: status.into(),
            detail,
            inputs: st.model[..st.nvars].to_vec(),
            out,
            reached: st.reached.clone(),
            steps: st.steps,
            symbolic: !st.pc.is_empty(),
        });
    }

    fn run(&mut self, mut st: State) {
        loop {
            match self.burst(&mut st) {
                Ok(()) => {
                    if self.sh.stop.load(Ordering::Relaxed) {
                        return;
                    }
                    if Instant::now() > self.sh.deadline {
                        self.errors.push("time limit of the exploration reached".into());
                        self.sh.stop.store(true, Ordering::Relaxed);
                        return;
                    }
                }
                Err(s) => {
                    self.finish(&mut st, s);
                    return;
                }
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let f = st.frames.last_mut().unwrap();
        let from = f.blk;
        let func = f.func.clone();
        let b = &func.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from).ok_or_else(|| Stop::Err("phi".into()))?;
                let v = self.get(st.frames.last().unwrap(), &o.1);
                vals.push((*d, v));
            }
            let f = st.frames.last_mut().unwrap();
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = st.frames.last_mut().unwrap();
        f.blk = to;
        f.ip = 0;
        Ok(())
    }

    fn burst(&mut self, st: &mut State) -> R<()> {
        for _ in 0..200_000u32 {
            st.steps += 1;
            st.ins_dpos = st.dpos;
            st.ins_pc = st.pc.len();
            let f = st.frames.last().unwrap();
            let func = f.func.clone();
            let (dest, ins) = match func.blocks[f.blk as usize].ins.get(f.ip) {
                Some(x) => x,
                None => return Err(Stop::Err(format!("fell off block in {}", func.name))),
            };
            macro_rules! op {
                ($o:expr) => {{
                    let f = st.frames.last().unwrap();
                    self.get(f, $o)
                }};
            }
            let val: Option<Val> = match ins {
                Ins::Bin(o, w, a, b) => {
                    let (a, b) = (op!(a), op!(b));
                    Some(self.bin(*o, *w, &a, &b)?)
                }
                Ins::ICmp(p, w, a, b) => {
                    let (a, b) = (op!(a), op!(b));
                    Some(self.icmp(*p, *w, &a, &b)?)
                }
                Ins::Cast(c, fw, tw, v) => {
                    let v = op!(v);
                    Some(self.cast(*c, *fw, *tw, &v)?)
                }
                Ins::Select(c, a, b, t) => {
                    let (c, a, b) = (op!(c), op!(a), op!(b));
                    Some(self.select(&c, &a, &b, t)?)
                }
                Ins::Freeze(v) => Some(op!(v)),
                Ins::Load(t, p) => {
                    let p = op!(p);
                    Some(match p {
                        Val::C(a) => {
                            let a = a as u64;
                            let o = self.obj(st, a)?;
                            self.load_ty(st, &o, (a & 0xffff_ffff) as usize, t)?
                        }
                        Val::T(a) => self.load_sym(st, a, t)?,
                        Val::A(_) => return Err(Stop::Err("vector load".into())),
                    })
                }
                Ins::Store(t, v, p) => {
                    let (v, p) = (op!(v), op!(p));
                    let a = self.conc(st, &p, 64, 512)? as u64;
                    self.store_ty(st, a, t, &v)?;
                    None
                }
                Ins::Alloca(sz, n) => {
                    let n = op!(n);
                    let n = self.conc(st, &n, 64, 64)? as u64;
                    let a = self.alloc(st, sz * n)?;
                    let id = (a >> 32) as u32 - 1 - self.ng;
                    st.frames.last_mut().unwrap().allocas.push(id);
                    Some(Val::C(a as u128))
                }
                Ins::Gep(b, c, idx) => {
                    let mut v = op!(b);
                    if *c != 0 {
                        v = self.bin(BinOp::Add, 64, &v, &Val::C(*c as u128))?;
                    }
                    for (o, w, sc) in idx {
                        let i = op!(o);
                        let i = self.cast(CastOp::SExt, *w, 64, &i)?;
                        let i = if *sc == 1 {
                            i
                        } else if sc.is_power_of_two() {
                            self.bin(BinOp::Shl, 64, &i, &Val::C(sc.trailing_zeros() as u128))?
                        } else {
                            self.bin(BinOp::Mul, 64, &i, &Val::C(*sc as u128))?
                        };
                        v = self.bin(BinOp::Add, 64, &v, &i)?;
                    }
                    Some(v)
                }
                Ins::Call(callee, args, rty) => {
                    let mut av: Vec<Val> = Vec::with_capacity(args.len());
                    {
                        let f = st.frames.last().unwrap();
                        for (_, a) in args {
                            av.push(self.get(f, a));
                        }
                    }
                    let fid = match callee {
                        Callee::Func(id) => Some(*id),
                        Callee::Ind(o) => {
                            let v = op!(o);
                            let a = self.conc(st, &v, 64, 64)? as u64;
                            if a < FUNC_BASE {
                                return Err(Stop::Err(format!("call of non-function {a:#x}")));
                            }
                            let id = ((a - FUNC_BASE) / 16) as u32;
                            let nm = &self.sh.m.funcs[id as usize].name;
                            if nm.contains("panicking") || nm.contains("rust_begin_unwind") {
                                return Err(Stop::Panic(self.where_(st)));
                            }
                            Some(id)
                        }
                        Callee::Intr(i) => {
                            let r = self.intrinsic(st, *i, &av, args, rty)?;
                            let f = st.frames.last_mut().unwrap();
                            if let (Some(d), Some(v)) = (dest, r) {
                                f.regs[*d as usize] = v;
                            }
                            f.ip += 1;
                            None
                        }
                        Callee::Unknown(n) => return Err(Stop::Err(format!("call of external {n} in {}", self.where_(st)))),
                    };
                    if let Some(id) = fid {
                        if st.frames.len() > 2000 {
                            return Err(Stop::Limit);
                        }
                        let callee = self.func(id)?;
                        st.frames.last_mut().unwrap().ip += 1;
                        let mut regs = vec![Val::C(0); callee.nregs as usize];
                        for (p, v) in callee.params.iter().zip(av) {
                            regs[*p as usize] = v;
                        }
                        st.frames.push(Frame { func: callee, regs, blk: 0, ip: 0, ret: *dest, allocas: vec![] });
                    }
                    continue;
                }
                Ins::Ret(v) => {
                    let v = v.as_ref().map(|v| op!(v));
                    let f = st.frames.pop().unwrap();
                    for a in f.allocas.iter().rev() {
                        if st.objs[*a as usize].is_some() {
                            st.objs[*a as usize] = None;
                            st.free.push(*a);
                        }
                    }
                    match st.frames.last_mut() {
                        None => return Err(Stop::Done),
                        Some(c) => {
                            if let (Some(d), Some(v)) = (f.ret, v) {
                                c.regs[d as usize] = v;
                            }
                        }
                    }
                    continue;
                }
                Ins::Br(l) => {
                    self.jump(st, *l)?;
                    if st.steps > self.sh.max_steps {
                        return Err(Stop::Limit);
                    }
                    continue;
                }
                Ins::CondBr(c, a, b) => {
                    self.stats.branches += 1;
                    let c = op!(c);
                    let r = match c {
                        Val::C(k) => k == 1,
                        Val::T(t) => self.decide(st, t)?,
                        Val::A(_) => return Err(Stop::Err("br".into())),
                    };
                    self.jump(st, if r { *a } else { *b })?;
                    if st.steps > self.sh.max_steps {
                        return Err(Stop::Limit);
                    }
                    continue;
                }
                Ins::Switch(w, v, d, cs) => {
                    self.stats.branches += 1;
                    let v = op!(v);
                    let to = match v {
                        Val::C(k) => cs.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*d),
                        Val::T(t) => self.sym_switch(st, *w, t, *d, cs)?,
                        Val::A(_) => return Err(Stop::Err("switch".into())),
                    };
                    self.jump(st, to)?;
                    continue;
                }
                Ins::Unreachable => {
                    return Err(Stop::Err(format!("reached `unreachable` in {}", self.where_(st))));
                }
                Ins::Extract(v, ix) => {
                    let mut v = op!(v);
                    for i in ix {
                        v = match &v {
                            Val::A(a) => a[*i as usize].clone(),
                            _ => return Err(Stop::Err("extractvalue".into())),
                        };
                    }
                    Some(v)
                }
                Ins::Insert(v, e, ix) => {
                    let v = op!(v);
                    let e = op!(e);
                    Some(insert(&v, &e, ix)?)
                }
                Ins::ExtractEl(v, i) => {
                    let v = op!(v);
                    let i = op!(i);
                    let i = self.conc(st, &i, 64, 64)? as usize;
                    match &v {
                        Val::A(a) => Some(a[i].clone()),
                        _ => return Err(Stop::Err("extractelement".into())),
                    }
                }
                Ins::InsertEl(v, e, i) => {
                    let (v, e, i) = (op!(v), op!(e), op!(i));
                    let i = self.conc(st, &i, 64, 64)? as u32;
                    Some(insert(&v, &e, &[i])?)
                }
                Ins::Shuffle(a, b, n, mk) => {
                    let a = op!(a);
                    if mk.len() == 1 && mk[0] == u32::MAX {
                        let lu = match b {
                            Opd::C(k) => *k as u32,
                            _ => 0,
                        };
                        let (fw, tw) = (*n & 0xffff, *n >> 16);
                        Some(self.vec_bitcast(&a, fw, tw, lu)?)
                    } else {
                        let b = op!(b);
                        match (&a, &b) {
                            (Val::A(x), Val::A(y)) => Some(Val::A(Rc::new(
                                mk.iter().map(|i| if *i < *n { x[*i as usize].clone() } else { y[(*i - *n) as usize].clone() }).collect(),
                            ))),
                            _ => return Err(Stop::Err("shuffle".into())),
                        }
                    }
                }
                Ins::AtomicRmw(o, w, p, v) => {
                    let (p, v) = (op!(p), op!(v));
                    let a = self.conc(st, &p, 64, 64)? as u64;
                    let ob = self.obj(st, a)?;
                    let old = self.load_ty(st, &ob, (a & 0xffff_ffff) as usize, &Ty::Int(*w))?;
                    drop(ob);
                    let new = match o.as_str() {
                        "xchg" => v,
                        "add" => self.bin(BinOp::Add, *w, &old, &v)?,
                        "sub" => self.bin(BinOp::Sub, *w, &old, &v)?,
                        "and" => self.bin(BinOp::And, *w, &old, &v)?,
                        "or" => self.bin(BinOp::Or, *w, &old, &v)?,
                        "xor" => self.bin(BinOp::Xor, *w, &old, &v)?,
                        _ => return Err(Stop::Err(format!("atomicrmw {o}"))),
                    };
                    self.store_ty(st, a, &Ty::Int(*w), &new)?;
                    Some(old)
                }
                Ins::CmpXchg(w, p, c, n) => {
                    let (p, c, n) = (op!(p), op!(c), op!(n));
                    let a = self.conc(st, &p, 64, 64)? as u64;
                    let ob = self.obj(st, a)?;
                    let old = self.load_ty(st, &ob, (a & 0xffff_ffff) as usize, &Ty::Int(*w))?;
                    drop(ob);
                    let e = self.icmp(Pred::Eq, *w, &old, &c)?;
                    let e = match e {
                        Val::C(k) => k == 1,
                        Val::T(t) => self.decide(st, t)?,
                        _ => false,
                    };
                    if e {
                        self.store_ty(st, a, &Ty::Int(*w), &n)?;
                    }
                    Some(Val::A(Rc::new(vec![old, Val::C(e as u128)])))
                }
                Ins::Nop => None,
                Ins::Unsupported(o) => return Err(Stop::Err(format!("unsupported instruction {o} in {}", self.where_(st)))),
            };
            let f = st.frames.last_mut().unwrap();
            if let (Some(d), Some(v)) = (dest, val) {
                f.regs[*d as usize] = v;
            }
            f.ip += 1;
        }
        Ok(())
    }

    fn sym_switch(&mut self, st: &mut State, w: u32, t: T, d: u32, cs: &[(u128, u32)]) -> R<u32> {
        let mut order: Vec<u32> = vec![d];
        for (_, l) in cs {
            if !order.contains(l) {
                order.push(*l);
            }
        }
        let mut conds: Vec<T> = Vec::with_capacity(order.len());
        for (k, l) in order.iter().enumerate() {
            let mut c;
            if k == 0 {
                // default (and cases that share its label)
                c = self.ar.konst(1, 1);
                for (v, cl) in cs {
                    if cl != l {
                        let kk = self.ar.konst(w, *v);
                        let e = self.ar.eq(t, kk);
                        let ne = self.ar.not(e);
                        c = self.ar.bin(Op::And, c, ne);
                    }
                }
            } else {
                c = self.ar.konst(1, 0);
                for (v, cl) in cs {
                    if cl == l {
                        let kk = self.ar.konst(w, *v);
                        let e = self.ar.eq(t, kk);
                        c = self.ar.bin(Op::Or, c, e);
                    }
                }
            }
            conds.push(c);
        }
        let mut mine = usize::MAX;
        for i in 0..order.len() {
            if self.ar.eval(conds[i], &st.model) == 1 {
                mine = i;
                break;
            }
        }
        if let Some(d) = self.replayed(st)? {
            if d.map_or(false, |d| d as usize != mine) {
                return Err(Stop::Err("replay disagrees with its model".into()));
            }
            if self.ar.cst(conds[mine]).is_none() {
                st.pc.push(conds[mine]);
            }
            return Ok(order[mine]);
        }
        self.stats.sym_branches += 1;
        let mut forked = false;
        for i in 0..order.len() {
            if i != mine {
                if let Some(m) = self.sat(st, conds[i])? {
                    self.push_alt(st, i as u64, m);
                    forked = true;
                }
            }
        }
        st.decisions.push(Dec { at: st.steps, v: mine as u64, forked });
        st.dpos += 1;
        if self.ar.cst(conds[mine]).is_none() {
            st.pc.push(conds[mine]);
        }
        Ok(order[mine])
    }

    fn vec_bitcast(&mut self, v: &Val, fw: u32, tw: u32, lu: u32) -> R<Val> {
        let bits: T = match v {
            Val::A(a) => {
                if a.len() as u32 * fw > 128 {
                    return Err(Stop::Err("wide vector bitcast".into()));
                }
                let mut t = self.t_of(&a[0], fw);
                for x in a[1..].iter() {
                    let y = self.t_of(x, fw);
                    t = self.ar.concat(y, t);
                }
                t
            }
            v => self.t_of(v, fw),
        };
        if lu == 0 {
            return Ok(self.norm(bits));
        }
        let mut o = Vec::new();
        for i in 0..lu {
            let e = self.ar.extract(bits, i * tw + tw - 1, i * tw);
            o.push(self.norm(e));
        }
        Ok(Val::A(Rc::new(o)))
    }

    /// A fresh variable as a 64-bit value; only as many bits as the largest value needs are free.
    fn new_var(&mut self, st: &mut State, hi: u64) -> R<T> {
        let id = st.nvars;
        if id >= MAXVARS {
            return Err(Stop::Err("too many symbolic inputs".into()));
        }
        st.nvars += 1;
        if st.model.len() < st.nvars {
            st.model.resize(st.nvars, 0);
        }
        let w = (64 - hi.leading_zeros()).max(1);
        let v = self.ar.var(w, id);
        Ok(self.ar.zext(v, 64))
    }

    fn intrinsic(&mut self, st: &mut State, i: Intr, a: &[Val], args: &[(Ty, Opd)], rty: &Ty) -> R<Option<Val>> {
        let w0 = args.first().map(|x| match &x.0 {
            Ty::Vec(_, e) => e.bits(),
            t => t.bits(),
        });
        let w = w0.unwrap_or(0);
        // lane-wise vectors for simple arithmetic intrinsics
        if let (Some(Val::A(x)), true) = (a.first(), matches!(rty, Ty::Vec(..))) {
            let n = x.len();
            let et = rty.field(0).1;
            let mut out = Vec::new();
            for k in 0..n {
                let mut la = Vec::new();
                let mut lt = Vec::new();
                for (j, v) in a.iter().enumerate() {
                    match v {
                        Val::A(y) => {
                            la.push(y[k].clone());
                            lt.push((args[j].0.field(0).1, Opd::C(0)));
                        }
                        v => {
                            la.push(v.clone());
                            lt.push(args[j].clone());
                        }
                    }
                }
                out.push(self.intrinsic(st, i, &la, &lt, &et)?.unwrap());
            }
            return Ok(Some(Val::A(Rc::new(out))));
        }
        Ok(match i {
            Intr::Nop => {
                if matches!(rty, Ty::Void) {
                    None
                } else {
                    Some(Val::C(0))
                }
            }
            Intr::Assume => None,
            Intr::Expect => Some(a[0].clone()),
            Intr::IsConstant => Some(Val::C(0)),
            Intr::Tls => Some(a[0].clone()),
            Intr::Trap => return Err(Stop::Panic(format!("trap/abort in {}", self.where_(st)))),
            Intr::Panic => return Err(Stop::Panic(self.where_(st))),
            Intr::ObjectSize => Some(Val::C(m_(rty.bits()))),
            Intr::PtrMask => Some(self.bin(BinOp::And, 64, &a[0], &a[1])?),
            Intr::Memcpy => {
                let n = self.conc(st, &a[2], args[2].0.bits(), 512)? as usize;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64, 64)? as u64;
                    let s = self.conc(st, &a[1], 64, 64)? as u64;
                    self.copy(st, d, s, n)?;
                }
                if matches!(rty, Ty::Ptr) {
                    Some(a[0].clone())
                } else {
                    None
                }
            }
            Intr::Memset => {
                let n = self.conc(st, &a[2], args[2].0.bits(), 512)? as usize;
                if n > 0 {
                    let d = self.conc(st, &a[0], 64, 64)? as u64;
                    let v = self.cast(CastOp::Trunc, w1(args), 8, &a[1])?;
                    match v {
                        Val::C(k) => {
                            let off = (d & 0xffff_ffff) as usize;
                            let wh = self.where_(st);
                            let o = self.obj_mut(st, d)?;
                            if off + n > o.bytes.len() {
                                return Err(Stop::Err(format!("memset out of bounds in {wh}")));
                            }
                            for b in &mut o.bytes[off..off + n] {
                                *b = k as u8;
                            }
                            if let Some(s) = &mut o.sym {
                                for b in &mut s[off..off + n] {
                                    *b = NONE;
                                }
                            }
                        }
                        v => {
                            for k in 0..n {
                                self.store_ty(st, d + k as u64, &Ty::Int(8), &v)?;
                            }
                        }
                    }
                }
                if matches!(rty, Ty::Ptr) {
                    Some(a[0].clone())
                } else {
                    None
                }
            }
            Intr::Bcmp | Intr::Memcmp => {
                let n = self.conc(st, &a[2], 64, 512)? as usize;
                let rw = rty.bits();
                if n == 0 {
                    Some(Val::C(0))
                } else {
                    let p = self.conc(st, &a[0], 64, 64)? as u64;
                    let q = self.conc(st, &a[1], 64, 64)? as u64;
                    let x = self.bytes(st, p, n)?;
                    let y = self.bytes(st, q, n)?;
                    let zero = self.ar.konst(rw, 0);
                    let one = self.ar.konst(rw, 1);
                    let neg = self.ar.konst(rw, m_(rw));
                    if i == Intr::Bcmp {
                        let mut e = self.ar.konst(1, 1);
                        for k in 0..n {
                            let q = self.ar.eq(x[k], y[k]);
                            e = self.ar.bin(Op::And, e, q);
                        }
                        let r = self.ar.ite(e, zero, one);
                        Some(self.norm(r))
                    } else {
                        let mut r = zero;
                        for k in (0..n).rev() {
                            let e = self.ar.eq(x[k], y[k]);
                            let l = self.ar.ult(x[k], y[k]);
                            let d = self.ar.ite(l, neg, one);
                            r = self.ar.ite(e, r, d);
                        }
                        Some(self.norm(r))
                    }
                }
            }
            Intr::Strlen => {
                let p = self.conc(st, &a[0], 64, 64)? as u64;
                let o = self.obj(st, p)?;
                let off = (p & 0xffff_ffff) as usize;
                let mut n = 0;
                while off + n < o.bytes.len() && o.bytes[off + n] != 0 {
                    n += 1;
                }
                Some(Val::C(n as u128))
            }
            Intr::Min(s) | Intr::Max(s) => {
                let min = matches!(i, Intr::Min(_));
                let c = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1])?;
                let t = Ty::Int(w);
                Some(if min { self.select(&c, &a[0], &a[1], &t)? } else { self.select(&c, &a[1], &a[0], &t)? })
            }
            Intr::Abs => {
                let n = self.bin(BinOp::Sub, w, &Val::C(0), &a[0])?;
                let c = self.icmp(Pred::Slt, w, &a[0], &Val::C(0))?;
                Some(self.select(&c, &n, &a[0], &Ty::Int(w))?)
            }
            Intr::AddOv(s) | Intr::SubOv(s) | Intr::MulOv(s) => {
                let op = match i {
                    Intr::AddOv(_) => BinOp::Add,
                    Intr::SubOv(_) => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin(op, w, &a[0], &a[1])?;
                // cheap unsigned forms
                if !s {
                    let ov = match op {
                        BinOp::Add => Some(self.icmp(Pred::Ult, w, &r, &a[0])?),
                        BinOp::Sub => Some(self.icmp(Pred::Ult, w, &a[0], &a[1])?),
                        _ => match (&a[0], &a[1]) {
                            (_, Val::C(0)) | (Val::C(0), _) => Some(Val::C(0)),
                            (x, Val::C(k)) | (Val::C(k), x) => {
                                let lim = m_(w) / *k;
                                Some(self.icmp(Pred::Ugt, w, x, &Val::C(lim))?)
                            }
                            _ => None,
                        },
                    };
                    if let Some(ov) = ov {
                        return Ok(Some(Val::A(Rc::new(vec![r, ov]))));
                    }
                }
                // widen
                let ww = if op == BinOp::Mul { (2 * w).min(128) } else { w + 1 };
                if ww > 128 {
                    return Err(Stop::Err("overflow arithmetic on i128".into()));
                }
                let c = if s { CastOp::SExt } else { CastOp::ZExt };
                let x = self.cast(c, w, ww, &a[0])?;
                let y = self.cast(c, w, ww, &a[1])?;
                let z = self.bin(op, ww, &x, &y)?;
                let rr = self.cast(c, w, ww, &r)?;
                let ov = self.icmp(Pred::Ne, ww, &z, &rr)?;
                Some(Val::A(Rc::new(vec![r, ov])))
            }
            Intr::USubSat => {
                let r = self.bin(BinOp::Sub, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &a[0], &a[1])?;
                Some(self.select(&c, &Val::C(0), &r, &Ty::Int(w))?)
            }
            Intr::UAddSat => {
                let r = self.bin(BinOp::Add, w, &a[0], &a[1])?;
                let c = self.icmp(Pred::Ult, w, &r, &a[0])?;
                Some(self.select(&c, &Val::C(m_(w)), &r, &Ty::Int(w))?)
            }
            Intr::SSubSat | Intr::SAddSat => {
                let ww = w + 1;
                let x = self.cast(CastOp::SExt, w, ww, &a[0])?;
                let y = self.cast(CastOp::SExt, w, ww, &a[1])?;
                let z = self.bin(if i == Intr::SAddSat { BinOp::Add } else { BinOp::Sub }, ww, &x, &y)?;
                let max = m_(w - 1);
                let min = (!max) & m_(ww);
                let c1 = self.icmp(Pred::Sgt, ww, &z, &Val::C(max))?;
                let z = self.select(&c1, &Val::C(max), &z, &Ty::Int(ww))?;
                let c2 = self.icmp(Pred::Slt, ww, &z, &Val::C(min))?;
                let z = self.select(&c2, &Val::C(min), &z, &Ty::Int(ww))?;
                Some(self.cast(CastOp::Trunc, ww, w, &z)?)
            }
            Intr::Cmp3(s) => {
                let rw = rty.bits();
                let l = self.icmp(if s { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1])?;
                let g = self.icmp(if s { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1])?;
                let t = Ty::Int(rw);
                let x = self.select(&g, &Val::C(1), &Val::C(0), &t)?;
                Some(self.select(&l, &Val::C(m_(rw)), &x, &t)?)
            }
            Intr::Ctlz => match &a[0] {
                Val::C(k) => Some(Val::C(if *k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w)) as u128 })),
                v => {
                    let t = self.t_of(v, w);
                    let mut r = self.ar.konst(w, w as u128);
                    for b in 0..w {
                        let e = self.ar.extract(t, b, b);
                        let k = self.ar.konst(w, (w - 1 - b) as u128);
                        r = self.ar.ite(e, k, r);
                    }
                    Some(self.norm(r))
                }
            },
            Intr::Cttz => match &a[0] {
                Val::C(k) => Some(Val::C(if *k == 0 { w as u128 } else { k.trailing_zeros() as u128 })),
                v => {
                    let t = self.t_of(v, w);
                    let mut r = self.ar.konst(w, w as u128);
                    for b in (0..w).rev() {
                        let e = self.ar.extract(t, b, b);
                        let k = self.ar.konst(w, b as u128);
                        r = self.ar.ite(e, k, r);
                    }
                    Some(self.norm(r))
                }
            },
            Intr::Ctpop => match &a[0] {
                Val::C(k) => Some(Val::C(k.count_ones() as u128)),
                v => {
                    let t = self.t_of(v, w);
                    let mut r = self.ar.konst(w, 0);
                    for b in 0..w {
                        let e = self.ar.extract(t, b, b);
                        let z = self.ar.zext(e, w);
                        r = self.ar.bin(Op::Add, r, z);
                    }
                    Some(self.norm(r))
                }
            },
            Intr::Bswap => {
                let t = self.t_of(&a[0], w);
                let n = w / 8;
                let mut r = self.ar.extract(t, 7, 0);
                for k in 1..n {
                    let b = self.ar.extract(t, k * 8 + 7, k * 8);
                    r = self.ar.concat(r, b);
                }
                Some(self.norm(r))
            }
            Intr::Bitrev => {
                let t = self.t_of(&a[0], w);
                let mut r = self.ar.extract(t, 0, 0);
                for k in 1..w {
                    let b = self.ar.extract(t, k, k);
                    r = self.ar.concat(r, b);
                }
                Some(self.norm(r))
            }
            Intr::Fshl | Intr::Fshr => {
                let k = self.conc(st, &a[2], w, 128)? as u32 % w;
                let k = if i == Intr::Fshl { k } else { (w - k) % w };
                if k == 0 {
                    Some(if i == Intr::Fshl { a[0].clone() } else { a[1].clone() })
                } else {
                    let h = self.bin(BinOp::Shl, w, &a[0], &Val::C(k as u128))?;
                    let l = self.bin(BinOp::LShr, w, &a[1], &Val::C((w - k) as u128))?;
                    Some(self.bin(BinOp::Or, w, &h, &l)?)
                }
            }
            Intr::VecReduce(op) => match &a[0] {
                Val::A(x) => {
                    let mut r = x[0].clone();
                    for y in x[1..].iter() {
                        r = self.bin(op, w, &r, y)?;
                    }
                    Some(r)
                }
                _ => return Err(Stop::Err("reduce".into())),
            },
            Intr::Malloc | Intr::RustAlloc | Intr::RustAllocZeroed => {
                let n = self.conc(st, &a[0], 64, 512)? as u64;
                let p = self.alloc(st, n)?;
                Some(Val::C(p as u128))
            }
            Intr::Calloc => {
                let n = self.conc(st, &a[0], 64, 64)? as u64;
                let m = self.conc(st, &a[1], 64, 64)? as u64;
                let p = self.alloc(st, n * m)?;
                Some(Val::C(p as u128))
            }
            Intr::PosixMemalign => {
                let n = self.conc(st, &a[2], 64, 64)? as u64;
                let d = self.conc(st, &a[0], 64, 64)? as u64;
                let p = self.alloc(st, n)?;
                self.store_ty(st, d, &Ty::Ptr, &Val::C(p as u128))?;
                Some(Val::C(0))
            }
            Intr::KeyCreate => {
                let d = self.conc(st, &a[0], 64, 64)? as u64;
                self.store_ty(st, d, &Ty::Int(32), &Val::C(7))?;
                Some(Val::C(0))
            }
            Intr::Free | Intr::RustDealloc => {
                let p = self.conc(st, &a[0], 64, 64)? as u64;
                if p != 0 {
                    self.dealloc(st, p)?;
                }
                None
            }
            Intr::Realloc | Intr::RustRealloc => {
                let nsz = if i == Intr::Realloc { &a[1] } else { &a[3] };
                let n = self.conc(st, nsz, 64, 512)? as u64;
                let p = self.conc(st, &a[0], 64, 64)? as u64;
                let old = self.obj(st, p)?.bytes.len() as u64;
                let q = self.alloc(st, n)?;
                self.copy(st, q, p, old.min(n) as usize)?;
                self.dealloc(st, p)?;
                Some(Val::C(q as u128))
            }
            // ------------------------------------------------ harness
            Intr::SxParam => {
                let k = self.conc(st, &a[0], 64, 1)? as usize;
                Some(Val::C(*self.sh.params.get(k).unwrap_or(&0) as u128))
            }
            Intr::SxSymbolic => Some(Val::C(1)),
            Intr::Fmt128 => {
                // core's conversion of a u128 to decimal digits needs 256-bit arithmetic. What
                // matters is that different values give different texts, so the value is written
                // in base 16, with letters, to the 39 bytes of the buffer.
                // A known value is converted as it is.
                let buf = self.conc(st, &a[1], 64, 64)? as u64;
                if let Val::C(v) = &a[0] {
                    let s = v.to_string();
                    let q = buf + 39 - s.len() as u64;
                    for (k, d) in s.bytes().enumerate() {
                        self.store_ty(st, q + k as u64, &Ty::Int(8), &Val::C(d as u128))?;
                    }
                    return Ok(Some(Val::A(Rc::new(vec![Val::C(q as u128), Val::C(s.len() as u128)]))));
                }
                for k in 0..39u32 {
                    let v = if k < 7 {
                        Val::C(b'q' as u128)
                    } else {
                        let n = self.bin(BinOp::LShr, 128, &a[0], &Val::C((4 * (38 - k)) as u128))?;
                        let n = self.cast(CastOp::Trunc, 128, 8, &n)?;
                        let n = self.bin(BinOp::And, 8, &n, &Val::C(15))?;
                        self.bin(BinOp::Add, 8, &n, &Val::C(b'a' as u128))?
                    };
                    self.store_ty(st, buf + k as u64, &Ty::Int(8), &v)?;
                }
                Some(Val::A(Rc::new(vec![Val::C(buf as u128), Val::C(39)])))
            }
            Intr::SxU64 => {
                let t = self.new_var(st, u64::MAX)?;
                Some(Val::T(t))
            }
            Intr::SxBool => {
                let fresh = st.nvars >= st.model.len();
                let id = st.nvars;
                let t = self.new_var(st, u64::MAX)?;
                if fresh {
                    st.model[id] = 0;
                }
                let two = self.ar.konst(64, 2);
                let c = self.ar.ult(t, two);
                st.pc.push(c);
                let b = self.ar.extract(t, 0, 0);
                let b = self.ar.zext(b, rty.bits());
                Some(Val::T(b))
            }
            Intr::SxRange => {
                let lo = self.conc(st, &a[0], 64, 1)?;
                let hi = self.conc(st, &a[1], 64, 1)?;
                if lo > hi {
                    return Err(Stop::Err("empty sx_range".into()));
                }
                let fresh = st.nvars >= st.model.len();
                let id = st.nvars;
                let t = self.new_var(st, hi as u64)?;
                if fresh {
                    st.model[id] = lo as u64;
                }
                let l = self.ar.konst(64, lo);
                let h = self.ar.konst(64, hi);
                let c1 = self.ar.ult(t, l);
                let c1 = self.ar.not(c1);
                let c2 = self.ar.ult(h, t);
                let c2 = self.ar.not(c2);
                for c in [c1, c2] {
                    if self.ar.cst(c).is_none() {
                        st.pc.push(c);
                    }
                }
                Some(Val::T(t))
            }
            Intr::SxFork => {
                let v = self.conc(st, &a[0], 64, 4096)?;
                Some(Val::C(v))
            }
            Intr::SxAssume => {
                match &a[0] {
                    Val::C(1) => {}
                    Val::C(_) => return Err(Stop::AssumeFail),
                    v => {
                        let t = self.t_of(v, 1);
                        if self.ar.eval(t, &st.model) != 1 {
                            match self.sat(st, t)? {
                                None => return Err(Stop::AssumeFail),
                                Some(m) => st.model = m,
                            }
                        }
                        st.pc.push(t);
                    }
                }
                None
            }
            Intr::SxAssert => {
                let id = self.conc(st, &a[1], 64, 64)? as u64;
                match &a[0] {
                    Val::C(1) => st.asserts += 1,
                    Val::C(_) => return Err(Stop::Violation(id)),
                    v => {
                        let t = self.t_of(v, 1);
                        st.asserts += 1;
                        if st.dpos >= st.decisions.len() {
                            self.stats.sym_asserts += 1;
                            let n = self.ar.not(t);
                            if let Some(m) = self.sat(st, n)? {
                                st.model = m;
                                return Err(Stop::Violation(id));
                            }
                        }
                    }
                }
                None
            }
            Intr::SxOut => {
                let n = self.conc(st, &a[1], 64, 512)? as usize;
                let mut b = vec![];
                let mut s = None;
                if n > 0 {
                    let p = self.conc(st, &a[0], 64, 64)? as u64;
                    let o = self.obj(st, p)?;
                    let off = (p & 0xffff_ffff) as usize;
                    if off + n > o.bytes.len() {
                        return Err(Stop::Err("sx_out out of bounds".into()));
                    }
                    b = o.bytes[off..off + n].to_vec();
                    s = o.sym.as_ref().map(|x| x[off..off + n].to_vec());
                }
                st.outs.push((b, s));
                None
            }
            Intr::SxReach => {
                let id = self.conc(st, &a[0], 64, 64)? as u64;
                if !st.reached.contains(&id) {
                    st.reached.push(id);
                }
                None
            }
        })
    }
}

fn w1(args: &[(Ty, Opd)]) -> u32 {
    args[1].0.bits().max(8)
}

fn insert(v: &Val, e: &Val, ix: &[u32]) -> R<Val> {
    if ix.is_empty() {
        return Ok(e.clone());
    }
    match v {
        Val::A(a) => {
            let mut n = (**a).clone();
            n[ix[0] as usize] = insert(&a[ix[0] as usize], e, &ix[1..])?;
            Ok(Val::A(Rc::new(n)))
        }
        _ => Err(Stop::Err("insertvalue into scalar".into())),
    }
}
