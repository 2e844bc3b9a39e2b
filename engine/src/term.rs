//! Hash-consed bit-vector terms. Width-1 terms double as booleans.
use std::collections::HashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: T,
    pub b: T,
    pub c: T,
    pub k: u128,
}

pub const MAXVARS: usize = 256;
pub type VarSet = [u64; 4];

#[derive(Clone, Copy)]
pub struct NT {
    pub t: T,
}

#[derive(Clone)]
enum Small {
    No,
    Const,
    Fn(T, std::rc::Rc<Vec<u128>>),
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    /// An upper bound of each term.
    max: Vec<u128>,
    tbl: HashMap<Node, T>,
    /// Functions of one small value (at most 8 bits): the value, and the result for each of its
    /// values. Terms with the same table are one term.
    small: Vec<Small>,
    canon: HashMap<(T, u32, Vec<u128>), T>,
    // evaluation scratch
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let x = sext(a, w);
            if b >= w as u128 {
                (if x < 0 { -1i128 } else { 0 }) as u128
            } else {
                (x >> b) as u128
            }
        }
        _ => unreachable!(),
    };
    r & m
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: Vec::new(),
            vars: Vec::new(),
            max: Vec::new(),
            tbl: HashMap::new(),
            small: Vec::new(),
            canon: HashMap::new(),
            ev_stamp: Vec::new(),
            ev_val: Vec::new(),
            stamp: 0,
        }
    }

    fn mk(&mut self, n: Node) -> T {
        if let Some(&t) = self.tbl.get(&n) {
            return t;
        }
        let mut vs: VarSet = [0; 4];
        match n.op {
            Op::Const => {}
            Op::Var => vs[(n.k as usize) / 64] |= 1 << (n.k as usize % 64),
            _ => {
                let ar = match n.op {
                    Op::Extract | Op::ZExt | Op::SExt => 1,
                    Op::Ite => 3,
                    _ => 2,
                };
                let ch = [n.a, n.b, n.c];
                for c in &ch[..ar] {
                    let s = &self.vars[*c as usize];
                    for i in 0..4 {
                        vs[i] |= s[i];
                    }
                }
            }
        }
        let sm = self.small_of(&n);
        if let Small::Fn(leaf, tab) = &sm {
            let (leaf, w) = (*leaf, n.w);
            if leaf as usize != self.nodes.len() {
                if tab.iter().all(|x| *x == tab[0]) {
                    let k = tab[0];
                    let t = self.konst(w, k);
                    self.tbl.insert(n, t);
                    return t;
                }
                let lw = self.nodes[leaf as usize].w;
                if w >= lw && tab.iter().enumerate().all(|(i, x)| i as u128 == *x) {
                    if w == lw {
                        self.tbl.insert(n, leaf);
                        return leaf;
                    }
                    if !(n.op == Op::ZExt && n.a == leaf) {
                        let t = self.zext(leaf, w);
                        self.tbl.insert(n, t);
                        return t;
                    }
                }
                let key = (leaf, w, (**tab).clone());
                if let Some(&t) = self.canon.get(&key) {
                    self.tbl.insert(n, t);
                    return t;
                }
                self.canon.insert(key, self.nodes.len() as T);
            }
        }
        let t = self.nodes.len() as T;
        let mx = self.max_of(&n, &sm);
        if mx == 0 && n.op != Op::Const {
            let t = self.konst(n.w, 0);
            self.tbl.insert(n, t);
            return t;
        }
        self.nodes.push(n.clone());
        self.max.push(mx);
        self.vars.push(vs);
        self.small.push(sm);
        self.tbl.insert(n, t);
        t
    }

    fn max_of(&self, n: &Node, sm: &Small) -> u128 {
        if let Small::Fn(_, tab) = sm {
            return tab.iter().copied().max().unwrap_or(0);
        }
        let m = mask(n.w);
        let x = |t: T| self.max[t as usize];
        match n.op {
            Op::Const => n.k,
            Op::Add => match x(n.a).checked_add(x(n.b)) {
                Some(v) if v <= m => v,
                _ => m,
            },
            Op::And => x(n.a).min(x(n.b)),
            Op::ZExt => x(n.a),
            Op::UDiv => m,
            Op::URem => m,
            Op::LShr => match self.cst(n.b) {
                Some(k) if k < 128 => x(n.a) >> k,
                _ => x(n.a),
            },
            Op::Ite => x(n.b).max(x(n.c)),
            Op::Extract if n.k & 0xffff == 0 => x(n.a).min(m),
            _ => m,
        }
    }

    pub fn bound(&self, t: T) -> u128 {
        self.max[t as usize]
    }

    fn bits(&self, t: T) -> u32 {
        (128 - self.max[t as usize].leading_zeros()).max(1)
    }

    /// A value which fits into `n` bits, in `n` bits.
    fn fit(&mut self, t: T, n: u32) -> T {
        if self.w(t) > n {
            self.extract(t, n - 1, 0)
        } else {
            self.zext(t, n)
        }
    }

    /// Its operands, if it is a sum which does not overflow.
    fn sum_of(&self, t: T) -> Option<(T, T)> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Add && self.max[n.a as usize].checked_add(self.max[n.b as usize]).map_or(false, |v| v <= mask(n.w)) {
            return Some((n.a, n.b));
        }
        None
    }

    fn strip(&self, t: T) -> T {
        let n = &self.nodes[t as usize];
        if n.op == Op::ZExt { n.a } else { t }
    }

    /// The summands of a sum which does not overflow, in `w` bits, and its constant part.
    fn summands(&mut self, t: T, w: u32, out: &mut Vec<T>, k: &mut u128) {
        if out.len() > 48 {
            return; // too many: the caller gives up
        }
        let s = self.strip(t);
        if let Some(c) = self.cst(s) {
            *k += c;
        } else if let Some((x, y)) = self.sum_of(s) {
            self.summands(x, w, out, k);
            self.summands(y, w, out, k);
        } else {
            let t = self.zext(s, w);
            out.push(t);
        }
    }

    /// Two sums without what they have in common, if they have.
    fn cancel(&mut self, a: T, b: T) -> Option<(T, T)> {
        let w = self.w(a);
        // functions of one small value are decided by their tables
        if !matches!(self.small[a as usize], Small::No) && !matches!(self.small[b as usize], Small::No) {
            return None;
        }
        if w > 64 || (self.sum_of(self.strip(a)).is_none() && self.sum_of(self.strip(b)).is_none()) {
            return None;
        }
        let (mut xs, mut ys, mut kx, mut ky) = (Vec::new(), Vec::new(), 0, 0);
        self.summands(a, w, &mut xs, &mut kx);
        self.summands(b, w, &mut ys, &mut ky);
        if xs.len() > 48 || ys.len() > 48 {
            return None;
        }
        let m = kx.min(ky);
        let mut any = m > 0;
        kx -= m;
        ky -= m;
        xs.retain(|x| match ys.iter().position(|y| y == x) {
            Some(i) => {
                ys.remove(i);
                any = true;
                false
            }
            None => true,
        });
        if !any {
            return None;
        }
        let mut sum = |v: Vec<T>, k: u128| {
            let mut t = self.konst(w, 0);
            for x in v {
                t = self.bin(Op::Add, t, x);
            }
            let k = self.konst(w, k);
            self.bin(Op::Add, t, k)
        };
        let a = sum(xs, kx);
        let b = sum(ys, ky);
        Some((a, b))
    }

    fn small_of(&self, n: &Node) -> Small {
        let me = self.nodes.len() as T;
        let ident = |w: u32| Small::Fn(me, std::rc::Rc::new((0..1u128 << w).collect()));
        let ar = match n.op {
            Op::Const => return Small::Const,
            Op::Var => return if n.w <= 8 { ident(n.w) } else { Small::No },
            Op::Extract | Op::ZExt | Op::SExt => 1,
            Op::Ite => 3,
            _ => 2,
        };
        let ch = [n.a, n.b, n.c];
        let mut leaf = None;
        for c in &ch[..ar] {
            match &self.small[*c as usize] {
                Small::No => {
                    return if n.op == Op::Extract && n.w <= 8 && self.nodes[n.a as usize].op == Op::Var {
                        ident(n.w)
                    } else {
                        Small::No
                    }
                }
                Small::Const => {}
                Small::Fn(l, tab) => match leaf {
                    None => leaf = Some((*l, tab.len())),
                    Some((k, _)) if k == *l => {}
                    _ => return Small::No,
                },
            }
        }
        let (leaf, len) = match leaf {
            Some(l) => l,
            None => return Small::No,
        };
        let mut tab = Vec::with_capacity(len);
        for i in 0..len {
            let v = |j: usize| -> u128 {
                match &self.small[ch[j] as usize] {
                    Small::Fn(_, t) => t[i],
                    _ => self.nodes[ch[j] as usize].k,
                }
            };
            tab.push(match n.op {
                Op::Eq => (v(0) == v(1)) as u128,
                Op::Ult => (v(0) < v(1)) as u128,
                Op::Slt => {
                    let w = self.nodes[n.a as usize].w;
                    (sext(v(0), w) < sext(v(1), w)) as u128
                }
                Op::Ite => {
                    if v(0) == 1 {
                        v(1)
                    } else {
                        v(2)
                    }
                }
                Op::Concat => (v(0) << self.nodes[n.b as usize].w) | v(1),
                Op::Extract => (v(0) >> (n.k & 0xffff)) & mask(n.w),
                Op::ZExt => v(0),
                Op::SExt => (sext(v(0), self.nodes[n.a as usize].w) as u128) & mask(n.w),
                op => fold(op, n.w, v(0), v(1)),
            });
        }
        Small::Fn(leaf, std::rc::Rc::new(tab))
    }

    #[inline]
    pub fn w(&self, t: T) -> u32 {
        self.nodes[t as usize].w
    }
    #[inline]
    pub fn cst(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn konst(&mut self, w: u32, k: u128) -> T {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & mask(w) })
    }
    pub fn var(&mut self, w: u32, id: usize) -> T {
        assert!(id < MAXVARS);
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id as u128 })
    }

    /// The value without its leading zero bits, where they are evident.
    fn narrow(&mut self, t: T) -> Option<T> {
        let n = self.nodes[t as usize].clone();
        match n.op {
            Op::ZExt => Some(n.a),
            Op::Const | Op::Add => {
                let b = self.bits(t);
                Some(self.fit(t, b))
            }
            _ => None,
        }
    }

    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let k = fold(op, w, x, y);
            return self.konst(w, k);
        }
        let m = mask(w);
        let (mut a, mut b) = (a, b);
        let (mut ca, mut cb) = (ca, cb);
        // constants to the right for commutative operators
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if ca.is_some() || (cb.is_none() && a > b) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        if op == Op::Add {
            if let Some(t) = self.try_or_concat(a, b) {
                return t;
            }
        }
        if let (Op::Mul, Some(k)) = (op, cb) {
            if k.is_power_of_two() {
                let kk = self.konst(w, k.trailing_zeros() as u128);
                return self.bin(Op::Shl, a, kk);
            }
        }
        if matches!(op, Op::Add | Op::Mul) && cb != Some(0) && !(op == Op::Mul && cb == Some(1)) {
            let (x, y) = (self.max[a as usize], self.max[b as usize]);
            let v = if op == Op::Add { x.checked_add(y) } else { x.checked_mul(y) };
            if let Some(v) = v.filter(|v| *v <= m / 2 && w > 1) {
                let n = (128 - v.leading_zeros()).max(1);
                let x = self.fit(a, n);
                let y = self.fit(b, n);
                let r = self.bin(op, x, y);
                return self.zext(r, w);
            }
        }
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let n = self.nodes[a as usize].clone();
                    if n.op == Op::Add {
                        if let Some(k2) = self.cst(n.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, n.a, kk);
                        }
                    }
                    if n.op == Op::ZExt {
                        if let Some((x, y)) = self.sum_of(n.a) {
                            if let Some(k2) = self.cst(y) {
                                let kk = self.konst(w, k.wrapping_add(k2));
                                let x = self.zext(x, w);
                                return self.bin(Op::Add, x, kk);
                            }
                        }
                    }
                }
            }
            Op::Sub => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let kk = self.konst(w, 0u128.wrapping_sub(k));
                    return self.bin(Op::Add, a, kk);
                }
                if let Some((x, y)) = self.cancel(a, b) {
                    return self.bin(Op::Sub, x, y);
                }
                // (x + c) - x
                let n = self.nodes[a as usize].clone();
                if n.op == Op::Add {
                    if n.a == b {
                        return n.b;
                    }
                    if n.b == b {
                        return n.a;
                    }
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return self.konst(w, 0);
                }
                if cb == Some(1) {
                    return a;
                }
            }
            Op::And => {
                if cb == Some(0) {
                    return self.konst(w, 0);
                }
                if cb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = cb {
                    // mask of low bits -> zext(extract)
                    if k != 0 && (k & (k + 1)) == 0 {
                        let n = k.count_ones();
                        let e = self.extract(a, n - 1, 0);
                        return self.zext(e, w);
                    }
                }
            }
            Op::Or => {
                if cb == Some(0) || a == b {
                    return a;
                }
                if cb == Some(m) {
                    return self.konst(w, m);
                }
                // or of disjoint zext / shifted pieces -> concat
                if let Some(t) = self.try_or_concat(a, b) {
                    return t;
                }
            }
            Op::Xor => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = cb {
                    let n = self.nodes[a as usize].clone();
                    if n.op == Op::Xor {
                        if let Some(k2) = self.cst(n.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, n.a, kk);
                        }
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let k = k as u32;
                    let hi = self.extract(a, w - 1 - k, 0);
                    let lo = self.konst(k, 0);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let e = self.extract(a, w - 1, k as u32);
                    return self.zext(e, w);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = if k >= w as u128 { w - 1 } else { k as u32 };
                    let e = self.extract(a, w - 1, k);
                    return self.sext_t(e, w);
                }
            }
            Op::UDiv => {
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.konst(w, k.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, kk);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.konst(w, k - 1);
                        return self.bin(Op::And, a, kk);
                    }
                }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    /// Bit ranges known to be zero are recognised for zext and concat-with-zero.
    fn try_or_concat(&mut self, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        // a = concat(x, 0_k), b = zext(y) with |y| <= k   (or swapped)
        for (a, b) in [(a, b), (b, a)] {
            let na = self.nodes[a as usize].clone();
            // strip a leading zext from a
            let (core, cw) = if na.op == Op::ZExt { (na.a, self.w(na.a)) } else { (a, w) };
            let nc = self.nodes[core as usize].clone();
            if nc.op == Op::Concat {
                if self.cst(nc.b) == Some(0) {
                    let k = self.w(nc.b);
                    let nb = self.nodes[b as usize].clone();
                    let lowb = if nb.op == Op::ZExt && self.w(nb.a) <= k {
                        Some(self.zext(nb.a, k))
                    } else if nb.op == Op::Const && nb.k <= mask(k) {
                        Some(self.konst(k, nb.k))
                    } else {
                        None
                    };
                    if let Some(l) = lowb {
                        let r = self.concat(nc.a, l);
                        debug_assert_eq!(self.w(r), cw);
                        return Some(self.zext(r, w));
                    }
                }
            }
        }
        None
    }

    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        let m = self.konst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }

    pub fn eq(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.konst(1, 1);
        }
        let (mut a, mut b) = (a, b);
        if self.cst(a).is_some() {
            std::mem::swap(&mut a, &mut b);
        }
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.konst(1, (x == y) as u128);
        }
        if let Some((x, y)) = self.cancel(a, b) {
            return self.eq(x, y);
        }
        if let Some(k) = self.cst(b) {
            if k > self.max[a as usize] {
                return self.konst(1, 0);
            }
            // a sum of nothing
            if k == 0 {
                let s = self.strip(a);
                if let Some((x, y)) = self.sum_of(s) {
                    let w = self.w(s);
                    let z = self.konst(w, 0);
                    let x = self.eq(x, z);
                    let y = self.eq(y, z);
                    return self.bin(Op::And, x, y);
                }
            }
        }
        if let Some(k) = self.cst(b) {
            let w = self.w(a);
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            let n = self.nodes[a as usize].clone();
            match n.op {
                Op::ZExt => {
                    let iw = self.w(n.a);
                    if k > mask(iw) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(iw, k);
                    return self.eq(n.a, kk);
                }
                Op::Concat => {
                    let lw = self.w(n.b);
                    let hw = self.w(n.a);
                    let kl = self.konst(lw, k);
                    let kh = self.konst(hw, k >> lw);
                    let e1 = self.eq(n.a, kh);
                    let e2 = self.eq(n.b, kl);
                    return self.bin(Op::And, e1, e2);
                }
                Op::Add => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.konst(w, k.wrapping_sub(k2));
                        return self.eq(n.a, kk);
                    }
                }
                Op::Xor => {
                    if let Some(k2) = self.cst(n.b) {
                        let kk = self.konst(w, k ^ k2);
                        return self.eq(n.a, kk);
                    }
                }
                Op::Ite => {
                    let (x, y) = (self.cst(n.b), self.cst(n.c));
                    if x.is_some() || y.is_some() {
                        if x.is_some() && x != Some(k) {
                            let c = self.not(n.a);
                            let e = self.eq(n.c, b);
                            return self.bin(Op::And, c, e);
                        }
                        if y.is_some() && y != Some(k) {
                            let e = self.eq(n.b, b);
                            return self.bin(Op::And, n.a, e);
                        }
                        if x == Some(k) && y.is_none() {
                            let e = self.eq(n.c, b);
                            return self.bin(Op::Or, n.a, e);
                        }
                        if y == Some(k) && x.is_none() {
                            let c = self.not(n.a);
                            let e = self.eq(n.b, b);
                            return self.bin(Op::Or, c, e);
                        }
                    }
                }
                _ => {}
            }
        } else {
            if let (Some(x), Some(y)) = (self.narrow(a), self.narrow(b)) {
                let n = self.w(x).max(self.w(y));
                if n < self.w(a) {
                    let x = self.zext(x, n);
                    let y = self.zext(y, n);
                    return self.eq(x, y);
                }
            }
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
        }
        self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn ult(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.konst(1, 0);
        }
        let w = self.w(a);
        let (ca, cb) = (self.cst(a), self.cst(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst(1, (x < y) as u128);
        }
        if cb == Some(0) {
            return self.konst(1, 0);
        }
        if ca == Some(mask(w)) {
            return self.konst(1, 0);
        }
        if ca == Some(0) {
            let e = self.eq(b, a);
            return self.not(e);
        }
        if cb.map_or(false, |k| k > self.max[a as usize]) {
            return self.konst(1, 1);
        }
        if ca.map_or(false, |k| k >= self.max[b as usize]) {
            return self.konst(1, 0);
        }
        if let Some((x, y)) = self.cancel(a, b) {
            return self.ult(x, y);
        }
        let (na, nb) = (self.nodes[a as usize].clone(), self.nodes[b as usize].clone());
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if let Some(k) = cb {
                if k > mask(iw) {
                    return self.konst(1, 1);
                }
                let kk = self.konst(iw, k);
                return self.ult(na.a, kk);
            }
            if nb.op == Op::ZExt {
                let n = iw.max(self.w(nb.a));
                if n < w {
                    let x = self.zext(na.a, n);
                    let y = self.zext(nb.a, n);
                    return self.ult(x, y);
                }
            }
        }
        if nb.op == Op::ZExt {
            let iw = self.w(nb.a);
            if let Some(k) = ca {
                if k >= mask(iw) {
                    return self.konst(1, 0);
                }
                let kk = self.konst(iw, k);
                return self.ult(kk, nb.a);
            }
        }
        self.mk(Node { op: Op::Ult, w: 1, a, b, c: 0, k: 0 })
    }

    pub fn slt(&mut self, a: T, b: T) -> T {
        if a == b {
            return self.konst(1, 0);
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cst(a), self.cst(b)) {
            return self.konst(1, (sext(x, w) < sext(y, w)) as u128);
        }
        // both known non-negative: unsigned compare
        if self.top_zero(a) && self.top_zero(b) {
            return self.ult(a, b);
        }
        self.mk(Node { op: Op::Slt, w: 1, a, b, c: 0, k: 0 })
    }

    fn top_zero(&self, t: T) -> bool {
        let n = &self.nodes[t as usize];
        match n.op {
            Op::ZExt => true,
            Op::Concat => self.top_zero(n.a),
            _ => self.max[t as usize] >> (n.w - 1) == 0,
        }
    }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(k) = self.cst(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cst(a), self.cst(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        let nb = self.nodes[b as usize].clone();
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }

    pub fn concat(&mut self, hi: T, lo: T) -> T {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        match (self.cst(hi), self.cst(lo)) {
            (Some(x), Some(y)) => return self.konst(w, (x << wl) | y),
            (Some(0), None) => return self.zext(lo, w),
            _ => {}
        }
        let (nh, nl) = (self.nodes[hi as usize].clone(), self.nodes[lo as usize].clone());
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a {
            let (hl, lh, ll) = ((nh.k & 0xffff) as u32, (nl.k >> 16) as u32, (nl.k & 0xffff) as u32);
            if hl == lh + 1 {
                return self.extract(nh.a, (nh.k >> 16) as u32, ll);
            }
        }
        // the parts of one value, the lower of which was rewritten
        if nh.op == Op::Extract && (nh.k & 0xffff) as u32 == wl {
            let l = self.extract(nh.a, wl - 1, 0);
            if l == lo {
                return self.extract(nh.a, (nh.k >> 16) as u32, 0);
            }
        }
        // concat(extract(x), concat(extract(x), y)): merge left pieces
        if nh.op == Op::Extract && nl.op == Op::Concat {
            let nm = self.nodes[nl.a as usize].clone();
            if nm.op == Op::Extract && nm.a == nh.a && (nh.k & 0xffff) as u32 == (nm.k >> 16) as u32 + 1 {
                let e = self.extract(nh.a, (nh.k >> 16) as u32, (nm.k & 0xffff) as u32);
                return self.concat(e, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            // zext(x) ++ lo = zext(x ++ lo)
            let c = self.concat(nh.a, lo);
            return self.zext(c, w);
        }
        // right-assoc constants
        if nl.op == Op::Concat {
            if let (Some(x), Some(y)) = (self.cst(hi), self.cst(nl.a)) {
                let wy = self.w(nl.a);
                let k = self.konst(wh + wy, (x << wy) | y);
                return self.concat(k, nl.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }

    pub fn extract(&mut self, t: T, hi: u32, lo: u32) -> T {
        let w = self.w(t);
        debug_assert!(hi < w && lo <= hi);
        if lo == 0 && hi == w - 1 {
            return t;
        }
        let nw = hi - lo + 1;
        let n = self.nodes[t as usize].clone();
        let mb = self.bits(t);
        if mb <= lo {
            return self.konst(nw, 0);
        }
        if mb <= hi && n.op == Op::Add {
            let e = self.extract(t, mb - 1, lo);
            return self.zext(e, nw);
        }
        match n.op {
            Op::Const => return self.konst(nw, n.k >> lo),
            Op::Extract => {
                let l = (n.k & 0xffff) as u32;
                return self.extract(n.a, hi + l, lo + l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo >= iw {
                    return self.konst(nw, 0);
                }
                let e = self.extract(n.a, iw - 1, lo);
                return self.zext(e, nw);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw {
                    return self.extract(n.a, hi, lo);
                }
                if lo < iw {
                    let e = self.extract(n.a, iw - 1, lo);
                    return self.sext_t(e, nw);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw {
                    return self.extract(n.b, hi, lo);
                }
                if lo >= lw {
                    return self.extract(n.a, hi - lw, lo - lw);
                }
                let h = self.extract(n.a, hi - lw, 0);
                let l = self.extract(n.b, lw - 1, lo);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let a = self.extract(n.a, hi, lo);
                let b = self.extract(n.b, hi, lo);
                return self.bin(n.op, a, b);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let a = self.extract(n.a, hi, 0);
                let b = self.extract(n.b, hi, 0);
                return self.bin(n.op, a, b);
            }
            Op::Ite => {
                if self.cst(n.b).is_some() || self.cst(n.c).is_some() {
                    let a = self.extract(n.b, hi, lo);
                    let b = self.extract(n.c, hi, lo);
                    return self.ite(n.a, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w: nw, a: t, b: 0, c: 0, k: ((hi as u128) << 16) | lo as u128 })
    }

    pub fn zext(&mut self, t: T, w: u32) -> T {
        let iw = self.w(t);
        if iw == w {
            return t;
        }
        let n = self.nodes[t as usize].clone();
        match n.op {
            Op::Const => return self.konst(w, n.k),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        self.mk(Node { op: Op::ZExt, w, a: t, b: 0, c: 0, k: 0 })
    }

    pub fn sext_t(&mut self, t: T, w: u32) -> T {
        let iw = self.w(t);
        if iw == w {
            return t;
        }
        let n = self.nodes[t as usize].clone();
        match n.op {
            Op::Const => return self.konst(w, sext(n.k, iw) as u128),
            Op::SExt => return self.sext_t(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            _ => {}
        }
        if self.top_zero(t) {
            return self.zext(t, w);
        }
        self.mk(Node { op: Op::SExt, w, a: t, b: 0, c: 0, k: 0 })
    }

    pub fn eval(&mut self, t: T, model: &[u64]) -> u128 {
        if self.nodes[t as usize].op == Op::Const {
            return self.nodes[t as usize].k;
        }
        self.stamp += 1;
        let st = self.stamp;
        if self.ev_stamp.len() < self.nodes.len() {
            let n = self.nodes.len() + self.nodes.len() / 2 + 64;
            self.ev_stamp.resize(n, 0);
            self.ev_val.resize(n, 0);
        }
        // iterative post-order
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            let xi = x as usize;
            if self.ev_stamp[xi] == st {
                stack.pop();
                continue;
            }
            let n = &self.nodes[xi];
            let ar = match n.op {
                Op::Const | Op::Var => 0,
                Op::Extract | Op::ZExt | Op::SExt => 1,
                Op::Ite => 3,
                _ => 2,
            };
            let ch = [n.a, n.b, n.c];
            let mut ready = true;
            for c in &ch[..ar] {
                if self.ev_stamp[*c as usize] != st {
                    stack.push(*c);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let v = |i: usize| self.ev_val[ch[i] as usize];
            let r = match n.op {
                Op::Const => n.k,
                Op::Var => (*model.get(n.k as usize).unwrap_or(&0) as u128) & mask(n.w),
                Op::Eq => (v(0) == v(1)) as u128,
                Op::Ult => (v(0) < v(1)) as u128,
                Op::Slt => {
                    let w = self.nodes[n.a as usize].w;
                    (sext(v(0), w) < sext(v(1), w)) as u128
                }
                Op::Ite => {
                    if v(0) == 1 {
                        v(1)
                    } else {
                        v(2)
                    }
                }
                Op::Concat => (v(0) << self.nodes[n.b as usize].w) | v(1),
                Op::Extract => (v(0) >> (n.k & 0xffff)) & mask(n.w),
                Op::ZExt => v(0),
                Op::SExt => (sext(v(0), self.nodes[n.a as usize].w) as u128) & mask(n.w),
                op => fold(op, n.w, v(0), v(1)),
            };
            self.ev_val[xi] = r;
            self.ev_stamp[xi] = st;
            stack.pop();
        }
        self.ev_val[t as usize]
    }
}

pub fn vs_inter(a: &VarSet, b: &VarSet) -> bool {
    (0..4).any(|i| a[i] & b[i] != 0)
}
pub fn vs_union(a: &mut VarSet, b: &VarSet) {
    for i in 0..4 {
        a[i] |= b[i];
    }
}
