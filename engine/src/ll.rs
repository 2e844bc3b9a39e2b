//! Parser for textual LLVM IR (the subset rustc emits). Function bodies are decoded on first use.
use crate::ir::*;
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(String),
    Loc(String),
    Glob(String),
    Meta,
    Num(String),
    Str(Vec<u8>),
    P(u8),
    Ellipsis,
    Attr,
    Label(String),
}

pub struct Lx<'a> {
    s: &'a [u8],
    i: usize,
    line: u32,
    pub toks: Vec<(Tok, u32)>,
}

fn idch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn unesc(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 1 < s.len() && s[i + 1] == b'\\' {
            o.push(b'\\');
            i += 2;
        } else if s[i] == b'\\' && i + 2 < s.len() {
            let h = |c: u8| (c as char).to_digit(16).unwrap_or(0) as u8;
            o.push(h(s[i + 1]) * 16 + h(s[i + 2]));
            i += 3;
        } else {
            o.push(s[i]);
            i += 1;
        }
    }
    o
}

pub fn lex(s: &str) -> Vec<(Tok, u32)> {
    let mut l = Lx { s: s.as_bytes(), i: 0, line: 0, toks: Vec::new() };
    l.run();
    l.toks
}

impl<'a> Lx<'a> {
    fn quoted(&mut self) -> &'a [u8] {
        // at opening quote
        let st = self.i + 1;
        let mut j = st;
        while self.s[j] != b'"' {
            j += 1;
        }
        self.i = j + 1;
        &self.s[st..j]
    }
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' {
            let q = self.quoted();
            String::from_utf8_lossy(&unesc(q)).into_owned()
        } else {
            let st = self.i;
            while self.i < self.s.len() && idch(self.s[self.i]) {
                self.i += 1;
            }
            String::from_utf8_lossy(&self.s[st..self.i]).into_owned()
        }
    }
    fn run(&mut self) {
        while self.i < self.s.len() {
            let c = self.s[self.i];
            match c {
                b'\n' => {
                    self.line += 1;
                    self.i += 1;
                }
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < self.s.len() && self.s[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                b'%' => {
                    self.i += 1;
                    let n = self.name();
                    self.toks.push((Tok::Loc(n), self.line));
                }
                b'@' => {
                    self.i += 1;
                    let n = self.name();
                    self.toks.push((Tok::Glob(n), self.line));
                }
                b'!' => {
                    self.i += 1;
                    if self.i < self.s.len() && (idch(self.s[self.i]) || self.s[self.i] == b'\\') {
                        self.name();
                    }
                    self.toks.push((Tok::Meta, self.line));
                }
                b'#' => {
                    self.i += 1;
                    self.name();
                    self.toks.push((Tok::Attr, self.line));
                }
                b'"' => {
                    let q = self.quoted().to_vec();
                    if self.i < self.s.len() && self.s[self.i] == b':' {
                        self.i += 1;
                        self.toks.push((Tok::Label(String::from_utf8_lossy(&unesc(&q)).into_owned()), self.line));
                    } else {
                        self.toks.push((Tok::Str(unesc(&q)), self.line));
                    }
                }
                b'.' if self.s[self.i..].starts_with(b"...") => {
                    self.i += 3;
                    self.toks.push((Tok::Ellipsis, self.line));
                }
                _ if c == b'-' || idch(c) => {
                    if c == b'c' && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'"' {
                        self.i += 1;
                        let q = self.quoted().to_vec();
                        self.toks.push((Tok::Str(unesc(&q)), self.line));
                        continue;
                    }
                    let n = self.name();
                    if self.i < self.s.len() && self.s[self.i] == b':' {
                        self.i += 1;
                        self.toks.push((Tok::Label(n), self.line));
                    } else if c == b'-' || c.is_ascii_digit() {
                        // floats such as 1.000000e+00
                        if self.i < self.s.len() && self.s[self.i] == b'+' {
                            self.i += 1;
                            self.name();
                        }
                        self.toks.push((Tok::Num(n), self.line));
                    } else {
                        self.toks.push((Tok::Id(n), self.line));
                    }
                }
                _ => {
                    self.i += 1;
                    self.toks.push((Tok::P(c), self.line));
                }
            }
        }
    }
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>, // token text range in source (start,end) of the initializer
    pub constant: bool,
    pub size: u64,
}

pub struct Module {
    pub src: String,
    pub named: HashMap<String, Ty>,
    pub named_src: HashMap<String, (usize, usize)>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub funcs: Vec<FuncSrc>,
    pub fidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub ginit: Vec<OnceLock<Arc<Vec<u8>>>>,
}

pub struct FuncSrc {
    pub name: String,
    pub range: Option<(usize, usize)>,
    pub body: OnceLock<Arc<Func>>,
}

pub const FUNC_BASE: u64 = 0x7f00_0000_0000_0000;
pub fn gaddr(i: u32) -> u64 {
    ((i as u64) + 1) << 32
}

struct Ps<'m> {
    m: &'m Module,
    t: Vec<(Tok, u32)>,
    p: usize,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

type R<X> = Result<X, String>;

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let src = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let mut m = Module {
            src: String::new(),
            named: HashMap::new(),
            named_src: HashMap::new(),
            globals: Vec::new(),
            gidx: HashMap::new(),
            funcs: Vec::new(),
            fidx: HashMap::new(),
            aliases: HashMap::new(),
            ginit: Vec::new(),
        };
        // top-level scan, line based
        let mut pos = 0usize;
        let b = src.as_bytes();
        let mut glines: Vec<(usize, usize)> = Vec::new();
        while pos < b.len() {
            let e = src[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
            let line = &src[pos..e];
            if line.starts_with('@') {
                glines.push((pos, e));
            } else if line.starts_with('%') {
                // type definition
                let name_end = line.find(" = type").ok_or("type def")?;
                let toks = lex(&line[..name_end]);
                if let Some((Tok::Loc(n), _)) = toks.first() {
                    m.named_src.insert(n.clone(), (pos + name_end + 7, e));
                }
            } else if line.starts_with("define") {
                let end = src[e..].find("\n}").map(|x| e + x + 2).ok_or("unterminated function")?;
                let name = fname(line).ok_or_else(|| format!("no name: {line}"))?;
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncSrc { name, range: Some((pos, end)), body: OnceLock::new() });
                pos = end;
                let e2 = src[pos..].find('\n').map(|x| pos + x).unwrap_or(b.len());
                pos = e2 + 1;
                continue;
            } else if line.starts_with("declare") {
                let name = fname(line).ok_or_else(|| format!("no name: {line}"))?;
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(FuncSrc { name, range: None, body: OnceLock::new() });
            }
            pos = e + 1;
        }
        m.src = src;
        // named types
        let names: Vec<String> = m.named_src.keys().cloned().collect();
        for n in names {
            let t = m.named_ty(&n)?;
            m.named.insert(n, t);
        }
        // globals
        for (s, e) in glines {
            let line = m.src[s..e].to_string();
            let toks = lex(&line);
            let name = match &toks[0].0 {
                Tok::Glob(n) => n.clone(),
                _ => return Err("global".into()),
            };
            let mut k = 2;
            let mut alias = false;
            let mut constant = false;
            let mut external = false;
            loop {
                match &toks[k].0 {
                    Tok::Id(i) if i == "alias" => {
                        alias = true;
                        break;
                    }
                    Tok::Id(i) if i == "constant" => {
                        constant = true;
                        break;
                    }
                    Tok::Id(i) if i == "global" => break,
                    Tok::Id(i) => {
                        if i == "external" || i == "extern_weak" {
                            external = true;
                        }
                        k += 1
                    }
                    _ => k += 1,
                }
            }
            if alias {
                for t in toks[k..].iter() {
                    if let Tok::Glob(g) = &t.0 {
                        m.aliases.insert(name.clone(), g.clone());
                        break;
                    }
                }
                continue;
            }
            let mut ps = Ps { m: &m, t: toks, p: k + 1, regs: HashMap::new(), blocks: HashMap::new() };
            let ty = ps.ty()?;
            let size = ty.size();
            let has_init = !external && ps.p < ps.t.len() && ps.t[ps.p].0 != Tok::P(b',');
            let gi = m.globals.len() as u32;
            m.gidx.insert(name.clone(), gi);
            m.globals.push(Global { name, ty, init: if has_init { Some((s, e)) } else { None }, constant, size });
            m.ginit.push(OnceLock::new());
        }
        Ok(m)
    }

    fn named_ty(&self, n: &str) -> R<Ty> {
        if let Some(t) = self.named.get(n) {
            return Ok(t.clone());
        }
        let (s, e) = *self.named_src.get(n).ok_or_else(|| format!("type %{n}"))?;
        let mut ps = Ps { m: self, t: lex(&self.src[s..e]), p: 0, regs: HashMap::new(), blocks: HashMap::new() };
        ps.ty()
    }

    pub fn sym_addr(&self, n: &str) -> Option<u64> {
        if let Some(a) = self.aliases.get(n) {
            return self.sym_addr(a);
        }
        if let Some(g) = self.gidx.get(n) {
            return Some(gaddr(*g));
        }
        self.fidx.get(n).map(|f| FUNC_BASE + (*f as u64) * 16)
    }

    pub fn func(&self, id: u32) -> R<Arc<Func>> {
        let f = &self.funcs[id as usize];
        if let Some(b) = f.body.get() {
            return Ok(b.clone());
        }
        let (s, e) = f.range.ok_or_else(|| format!("external function {}", f.name))?;
        let func = parse_func(self, &f.name, &self.src[s..e]).map_err(|x| format!("in {}: {x}", f.name))?;
        let _ = f.body.set(Arc::new(func));
        Ok(f.body.get().unwrap().clone())
    }

    pub fn global_bytes(&self, gi: u32) -> R<Arc<Vec<u8>>> {
        if let Some(b) = self.ginit[gi as usize].get() {
            return Ok(b.clone());
        }
        let g = &self.globals[gi as usize];
        let mut out = vec![0u8; g.size as usize];
        if let Some((s, e)) = g.init {
            let toks = lex(&self.src[s..e]);
            let mut k = 2;
            while !matches!(&toks[k].0, Tok::Id(i) if i == "constant" || i == "global") {
                k += 1;
            }
            let mut ps = Ps { m: self, t: toks, p: k + 1, regs: HashMap::new(), blocks: HashMap::new() };
            let ty = ps.ty()?;
            let v = ps.value(&ty).map_err(|x| format!("init of {}: {x}", g.name))?;
            write_const(&mut out, 0, &ty, &v)?;
        }
        let _ = self.ginit[gi as usize].set(Arc::new(out));
        Ok(self.ginit[gi as usize].get().unwrap().clone())
    }
}

fn write_const(out: &mut [u8], off: u64, ty: &Ty, v: &Opd) -> R<()> {
    match (ty, v) {
        (_, Opd::C(k)) if ty.is_scalar() => {
            let n = ty.store_size();
            for i in 0..n {
                out[(off + i) as usize] = (k >> (8 * i)) as u8;
            }
        }
        (_, Opd::Agg(a)) => {
            for (i, x) in a.iter().enumerate() {
                let (o, t) = ty.field(i);
                write_const(out, off + o, &t, x)?;
            }
        }
        _ => return Err(format!("constant {ty:?} {v:?}")),
    }
    Ok(())
}

fn fname(line: &str) -> Option<String> {
    let i = line.find('@')?;
    let rest = &line[i + 1..];
    if let Some(r) = rest.strip_prefix('"') {
        let e = r.find('"')?;
        Some(String::from_utf8_lossy(&unesc(r[..e].as_bytes())).into_owned())
    } else {
        let e = rest.find('(')?;
        Some(rest[..e].to_string())
    }
}

fn zero(ty: &Ty) -> Opd {
    match ty {
        Ty::Array(..) | Ty::Struct(..) | Ty::Vec(..) => {
            let n = ty.n_fields();
            let mut v = Vec::with_capacity(n);
            for i in 0..n {
                let t = match ty {
                    Ty::Array(_, t) | Ty::Vec(_, t) => (**t).clone(),
                    _ => ty.field(i).1,
                };
                v.push(zero(&t));
            }
            Opd::Agg(Arc::new(v))
        }
        _ => Opd::C(0),
    }
}

impl<'m> Ps<'m> {
    fn peek(&self) -> &Tok {
        static END: Tok = Tok::P(0);
        self.t.get(self.p).map(|x| &x.0).unwrap_or(&END)
    }
    fn line(&self) -> u32 {
        self.t.get(self.p).map(|x| x.1).unwrap_or(u32::MAX)
    }
    fn next(&mut self) -> Tok {
        let t = self.peek().clone();
        self.p += 1;
        t
    }
    fn isp(&self, c: u8) -> bool {
        *self.peek() == Tok::P(c)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.isp(c) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?} (line {})", c as char, self.peek(), self.line()))
        }
    }
    fn isid(&self, s: &str) -> bool {
        matches!(self.peek(), Tok::Id(i) if i == s)
    }
    fn eatid(&mut self, s: &str) -> bool {
        if self.isid(s) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn skip_balanced(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::P(0) => return,
                _ => {}
            }
        }
    }
    fn skip_line(&mut self, line: u32) {
        while self.p < self.t.len() && self.line() == line {
            self.p += 1;
        }
    }

    fn at_ty(&self) -> bool {
        match self.peek() {
            Tok::Id(i) => {
                matches!(i.as_str(), "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "label" | "token" | "metadata" | "opaque")
                    || (i.starts_with('i') && i.len() > 1 && i[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Tok::P(b'[') | Tok::P(b'{') | Tok::P(b'<') => true,
            Tok::Loc(n) => self.m.named_src.contains_key(n),
            _ => false,
        }
    }

    fn skip_attrs(&mut self) {
        loop {
            if self.at_ty() {
                return;
            }
            match self.peek() {
                Tok::Id(i) => {
                    // operand keywords stop the scan
                    if matches!(
                        i.as_str(),
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "splat" | "ptrtoaddr" | "trunc" | "sub" | "add" | "xor" | "asm"
                    ) {
                        return;
                    }
                    let al = i == "align";
                    self.p += 1;
                    if self.isp(b'(') {
                        self.skip_balanced();
                    } else if al {
                        if matches!(self.peek(), Tok::Num(_)) {
                            self.p += 1;
                        }
                    }
                }
                Tok::Str(_) => {
                    if matches!(self.t.get(self.p + 1), Some((Tok::P(b'='), _))) {
                        self.p += 3;
                    } else {
                        return;
                    }
                }
                Tok::Attr => self.p += 1,
                _ => return,
            }
        }
    }

    fn ty(&mut self) -> R<Ty> {
        let t = match self.next() {
            Tok::Id(i) => match i.as_str() {
                "void" => Ty::Void,
                "ptr" => {
                    if self.isid("addrspace") {
                        self.p += 1;
                        self.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Fp(32),
                "double" => Ty::Fp(64),
                "half" | "bfloat" => Ty::Fp(16),
                "fp128" => Ty::Fp(128),
                "x86_fp80" => Ty::Fp(128),
                "label" | "token" | "metadata" | "opaque" => Ty::Other,
                _ if i.starts_with('i') => Ty::Int(i[1..].parse().map_err(|_| format!("type {i}"))?),
                _ => return Err(format!("type {i}")),
            },
            Tok::Loc(n) => self.m.named_ty(&n)?,
            Tok::P(b'[') => {
                let n = self.num()?;
                self.p += 1; // x
                let t = self.ty()?;
                self.expect(b']')?;
                Ty::Array(n as u64, Arc::new(t))
            }
            Tok::P(b'{') => {
                let f = self.tylist(b'}')?;
                Ty::Struct(Arc::new(f), false)
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let f = self.tylist(b'}')?;
                    self.expect(b'>')?;
                    Ty::Struct(Arc::new(f), true)
                } else {
                    let n = self.num()?;
                    self.p += 1;
                    let t = self.ty()?;
                    self.expect(b'>')?;
                    Ty::Vec(n as u32, Arc::new(t))
                }
            }
            t => return Err(format!("type token {t:?}")),
        };
        Ok(t)
    }

    fn tylist(&mut self, end: u8) -> R<Vec<Ty>> {
        let mut f = Vec::new();
        if self.eat(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.eat(b',') {
                continue;
            }
            self.expect(end)?;
            return Ok(f);
        }
    }

    fn num(&mut self) -> R<i128> {
        match self.next() {
            Tok::Num(n) => n.parse().map_err(|_| format!("number {n}")),
            t => Err(format!("number {t:?}")),
        }
    }

    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        r
    }
    fn blk(&mut self, n: &str) -> u32 {
        if let Some(r) = self.blocks.get(n) {
            return *r;
        }
        let r = self.blocks.len() as u32;
        self.blocks.insert(n.to_string(), r);
        r
    }

    fn tyval(&mut self) -> R<(Ty, Opd)> {
        let t = self.ty()?;
        self.skip_attrs();
        let v = self.value(&t)?;
        Ok((t, v))
    }

    fn value(&mut self, ty: &Ty) -> R<Opd> {
        let w = ty.bits();
        let mk = |k: i128| {
            let m = if w >= 128 { !0u128 } else if w == 0 { 0 } else { (1u128 << w) - 1 };
            Opd::C(k as u128 & m)
        };
        match self.next() {
            Tok::Loc(n) => {
                let r = self.reg(&n);
                Ok(Opd::Reg(r))
            }
            Tok::Glob(n) => {
                let a = self.m.sym_addr(&n).ok_or_else(|| format!("symbol @{n}"))?;
                Ok(Opd::C(a as u128))
            }
            Tok::Num(n) => {
                if matches!(ty, Ty::Fp(_)) {
                    return Ok(Opd::C(0)); // floats are unsupported in execution
                }
                if let Ok(k) = n.parse::<i128>() {
                    Ok(mk(k))
                } else if let Ok(k) = n.parse::<u128>() {
                    Ok(mk(k as i128))
                } else {
                    Err(format!("integer {n}"))
                }
            }
            Tok::Str(b) => Ok(Opd::Agg(Arc::new(b.iter().map(|c| Opd::C(*c as u128)).collect()))),
            Tok::P(b'[') => {
                let v = self.vallist(b']')?;
                Ok(Opd::Agg(Arc::new(v)))
            }
            Tok::P(b'{') => {
                let v = self.vallist(b'}')?;
                Ok(Opd::Agg(Arc::new(v)))
            }
            Tok::P(b'<') => {
                if self.eat(b'{') {
                    let v = self.vallist(b'}')?;
                    self.expect(b'>')?;
                    Ok(Opd::Agg(Arc::new(v)))
                } else {
                    let v = self.vallist(b'>')?;
                    Ok(Opd::Agg(Arc::new(v)))
                }
            }
            Tok::Meta => {
                // metadata operand: skip an optional group
                if self.isp(b'(') {
                    self.skip_balanced();
                }
                if self.isp(b'{') {
                    let mut d = 0;
                    loop {
                        match self.next() {
                            Tok::P(b'{') => d += 1,
                            Tok::P(b'}') => {
                                d -= 1;
                                if d == 0 {
                                    break;
                                }
                            }
                            _ => {}
                        }
                    }
                }
                Ok(Opd::C(0))
            }
            Tok::Id(i) => match i.as_str() {
                "true" => Ok(Opd::C(1)),
                "false" => Ok(Opd::C(0)),
                "null" | "none" => Ok(Opd::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(zero(ty)),
                "splat" => {
                    self.expect(b'(')?;
                    let (_, v) = self.tyval()?;
                    self.expect(b')')?;
                    let n = ty.n_fields();
                    Ok(Opd::Agg(Arc::new(vec![v; n])))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "trunc" | "ptrtoaddr" => {
                    self.expect(b'(')?;
                    let (_, v) = self.tyval()?;
                    if !self.eatid("to") {
                        return Err("cast".into());
                    }
                    let t = self.ty()?;
                    self.expect(b')')?;
                    match v {
                        Opd::C(k) => {
                            let w = t.bits();
                            Ok(Opd::C(if w >= 128 { k } else { k & ((1u128 << w) - 1) }))
                        }
                        _ => Err("constant cast".into()),
                    }
                }
                "sub" | "add" | "xor" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        self.p += 1;
                    }
                    self.expect(b'(')?;
                    let (_, a) = self.tyval()?;
                    self.expect(b',')?;
                    let (_, b) = self.tyval()?;
                    self.expect(b')')?;
                    match (a, b) {
                        (Opd::C(a), Opd::C(b)) => Ok(mk(match i.as_str() {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            _ => a ^ b,
                        } as i128)),
                        _ => Err("constant binop".into()),
                    }
                }
                "getelementptr" => {
                    while matches!(self.peek(), Tok::Id(_)) {
                        let r = self.isid("inrange");
                        self.p += 1;
                        if r && self.isp(b'(') {
                            self.skip_balanced();
                        }
                    }
                    self.expect(b'(')?;
                    let t = self.ty()?;
                    self.expect(b',')?;
                    let (_, b) = self.tyval()?;
                    let (c, v) = self.gep_idx(&t)?;
                    self.expect(b')')?;
                    match (b, v.is_empty()) {
                        (Opd::C(k), true) => Ok(Opd::C((k as u64).wrapping_add(c) as u128)),
                        _ => Err("constant gep".into()),
                    }
                }
                _ => Err(format!("value {i}")),
            },
            t => Err(format!("value {t:?}")),
        }
    }

    fn vallist(&mut self, end: u8) -> R<Vec<Opd>> {
        let mut v = Vec::new();
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            let (_, x) = self.tyval()?;
            v.push(x);
            if self.eat(b',') {
                continue;
            }
            self.expect(end)?;
            return Ok(v);
        }
    }

    fn gep_idx(&mut self, t: &Ty) -> R<(u64, Vec<(Opd, u32, u64)>)> {
        let mut cur = t.clone();
        let mut c = 0u64;
        let mut v = Vec::new();
        let mut first = true;
        while self.isp(b',') && !matches!(self.t.get(self.p + 1), Some((Tok::Meta, _))) {
            self.p += 1;
            let (it, iv) = self.tyval()?;
            let scale;
            if first {
                scale = cur.size();
                first = false;
            } else {
                match &cur {
                    Ty::Struct(..) => {
                        let k = match iv {
                            Opd::C(k) => k as usize,
                            _ => return Err("struct gep".into()),
                        };
                        let (o, ft) = cur.field(k);
                        c = c.wrapping_add(o);
                        cur = ft;
                        continue;
                    }
                    Ty::Array(_, e) | Ty::Vec(_, e) => {
                        let e = (**e).clone();
                        scale = e.size();
                        cur = e;
                    }
                    _ => return Err("gep".into()),
                }
            }
            match iv {
                Opd::C(k) => {
                    let w = it.bits();
                    let s = crate::term::sext(k, w) as i64;
                    c = c.wrapping_add((s as u64).wrapping_mul(scale));
                }
                o => v.push((o, it.bits(), scale)),
            }
        }
        Ok((c, v))
    }
}

fn intr_of(name: &str) -> Option<Intr> {
    let b = |p: &str| name.starts_with(p);
    if let Some(r) = name.strip_prefix("llvm.") {
        let st = |p: &str| r.starts_with(p);
        return Some(if st("lifetime") || st("experimental.noalias") || st("dbg.") || st("invariant") || st("donothing") || st("prefetch") || st("x86.sse2.pause") || st("assume") || st("va_") || st("fake.use") {
            Intr::Nop
        } else if st("memcpy") || st("memmove") {
            Intr::Memcpy
        } else if st("memset") {
            Intr::Memset
        } else if st("expect") {
            Intr::Expect
        } else if st("umin") {
            Intr::Min(false)
        } else if st("smin") {
            Intr::Min(true)
        } else if st("umax") {
            Intr::Max(false)
        } else if st("smax") {
            Intr::Max(true)
        } else if st("abs") {
            Intr::Abs
        } else if st("uadd.with") {
            Intr::AddOv(false)
        } else if st("sadd.with") {
            Intr::AddOv(true)
        } else if st("usub.with") {
            Intr::SubOv(false)
        } else if st("ssub.with") {
            Intr::SubOv(true)
        } else if st("umul.with") {
            Intr::MulOv(false)
        } else if st("smul.with") {
            Intr::MulOv(true)
        } else if st("usub.sat") {
            Intr::USubSat
        } else if st("uadd.sat") {
            Intr::UAddSat
        } else if st("ssub.sat") {
            Intr::SSubSat
        } else if st("sadd.sat") {
            Intr::SAddSat
        } else if st("ctlz") {
            Intr::Ctlz
        } else if st("cttz") {
            Intr::Cttz
        } else if st("ctpop") {
            Intr::Ctpop
        } else if st("bswap") {
            Intr::Bswap
        } else if st("bitreverse") {
            Intr::Bitrev
        } else if st("fshl") {
            Intr::Fshl
        } else if st("fshr") {
            Intr::Fshr
        } else if st("ucmp") {
            Intr::Cmp3(false)
        } else if st("scmp") {
            Intr::Cmp3(true)
        } else if st("is.constant") {
            Intr::IsConstant
        } else if st("threadlocal.address") {
            Intr::Tls
        } else if st("trap") || st("ubsantrap") || st("debugtrap") {
            Intr::Trap
        } else if st("objectsize") {
            Intr::ObjectSize
        } else if st("ptrmask") {
            Intr::PtrMask
        } else if st("vector.reduce.or") {
            Intr::VecReduce(BinOp::Or)
        } else if st("vector.reduce.and") {
            Intr::VecReduce(BinOp::And)
        } else if st("vector.reduce.add") {
            Intr::VecReduce(BinOp::Add)
        } else if st("vector.reduce.xor") {
            Intr::VecReduce(BinOp::Xor)
        } else {
            return None;
        });
    }
    Some(match name {
        "memcpy" | "memmove" => Intr::Memcpy,
        "memset" => Intr::Memset,
        "bcmp" => Intr::Bcmp,
        "memcmp" => Intr::Memcmp,
        "strlen" => Intr::Strlen,
        "malloc" => Intr::Malloc,
        "calloc" => Intr::Calloc,
        "realloc" => Intr::Realloc,
        "free" => Intr::Free,
        "posix_memalign" => Intr::PosixMemalign,
        "abort" => Intr::Trap,
        "sx_u64" => Intr::SxU64,
        "sx_range" => Intr::SxRange,
        "sx_fork" => Intr::SxFork,
        "sx_bool" => Intr::SxBool,
        "sx_assume" => Intr::SxAssume,
        "sx_assert" => Intr::SxAssert,
        "sx_out" => Intr::SxOut,
        "sx_reach" => Intr::SxReach,
        "sx_param" => Intr::SxParam,
        "__cxa_thread_atexit_impl" => Intr::Nop,
        "pthread_key_create" => Intr::KeyCreate,
        "pthread_getspecific" | "pthread_setspecific" | "pthread_key_delete" => Intr::Nop,
        "gettid" => Intr::SxSymbolic, // a constant: one thread
        "sx_symbolic" => Intr::SxSymbolic,
        _ => {
            if b("_R") && name.ends_with("4core3fmt3numo4__fmt") {
                return Some(Intr::Fmt128);
            }
            if b("_R") && name.contains("7___rustc") {
                if name.ends_with("12___rust_alloc") {
                    return Some(Intr::RustAlloc);
                }
                if name.ends_with("19___rust_alloc_zeroed") {
                    return Some(Intr::RustAllocZeroed);
                }
                if name.ends_with("14___rust_dealloc") {
                    return Some(Intr::RustDealloc);
                }
                if name.ends_with("14___rust_realloc") {
                    return Some(Intr::RustRealloc);
                }
                if name.contains("___rust_no_alloc_shim") {
                    return Some(Intr::Nop);
                }
                if name.contains("rust_begin_unwind") || name.contains("___rust_alloc_error_handler") || name.contains("___rust_start_panic") || name.contains("___rust_abort") || name.contains("rust_panic") {
                    return Some(Intr::Panic);
                }
            }
            // panic entry points of core / alloc / std
            const P: &[&str] = &[
                "4core9panicking",
                "4core6option13expect_failed",
                "4core6option13unwrap_failed",
                "4core6result13unwrap_failed",
                "4core4cell22panic_already",
                "5alloc5alloc18handle_alloc_error",
                "5alloc7raw_vec12handle_error",
                "5alloc7raw_vec17capacity_overflow",
                "slice_error_fail",
                "slice_index_fail",
                "slice_start_index_len_fail",
                "slice_end_index_len_fail",
                "slice_index_order_fail",
                "9panicking11begin_panic",
                "9panicking13panic_handler",
                "rust_panic_with_hook",
                "9len_mismatch_fail",
                "copy_from_slice_impl17len_mismatch",
                "5alloc8rust_oom",
            ];
            if (b("_R") || b("_ZN")) && P.iter().any(|p| name.contains(p)) && !name.contains("drop_glue") && !name.contains("3fmt5Debug") && !name.contains("3fmt7Display") {
                return Some(Intr::Panic);
            }
            return None;
        }
    })
}

fn parse_func(m: &Module, name: &str, src: &str) -> R<Func> {
    let mut ps = Ps { m, t: lex(src), p: 0, regs: HashMap::new(), blocks: HashMap::new() };
    // header: define <attrs> <ty> @name ( params ) attrs {
    while !matches!(ps.peek(), Tok::Glob(_)) {
        ps.p += 1;
    }
    ps.p += 1;
    ps.expect(b'(')?;
    let mut params = Vec::new();
    let mut argno = 0u32;
    if !ps.eat(b')') {
        loop {
            if *ps.peek() == Tok::Ellipsis {
                ps.p += 1;
                ps.expect(b')')?;
                break;
            }
            ps.ty()?;
            ps.skip_attrs();
            let n = if let Tok::Loc(n) = ps.peek() {
                let n = n.clone();
                ps.p += 1;
                if let Ok(k) = n.parse::<u32>() {
                    argno = k + 1;
                }
                n
            } else {
                argno += 1;
                format!("{}", argno - 1)
            };
            let r = ps.reg(&n);
            params.push(r);
            if ps.eat(b',') {
                continue;
            }
            ps.expect(b')')?;
            break;
        }
    }
    while !ps.isp(b'{') {
        ps.p += 1;
    }
    ps.p += 1;
    let mut blocks: Vec<Block> = Vec::new();
    let mut cur: usize = usize::MAX;
    let mut has_alloca = false;
    let mut ninstr = 0;
    // entry block may be unlabelled (name = next number) or labelled
    loop {
        if ps.isp(b'}') {
            break;
        }
        if let Tok::Label(l) = ps.peek().clone() {
            ps.p += 1;
            let b = ps.blk(&l) as usize;
            while blocks.len() <= b {
                blocks.push(Block::default());
            }
            cur = b;
            continue;
        }
        if cur == usize::MAX {
            let l = format!("{argno}");
            let b = ps.blk(&l) as usize;
            while blocks.len() <= b {
                blocks.push(Block::default());
            }
            cur = b;
        }
        let ln = ps.line();
        let mut dest = None;
        if let Tok::Loc(n) = ps.peek().clone() {
            if matches!(ps.t.get(ps.p + 1), Some((Tok::P(b'='), _))) {
                ps.p += 2;
                dest = Some(ps.reg(&n));
            }
        }
        ninstr += 1;
        // debug records "#dbg_value(...)"
        if *ps.peek() == Tok::Attr && dest.is_none() {
            ps.skip_line(ln);
            continue;
        }
        let (ins, multi) = ps.instr(dest, &mut blocks, cur, &mut has_alloca).map_err(|e| format!("{e} [line {}: {}]", ln, src.lines().nth(ln as usize).unwrap_or("")))?;
        if let Some(i) = ins {
            blocks[cur].ins.push((dest, i));
        }
        if !multi {
            ps.skip_line(ln);
        }
    }
    // block table may mention blocks never defined (impossible in valid IR)
    while blocks.len() < ps.blocks.len() {
        blocks.push(Block::default());
    }
    Ok(Func { name: name.to_string(), nregs: ps.regs.len() as u32, params, blocks, has_alloca, ninstr })
}

impl<'m> Ps<'m> {
    fn skip_flags(&mut self) {
        while let Tok::Id(i) = self.peek() {
            if matches!(i.as_str(), "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "volatile" | "atomic" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "inalloca" | "weak") {
                self.p += 1;
            } else if i == "inrange" {
                self.p += 1;
                self.skip_balanced();
            } else {
                return;
            }
        }
    }
    fn label(&mut self) -> R<u32> {
        if !self.eatid("label") {
            return Err("label".into());
        }
        match self.next() {
            Tok::Loc(n) => Ok(self.blk(&n)),
            _ => Err("label".into()),
        }
    }

    fn call(&mut self) -> R<Ins> {
        // after "call"/"invoke" keyword
        self.skip_flags();
        self.skip_attrs();
        let mut rty = self.ty()?;
        // function type for varargs: ty (args...)
        if self.isp(b'(') {
            self.skip_balanced();
        }
        let callee = match self.next() {
            Tok::Glob(n) => {
                let n = self.m.aliases.get(&n).cloned().unwrap_or(n);
                if let Some(i) = intr_of(&n) {
                    Callee::Intr(i)
                } else {
                    match self.m.fidx.get(&n) {
                        Some(f) if self.m.funcs[*f as usize].range.is_some() => Callee::Func(*f),
                        _ => Callee::Unknown(n),
                    }
                }
            }
            Tok::Loc(n) => {
                let r = self.reg(&n);
                Callee::Ind(Opd::Reg(r))
            }
            Tok::Id(i) if i == "inttoptr" || i == "getelementptr" => {
                self.p -= 1;
                let v = self.value(&Ty::Ptr)?;
                Callee::Ind(v)
            }
            Tok::Id(i) if i == "asm" => {
                rty = Ty::Void;
                return Ok(if self.is_barrier_asm() { Ins::Nop } else { Ins::Unsupported("inline asm".into()) }).map(|x| {
                    let _ = &rty;
                    x
                });
            }
            t => return Err(format!("callee {t:?}")),
        };
        self.expect(b'(')?;
        let mut args = Vec::new();
        if !self.eat(b')') {
            loop {
                let t = self.ty()?;
                self.skip_attrs();
                let v = if let (Ty::Other, false) = (&t, matches!(self.peek(), Tok::Meta)) {
                    // metadata ty value
                    while !(self.isp(b',') || self.isp(b')')) {
                        self.p += 1;
                    }
                    Opd::C(0)
                } else {
                    self.value(&t)?
                };
                args.push((t, v));
                if self.eat(b',') {
                    continue;
                }
                self.expect(b')')?;
                break;
            }
        }
        Ok(Ins::Call(callee, args, rty))
    }

    fn is_barrier_asm(&mut self) -> bool {
        let mut k = self.p;
        while let Some((t, _)) = self.t.get(k) {
            if let Tok::Str(s) = t {
                return s.is_empty();
            }
            k += 1;
        }
        false
    }

    fn instr(&mut self, dest: Option<u32>, blocks: &mut [Block], cur: usize, has_alloca: &mut bool) -> R<(Option<Ins>, bool)> {
        let op = match self.next() {
            Tok::Id(i) => i,
            t => return Err(format!("instruction {t:?}")),
        };
        let bin = |o: &str| {
            Some(match o {
                "add" => BinOp::Add,
                "sub" => BinOp::Sub,
                "mul" => BinOp::Mul,
                "udiv" => BinOp::UDiv,
                "urem" => BinOp::URem,
                "sdiv" => BinOp::SDiv,
                "srem" => BinOp::SRem,
                "and" => BinOp::And,
                "or" => BinOp::Or,
                "xor" => BinOp::Xor,
                "shl" => BinOp::Shl,
                "lshr" => BinOp::LShr,
                "ashr" => BinOp::AShr,
                _ => return None,
            })
        };
        let elw = |t: &Ty| match t {
            Ty::Vec(_, e) => e.bits(),
            t => t.bits(),
        };
        if let Some(b) = bin(&op) {
            self.skip_flags();
            let t = self.ty()?;
            let a = self.value(&t)?;
            self.expect(b',')?;
            let c = self.value(&t)?;
            return Ok((Some(Ins::Bin(b, elw(&t), a, c)), false));
        }
        let i = match op.as_str() {
            "icmp" => {
                self.skip_flags();
                let p = match self.next() {
                    Tok::Id(p) => p,
                    _ => return Err("icmp".into()),
                };
                let p = match p.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    _ => return Err("icmp".into()),
                };
                let t = self.ty()?;
                let a = self.value(&t)?;
                self.expect(b',')?;
                let c = self.value(&t)?;
                Ins::ICmp(p, elw(&t), a, c)
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                self.skip_flags();
                let (t, v) = self.tyval()?;
                if !self.eatid("to") {
                    return Err("cast".into());
                }
                let u = self.ty()?;
                if op == "bitcast" && (matches!(t, Ty::Vec(..)) || matches!(u, Ty::Vec(..))) {
                    // vector bitcast: encode lanes
                    let lt = if let Ty::Vec(n, _) = &t { *n } else { 0 };
                    let lu = if let Ty::Vec(n, _) = &u { *n } else { 0 };
                    let _ = (lt, lu);
                    return Ok((Some(Ins::Shuffle(v, Opd::C(lu as u128), elw(&t) | (elw(&u) << 16), vec![u32::MAX])), false));
                }
                let c = match op.as_str() {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "bitcast" => CastOp::Bit,
                    _ => {
                        let (a, b) = (elw(&t), elw(&u));
                        if a > b {
                            CastOp::Trunc
                        } else {
                            CastOp::ZExt
                        }
                    }
                };
                Ins::Cast(c, elw(&t), elw(&u), v)
            }
            "select" => {
                self.skip_flags();
                let (_, c) = self.tyval()?;
                self.expect(b',')?;
                let (t, a) = self.tyval()?;
                self.expect(b',')?;
                let (_, b) = self.tyval()?;
                Ins::Select(c, a, b, t)
            }
            "phi" => {
                self.skip_flags();
                let t = self.ty()?;
                let mut v = Vec::new();
                loop {
                    self.expect(b'[')?;
                    let x = self.value(&t)?;
                    self.expect(b',')?;
                    let l = match self.next() {
                        Tok::Loc(n) => self.blk(&n),
                        _ => return Err("phi".into()),
                    };
                    self.expect(b']')?;
                    v.push((l, x));
                    if self.isp(b',') && matches!(self.t.get(self.p + 1), Some((Tok::P(b'['), _))) {
                        self.p += 1;
                        continue;
                    }
                    break;
                }
                blocks[cur].phis.push((dest.ok_or("phi dest")?, v));
                return Ok((None, false));
            }
            "load" => {
                self.skip_flags();
                let t = self.ty()?;
                self.expect(b',')?;
                let (_, p) = self.tyval()?;
                Ins::Load(t, p)
            }
            "store" => {
                self.skip_flags();
                let (t, v) = self.tyval()?;
                self.expect(b',')?;
                let (_, p) = self.tyval()?;
                Ins::Store(t, v, p)
            }
            "alloca" => {
                self.skip_flags();
                let t = self.ty()?;
                *has_alloca = true;
                let mut n = Opd::C(1);
                if self.isp(b',') && !matches!(self.t.get(self.p + 1), Some((Tok::Id(a), _)) if a == "align" || a == "addrspace") && !matches!(self.t.get(self.p + 1), Some((Tok::Meta, _))) {
                    self.p += 1;
                    n = self.tyval()?.1;
                }
                Ins::Alloca(t.size(), n)
            }
            "getelementptr" => {
                self.skip_flags();
                let t = self.ty()?;
                self.expect(b',')?;
                let (bt, b) = self.tyval()?;
                if !matches!(bt, Ty::Ptr) {
                    return Ok((Some(Ins::Unsupported("vector gep".into())), false));
                }
                let (c, v) = self.gep_idx(&t)?;
                Ins::Gep(b, c, v)
            }
            "tail" | "musttail" | "notail" => {
                self.p += 1;
                self.call()?
            }
            "call" => self.call()?,
            "invoke" => {
                let c = self.call()?;
                blocks[cur].ins.push((dest, c));
                // to label %x unwind label %y
                while !self.isid("to") {
                    self.p += 1;
                }
                self.p += 1;
                let l = self.label()?;
                self.p += 1; // unwind
                self.label()?;
                let ln = self.t[self.p - 1].1;
                self.skip_line(ln);
                blocks[cur].ins.push((None, Ins::Br(l)));
                return Ok((None, true));
            }
            "landingpad" | "resume" | "cleanupret" => {
                let ln = self.line();
                self.skip_line(ln);
                // clauses on following lines
                while self.isid("cleanup") || self.isid("catch") || self.isid("filter") {
                    let l = self.line();
                    self.skip_line(l);
                }
                blocks[cur].ins.push((dest, Ins::Unsupported(op)));
                return Ok((None, true));
            }
            "ret" => {
                if self.eatid("void") {
                    Ins::Ret(None)
                } else {
                    let (_, v) = self.tyval()?;
                    Ins::Ret(Some(v))
                }
            }
            "br" => {
                if self.isid("label") {
                    let l = self.label()?;
                    Ins::Br(l)
                } else {
                    let (_, c) = self.tyval()?;
                    self.expect(b',')?;
                    let a = self.label()?;
                    self.expect(b',')?;
                    let b = self.label()?;
                    Ins::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyval()?;
                self.expect(b',')?;
                let d = self.label()?;
                self.expect(b'[')?;
                let mut cs = Vec::new();
                while !self.isp(b']') {
                    let (_, k) = self.tyval()?;
                    self.expect(b',')?;
                    let l = self.label()?;
                    match k {
                        Opd::C(k) => cs.push((k, l)),
                        _ => return Err("switch case".into()),
                    }
                }
                let ln = self.line();
                self.skip_line(ln);
                blocks[cur].ins.push((None, Ins::Switch(t.bits(), v, d, cs)));
                return Ok((None, true));
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => {
                let (_, v) = self.tyval()?;
                let mut ix = Vec::new();
                while self.isp(b',') && matches!(self.t.get(self.p + 1), Some((Tok::Num(_), _))) {
                    self.p += 1;
                    ix.push(self.num()? as u32);
                }
                Ins::Extract(v, ix)
            }
            "insertvalue" => {
                let (_, v) = self.tyval()?;
                self.expect(b',')?;
                let (_, e) = self.tyval()?;
                let mut ix = Vec::new();
                while self.isp(b',') && matches!(self.t.get(self.p + 1), Some((Tok::Num(_), _))) {
                    self.p += 1;
                    ix.push(self.num()? as u32);
                }
                Ins::Insert(v, e, ix)
            }
            "extractelement" => {
                let (_, v) = self.tyval()?;
                self.expect(b',')?;
                let (_, i) = self.tyval()?;
                Ins::ExtractEl(v, i)
            }
            "insertelement" => {
                let (_, v) = self.tyval()?;
                self.expect(b',')?;
                let (_, e) = self.tyval()?;
                self.expect(b',')?;
                let (_, i) = self.tyval()?;
                Ins::InsertEl(v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyval()?;
                self.expect(b',')?;
                let (_, b) = self.tyval()?;
                self.expect(b',')?;
                let (mt, m) = self.tyval()?;
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                let mask = match m {
                    Opd::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Opd::C(k) => *k as u32,
                            _ => 0,
                        })
                        .collect(),
                    _ => vec![0; mt.n_fields()],
                };
                Ins::Shuffle(a, b, n, mask)
            }
            "freeze" => {
                let (_, v) = self.tyval()?;
                Ins::Freeze(v)
            }
            "fence" => Ins::Nop,
            "atomicrmw" => {
                self.skip_flags();
                let o = match self.next() {
                    Tok::Id(o) => o,
                    _ => return Err("atomicrmw".into()),
                };
                let (_, p) = self.tyval()?;
                self.expect(b',')?;
                let (t, v) = self.tyval()?;
                Ins::AtomicRmw(o, t.bits(), p, v)
            }
            "cmpxchg" => {
                self.skip_flags();
                let (_, p) = self.tyval()?;
                self.expect(b',')?;
                let (t, c) = self.tyval()?;
                self.expect(b',')?;
                let (_, n) = self.tyval()?;
                Ins::CmpXchg(t.bits(), p, c, n)
            }
            _ => Ins::Unsupported(op),
        };
        Ok((Some(i), false))
    }
}
