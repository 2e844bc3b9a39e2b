//! The quoting macros: what they generate for a quote, wherever its tokens stand in the source,
//! does what the quote says. The macros run on top of proc-macro2's fallback; every token of a
//! quote is placed at a symbolic column of a line, and the generated code is evaluated (`mini`).
use crate::mini::{Mini, V};
use crate::sx::*;
use genco::lang::JavaScript;
use genco::tokens::{Item, ItemStr};
use genco::tokens::quoted;
use genco::Tokens;
use proc_macro2::{TokenStream, TokenTree};

const MAX: usize = 128;
static mut LINES: [usize; MAX] = [0; MAX];
static mut COLS: [usize; MAX] = [0; MAX];
const WIDTH: u64 = 100000;

/// Each line of the parsed text stands at a place of its own.
fn place(l: usize, c: usize) -> (usize, usize) {
    unsafe { (LINES[l], COLS[l] + c) }
}

/// A statement of the reference.
#[derive(Clone)]
enum Op {
    Space,
    Push,
    Line,
    Indent,
    Unindent,
    Lit(String),
    Quote(String),
    Val(&'static str),
    Open(bool),
    Close,
    OpenEval,
    CloseEval,
    If(&'static str, Vec<Op>, Vec<Op>),
    /// name, list, join, body
    For(&'static str, &'static str, Vec<Op>, Vec<Op>),
    /// on `m`: the arms of 1, 2 and others
    Match([Vec<Op>; 3]),
    /// if let Some(name) = o
    IfLet(&'static str, Vec<Op>),
    /// let name = value
    Let(&'static str, &'static str),
}

#[derive(Clone, Copy)]
enum G {
    /// Up to so many lines further down, anywhere, or in the same line.
    Row(u64),
    /// In the same line.
    Same,
    /// Directly behind.
    Next,
    /// In the same line, with so many spaces.
    Gap(usize),
}

#[derive(Clone, Copy)]
struct P {
    sl: usize,
    sc: usize,
    el: usize,
    ec: usize,
}

/// Writes the quote, and knows where things are.
struct B {
    text: String,
    n: usize,
    l: usize,
    c: usize,
    /// The last character would run into letters or a quote.
    wordy: bool,
    /// The quote has to be refused.
    err: bool,
    eval: bool,
    /// Which of the places where rows can begin are used for that, of those seen so far.
    free: (u64, u64),
    spots: u64,
    /// Whether things in one line stand at any distance, or one space apart.
    gaps: bool,
    /// Whether bodies can be empty or have one part only.
    vary: bool,
    /// Which of the bodies has an interpolated string, of those seen so far.
    string_at: (u64, u64),
}

/// The rows of one quoted body: the rules of the documentation.
struct Rows {
    last: Option<(usize, usize)>,
    row: usize,
    known: Vec<usize>,
    ops: Vec<Op>,
}

fn wordy(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'"' || c == b'\''
}

impl B {
    fn new() -> B {
        unsafe {
            macshim::pm::PLACE = place;
        }
        B { text: String::new(), n: 0, l: 1, c: 1, wordy: false, err: false, eval: false, free: (0, u64::MAX), spots: 0, gaps: true, vary: false, string_at: (0, 0) }
    }

    fn put(&mut self, s: &str, g: G) -> P {
        let g = match g {
            G::Row(m) if self.n > 0 => {
                self.spots += 1;
                if self.free.0 < self.spots && self.spots <= self.free.1 {
                    G::Row(m)
                } else {
                    G::Same
                }
            }
            g => g,
        };
        let clash = self.wordy && wordy(s.as_bytes()[0]);
        let down = match g {
            G::Row(m) if self.n == 0 => m.min(0),
            G::Row(m) => choose(0, m) as usize as u64,
            _ => 0,
        };
        if self.n == 0 {
            self.c = range(1, WIDTH) as usize;
        } else if down > 0 {
            self.l += down as usize;
            self.c = range(1, WIDTH) as usize;
        } else {
            self.c += match g {
                G::Next => 0,
                G::Gap(k) => k,
                _ if self.gaps => range(clash as u64, 1000) as usize,
                _ => 1,
            };
        }
        self.n += 1;
        unsafe {
            LINES[self.n] = self.l;
            COLS[self.n] = self.c;
        }
        let mut p = P { sl: self.l, sc: self.c, el: self.l, ec: self.c };
        for (i, part) in s.split('\n').enumerate() {
            if i > 0 {
                // a token of several lines
                self.n += 1;
                p.el += 1;
                p.ec = 1;
                unsafe {
                    LINES[self.n] = p.el;
                    COLS[self.n] = 1;
                }
            }
            p.ec += part.chars().count();
        }
        self.l = p.el;
        self.text.push_str(s);
        self.text.push('\n');
        self.c = p.ec;
        self.wordy = wordy(s.as_bytes()[s.len() - 1]);
        p
    }

    fn rows(&self) -> Rows {
        Rows { last: None, row: 0, known: Vec::new(), ops: Vec::new() }
    }

    /// The place of something in a body decides what stands before it.
    fn at(&mut self, r: &mut Rows, p: P) {
        if let Some((l, c)) = r.last {
            if l == p.sl {
                if p.sc > c {
                    r.ops.push(Op::Space);
                }
            } else {
                let blank = p.sl - l > 1;
                if p.sc == r.row {
                    r.ops.push(Op::Push);
                } else if p.sc > r.row {
                    r.known.push(r.row);
                    r.ops.push(Op::Indent);
                } else {
                    loop {
                        match r.known.pop() {
                            Some(k) if k == p.sc => {
                                r.ops.push(Op::Unindent);
                                break;
                            }
                            Some(k) if k > p.sc => r.ops.push(Op::Unindent),
                            _ => {
                                self.err = true;
                                break;
                            }
                        }
                    }
                }
                if blank {
                    r.ops.push(Op::Line);
                }
                r.row = p.sc;
            }
        } else {
            r.row = p.sc;
        }
        r.last = Some((p.el, p.ec));
    }

    fn end(&mut self, r: Rows) -> Vec<Op> {
        let mut ops = r.ops;
        for _ in r.known {
            ops.push(Op::Unindent);
        }
        ops
    }

    fn word(&mut self, r: &mut Rows, s: &str, g: G) {
        let p = self.put(s, g);
        self.at(r, p);
        r.ops.push(Op::Lit(s.to_string()));
    }

    fn val(&mut self, r: &mut Rows, name: &'static str, g: G) {
        let mut s = String::from("$");
        s.push_str(name);
        let p = self.put(&s, g);
        self.at(r, p);
        r.ops.push(Op::Val(name));
    }

    /// An element which stands in one line.
    fn simple(&mut self, r: &mut Rows, kind: u64, g: G) {
        let (s, op) = match kind {
            0 => ("aa", Op::Lit("aa".into())),
            1 => (";", Op::Lit(";".into())),
            2 => ("$x", Op::Val("x")),
            3 => ("$(x)", Op::Val("x")),
            4 => ("$(\"l m\")", Op::Lit("l m".into())),
            5 => ("\"s t\"", Op::Quote("s t".into())),
            6 => ("$$", Op::Lit("$".into())),
            7 => ("$[' ']", Op::Space),
            8 => ("$['\\n']", Op::Line),
            9 => ("$['\\r']", Op::Push),
            10 => ("{}", Op::Lit("{}".into())),
            11 => ("42", Op::Lit("42".into())),
            13 => ("'c'", Op::Lit("'c'".into())),
            14 => ("1.5", Op::Lit("1.5".into())),
            15 => ("->", Op::Lit("->".into())),
            16 => ("r\"s\"", Op::Quote("s".into())),
            17 => ("b\"s\"", Op::Lit("b\"s\"".into())),
            18 => ("\"\"", Op::Quote("".into())),
            19 => ("\"s\nt\"", Op::Quote("s\nt".into())),
            20 => ("'c", Op::Lit("'c".into())),
            21 => ("r#for", Op::Lit("r#for".into())),
            _ => ("$(quoted(x))", Op::Quote("X".into())),
        };
        let p = self.put(s, g);
        self.at(r, p);
        r.ops.push(op);
    }

    /// A body between delimiters which belong to it: spaces at its edges count.
    fn edges(&mut self, open: P, word: &str) -> Vec<Op> {
        let mut r = self.rows();
        r.last = Some((open.el, open.ec));
        r.row = open.ec;
        match choose(0, 2) {
            0 => self.word(&mut r, word, G::Same),
            1 => {
                self.word(&mut r, word, G::Same);
                self.val(&mut r, "x", G::Same);
            }
            _ => {}
        }
        self.short_string(&mut r);
        // the closing delimiter
        let p = self.put(")", G::Same);
        if r.last != Some((p.sl, p.sc)) {
            let (_, c) = r.last.unwrap();
            if p.sc > c {
                r.ops.push(Op::Space);
            }
        }
        self.end(r)
    }

    fn body(&mut self, name: &'static str, depth: u64) -> Vec<Op> {
        let mut r = self.rows();
        let (first, last) = if self.vary { (flag(), flag()) } else { (true, true) };
        if first {
            self.word(&mut r, "bb", G::Row(1));
        }
        if depth > 0 {
            self.construct(&mut r, depth - 1);
        }
        self.short_string(&mut r);
        if last {
            self.val(&mut r, name, G::Row(2));
        }
        self.end(r)
    }

    /// An interpolated string in the one body which has it.
    fn short_string(&mut self, r: &mut Rows) {
        if self.string_at.0 > 0 {
            self.string_at.0 -= 1;
            if self.string_at.0 == 0 {
                self.string_at.1 += 1;
                let evals = flag();
                let p = self.put(if evals { "$[str](e$x)" } else { "$[str](e)" }, G::Same);
                self.at(r, p);
                r.ops.push(Op::Open(evals));
                r.ops.push(Op::Lit("e".into()));
                if evals {
                    r.ops.extend([Op::OpenEval, Op::Lit("x".into()), Op::CloseEval]);
                    self.eval = true;
                }
                r.ops.push(Op::Close);
            }
        }
    }

    fn construct(&mut self, r: &mut Rows, depth: u64) {
        let kind = choose(0, 12);
        let mut p = P { sl: 0, sc: 0, el: 0, ec: 0 };
        let op = match kind {
            0 => {
                p = self.put("$(if c {", G::Row(2));
                let a = self.body("x", depth);
                self.put("} else {", G::Same);
                let b = self.body("x", 0);
                self.put("})", G::Row(1));
                vec![Op::If("c", a, b)]
            }
            1 => {
                p = self.put("$(if c =>", G::Row(2));
                let a = self.body("x", depth);
                self.put(")", G::Row(1));
                vec![Op::If("c", a, Vec::new())]
            }
            2 => {
                p = self.put("$(for x in it {", G::Row(2));
                let a = self.body("x", depth);
                self.put("})", G::Row(1));
                vec![Op::For("x", "it", Vec::new(), a)]
            }
            3 => {
                p = self.put("$(for y in it =>", G::Row(2));
                let a = self.body("y", depth);
                self.put(")", G::Row(1));
                vec![Op::For("y", "it", Vec::new(), a)]
            }
            4 => {
                p = self.put("$(for y in it join (", G::Row(1));
                let e = P { sl: self.l, sc: self.c - 1, el: self.l, ec: self.c };
                let j = self.edges(e, ",");
                self.put("=>", G::Same);
                let a = self.body("y", depth);
                self.put(")", G::Row(1));
                vec![Op::For("y", "it", j, a)]
            }
            5 => {
                p = self.put("$(match m {", G::Row(1));
                self.put("1 => {", G::Row(1));
                let a = self.body("x", depth);
                self.put("}", G::Same);
                self.put("2 =>", G::Row(1));
                let b = self.body("x", 0);
                self.put(", _ => (", G::Same);
                let e = P { sl: self.l, sc: self.c - 1, el: self.l, ec: self.c };
                let c = self.edges(e, ";");
                self.put("})", G::Same);
                vec![Op::Match([a, b, c])]
            }
            6 => {
                p = self.put("$(let y = x)", G::Row(2));
                vec![Op::Let("y", "x")]
            }
            7 => {
                p = self.put("$(ref r => r.append(x))", G::Row(2));
                vec![Op::Val("x")]
            }
            8 => {
                p = self.put("$(ref r { r.push(); r.append(x); r.space(); })", G::Row(2));
                vec![Op::Push, Op::Val("x"), Op::Space]
            }
            9 => {
                p = self.put("$(if let Some(y) = o =>", G::Row(2));
                let a = self.body("y", depth);
                self.put(")", G::Row(1));
                vec![Op::IfLet("y", a)]
            }
            11 => {
                // bodies of arms in all forms, the first ones not taken always
                p = self.put("$(match m { 1 if c => {", G::Row(1));
                let a = self.body("x", depth);
                self.put("} 1 =>", G::Same);
                let b = self.body("x", 0);
                self.put(", _ => {", G::Same);
                let k = self.body("x", 0);
                self.put("} })", G::Same);
                vec![Op::Match([vec![Op::If("c", a, b)], k.clone(), k])]
            }
            12 => {
                // conditions which end in a block or a group
                p = self.put("$(if (c) {", G::Row(1));
                let a = self.body("x", depth);
                self.put("} else {", G::Same);
                let b = self.body("x", 0);
                self.put("})", G::Row(1));
                vec![Op::If("c", a, b)]
            }
            _ => {
                // arms with guards and attributes, commas in groups
                p = self.put("$(match m { 1 if c =>", G::Row(1));
                let mut a = self.rows();
                self.word(&mut a, "cc", G::Same);
                self.word(&mut a, "{", G::Same);
                self.word(&mut a, ",", G::Row(1));
                self.val(&mut a, "x", G::Same);
                self.word(&mut a, "}", G::Same);
                let a = self.end(a);
                self.put(", #[allow(unused)] 1 | 2 => (", G::Same);
                let e = P { sl: self.l, sc: self.c - 1, el: self.l, ec: self.c };
                let b = self.edges(e, "bb");
                self.put(", k if c => $x, _ => {}, })", G::Same);
                let k = vec![Op::If("c", vec![Op::Val("x")], Vec::new())];
                let first = vec![Op::If("c", a, b.clone())];
                vec![Op::Match([first, b, k])]
            }
        };
        p.el = self.l;
        p.ec = self.c;
        self.at(r, p);
        r.ops.extend(op);
    }

    /// `$[str](..)`
    fn string(&mut self, r: &mut Rows, n: u64, g: G) {
        let mut p = self.put("$[str](", g);
        let mut ops = Vec::new();
        let mut lit = String::new();
        let mut eval = false;
        let mut close: Vec<char> = Vec::new();
        let broken = flag();
        let at = if broken { choose(0, n) } else { n + 1 };
        // one part of any kind
        let focus = if n > 1 { choose(0, n - 1) } else { 0 };
        for i in 0..n {
            self.str_gap(&mut lit, i == at, i == focus);
            let kind = if i == focus {
                choose(0, 15)
            } else {
                [0, 5, 6, 8][choose(0, 3) as usize]
            };
            match kind {
                9 => self.str_lit(&mut lit, "$[const](\"\")", ""),
                10 => self.str_lit(&mut lit, "$[const](\"a\u{e9}\\\"\\n\")", "a\u{e9}\"\n"),
                11 => self.str_lit(&mut lit, "\"q\"", "\"q\""),
                12 => self.str_lit(&mut lit, "'q'", "'q'"),
                13 => self.str_lit(&mut lit, "1.5", "1.5"),
                14 => self.str_lit(&mut lit, "=>", "=>"),
                15 => {
                    self.str_lit(&mut lit, "[", "[");
                    close.push(']');
                }
                0 => self.str_lit(&mut lit, "ab", "ab"),
                1 => self.str_lit(&mut lit, ",", ","),
                2 => self.str_lit(&mut lit, "$$", "$"),
                3 => self.str_lit(&mut lit, "$[const](\"q  r\")", "q  r"),
                4 => {
                    self.put("$[const](x)", G::Next);
                    flush(&mut ops, &mut lit);
                    ops.push(Op::Val("x"));
                }
                5 => {
                    self.put("$x", G::Next);
                    flush(&mut ops, &mut lit);
                    ops.push(Op::OpenEval);
                    ops.push(Op::Lit("x".into()));
                    ops.push(Op::CloseEval);
                    eval = true;
                }
                6 => {
                    let e = self.put("$(", G::Next);
                    flush(&mut ops, &mut lit);
                    ops.push(Op::OpenEval);
                    let b = self.edges(e, "bb");
                    ops.extend(b);
                    ops.push(Op::CloseEval);
                    eval = true;
                }
                7 => {
                    self.str_lit(&mut lit, "{", "{");
                    close.push('}');
                }
                _ => {
                    self.str_lit(&mut lit, "(", "(");
                    close.push(')');
                }
            }
        }
        while let Some(c) = close.pop() {
            self.str_gap(&mut lit, false, false);
            let s = match c {
                ')' => ")",
                ']' => "]",
                _ => "}",
            };
            self.str_lit(&mut lit, s, s);
        }
        self.str_gap(&mut lit, n == at, n == 0);
        self.put(")", G::Next);
        flush(&mut ops, &mut lit);
        p.el = self.l;
        p.ec = self.c;
        self.at(r, p);
        r.ops.push(Op::Open(eval));
        r.ops.extend(ops);
        r.ops.push(Op::Close);
        self.eval |= eval;
    }

    /// Up to two spaces, in one place a lot, or a line break, which strings cannot have.
    fn str_gap(&mut self, lit: &mut String, broken: bool, wide: bool) {
        if broken {
            self.l += 1;
            self.c = range(1, WIDTH) as usize;
            self.err = true;
        } else {
            let k = match choose(0, 2 + wide as u64) {
                3 => 300,
                k => k,
            };
            self.c += k as usize;
            for _ in 0..k {
                lit.push(' ');
            }
            if k > 0 {
                self.wordy = false;
            }
        }
    }

    fn str_lit(&mut self, lit: &mut String, s: &str, t: &str) {
        assume(!(self.wordy && wordy(s.as_bytes()[0])));
        self.put(s, G::Next);
        lit.push_str(t);
    }
}

fn flush(ops: &mut Vec<Op>, lit: &mut String) {
    if !lit.is_empty() {
        ops.push(Op::Lit(std::mem::take(lit)));
    }
}

fn uses(ops: &[Op], u: &mut [bool; 4]) {
    for op in ops {
        match op {
            Op::If(_, a, b) => {
                u[0] = true;
                uses(a, u);
                uses(b, u);
            }
            Op::Match(arms) => {
                u[1] = true;
                arms.iter().for_each(|a| uses(a, u));
            }
            Op::For(_, _, j, b) => {
                u[2] = true;
                uses(j, u);
                uses(b, u);
            }
            Op::IfLet(_, a) => {
                u[3] = true;
                uses(a, u);
            }
            _ => {}
        }
    }
}

struct Env {
    vars: Vec<(&'static str, String)>,
    c: bool,
    m: u64,
    it: Vec<String>,
    o: Option<String>,
}

impl Env {
    /// Any values of what is used.
    fn any(list: u64, ops: &[Op]) -> Env {
        let mut e = Env::fixed();
        let mut u = [false; 4];
        uses(ops, &mut u);
        if u[0] {
            e.c = choose(0, 1) == 1;
        }
        if u[1] {
            e.m = choose(1, 3);
        }
        if u[2] {
            e.it = (0..choose(0, list)).map(|i| ["1", "2", "3"][i as usize].to_string()).collect();
        }
        if u[3] && choose(0, 1) == 1 {
            e.o = Some("O".to_string());
        }
        e
    }
    fn fixed() -> Env {
        Env { vars: vec![("x", "X".to_string())], c: true, m: 1, it: vec!["1".into(), "2".into()], o: None }
    }
    fn get(&self, n: &str) -> String {
        self.vars.iter().rev().find(|v| v.0 == n).map(|v| v.1.clone()).unwrap_or_default()
    }
    fn mini(&self) -> Mini {
        let mut m = Mini::new();
        m.env.push(("x".into(), V::Str("X".into())));
        m.env.push(("c".into(), V::Bool(self.c)));
        m.env.push(("m".into(), V::Num(self.m)));
        m.env.push(("it".into(), V::List(self.it.iter().map(|s| V::Str(s.clone())).collect())));
        m.env.push(("o".into(), V::Opt(self.o.as_ref().map(|s| Box::new(V::Str(s.clone()))))));
        m.env.push(("out".into(), V::Toks));
        m
    }

    fn exec(&mut self, ops: &[Op], t: &mut Tokens<JavaScript>) {
        for op in ops {
            match op {
                Op::Space => t.space(),
                Op::Push => t.push(),
                Op::Line => t.line(),
                Op::Indent => t.indent(),
                Op::Unindent => t.unindent(),
                Op::Lit(s) => t.append(ItemStr::from(s.clone())),
                Op::Quote(s) => t.append(quoted(s.clone())),
                Op::Val(n) => {
                    let s = self.get(n);
                    t.append(ItemStr::from(s));
                }
                Op::Open(e) => t.append(Item::OpenQuote(*e)),
                Op::Close => t.append(Item::CloseQuote),
                Op::OpenEval => t.append(Item::OpenEval),
                Op::CloseEval => t.append(Item::CloseEval),
                Op::If(_, a, b) => {
                    let n = self.vars.len();
                    let ops = if self.c { a } else { b };
                    self.exec(ops, t);
                    self.vars.truncate(n);
                }
                Op::For(name, _, join, body) => {
                    let items = self.it.clone();
                    let k = items.len();
                    for (i, v) in items.into_iter().enumerate() {
                        let n = self.vars.len();
                        self.vars.push((*name, v));
                        self.exec(body, t);
                        if i + 1 < k {
                            self.exec(join, t);
                        }
                        self.vars.truncate(n);
                    }
                }
                Op::Match(arms) => {
                    let n = self.vars.len();
                    let k = (self.m - 1) as usize;
                    self.exec(&arms[k.min(2)], t);
                    self.vars.truncate(n);
                }
                Op::IfLet(name, a) => {
                    if let Some(v) = self.o.clone() {
                        let n = self.vars.len();
                        self.vars.push((*name, v));
                        self.exec(a, t);
                        self.vars.truncate(n);
                    }
                }
                Op::Let(name, of) => {
                    let v = self.get(of);
                    self.vars.push((*name, v));
                }
            }
        }
    }
}

fn refused(t: &TokenStream) -> bool {
    t.clone().into_iter().any(|t| matches!(t, TokenTree::Ident(i) if i == "compile_error"))
}

/// What the macro `which` generates for the quote does what the reference says.
fn compare(b: B, ops: Vec<Op>, mut env: Env, which: u64) {
    let text: TokenStream = match b.text.parse() {
        Ok(t) => t,
        Err(_) => {
            // this is no Rust source
            assume(false);
            return;
        }
    };
    if b.err {
        // every order of columns which leads to a refusal, in few columns: its message has numbers
        for i in 1..=b.n {
            assume(unsafe { COLS[i] } <= 9);
        }
    }
    let code = match which {
        0 => macshim::quote(text),
        1 => macshim::quote_in(text),
        _ => macshim::quote_fn(text),
    };
    if refused(&code) {
        if !b.err {
            fail(4);
        }
        reach(2);
        return;
    }
    if b.err {
        fail(3);
        return;
    }
    let mut mini = env.mini();
    mini.toks.append("<");
    if let Err(what) = mini.run(code) {
        out_s(what.0);
        unsupported();
    }
    let mut want = Tokens::<JavaScript>::new();
    want.append("<");
    env.exec(&ops, &mut want);
    check(mini.eval_checked == b.eval, 5);
    for t in [&mut mini.toks, &mut want] {
        t.append(">");
        t.push();
        t.append("z");
    }
    let (g, w) = (mini.toks.to_string(), want.to_string());
    match (g, w) {
        (Ok(g), Ok(w)) => {
            out_s(&g);
            if g != w {
                out_s(" | ");
                out_s(&w);
            }
            check(g == w, 1);
        }
        _ => fail(2),
    }
    reach(1);
}

crate::harnesses! {
    // params: atoms, kinds of the one which is no word
    fn h_rows() {
        let n = param(0);
        let mut b = B::new();
        let mut r = b.rows();
        let focus = choose(0, n - 1);
        let kind = choose(0, param(1) - 1);
        for i in 0..n {
            let k = if i == focus { kind } else { 0 };
            b.simple(&mut r, k, G::Row(2));
        }
        let ops = b.end(r);
        compare(b, ops, Env::fixed(), 0);
    }

    // params: rows. One word per row, and nothing else
    fn h_rows_deep() {
        let n = param(0);
        let mut b = B::new();
        let mut r = b.rows();
        // above which row there are empty lines, if any
        let empty = choose(0, n - 1);
        for i in 0..n {
            if i > 0 {
                b.l += if i == empty { range(2, 70000) as usize } else { 1 };
                b.wordy = false;
                b.c = range(1, WIDTH) as usize;
                b.word(&mut r, "aa", G::Next);
            } else {
                b.word(&mut r, "aa", G::Row(0));
            }
        }
        let ops = b.end(r);
        compare(b, ops, Env::fixed(), 0);
    }

    // params: atoms. Groups in rows
    fn h_rows_groups() {
        let n = param(0);
        let mut b = B::new();
        let mut r = b.rows();
        let mut open: Vec<&str> = Vec::new();
        for i in 0..n {
            match choose(0, 3) {
                0 => b.word(&mut r, "aa", G::Row(1)),
                1 => {
                    assume(open.len() as u64 + i + 1 < n);
                    open.push(")");
                    b.word(&mut r, "(", G::Row(1));
                }
                2 => {
                    assume(open.len() as u64 + i + 1 < n);
                    open.push("]");
                    b.word(&mut r, "[", G::Row(1));
                }
                _ => match open.pop() {
                    Some(s) => b.word(&mut r, s, G::Row(1)),
                    None => assume(false),
                },
            }
        }
        assume(open.is_empty());
        let ops = b.end(r);
        compare(b, ops, Env::fixed(), 0);
    }

    // params: longest list, depth of constructs, how many neighbouring places can begin rows, whether bodies vary,
    // how many places are tried for an interpolated string in a body
    fn h_flow() {
        let mut b = B::new();
        let n = param(2);
        b.free = (0, 0);
        if n > 0 {
            let k = choose(0, 7);
            b.free = (k, k + n);
            b.gaps = false;
        }
        if param(3) == 1 {
            b.gaps = false;
            b.vary = true;
        }
        if param(4) > 0 {
            b.gaps = false;
            b.string_at.0 = choose(1, param(4));
        }
        let mut r = b.rows();
        b.word(&mut r, "aa", G::Row(0));
        b.construct(&mut r, param(1));
        assume(b.string_at.1 == 1 || param(4) == 0);
        b.val(&mut r, "x", G::Row(1));
        if n > 0 {
            assume(b.free.0 + n <= b.spots.max(n));
        }
        let ops = b.end(r);
        let env = Env::any(param(0), &ops);
        compare(b, ops, env, 0);
    }

    // the other macros
    fn h_wrappers() {
        let mut b = B::new();
        let which = choose(0, 2);
        if which == 1 {
            b.put("out =>", G::Row(0));
        }
        let mut r = b.rows();
        let s = choose(0, 1);
        b.word(&mut r, "aa", G::Row(1));
        if s == 1 {
            b.string(&mut r, 1, G::Row(1));
        } else {
            b.val(&mut r, "x", G::Row(2));
            b.word(&mut r, "bb", G::Row(2));
        }
        let ops = b.end(r);
        compare(b, ops, Env::fixed(), which);
    }

    // params: parts, something around it
    fn h_interpolated() {
        let mut b = B::new();
        let mut r = b.rows();
        let around = param(1) == 1;
        if around {
            b.word(&mut r, "aa", G::Row(0));
        }
        b.string(&mut r, param(0), if around { G::Row(1) } else { G::Row(0) });
        if around {
            b.word(&mut r, "bb", G::Row(1));
        }
        let ops = b.end(r);
        compare(b, ops, Env::fixed(), 0);
    }
}
