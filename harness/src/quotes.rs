//! Quotes, interpolation and nested quotes in arbitrary streams, against a recursive reference.
use crate::lang::*;
use crate::model::*;
use crate::sx::*;
use genco::tokens::Item;

const NAMES: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
const IMPS: [&str; 12] = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"];

const LIT: u64 = 0;
const OPEN: u64 = 1;
const CLOSE: u64 = 2;
const EVAL: u64 = 3;
const END: u64 = 4;
const SPACE: u64 = 5;
const PUSH: u64 = 6;
const OPENE: u64 = 7;
const ITEM: u64 = 8;
const EMPTY: u64 = 9;
const LINE: u64 = 10;
const INDENT: u64 = 11;

fn put(k: u64, i: usize, t: &mut Tok) {
    put_as(k, i, t, &NAMES)
}

fn put_as(k: u64, i: usize, t: &mut Tok, names: &[&'static str]) {
    match k {
        LIT => t.append(names[i]),
        OPEN => t.append(Item::OpenQuote(false)),
        CLOSE => t.append(Item::CloseQuote),
        EVAL => t.append(Item::OpenEval),
        END => t.append(Item::CloseEval),
        SPACE => t.space(),
        PUSH => t.push(),
        OPENE => t.append(Item::OpenQuote(true)),
        ITEM => t.append(Import((i % IMPS.len()) as u8)),
        LINE => t.line(),
        INDENT => t.indent(),
        _ => t.append(""),
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Until {
    Top,
    Quote,
    Eval,
}

/// What comes of a stream.
#[derive(Clone, Copy, PartialEq, Eq)]
enum R {
    Done,
    /// ended with something open
    Open,
    /// a closer without its opener, or something which is not allowed where it is
    Bad,
}

/// Text which is quoted: every character is marked.
fn quoted(l: &mut Layout, s: &[u8]) {
    for b in s {
        l.text("\\");
        l.text(match core::str::from_utf8(core::slice::from_ref(b)) {
            Ok(s) => s,
            Err(_) => "?",
        });
    }
}

struct Ref<'a> {
    v: &'a [u64],
    i: usize,
    names: &'a [&'a str],
}

impl Ref<'_> {
    /// A simple item; returns false if it is none.
    fn plain(&mut self, l: &mut Layout, k: u64) -> bool {
        match k {
            SPACE => l.op(Op::Space),
            PUSH => l.op(Op::Push),
            LINE => l.op(Op::Line),
            INDENT => l.op(Op::Indent(1)),
            EMPTY => l.op(Op::Nothing),
            ITEM => l.op(Op::Lit(IMPS[self.i % IMPS.len()])),
            _ => return false,
        }
        true
    }
    fn body(&mut self, l: &mut Layout, until: Until) -> R {
        while self.i < self.v.len() {
            let k = self.v[self.i];
            if !self.plain(l, k) {
                match k {
                    LIT => l.text(self.names[self.i]),
                    OPEN | OPENE => {
                        self.i += 1;
                        let r = self.quote(l, k == OPENE);
                        if r != R::Done {
                            return r;
                        }
                        continue;
                    }
                    CLOSE if until == Until::Quote => return R::Done,
                    END if until == Until::Eval => return R::Done,
                    _ => return R::Bad,
                }
            }
            self.i += 1;
        }
        if until == Until::Top {
            R::Done
        } else {
            R::Open
        }
    }
    /// Behind the opening quote.
    fn quote(&mut self, l: &mut Layout, e: bool) -> R {
        l.text(if e { "<<" } else { "<" });
        while self.i < self.v.len() {
            let k = self.v[self.i];
            if !self.plain(l, k) {
                match k {
                    LIT => {
                        quoted(l, self.names[self.i].as_bytes());
                    }
                    OPEN => {
                        // the interior literal is laid out by itself, then quoted as text
                        self.i += 1;
                        let mut n = Layout::new(b"    ", "\n");
                        n.text("<");
                        let r = self.body(&mut n, Until::Quote);
                        if r != R::Done {
                            return r;
                        }
                        n.text(">");
                        quoted(l, &n.out);
                    }
                    CLOSE => {
                        self.i += 1;
                        l.text(if e { ">>" } else { ">" });
                        return R::Done;
                    }
                    EVAL => {
                        l.text("{");
                        self.i += 1;
                        let r = self.body(l, Until::Eval);
                        if r != R::Done {
                            return r;
                        }
                        l.text("}");
                    }
                    _ => return R::Bad,
                }
            }
            self.i += 1;
        }
        R::Open
    }
}

fn judge(v: &[u64], t: &Tok) {
    judge_as(v, t, &NAMES)
}

fn judge_as(v: &[u64], t: &Tok, names: &[&str]) {
    let mut l = Layout::new(b"    ", "\n");
    let mut r = Ref { v, i: 0, names };
    let what = r.body(&mut l, Until::Top);
    let o = t.to_string();
    match what {
        R::Done => match o {
            Ok(o) => {
                out_s(&o);
                check(o.as_bytes() == &l.out[..], 1);
                reach(1);
            }
            Err(_) => fail(2),
        },
        R::Bad => {
            check(o.is_err(), 3);
            reach(2);
        }
        R::Open => reach(3),
    }
}

harnesses! {
    // Any stream. params: 0 = items, 1 = highest kind
    fn h_quotes() {
        let n = param(0) as usize;
        let mut t = Tok::new();
        let mut v = Vec::new();
        let mut i = 0;
        while i < n {
            let k = choose(0, param(1));
            put(k, i, &mut t);
            v.push(k);
            i += 1;
        }
        judge(&v, &t);
    }

    // Longer streams which are well nested (or would be, were they not cut off).
    fn h_quotes_nested() {
        let n = param(0) as usize;
        let mut t = Tok::new();
        let mut v = Vec::new();
        // 0 body at the top, 1 in a quote, 2 in an interior quote, 3 in an evaluation
        let mut stack: Vec<u8> = Vec::new();
        stack.push(0);
        let mut i = 0;
        while i < n {
            let top = stack[stack.len() - 1];
            let left = n - i;
            let depth = stack.len() - 1;
            assume(depth <= left);
            let k = if depth == left {
                if top == 3 { END } else { CLOSE }
            } else {
                match top {
                    0 => match choose(0, 2) { 0 => LIT, 1 => OPEN, _ => OPENE },
                    1 => match choose(0, 4) { 0 => LIT, 1 => OPEN, 2 => CLOSE, 3 => EVAL, _ => SPACE },
                    2 => match choose(0, 4) { 0 => LIT, 1 => OPEN, 2 => CLOSE, 3 => OPENE, _ => PUSH },
                    _ => match choose(0, 3) { 0 => LIT, 1 => OPEN, 2 => END, _ => ITEM },
                }
            };
            match k {
                OPEN | OPENE => stack.push(if top == 1 { 2 } else { 1 }),
                EVAL => stack.push(3),
                CLOSE | END => { stack.pop(); }
                _ => (),
            }
            put(k, i, &mut t);
            v.push(k);
            i += 1;
        }
        judge(&v, &t);
    }

    // Whitespace in quotes, interior quotes and evaluations, at several levels of indentation.
    // params: 0 = items
    fn h_quotes_ws() {
        let n = param(0) as usize;
        let mut v: Vec<u64> = Vec::new();
        match choose(0, 3) {
            0 => (),
            1 => v.push(INDENT),
            2 => v.extend_from_slice(&[LIT, INDENT]),
            _ => v.extend_from_slice(&[LIT, INDENT, LIT, SPACE]),
        }
        v.push(if choose(0, 1) == 1 { OPENE } else { OPEN });
        let mut stack: Vec<u8> = Vec::new();
        stack.push(1);
        let mut i = 0;
        while i < n {
            let top = stack[stack.len() - 1];
            let left = n - i;
            assume(stack.len() <= left);
            let k = if stack.len() == left {
                if top == 3 { END } else { CLOSE }
            } else {
                match choose(0, 4) {
                    0 => LIT,
                    1 => SPACE,
                    2 => match choose(0, 1) { 0 => PUSH, _ => INDENT },
                    3 => if top == 1 && choose(0, 1) == 1 { EVAL } else { OPEN },
                    _ => {
                        assume(stack.len() > 1);
                        if top == 3 { END } else { CLOSE }
                    }
                }
            };
            match k {
                OPEN => stack.push(if top == 1 { 2 } else { 1 }),
                EVAL => stack.push(3),
                CLOSE | END => { stack.pop(); }
                _ => (),
            }
            v.push(k);
            i += 1;
        }
        v.push(LIT);
        let mut t = Tok::new();
        for (i, k) in v.iter().enumerate() {
            put_as(*k, i, &mut t, &MANY);
        }
        judge_as(&v, &t, &MANY);
    }

    // Deep nesting: a chain of quotes and evaluations, text on every level, all closed again.
    // params: 0 = levels
    fn h_quotes_deep() {
        let n = param(0) as usize;
        let mut v = Vec::new();
        // 0 body at the top, 1 in a quote, 2 in an interior quote, 3 in an evaluation
        let mut stack: Vec<u8> = Vec::new();
        let mut top = 0;
        let before = choose(0, 1) == 1;
        for _ in 0..n {
            if before {
                v.push(LIT);
            }
            let (k, to) = match top {
                0 | 2 | 3 => if choose(0, 1) == 1 { (OPENE, 1) } else { (OPEN, 1) },
                _ => if choose(0, 1) == 1 { (EVAL, 3) } else { (OPEN, 2) },
            };
            v.push(k);
            stack.push(top);
            top = to;
        }
        v.push(LIT);
        for _ in 0..n {
            v.push(if top == 3 { END } else { CLOSE });
            top = stack.pop().unwrap_or(0);
            if !before {
                v.push(LIT);
            }
        }
        let mut t = Tok::new();
        for (i, k) in v.iter().enumerate() {
            put_as(*k, i, &mut t, &MANY);
        }
        judge_as(&v, &t, &MANY);
    }

    // Several texts and interior quotes in one quote, short and long.
    // params: 0 = parts
    fn h_quotes_long() {
        let mut v = Vec::new();
        let mut names: Vec<&'static str> = Vec::new();
        let mut put = |k: u64, s: &'static str| {
            v.push(k);
            names.push(s);
        };
        put(OPEN, "");
        for _ in 0..param(0) {
            let s = &LONG[..LENS[choose(0, LENS.len() as u64 - 1) as usize]];
            match choose(0, 2) {
                0 => put(LIT, s),
                1 => {
                    put(OPEN, "");
                    put(LIT, s);
                    put(CLOSE, "");
                }
                _ => {
                    put(EVAL, "");
                    put(OPEN, "");
                    put(LIT, s);
                    put(CLOSE, "");
                    put(END, "");
                }
            }
        }
        put(CLOSE, "");
        let mut t = Tok::new();
        for (i, k) in v.iter().enumerate() {
            put_as(*k, i, &mut t, &names);
        }
        judge_as(&v, &t, &names);
    }
}

const LENS: [usize; 7] = [0, 1, 16, 33, 64, 129, 257];
const LONG: &str = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz";
const MANY: [&str; 40] = [
    "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z",
    "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "-", "+", "*", "=",
];
