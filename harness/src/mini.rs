//! Evaluates what the quoting macros generate: the small part of Rust which they use.
use genco::lang::JavaScript;
use genco::tokens::{Item, ItemStr};
use genco::tokens::quoted;
use genco::Tokens;
use proc_macro2::{Delimiter, TokenStream, TokenTree};

#[derive(Clone)]
pub enum V {
    Unit,
    Toks,
    Bool(bool),
    Num(u64),
    Str(String),
    Quoted(String),
    Item(Item<JavaScript>),
    List(Vec<V>),
    Iter(usize),
    Opt(Option<Box<V>>),
    Tuple(Vec<V>),
}

pub struct Mini {
    pub env: Vec<(String, V)>,
    iters: Vec<(Vec<V>, usize)>,
    pub toks: Tokens<JavaScript>,
    /// The check that the language supports evaluation was generated.
    pub eval_checked: bool,
    flow: Flow,
}

#[derive(Clone, Copy, PartialEq)]
enum Flow {
    On,
    Break,
    Continue,
}

/// Something in the generated code which is not understood here.
pub struct Unknown(pub &'static str);
type R<T> = Result<T, Unknown>;

fn ident(t: Option<&TokenTree>, s: &str) -> bool {
    matches!(t, Some(TokenTree::Ident(i)) if i == s)
}
fn punct(t: Option<&TokenTree>, c: char) -> bool {
    matches!(t, Some(TokenTree::Punct(p)) if p.as_char() == c)
}
fn group(t: Option<&TokenTree>, d: Delimiter) -> Option<Vec<TokenTree>> {
    match t {
        Some(TokenTree::Group(g)) if g.delimiter() == d => Some(g.stream().into_iter().collect()),
        _ => None,
    }
}

struct C<'a> {
    t: &'a [TokenTree],
    i: usize,
}

impl<'a> C<'a> {
    fn new(t: &'a [TokenTree]) -> Self {
        C { t, i: 0 }
    }
    fn peek(&self) -> Option<&'a TokenTree> {
        self.t.get(self.i)
    }
    fn peek_at(&self, k: usize) -> Option<&'a TokenTree> {
        self.t.get(self.i + k)
    }
    fn end(&self) -> bool {
        self.i >= self.t.len()
    }
    fn eat_ident(&mut self, s: &str) -> bool {
        let r = ident(self.peek(), s);
        self.i += r as usize;
        r
    }
    fn eat(&mut self, c: char) -> bool {
        let r = punct(self.peek(), c);
        self.i += r as usize;
        r
    }
    fn eat2(&mut self, a: char, b: char) -> bool {
        let r = punct(self.peek(), a) && punct(self.peek_at(1), b);
        self.i += 2 * r as usize;
        r
    }
    /// Everything up to (not including) the first token for which `f` holds.
    fn until(&mut self, f: impl Fn(&C<'a>) -> bool) -> &'a [TokenTree] {
        let s = self.i;
        while !self.end() && !f(self) {
            self.i += 1;
        }
        &self.t[s..self.i]
    }
    fn brace(&mut self) -> R<Vec<TokenTree>> {
        match group(self.peek(), Delimiter::Brace) {
            Some(g) => {
                self.i += 1;
                Ok(g)
            }
            None => Err(Unknown("block")),
        }
    }
}

fn is_brace(c: &C<'_>) -> bool {
    matches!(c.peek(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Brace)
}

impl Mini {
    pub fn new() -> Self {
        Mini { env: Vec::new(), iters: Vec::new(), toks: Tokens::new(), eval_checked: false, flow: Flow::On }
    }

    pub fn run(&mut self, s: TokenStream) -> R<V> {
        let t: Vec<TokenTree> = s.into_iter().collect();
        self.block(&t)
    }

    fn block(&mut self, t: &[TokenTree]) -> R<V> {
        let n = self.env.len();
        let mut c = C::new(t);
        let mut last = V::Unit;
        while !c.end() && self.flow == Flow::On {
            last = self.stmt(&mut c)?;
        }
        self.env.truncate(n);
        Ok(last)
    }

    /// The body of a loop; is there another round?
    fn round(&mut self, t: &[TokenTree]) -> R<bool> {
        self.block(t)?;
        let f = self.flow;
        self.flow = Flow::On;
        Ok(f != Flow::Break)
    }

    fn stmt(&mut self, c: &mut C<'_>) -> R<V> {
        // attributes
        while punct(c.peek(), '#') {
            c.i += 2;
        }
        if c.eat(';') {
            return Ok(V::Unit);
        }
        if c.eat_ident("let") {
            let pat = c.until(|c| punct(c.peek(), '=') || punct(c.peek(), ':'));
            if c.eat(':') {
                c.until(|c| punct(c.peek(), '='));
            }
            if !c.eat('=') {
                return Err(Unknown("let"));
            }
            let e = c.until(|c| punct(c.peek(), ';'));
            c.eat(';');
            // let .. else
            let mut k = C::new(e);
            let init = k.until(|c| ident(c.peek(), "else"));
            let v = self.expr(init)?;
            if self.flow != Flow::On {
                return Ok(V::Unit);
            }
            if !self.bind(pat, &v)? {
                if !k.eat_ident("else") {
                    return Err(Unknown("refutable let"));
                }
                let b = k.brace()?;
                self.block(&b)?;
            }
            return Ok(V::Unit);
        }
        if c.eat_ident("for") {
            let pat = c.until(|c| ident(c.peek(), "in"));
            c.eat_ident("in");
            let e = c.until(is_brace);
            let body = c.brace()?;
            let v = self.expr(e)?;
            let it = self.iter(v)?;
            while let Some(v) = self.next(it) {
                let n = self.env.len();
                if !self.bind(pat, &v)? {
                    return Err(Unknown("refutable for"));
                }
                let more = self.round(&body)?;
                self.env.truncate(n);
                if !more {
                    break;
                }
            }
            return Ok(V::Unit);
        }
        if c.eat_ident("while") {
            let cond = c.until(is_brace);
            let body = c.brace()?;
            loop {
                let n = self.env.len();
                let more = self.cond(cond)? && self.round(&body)?;
                self.env.truncate(n);
                if !more {
                    break;
                }
            }
            return Ok(V::Unit);
        }
        if c.eat_ident("loop") {
            let body = c.brace()?;
            while self.round(&body)? {}
            return Ok(V::Unit);
        }
        if c.eat_ident("break") {
            c.eat(';');
            self.flow = Flow::Break;
            return Ok(V::Unit);
        }
        if c.eat_ident("continue") {
            c.eat(';');
            self.flow = Flow::Continue;
            return Ok(V::Unit);
        }
        // a counter
        if let (Some(TokenTree::Ident(i)), true) = (c.peek(), punct(c.peek_at(2), '=') && (punct(c.peek_at(1), '+') || punct(c.peek_at(1), '-'))) {
            let plus = punct(c.peek_at(1), '+');
            c.i += 3;
            let e = c.until(|c| punct(c.peek(), ';'));
            c.eat(';');
            let v = self.expr(e)?;
            let name = i.to_string();
            match (self.env.iter_mut().rev().find(|e| e.0 == name).map(|e| &mut e.1), v) {
                (Some(V::Num(n)), V::Num(k)) => *n = if plus { *n + k } else { *n - k },
                _ => return Err(Unknown("counter")),
            }
            return Ok(V::Unit);
        }
        // an assignment
        if let (Some(TokenTree::Ident(i)), true) = (c.peek(), punct(c.peek_at(1), '=') && !punct(c.peek_at(2), '=')) {
            c.i += 2;
            let e = c.until(|c| punct(c.peek(), ';'));
            c.eat(';');
            let v = self.expr(e)?;
            let name = i.to_string();
            match self.env.iter_mut().rev().find(|e| e.0 == name) {
                Some(e) => e.1 = v,
                None => return Err(Unknown("assignment")),
            }
            return Ok(V::Unit);
        }
        if c.eat_ident("if") {
            return self.if_(c);
        }
        if c.eat_ident("match") {
            let e = c.until(is_brace);
            let arms = c.brace()?;
            let v = self.expr(e)?;
            return self.match_(v, &arms);
        }
        if is_brace(c) {
            let b = c.brace()?;
            return self.block(&b);
        }
        let e = c.until(|c| punct(c.peek(), ';'));
        let end = !c.eat(';');
        let v = self.expr(e)?;
        Ok(if end { v } else { V::Unit })
    }

    fn if_(&mut self, c: &mut C<'_>) -> R<V> {
        let cond = c.until(is_brace);
        let then = c.brace()?;
        let n = self.env.len();
        let b = self.cond(cond)?;
        let mut v = V::Unit;
        if b {
            v = self.block(&then)?;
        }
        self.env.truncate(n);
        if c.eat_ident("else") {
            if c.eat_ident("if") {
                if b {
                    c.until(is_brace);
                    c.brace()?;
                    while c.eat_ident("else") {
                        c.until(is_brace);
                        c.brace()?;
                    }
                } else {
                    v = self.if_(c)?;
                }
            } else {
                let e = c.brace()?;
                if !b {
                    v = self.block(&e)?;
                }
            }
        }
        Ok(v)
    }

    fn match_(&mut self, v: V, arms: &[TokenTree]) -> R<V> {
        let mut c = C::new(arms);
        while !c.end() {
            while punct(c.peek(), '#') {
                c.i += 2;
            }
            c.eat('|');
            let pat = c.until(|c| (punct(c.peek(), '=') && punct(c.peek_at(1), '>')) || ident(c.peek(), "if"));
            let guard = if c.eat_ident("if") { Some(c.until(|c| punct(c.peek(), '=') && punct(c.peek_at(1), '>'))) } else { None };
            if !c.eat2('=', '>') {
                return Err(Unknown("arm"));
            }
            let n = self.env.len();
            let mut take = self.bind(pat, &v)?;
            if let (true, Some(g)) = (take, guard) {
                take = self.cond(g)?;
            }
            let r;
            if is_brace(&c) {
                let b = c.brace()?;
                r = if take { Some(self.block(&b)?) } else { None };
            } else {
                let e = c.until(|c| punct(c.peek(), ','));
                r = if take { Some(self.expr(e)?) } else { None };
            }
            self.env.truncate(n);
            if let Some(r) = r {
                return Ok(r);
            }
            c.eat(',');
        }
        Err(Unknown("no arm matches"))
    }

    fn cond(&mut self, t: &[TokenTree]) -> R<bool> {
        let mut c = C::new(t);
        if c.eat_ident("let") {
            let pat = c.until(|c| punct(c.peek(), '='));
            c.eat('=');
            let v = self.expr(&t[c.i..])?;
            return self.bind(pat, &v);
        }
        match self.expr(t)? {
            V::Bool(b) => Ok(b),
            _ => Err(Unknown("condition")),
        }
    }

    fn bind(&mut self, pat: &[TokenTree], v: &V) -> R<bool> {
        // alternatives
        let mut c = C::new(pat);
        let first = c.until(|c| punct(c.peek(), '|'));
        if c.eat('|') {
            return Ok(self.bind(first, v)? || self.bind(&pat[c.i..], v)?);
        }
        let mut c = C::new(first);
        while c.eat('&') || c.eat_ident("mut") || c.eat_ident("ref") {}
        match c.peek() {
            Some(TokenTree::Ident(i)) if i == "Some" => {
                let inner = group(c.peek_at(1), Delimiter::Parenthesis).ok_or(Unknown("pattern"))?;
                match v {
                    V::Opt(Some(v)) => self.bind(&inner, v),
                    V::Opt(None) => Ok(false),
                    _ => Err(Unknown("Some")),
                }
            }
            Some(TokenTree::Ident(i)) if i == "None" => match v {
                V::Opt(o) => Ok(o.is_none()),
                _ => Err(Unknown("None")),
            },
            Some(TokenTree::Ident(i)) if i == "_" => Ok(true),
            Some(TokenTree::Ident(i)) if i == "true" || i == "false" => match v {
                V::Bool(b) => Ok(*b == (i == "true")),
                _ => Err(Unknown("bool")),
            },
            Some(TokenTree::Punct(p)) if p.as_char() == '_' => Ok(true),
            Some(TokenTree::Ident(i)) => {
                self.env.push((i.to_string(), v.clone()));
                Ok(true)
            }
            Some(TokenTree::Literal(l)) => match v {
                V::Num(n) => Ok(l.to_string().parse::<u64>().map_err(|_| Unknown("number"))? == *n),
                V::Str(s) => Ok(lit(&l.to_string())? == *s),
                _ => Err(Unknown("literal pattern")),
            },
            Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                let mut c = C::new(&inner);
                let V::Tuple(vs) = v else { return Err(Unknown("tuple")) };
                for v in vs {
                    let p = c.until(|c| punct(c.peek(), ','));
                    c.eat(',');
                    if !self.bind(p, v)? {
                        return Ok(false);
                    }
                }
                Ok(true)
            }
            _ => Err(Unknown("pattern")),
        }
    }

    fn iter(&mut self, v: V) -> R<usize> {
        match v {
            V::Iter(k) => Ok(k),
            V::List(l) => {
                self.iters.push((l, 0));
                Ok(self.iters.len() - 1)
            }
            _ => Err(Unknown("iterator")),
        }
    }

    fn next(&mut self, k: usize) -> Option<V> {
        let (l, i) = &mut self.iters[k];
        let v = l.get(*i).cloned();
        *i += v.is_some() as usize;
        v
    }

    fn args(&mut self, t: &[TokenTree]) -> R<Vec<V>> {
        let mut c = C::new(t);
        let mut out = Vec::new();
        while !c.end() {
            let e = c.until(|c| punct(c.peek(), ','));
            c.eat(',');
            out.push(self.expr(e)?);
        }
        Ok(out)
    }

    fn bool(&mut self, t: &[TokenTree]) -> R<bool> {
        match self.expr(t)? {
            V::Bool(b) => Ok(b),
            _ => Err(Unknown("bool")),
        }
    }

    fn expr(&mut self, t: &[TokenTree]) -> R<V> {
        // binary operators, from the loosest
        if !ident(t.first(), "if") && !ident(t.first(), "match") && !ident(t.first(), "move") && !punct(t.first(), '|') {
            for op in ["||", "&&", "==", "!="] {
                let (a, b) = (op.as_bytes()[0] as char, op.as_bytes()[1] as char);
                for i in 1..t.len().saturating_sub(1) {
                    if punct(t.get(i), a) && punct(t.get(i + 1), b) {
                        let (l, r) = (&t[..i], &t[i + 2..]);
                        return Ok(V::Bool(match op {
                            "||" => self.bool(l)? || self.bool(r)?,
                            "&&" => self.bool(l)? && self.bool(r)?,
                            _ => {
                                let eq = match (self.expr(l)?, self.expr(r)?) {
                                    (V::Bool(x), V::Bool(y)) => x == y,
                                    (V::Num(x), V::Num(y)) => x == y,
                                    _ => return Err(Unknown("comparison")),
                                };
                                eq == (op == "==")
                            }
                        }));
                    }
                }
            }
        }
        if !ident(t.first(), "if") && !ident(t.first(), "match") && !ident(t.first(), "move") && !punct(t.first(), '|') {
            // comparisons and sums of numbers; generic arguments are left out
            for ops in [&['<', '>'][..], &['+', '-'][..]] {
                let mut deep = 0;
                for i in 1..t.len() {
                    if punct(t.get(i), '<') && punct(t.get(i - 1), ':') {
                        deep += 1;
                        continue;
                    }
                    if deep > 0 {
                        deep -= punct(t.get(i), '>') as usize;
                        continue;
                    }
                    let Some(op) = ops.iter().copied().find(|o| punct(t.get(i), *o)) else { continue };
                    let eq = matches!(op, '<' | '>') && punct(t.get(i + 1), '=');
                    return Ok(match (self.expr(&t[..i])?, op, self.expr(&t[i + 1 + eq as usize..])?) {
                        (V::Num(a), '<', V::Num(b)) => V::Bool(a < b || (eq && a == b)),
                        (V::Num(a), '>', V::Num(b)) => V::Bool(a > b || (eq && a == b)),
                        (V::Num(a), '+', V::Num(b)) => V::Num(a + b),
                        (V::Num(a), '-', V::Num(b)) => V::Num(a - b),
                        _ => return Err(Unknown("operands")),
                    });
                }
            }
        }
        if ident(t.first(), "break") || ident(t.first(), "continue") {
            self.flow = if ident(t.first(), "break") { Flow::Break } else { Flow::Continue };
            return Ok(V::Unit);
        }
        let mut c = C::new(t);
        if c.eat('!') {
            return Ok(V::Bool(!self.bool(&t[1..])?));
        }
        while c.eat('&') || c.eat('*') || c.eat_ident("mut") {}
        let mut v = match c.peek() {
            Some(TokenTree::Ident(i)) if i == "if" => {
                c.i += 1;
                self.if_(&mut c)?
            }
            Some(TokenTree::Ident(i)) if i == "match" => self.stmt(&mut c)?,
            Some(TokenTree::Ident(_)) => {
                // a path; only its last segment counts
                let mut name = String::new();
                while let Some(TokenTree::Ident(i)) = c.peek() {
                    name = i.to_string();
                    c.i += 1;
                    if c.eat2(':', ':') {
                        if c.eat('<') {
                            c.until(|c| punct(c.peek(), '>'));
                            c.eat('>');
                            c.eat2(':', ':');
                        }
                        continue;
                    }
                    break;
                }
                if let Some(a) = group(c.peek(), Delimiter::Parenthesis) {
                    c.i += 1;
                    self.call(&name, &a)?
                } else {
                    self.path(&name)?
                }
            }
            Some(TokenTree::Punct(p)) if p.as_char() == ':' => {
                // `::path`
                c.i += 2;
                return self.expr(&t[c.i..]);
            }
            Some(TokenTree::Literal(l)) => {
                c.i += 1;
                let s = l.to_string();
                if s.starts_with(|c: char| c.is_ascii_digit()) {
                    V::Num(s.parse().map_err(|_| Unknown("number"))?)
                } else {
                    V::Str(lit(&s)?)
                }
            }
            Some(TokenTree::Group(g)) => {
                c.i += 1;
                let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                match g.delimiter() {
                    Delimiter::Brace => self.block(&inner)?,
                    Delimiter::Bracket => V::List(self.args(&inner)?),
                    _ => {
                        let mut k = C::new(&inner);
                        k.until(|c| punct(c.peek(), ','));
                        if k.end() && !inner.is_empty() {
                            self.expr(&inner)?
                        } else {
                            V::Tuple(self.args(&inner)?)
                        }
                    }
                }
            }
            _ => return Err(Unknown("expression")),
        };
        while !c.end() {
            if !c.eat('.') {
                return Err(Unknown("operator"));
            }
            if let (Some(TokenTree::Literal(l)), V::Tuple(t)) = (c.peek(), &v) {
                let n = l.to_string().parse::<usize>().ok();
                v = n.and_then(|n| t.get(n)).cloned().ok_or(Unknown("field"))?;
                c.i += 1;
                continue;
            }
            let Some(TokenTree::Ident(m)) = c.peek() else { return Err(Unknown("method")) };
            c.i += 1;
            let Some(a) = group(c.peek(), Delimiter::Parenthesis) else { return Err(Unknown("field")) };
            c.i += 1;
            let a = self.args(&a)?;
            v = self.method(v, &m.to_string(), a)?;
        }
        Ok(v)
    }

    fn path(&mut self, name: &str) -> R<V> {
        if let Some((_, v)) = self.env.iter().rev().find(|e| e.0 == name) {
            return Ok(v.clone());
        }
        Ok(match name {
            "true" => V::Bool(true),
            "false" => V::Bool(false),
            "None" => V::Opt(None),
            "CloseQuote" => V::Item(Item::CloseQuote),
            "OpenEval" => V::Item(Item::OpenEval),
            "CloseEval" => V::Item(Item::CloseEval),
            "Space" => V::Item(Item::Space),
            "Push" => V::Item(Item::Push),
            "Line" => V::Item(Item::Line),
            _ => return Err(Unknown("name")),
        })
    }

    fn call(&mut self, name: &str, a: &[TokenTree]) -> R<V> {
        if name == "from_fn" {
            // `move |receiver| { .. }`
            let mut c = C::new(a);
            c.eat_ident("move");
            if !c.eat('|') {
                return Err(Unknown("closure"));
            }
            let pat = c.until(|c| punct(c.peek(), '|'));
            c.eat('|');
            let n = self.env.len();
            self.bind(pat, &V::Toks)?;
            self.expr(&a[c.i..])?;
            self.env.truncate(n);
            return Ok(V::Unit);
        }
        if name == "replace" || name == "take" {
            // of a variable
            if let (true, true, Some(TokenTree::Ident(i))) = (punct(a.first(), '&'), ident(a.get(1), "mut"), a.get(2)) {
                let v = match self.args(a)?.pop() {
                    Some(v) if name == "replace" => v,
                    Some(V::Bool(_)) => V::Bool(false),
                    Some(V::Opt(_)) => V::Opt(None),
                    _ => return Err(Unknown("take")),
                };
                let name = i.to_string();
                return match self.env.iter_mut().rev().find(|e| e.0 == name) {
                    Some(e) => Ok(std::mem::replace(&mut e.1, v)),
                    None => Err(Unknown("replace")),
                };
            }
        }
        let mut a = self.args(a)?;
        let x = if a.is_empty() { V::Unit } else { a.remove(0) };
        Ok(match (name, x) {
            ("new", V::Unit) => V::Toks,
            ("into_iter", v) => V::Iter(self.iter(v)?),
            ("Static", V::Str(s)) | ("Box", V::Str(s)) => V::Str(s),
            ("Literal", V::Str(s)) => V::Str(s),
            ("OpenQuote", V::Bool(b)) => V::Item(Item::OpenQuote(b)),
            ("Some", v) => V::Opt(Some(Box::new(v))),
            ("quoted", V::Str(s)) => V::Quoted(s),
            ("from", V::Str(s)) => V::Str(s),
            ("drop", _) => V::Unit,
            // a method, written as a function
            (m, x) => self.method(x, m, a)?,
        })
    }

    fn method(&mut self, v: V, m: &str, mut a: Vec<V>) -> R<V> {
        let x = if a.is_empty() { V::Unit } else { a.swap_remove(0) };
        Ok(match (v, m, x) {
            (V::Toks, "append", x) => {
                self.append(x)?;
                V::Unit
            }
            (V::Toks, "space", _) => {
                self.toks.space();
                V::Unit
            }
            (V::Toks, "push", _) => {
                self.toks.push();
                V::Unit
            }
            (V::Toks, "line", _) => {
                self.toks.line();
                V::Unit
            }
            (V::Toks, "indent", _) => {
                self.toks.indent();
                V::Unit
            }
            (V::Toks, "unindent", _) => {
                self.toks.unindent();
                V::Unit
            }
            (V::Toks, "lang_supports_eval", _) => {
                self.eval_checked = true;
                V::Unit
            }
            (v, "into_iter", _) | (v, "iter", _) | (v, "peekable", _) => V::Iter(self.iter(v)?),
            (V::Iter(k), "next", _) => V::Opt(self.next(k).map(Box::new)),
            (V::Iter(k), "peek", _) => {
                let (l, i) = &self.iters[k];
                V::Opt(l.get(*i).cloned().map(Box::new))
            }
            (V::Opt(o), "is_some", _) => V::Bool(o.is_some()),
            (V::Opt(o), "is_none", _) => V::Bool(o.is_none()),
            (V::Iter(k), "enumerate", _) => {
                let l = std::mem::take(&mut self.iters[k].0);
                self.iters[k].0 = l.into_iter().enumerate().map(|(i, v)| V::Tuple(vec![V::Num(i as u64), v])).collect();
                V::Iter(k)
            }
            // any iterator can be given, and this is all that some of them know
            (V::Iter(_), "size_hint", _) => V::Tuple(vec![V::Num(0), V::Opt(None)]),
            (V::Iter(k), "by_ref", _) => V::Iter(k),
            (V::Iter(k), "len", _) => V::Num((self.iters[k].0.len() - self.iters[k].1) as u64),
            (V::List(l), "len", _) => V::Num(l.len() as u64),
            (V::List(l), "is_empty", _) => V::Bool(l.is_empty()),
            (v, "collect", _) => match v {
                V::Iter(k) => {
                    let (l, i) = &self.iters[k];
                    V::List(l[*i..].to_vec())
                }
                _ => return Err(Unknown("collect")),
            },
            (V::Str(s), "into", _) | (V::Str(s), "to_string", _) | (V::Str(s), "to_owned", _) => V::Str(s),
            (v, "clone", _) | (v, "as_ref", _) | (v, "as_mut", _) => v,
            _ => return Err(Unknown("method")),
        })
    }

    fn append(&mut self, v: V) -> R<()> {
        match v {
            V::Str(s) => self.toks.append(ItemStr::from(s)),
            V::Quoted(s) => self.toks.append(quoted(s)),
            V::Item(i) => self.toks.append(i),
            V::Opt(Some(v)) => self.append(*v)?,
            V::Opt(None) | V::Unit => {}
            _ => return Err(Unknown("append")),
        }
        Ok(())
    }
}

/// The value of a string literal.
fn lit(s: &str) -> R<String> {
    if let Some(r) = s.strip_prefix('r') {
        let n = r.bytes().take_while(|b| *b == b'#').count();
        let r = &r[n..r.len().saturating_sub(n).max(n)];
        return r.strip_prefix('"').and_then(|s| s.strip_suffix('"')).map(String::from).ok_or(Unknown("raw string"));
    }
    let s = s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).ok_or(Unknown("string"))?;
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('r') => out.push('\r'),
                Some('t') => out.push('\t'),
                Some('0') => out.push('\0'),
                Some(c @ ('\\' | '"' | '\'')) => out.push(c),
                Some('x') => {
                    let d: String = [it.next(), it.next()].iter().flatten().collect();
                    out.push(u8::from_str_radix(&d, 16).map_err(|_| Unknown("escape"))? as char);
                }
                Some('u') => {
                    let d: String = it.by_ref().skip(1).take_while(|c| *c != '}').filter(|c| *c != '_').collect();
                    let v = u32::from_str_radix(&d, 16).map_err(|_| Unknown("escape"))?;
                    out.push(char::from_u32(v).ok_or(Unknown("escape"))?);
                }
                Some('\n') => while it.next_if(|c| c.is_ascii_whitespace()).is_some() {},
                _ => return Err(Unknown("escape")),
            }
        } else {
            out.push(c);
        }
    }
    Ok(out)
}
