use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::fmt;
use genco::lang::csharp::{self, Config, Import};
use genco::prelude::*;

/// The namespace of the file: param 2 says whether it is in another one.
fn own_ns() -> &'static str {
    if param(2) == 0 { "own" } else { "p.q" }
}

/// How many namespaces out a namespace is which is open in the file, as its own or as one around it.
fn depth(ns: &str) -> u64 {
    let mut o = own_ns();
    let mut d = 0;
    loop {
        if eq(o.as_bytes(), ns.as_bytes()) {
            return d;
        }
        match o.rfind('.') {
            Some(i) => o = &o[..i],
            None => return NONE,
        }
        d += 1;
    }
}

const NONE: u64 = 9;

struct It {
    ns: String,
    name: String,
    qualified: bool,
    item: Import,
    reg: bool,
}

fn item(fixed: bool, reg: bool, kinds: u64) -> It {
    let k = choose(0, kinds);
    let ns = match k {
        0 | 2 if param(2) == 0 => modof("p", &["own.p", "p", "ownp", "p.own", "ow", "p.q", "p.q.p", "System", "q.p"]),
        0 | 2 => modof("p", &["p", "o", "q", "p.q.r", "q.p", "p.qq", "o.p", "p.p"]),
        1 | 3 => own_ns().to_string(),
        _ => modword("p.q"),
    };
    let qualified = k == 2 || k == 3;
    let name = word("");
    let item = csharp::import(istr(&ns, fixed), istr(&name, fixed));
    let item = if qualified { item.qualified() } else { item };
    It { ns, name, qualified, item, reg }
}

fn tokens(v: &[It], rev: bool) -> csharp::Tokens {
    let mut t = csharp::Tokens::new();
    t.append("@");
    let n = v.len();
    for k in 0..n {
        let it = &v[if rev { n - 1 - k } else { k }];
        if it.reg {
            t.register(&it.item);
        } else {
            t.append("[");
            t.append(&it.item);
            t.append("]");
        }
    }
    t
}

/// Take the file apart: the header (usings), and the references.
fn parts(s: &[u8], own: bool) -> Option<(&[u8], Vec<&[u8]>)> {
    let mut p = P::new(s);
    let mut h = p.until(b'@')?;
    let mut refs = Vec::new();
    while p.eat("[") {
        refs.push(p.until(b']')?);
    }
    p.need("\n")?;
    if own {
        let open = format!("namespace {} {{\n    ", own_ns());
        if h.len() < open.len() || !eq(&h[h.len() - open.len()..], open.as_bytes()) {
            return None;
        }
        h = &h[..h.len() - open.len()];
        p.need("}\n")?;
    }
    if !p.done() {
        return None;
    }
    Some((h, refs))
}

fn header(h: &[u8]) -> Option<Vec<&[u8]>> {
    let mut v = Vec::new();
    let mut p = P::new(h);
    while !p.done() && p.peek() != b'\n' {
        p.need("using ")?;
        v.push(p.word(b".")?);
        p.need(";\n")?;
    }
    Some(v)
}

fn judge(v: &[It], s: &str, own: bool) {
    out_s(s);
    check(clean_file(s.as_bytes()), 1);
    let (h, refs) = match parts(s.as_bytes(), own) {
        Some(x) => x,
        None => return fail(2),
    };
    check(spaced(h), 3);
    let b = match header(h) {
        Some(b) => b,
        None => return fail(4),
    };
    let mut r = 0;
    for i in v {
        // open in the file, as its own namespace or as one around it, which is looked at later
        let at = if own { depth(&i.ns) } else { NONE };
        let in_own = at != NONE;
        let mut conflict = false;
        let mut own_other = false;
        // other known types of this name in namespaces which are imported
        let mut visible_other = false;
        for j in v {
            let other = eq(i.name.as_bytes(), j.name.as_bytes()) & !eq(i.ns.as_bytes(), j.ns.as_bytes());
            conflict |= other;
            own_other |= other && own && depth(&j.ns) < at;
            for u in &b {
                visible_other |= other & eq(u, j.ns.as_bytes());
            }
        }
        let mut using = false;
        for u in &b {
            using |= eq(u, i.ns.as_bytes());
        }
        if i.reg {
            check(using | in_own | conflict, 5);
            continue;
        }
        if r >= refs.len() {
            return fail(6);
        }
        let text = refs[r];
        r += 1;
        match rsplit(text, ".") {
            (None, n) => {
                check(eq(n, i.name.as_bytes()), 7);
                check(!own_other & (in_own | (using & !visible_other)), 8);
                check(!i.qualified, 16);
            }
            (Some(p), n) => {
                check(eq(n, i.name.as_bytes()) & eq(p, i.ns.as_bytes()), 9);
                // only spelled out where that is asked for or needed
                check(conflict | i.qualified, 10);
            }
        }
    }
    check(r == refs.len(), 11);
    for (k, x) in b.iter().enumerate() {
        let mut used = false;
        for i in v {
            used |= eq(x, i.ns.as_bytes());
        }
        check(used, 12);
        check(!(own && eq(x, own_ns().as_bytes())), 14);
        for y in &b[..k] {
            check(!eq(x, y), 15);
        }
    }
    reach(1);
}

fn file(t: &csharp::Tokens, own: bool) -> Option<String> {
    let c = if own { Config::default().with_namespace(own_ns()) } else { Config::default() };
    let mut w = fmt::FmtWriter::new(String::new());
    let f = fmt::Config::from_lang::<Csharp>();
    match t.format_file(&mut w.as_formatter(&f), &c) {
        Ok(()) => Some(w.into_inner()),
        Err(_) => None,
    }
}

harnesses! {
    // params: 0 = items, 1 = highest kind, 2 = whether the file's namespace is in another one
    fn h_imp_csharp() {
        let n = param(0);
        let reg = reg(n);
        let fixed = style() == 0 && choose(0, 1) == 1;
        let own = choose(0, 1) == 1;
        let mut v = Vec::new();
        for k in 0..n {
            v.push(item(fixed && k == 0, k == reg, param(1)));
        }
        match (file(&tokens(&v, false), own), file(&tokens(&v, true), own)) {
            (Some(s), Some(r)) => {
                judge(&v, &s, own);
                let (a, b) = match (parts(s.as_bytes(), own), parts(r.as_bytes(), own)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return fail(20),
                };
                check(eq(a.0, b.0), 21);
            }
            _ => fail(22),
        }
    }
}
