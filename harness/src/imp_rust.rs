use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::fmt;
use genco::lang::rust::{self, Config, Import, ImportMode};
use genco::prelude::*;

/// What has to be bound for a reference.
#[derive(Clone, PartialEq, Eq)]
enum Need {
    /// `module::name` under its own name or an alias
    Name(Option<String>),
    /// the module itself, under its last component
    Module,
    /// the module under an alias
    ModuleAs(String),
}

struct It {
    module: String,
    name: String,
    need: Need,
    text: String,
    item: Import,
    reg: bool,
}

fn cat(a: &str, b: &str) -> String {
    let mut s = a.to_string();
    s.push_str("::");
    s.push_str(b);
    s
}

fn item(kinds: u64, fixed: bool, reg: bool, deep: bool, qual: bool) -> It {
    let last = modof("n", &["p::q", "p", "r::q", "q::p", "q", "crate", "crate::q", "std::q", "self::q", "super::super::q", "p::q::q", "pq"]);
    let (last, module) = if param(5) == 5 {
        (last.rsplit("::").next().unwrap_or("").to_string(), last)
    } else if deep { 
        let module = cat(&if param(5) == 4 { "q".to_string() } else { modword("") }, &last);
        (last, module)
    } else {
        (last.clone(), last)
    };
    let name = word("");
    let alias = aliasword("z");
    let i = rust::import(istr(&module, fixed), istr(&name, fixed));
    let a = istr(&alias, fixed);
    let q = cat(&last, &name);
    let qa = cat(&alias, &name);
    let (need, text, item) = match choose(0, kinds) {
        0 => {
            if qual {
                (Need::Module, q, i)
            } else {
                (Need::Name(None), name.clone(), i)
            }
        }
        1 => (Need::Name(Some(alias.clone())), alias, i.with_alias(a)),
        2 => (Need::Module, q, i.qualified()),
        3 => (Need::ModuleAs(alias), qa, i.with_module_alias(a)),
        4 => (Need::Name(None), name.clone(), i.direct()),
        5 => (Need::ModuleAs(alias), qa, i.with_module_alias(a).qualified()),
        6 => (Need::Name(Some(alias.clone())), alias, i.qualified().with_alias(a)),
        7 => (Need::Module, q, i.with_alias(a).qualified()),
        8 => (Need::ModuleAs(alias), qa, i.with_module_alias(a).direct()),
        _ => (Need::ModuleAs(alias), qa, i.qualified().with_module_alias(a).with_alias("y")),
    };
    It { module, name, need, text, item, reg }
}

fn tokens(v: &[It], rev: bool) -> rust::Tokens {
    let mut t = rust::Tokens::new();
    t.append("@");
    let n = v.len();
    for k in 0..n {
        let it = &v[if rev { n - 1 - k } else { k }];
        if it.reg {
            t.register(&it.item);
        } else {
            t.append("[");
            t.append(&it.item);
            t.append("]");
        }
    }
    t
}

struct Bound<'a> {
    module: &'a [u8],
    /// `None` for the module itself
    name: Option<&'a [u8]>,
    alias: Option<&'a [u8]>,
}

fn push<'a>(v: &mut Vec<Bound<'a>>, p: &mut P<'a>, module: &'a [u8]) -> Option<()> {
    let n = p.word(&[])?;
    let a = p.alias();
    let name = if n == b"self" { None } else { Some(n) };
    v.push(Bound { module, name, alias: a });
    Some(())
}

fn header(h: &[u8]) -> Option<Vec<Bound<'_>>> {
    let mut v = Vec::new();
    let mut p = P::new(h);
    while !p.done() && p.peek() != b'\n' {
        p.need("use ")?;
        let path = p.word(b":")?;
        if p.eat("{") {
            // the path ends in a separator
            let n = path.len();
            if n < 2 || path[n - 1] != b':' || path[n - 2] != b':' {
                return None;
            }
            let module = &path[..n - 2];
            loop {
                push(&mut v, &mut p, module)?;
                if p.eat("};\n") {
                    break;
                }
                p.need(", ")?;
            }
        } else {
            let a = p.alias();
            v.push(Bound { module: path, name: None, alias: a });
            p.need(";\n")?;
        }
    }
    Some(v)
}

/// What is bound, as a path, and under which name.
fn binding(m: &[u8], n: Option<&[u8]>, a: Option<&[u8]>) -> (Vec<u8>, Vec<u8>) {
    let mut path = m.to_vec();
    if let Some(n) = n {
        path.extend_from_slice(b"::");
        path.extend_from_slice(n);
    }
    let last = n.unwrap_or(rsplit(m, "::").1);
    (path, a.unwrap_or(last).to_vec())
}

fn bound(b: &Bound) -> (Vec<u8>, Vec<u8>) {
    binding(b.module, b.name, b.alias)
}

fn needed(i: &It) -> (Vec<u8>, Vec<u8>) {
    let m = i.module.as_bytes();
    match &i.need {
        Need::Name(a) => binding(m, Some(i.name.as_bytes()), a.as_deref().map(str::as_bytes)),
        Need::Module => binding(m, None, None),
        Need::ModuleAs(a) => binding(m, None, Some(a.as_bytes())),
    }
}

fn is(a: &(Vec<u8>, Vec<u8>), b: &(Vec<u8>, Vec<u8>)) -> bool {
    eq(&a.0, &b.0) & eq(&a.1, &b.1)
}

/// A crate is in scope without being imported.
fn krate(a: &(Vec<u8>, Vec<u8>)) -> bool {
    rsplit(&a.0, "::").0.is_none() && eq(&a.0, &a.1)
}

fn judge(v: &[It], s: &str) {
    out_s(s);
    check(clean_file(s.as_bytes()), 1);
    let (h, refs) = match split(s.as_bytes()) {
        Some(x) => x,
        None => return fail(2),
    };
    check(spaced(h), 3);
    let b = match header(h) {
        Some(b) => b,
        None => return fail(4),
    };
    let b: Vec<_> = b.iter().map(bound).collect();
    let needs: Vec<_> = v.iter().map(needed).collect();
    let mut r = 0;
    for (k, i) in v.iter().enumerate() {
        let mut found = false;
        for b in &b {
            found |= is(b, &needs[k]);
        }
        check(found | krate(&needs[k]), 5);
        if !i.reg {
            if r >= refs.len() {
                return fail(6);
            }
            check(eq(refs[r], i.text.as_bytes()), 7);
            r += 1;
        }
    }
    check(r == refs.len(), 8);
    for (k, x) in b.iter().enumerate() {
        let mut used = false;
        for i in &needs {
            used |= is(x, i);
        }
        check(used, 9);
        check(!krate(x), 11);
        for y in &b[..k] {
            check(!is(x, y), 10);
        }
    }
    reach(1);
}

fn file(t: &rust::Tokens, qual: bool) -> Option<String> {
    let c = Config::default();
    let c = if qual { c.with_default_import(ImportMode::Qualified) } else { c };
    let mut w = fmt::FmtWriter::new(String::new());
    let f = fmt::Config::from_lang::<Rust>();
    match t.format_file(&mut w.as_formatter(&f), &c) {
        Ok(()) => Some(w.into_inner()),
        Err(_) => None,
    }
}

harnesses! {
    // params: 0 = items, 1 = highest kind
    fn h_imp_rust() {
        let n = param(0);
        let reg = reg(n);
        let fixed = style() == 0 && choose(0, 1) == 1;
        let deep = param(5) != 5 && choose(0, 1) == 1;
        let qual = choose(0, 1) == 1;
        let mut v = Vec::new();
        for k in 0..n {
            v.push(item(param(1), fixed && k == 0, k == reg, deep, qual));
        }
        match (file(&tokens(&v, false), qual), file(&tokens(&v, true), qual)) {
            (Some(s), Some(r)) => {
                judge(&v, &s);
                let (a, b) = match (split(s.as_bytes()), split(r.as_bytes())) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return fail(20),
                };
                check(eq(a.0, b.0), 21);
            }
            _ => fail(22),
        }
    }
}
