use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::fmt;
use genco::lang::java::{self, Config, Import};
use genco::prelude::*;

const LANG: &str = "java.lang";
const OWN: &str = "own";

struct It {
    package: String,
    name: String,
    item: Import,
    reg: bool,
}

fn item(fixed: bool, reg: bool, kinds: u64) -> It {
    let package = match choose(0, kinds) {
        0 => modof("p", &["java.lang.p", "own.p", "java.langp", "p", "ownp", "p.own", "java", "lang", "p.java.lang", "p.q"]),
        1 => OWN.to_string(),
        2 => LANG.to_string(),
        _ => {
            let mut s = modword("p.");
            s.push_str(".q");
            s
        }
    };
    let name = word("");
    let item = java::import(istr(&package, fixed), istr(&name, fixed));
    It { package, name, item, reg }
}

fn tokens(v: &[It], rev: bool) -> java::Tokens {
    let mut t = java::Tokens::new();
    t.append("@");
    let n = v.len();
    for k in 0..n {
        let it = &v[if rev { n - 1 - k } else { k }];
        if it.reg {
            t.register(&it.item);
        } else {
            t.append("[");
            t.append(&it.item);
            t.append("]");
        }
    }
    t
}

struct Bound<'a> {
    package: &'a [u8],
    name: &'a [u8],
}

fn header(h: &[u8], own: bool) -> Option<Vec<Bound<'_>>> {
    let mut v = Vec::new();
    let mut p = P::new(h);
    if own {
        p.need("package own;\n")?;
        p.need("\n")?;
    }
    while !p.done() && p.peek() != b'\n' {
        p.need("import ")?;
        let path = p.word(b".")?;
        p.need(";\n")?;
        match rsplit(path, ".") {
            (Some(package), name) => v.push(Bound { package, name }),
            _ => return None,
        }
    }
    Some(v)
}

fn is(b: &Bound, i: &It) -> bool {
    eq(b.package, i.package.as_bytes()) & eq(b.name, i.name.as_bytes())
}

fn judge(v: &[It], s: &str, own: bool) {
    out_s(s);
    check(clean_file(s.as_bytes()), 1);
    let (h, refs) = match split(s.as_bytes()) {
        Some(x) => x,
        None => return fail(2),
    };
    check(spaced(h), 3);
    let b = match header(h, own) {
        Some(b) => b,
        None => return fail(4),
    };
    let mut r = 0;
    for i in v {
        let in_own = own && i.package == OWN;
        let in_lang = i.package == LANG;
        if i.reg {
            // in scope, or imported, or another type has the name
            let mut found = in_own | in_lang;
            for x in &b {
                found |= eq(x.name, i.name.as_bytes());
            }
            for j in v {
                found |= own && j.package == OWN && eq(i.name.as_bytes(), j.name.as_bytes());
                found |= j.package == LANG && eq(i.name.as_bytes(), j.name.as_bytes());
            }
            check(found, 5);
            continue;
        }
        if r >= refs.len() {
            return fail(6);
        }
        let text = refs[r];
        r += 1;
        // does some other type in the file have this name?
        let mut conflict = false;
        let mut own_other = false;
        for j in v {
            let other = eq(i.name.as_bytes(), j.name.as_bytes()) & !eq(i.package.as_bytes(), j.package.as_bytes());
            conflict |= other;
            own_other |= other && own && j.package == OWN;
        }
        match rsplit(text, ".") {
            (None, n) => {
                check(eq(n, i.name.as_bytes()), 7);
                let (mut me, mut them) = (false, false);
                for x in &b {
                    me |= is(x, i);
                    them |= eq(x.name, i.name.as_bytes()) & !is(x, i);
                }
                check(!them & (me | in_own | (in_lang & !own_other)), 8);
            }
            (Some(p), n) => {
                check(eq(n, i.name.as_bytes()) & eq(p, i.package.as_bytes()), 9);
                // only spelled out where that is needed
                check(conflict, 10);
            }
        }
    }
    check(r == refs.len(), 11);
    for (k, x) in b.iter().enumerate() {
        let mut used = false;
        for i in v {
            used |= is(x, i);
        }
        check(used, 12);
        check(!eq(x.package, LANG.as_bytes()), 13);
        check(!(own && eq(x.package, OWN.as_bytes())), 14);
        // a name can only be imported once
        for y in &b[..k] {
            check(!eq(x.name, y.name), 15);
        }
    }
    reach(1);
}

fn file(t: &java::Tokens, own: bool) -> Option<String> {
    let c = if own { Config::default().with_package(OWN) } else { Config::default() };
    let mut w = fmt::FmtWriter::new(String::new());
    let f = fmt::Config::from_lang::<Java>();
    match t.format_file(&mut w.as_formatter(&f), &c) {
        Ok(()) => Some(w.into_inner()),
        Err(_) => None,
    }
}

harnesses! {
    // params: 0 = items, 1 = highest package kind
    fn h_imp_java() {
        let n = param(0);
        let reg = reg(n);
        let fixed = style() == 0 && choose(0, 1) == 1;
        let own = choose(0, 1) == 1;
        let mut v = Vec::new();
        for k in 0..n {
            v.push(item(fixed && k == 0, k == reg, param(1)));
        }
        match (file(&tokens(&v, false), own), file(&tokens(&v, true), own)) {
            (Some(s), Some(r)) => {
                judge(&v, &s, own);
                let (a, b) = match (split(s.as_bytes()), split(r.as_bytes())) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return fail(20),
                };
                check(eq(a.0, b.0), 21);
            }
            _ => fail(22),
        }
    }
}
