use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::lang::python::{self, Any, Import, ImportModule};
use genco::prelude::*;

enum Item {
    Name(Import),
    Module(ImportModule),
}

/// What has to be bound for the reference, and the reference itself.
struct It {
    module: String,
    /// `from module import name`, otherwise `import module`
    name: Option<String>,
    alias: Option<String>,
    text: String,
    item: Item,
    reg: bool,
}

fn item(kinds: u64, fixed: bool, reg: bool, dotted: bool) -> It {
    let module = if dotted { format_dot(&modword(""), &modword("")) } else { modof("m", &["p.q", "p", "q.p", "p.q.p", "q", ".p", "..", "p_q", "builtins"]) };
    let name = word("");
    let alias = aliasword("z");
    let n = python::import(istr(&module, fixed), istr(&name, fixed));
    let m = python::import_module(istr(&module, fixed));
    let a = istr(&alias, fixed);
    let text_mod = format_dot(&module, &name);
    let text_alias = format_dot(&alias, &name);
    let (nm, al, text, item) = match choose(0, kinds) {
        0 => (Some(name.clone()), None, name, Item::Name(n)),
        1 => (Some(name), Some(alias.clone()), alias, Item::Name(n.with_alias(a))),
        2 => (None, None, module.clone(), Item::Module(m)),
        3 => (None, Some(alias.clone()), alias, Item::Module(m.with_alias(a))),
        4 => (None, None, text_mod, Item::Name(n.qualified())),
        5 => (None, Some(alias), text_alias, Item::Name(n.with_module_alias(a))),
        6 => (None, Some(alias), text_alias, Item::Name(n.with_module_alias(a).qualified())),
        7 => (None, Some(alias), text_alias, Item::Name(n.qualified().with_module_alias(a))),
        // an alias has no meaning in a qualified reference
        8 => (None, None, text_mod, Item::Name(n.with_alias(a).qualified())),
        _ => (None, None, text_mod, Item::Name(n.qualified().with_alias(a))),
    };
    It { module, name: nm, alias: al, text, item, reg }
}

fn format_dot(a: &str, b: &str) -> String {
    let mut s = a.to_string();
    s.push('.');
    s.push_str(b);
    s
}

fn tokens(v: &[It], rev: bool) -> python::Tokens {
    let mut t = python::Tokens::new();
    t.append("@");
    let n = v.len();
    for k in 0..n {
        let it = &v[if rev { n - 1 - k } else { k }];
        if it.reg {
            match &it.item {
                Item::Name(i) => t.register(i),
                Item::Module(i) => t.register(i),
            }
        } else {
            t.append("[");
            match &it.item {
                Item::Name(i) => t.append(i),
                Item::Module(i) => t.append(i),
            }
            t.append("]");
        }
    }
    t
}

struct Bound<'a> {
    module: &'a [u8],
    name: Option<&'a [u8]>,
    alias: Option<&'a [u8]>,
}

fn header(h: &[u8]) -> Option<Vec<Bound<'_>>> {
    let mut v = Vec::new();
    let mut p = P::new(h);
    while !p.done() && p.peek() != b'\n' {
        if p.eat("from ") {
            let module = p.word(b".")?;
            p.need(" import ")?;
            loop {
                let n = p.word(&[])?;
                let a = p.alias();
                v.push(Bound { module, name: Some(n), alias: a });
                if p.eat("\n") {
                    break;
                }
                p.need(", ")?;
            }
        } else {
            p.need("import ")?;
            let module = p.word(b".")?;
            let a = p.alias();
            v.push(Bound { module, name: None, alias: a });
            p.need("\n")?;
        }
    }
    Some(v)
}

fn same(b: &Bound, m: &[u8], n: Option<&[u8]>, a: Option<&[u8]>) -> bool {
    // no alias binds the same as an alias which is the name itself
    let (x, y) = (b.alias.unwrap_or(b.name.unwrap_or(b.module)), a.unwrap_or(n.unwrap_or(m)));
    eq(b.module, m) & eqo(b.name, n) & eq(x, y)
}

fn is(b: &Bound, i: &It) -> bool {
    same(b, i.module.as_bytes(), i.name.as_deref().map(str::as_bytes), i.alias.as_deref().map(str::as_bytes))
}

fn judge(v: &[It], s: &str) {
    out_s(s);
    check(clean_file(s.as_bytes()), 1);
    let (h, refs) = match split(s.as_bytes()) {
        Some(x) => x,
        None => return fail(2),
    };
    check(spaced(h), 3);
    let b = match header(h) {
        Some(b) => b,
        None => return fail(4),
    };
    let mut r = 0;
    for i in v {
        let mut found = false;
        for b in &b {
            found |= is(b, i);
        }
        check(found, 5);
        if !i.reg {
            if r >= refs.len() {
                return fail(6);
            }
            check(eq(refs[r], i.text.as_bytes()), 7);
            r += 1;
        }
    }
    check(r == refs.len(), 8);
    for (k, x) in b.iter().enumerate() {
        let mut used = false;
        for i in v {
            used |= is(x, i);
        }
        check(used, 9);
        for y in &b[..k] {
            check(!same(x, y.module, y.name, y.alias), 10);
        }
    }
    reach(1);
}

harnesses! {
    // params: 0 = items, 1 = highest kind, 2 = dotted modules
    fn h_imp_python() {
        let n = param(0);
        let reg = reg(n);
        let fixed = style() == 0 && choose(0, 1) == 1;
        let mut v = Vec::new();
        for k in 0..n {
            v.push(item(param(1), fixed && k == 0, k == reg, param(2) == 1 && k == 0));
        }
        match (tokens(&v, false).to_file_string(), tokens(&v, true).to_file_string()) {
            (Ok(s), Ok(r)) => {
                judge(&v, &s);
                let (a, b) = match (split(s.as_bytes()), split(r.as_bytes())) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return fail(20),
                };
                check(eq(a.0, b.0), 21);
            }
            _ => fail(22),
        }
        let _: Option<Any> = None;
    }
}
