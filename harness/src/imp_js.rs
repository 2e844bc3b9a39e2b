use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::lang::js::{self, Import, Module};
use genco::prelude::*;
use genco::tokens::ItemStr;

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Named,
    Default,
    Wild,
}

struct It {
    kind: Kind,
    module: String,
    path: bool,
    name: String,
    /// the name it is used by
    local: String,
    import: Import,
    reg: bool,
}

fn item(kinds: u64, fixed: bool, reg: bool, path: bool) -> It {
    let module = modof(if path { "p/" } else { "m" }, &["./p", "p", "../p", "p.js", "p/q", "~p/q", "node:p", "p/", "q/../p"]);
    let name = word("");
    let alias = aliasword("z");
    let m = if path { Module::Path(module.as_str().into()) } else { Module::Global(istr(&module, fixed)) };
    let i = js::import(m, istr(&name, fixed));
    let k = choose(0, kinds);
    let local = if k == 3 || k == 4 { alias.clone() } else { name.clone() };
    let (kind, import) = match k {
        0 => (Kind::Named, i),
        1 => (Kind::Default, i.into_default()),
        2 => (Kind::Wild, i.into_wildcard()),
        3 => (Kind::Named, i.with_alias(istr(&alias, fixed))),
        // the last of several decides
        4 => (Kind::Named, i.into_default().with_alias(istr(&alias, fixed))),
        5 => (Kind::Default, i.with_alias(istr(&alias, fixed)).into_default()),
        _ => (Kind::Wild, i.with_alias(istr(&alias, fixed)).into_wildcard()),
    };
    It { kind, module, path, name, local, import, reg }
}

fn tokens(v: &[It], rev: bool) -> js::Tokens {
    let mut t = js::Tokens::new();
    t.append("@");
    let n = v.len();
    for k in 0..n {
        let it = &v[if rev { n - 1 - k } else { k }];
        if it.reg {
            t.register(&it.import);
        } else {
            t.append("[");
            t.append(&it.import);
            t.append("]");
        }
    }
    t
}

struct Bound<'a> {
    kind: Kind,
    module: &'a [u8],
    name: &'a [u8],
    local: &'a [u8],
}

fn header(h: &[u8]) -> Option<Vec<Bound<'_>>> {
    let mut v = Vec::new();
    let mut p = P::new(h);
    while !p.done() && p.peek() != b'\n' {
        let first = v.len();
        p.need("import ")?;
        if p.eat("* as ") {
            let n = p.word(&[])?;
            v.push(Bound { kind: Kind::Wild, module: b"", name: n, local: n });
        } else {
            let mut more = true;
            if p.peek() != b'{' {
                let n = p.word(&[])?;
                v.push(Bound { kind: Kind::Default, module: b"", name: n, local: n });
                more = p.eat(", ");
            }
            if more {
                p.need("{")?;
                loop {
                    let n = p.word(&[])?;
                    let a = p.alias();
                    v.push(Bound {
                        kind: Kind::Named,
                        module: b"",
                        name: n,
                        local: a.unwrap_or(n),
                    });
                    if p.eat("}") {
                        break;
                    }
                    p.need(", ")?;
                }
            }
        }
        p.need(" from \"")?;
        let m = p.until(b'"')?;
        p.need(";\n")?;
        for b in &mut v[first..] {
            b.module = m;
        }
    }
    Some(v)
}

fn is(b: &Bound, i: &It) -> bool {
    if b.kind != i.kind {
        return false;
    }
    eq(b.module, i.module.as_bytes()) & eq(b.name, i.name.as_bytes()) & eq(b.local, i.local.as_bytes())
}

fn judge(v: &[It], s: &str) {
    out_s(s);
    check(clean_file(s.as_bytes()), 1);
    let (h, refs) = match split(s.as_bytes()) {
        Some(x) => x,
        None => return fail(2),
    };
    check(spaced(h), 3);
    let b = match header(h) {
        Some(b) => b,
        None => return fail(4),
    };
    let mut r = 0;
    for i in v {
        // bound as what it is
        let mut found = false;
        for b in &b {
            found |= is(b, i);
        }
        check(found, 5);
        if !i.reg {
            if r >= refs.len() {
                return fail(6);
            }
            check(eq(refs[r], i.local.as_bytes()), 7);
            r += 1;
        }
    }
    check(r == refs.len(), 8);
    // nothing else, and nothing twice
    for (k, x) in b.iter().enumerate() {
        let mut used = false;
        for i in v {
            used |= is(x, i);
        }
        check(used, 9);
        for y in &b[..k] {
            check(!(x.kind == y.kind && eq(x.module, y.module) & eq(x.name, y.name) & eq(x.local, y.local)), 10);
        }
    }
    reach(1);
}

harnesses! {
    // params: 0 = items, 1 = highest kind
    fn h_imp_js() {
        let n = param(0);
        let reg = reg(n);
        let fixed = style() == 0 && choose(0, 1) == 1;
        let mut v = Vec::new();
        for k in 0..n {
            v.push(item(param(1), fixed && k == 0, k == reg, false));
        }
        match (tokens(&v, false).to_file_string(), tokens(&v, true).to_file_string()) {
            (Ok(s), Ok(r)) => {
                judge(&v, &s);
                let (a, b) = match (split(s.as_bytes()), split(r.as_bytes())) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return fail(20),
                };
                check(eq(a.0, b.0), 21);
            }
            _ => fail(22),
        }
    }

    // Modules given by path are imported relative to the module being written.
    fn h_imp_js_path() {
        let (nb, ni) = (choose(1, param(0)), choose(1, param(0)));
        let base = components(nb);
        let item = components(ni);
        let cfg = choose(0, 1) == 1;
        let name = word("");
        let global = choose(0, 1) == 1;
        let m = if global { Module::from(join(&item)) } else { Module::Path(join(&item).into()) };
        let i = js::import(m, name.as_str());
        let mut t = js::Tokens::new();
        t.append("@");
        t.append("[");
        t.append(i);
        t.append("]");
        let mut config = js::Config::default();
        if cfg {
            config = config.with_module_path(join(&base));
        }
        let mut w = genco::fmt::FmtWriter::new(String::new());
        let f = genco::fmt::Config::from_lang::<JavaScript>();
        if t.format_file(&mut w.as_formatter(&f), &config).is_err() {
            return fail(1);
        }
        let s = w.into_inner();
        out_s(&s);
        let h = match split(s.as_bytes()) { Some(x) => x.0, None => return fail(2) };
        let b = match header(h) { Some(b) => b, None => return fail(3) };
        check(b.len() == 1, 4);
        // the shared leading components disappear, every other component of the base is one step up
        let mut want = Vec::new();
        if cfg && !global {
            let mut k = 0;
            while k < base.len() && k < item.len() && base[k] == item[k] {
                k += 1;
            }
            for _ in k..base.len() {
                want.push("..".to_string());
            }
            for c in &item[k..] {
                want.push(c.clone());
            }
        } else {
            want = item;
        }
        check(eq(b[0].module, join(&want).as_bytes()), 5);
        reach(1);
    }
}

fn components(n: u64) -> Vec<String> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(word(""));
    }
    v
}

fn join(v: &[String]) -> String {
    let mut s = String::new();
    for (i, c) in v.iter().enumerate() {
        if i > 0 {
            s.push('/');
        }
        s.push_str(c);
    }
    s
}
