//! Nix: arguments, `with`, `inherit` and variables.
use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::fmt;
use genco::lang::nix::{self, Import};
use genco::prelude::*;

/// What has to be there for the items of a file.
#[derive(Default)]
struct Need {
    args: Vec<Vec<u8>>,
    withs: Vec<Vec<u8>>,
    inherits: Vec<(Vec<u8>, Vec<u8>)>,
    /// name and value
    vars: Vec<(Vec<u8>, Vec<u8>)>,
}

fn root_path() -> (String, String) {
    if param(5) == 5 {
        let path = modof("", &["my-p.q", "p", "p.q", "p.q.r", "my-p", "p'.q", "my", "p_.q"]);
        return (path.split('.').next().unwrap_or("").to_string(), path);
    }
    let root = modword("");
    let mut path = root.clone();
    if choose(0, 1) == 1 {
        path.push_str(".x");
    }
    (root, path)
}

fn bracket(s: &str) -> Vec<u8> {
    let mut v = vec![b'['];
    v.extend_from_slice(s.as_bytes());
    v.push(b']');
    v
}

/// An item and how the body refers to it.
fn item(n: &mut Need, depth: u64, maxk: u64, fixed: bool) -> (Import, String) {
    match choose(0, maxk) {
        0 => {
            let a = word("");
            n.args.push(a.clone().into_bytes());
            (nix::argument(istr(&a, fixed)), a)
        }
        1 => {
            let (r, p) = root_path();
            let name = word("n");
            n.args.push(r.into_bytes());
            n.inherits.push((p.clone().into_bytes(), name.clone().into_bytes()));
            (nix::inherit(istr(&p, fixed), istr(&name, fixed)), name)
        }
        2 => {
            let (r, p) = root_path();
            let name = word("w");
            n.args.push(r.into_bytes());
            n.withs.push(p.clone().into_bytes());
            (nix::with(istr(&p, fixed), istr(&name, fixed)), name)
        }
        _ => {
            let name = word("v");
            for v in &n.vars {
                // two variables of one name would be the user's mistake
                assume(!eq(&v.0, name.as_bytes()));
            }
            let mut t = nix::Tokens::new();
            t.append("[");
            n.vars.push((name.clone().into_bytes(), Vec::new()));
            let at = n.vars.len() - 1;
            let inner = item(n, depth - 1, if depth > 1 { 3 } else { 2 }, false);
            t.append(&inner.0);
            t.append("]");
            n.vars[at].1 = bracket(&inner.1);
            (nix::variable(istr(&name, fixed), t), name)
        }
    }
}

fn file(t: &nix::Tokens, scoped: bool) -> Option<String> {
    let c = nix::Config::default().with_scoped(scoped);
    let mut w = fmt::FmtWriter::new(String::new());
    let f = fmt::Config::from_lang::<Nix>();
    match t.format_file(&mut w.as_formatter(&f), &c) {
        Ok(()) => Some(w.into_inner()),
        Err(_) => None,
    }
}

fn tokens(v: &[(Import, String)], reg: usize, rev: bool) -> nix::Tokens {
    let mut t = nix::Tokens::new();
    t.append("@");
    let n = v.len();
    for k in 0..n {
        let k = if rev { n - 1 - k } else { k };
        if k == reg {
            t.register(v[k].0.clone());
        } else {
            t.append("[");
            t.append(&v[k].0);
            t.append("]");
        }
    }
    t
}

/// The two lists are the same as sets, and the first has no duplicates.
fn same<T>(got: &[T], need: &[T], e: impl Fn(&T, &T) -> bool, id: u64) {
    for n in need {
        let mut f = false;
        for g in got {
            f |= e(g, n);
        }
        check(f, id);
    }
    for (i, g) in got.iter().enumerate() {
        let mut f = false;
        for n in need {
            f |= e(g, n);
        }
        check(f, id + 1);
        for h in &got[..i] {
            check(!e(g, h), id + 2);
        }
    }
}

fn header(h: &[u8], scoped: bool) -> Option<Need> {
    let mut n = Need::default();
    let mut p = P::new(h);
    if !scoped {
        p.need("{\n")?;
        while !p.eat("    ...\n}:\n\n") {
            p.need("    ")?;
            n.args.push(p.word(b"-'")?.to_vec());
            p.need(",\n")?;
        }
    }
    if p.peek() == b'w' {
        while p.eat("with ") {
            n.withs.push(p.word(b".-'")?.to_vec());
            p.need(";\n")?;
        }
        p.need("\n")?;
    }
    if p.eat("let\n") {
        while p.eat("    ") {
            if p.eat("inherit (") {
                let a = p.word(b".-'")?;
                p.need(") ")?;
                n.inherits.push((a.to_vec(), p.word(b"-'")?.to_vec()));
                p.need(";\n")?;
            } else {
                let a = p.word(b"-'")?;
                p.need(" = ")?;
                n.vars.push((a.to_vec(), p.until(b';')?.to_vec()));
                p.need("\n")?;
            }
        }
        p.need("in\n\n")?;
    }
    if p.done() {
        Some(n)
    } else {
        None
    }
}

harnesses! {
    // params: 0 = items, 1 = depth of variables
    fn h_imp_nix() {
        let n = param(0) as usize;
        let fixed = style() == 0 && choose(0, 1) == 1;
        let reg = reg(n as u64) as usize;
        let scoped = choose(0, 1) == 1;
        let mut need = Need::default();
        let mut v = Vec::new();
        for k in 0..n {
            v.push(item(&mut need, param(1), 3, fixed && k == 0));
        }
        let again = choose(0, 1) == 1;
        if again {
            v.push(v[0].clone());
        }
        match (file(&tokens(&v, reg, false), scoped), file(&tokens(&v, reg, true), scoped)) {
            (Some(s), Some(r)) => {
                out_s(&s);
                check(clean_file(s.as_bytes()), 1);
                let (a, b) = match (split(s.as_bytes()), split(r.as_bytes())) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return fail(2),
                };
                check(eq(a.0, b.0), 3);
                let g = match header(a.0, scoped) { Some(g) => g, None => return fail(4) };
                let mut r = 0;
                for (k, i) in v.iter().enumerate() {
                    if k == reg { continue }
                    if r >= a.1.len() { return fail(5) }
                    check(eq(a.1[r], i.1.as_bytes()), 6);
                    r += 1;
                }
                check(r == a.1.len(), 7);
                if !scoped {
                    same(&g.args, &need.args, |a, b| eq(a, b), 10);
                }
                same(&g.withs, &need.withs, |a, b| eq(a, b), 20);
                same(&g.inherits, &need.inherits, |a, b| eq(&a.0, &b.0) & eq(&a.1, &b.1), 30);
                same(&g.vars, &need.vars, |a, b| eq(&a.0, &b.0) & eq(&a.1, &b.1), 40);
                reach(1);
            }
            _ => fail(8),
        }
    }
}
