//! Languages where a header line brings a whole module into scope: Dart, Go, Swift and C.
use crate::bind::*;
use crate::model::clean_file;
use crate::sx::*;
use genco::fmt;
use genco::prelude::*;

/// What one use needs: a header line for `path` of some `kind` (an alias, or how it is included), and
/// what the body has to say.
struct Use {
    path: String,
    alias: Option<String>,
    system: bool,
    /// needs no line of its own
    free: bool,
    text: String,
    reg: bool,
}

struct Line<'a> {
    path: &'a [u8],
    alias: Option<&'a [u8]>,
    system: bool,
}

/// Every use has its line, every line its use, and the body says what it should.
fn judge(v: &[Use], refs: &[&[u8]], lines: &[Line<'_>], extra: impl Fn(&Line<'_>) -> bool) {
    let mut r = 0;
    for u in v {
        if !u.reg {
            if r >= refs.len() {
                return fail(3);
            }
            check(eq(refs[r], u.text.as_bytes()), 4);
            r += 1;
        }
        let mut found = u.free;
        for l in lines {
            found |= eq(l.path, u.path.as_bytes())
                & eqo(l.alias, u.alias.as_ref().map(|s| s.as_bytes()))
                & (l.system == u.system);
        }
        check(found, 5);
    }
    check(r == refs.len(), 6);
    for (i, l) in lines.iter().enumerate() {
        let mut used = extra(l);
        for u in v {
            used |= eq(l.path, u.path.as_bytes())
                & eqo(l.alias, u.alias.as_ref().map(|s| s.as_bytes()))
                & (l.system == u.system);
        }
        check(used, 7);
        for k in &lines[..i] {
            check(!(eq(l.path, k.path) & eqo(l.alias, k.alias) & (l.system == k.system)), 8);
        }
    }
    reach(1);
}

/// Build the body out of items, in order or reversed.
macro_rules! body {
    ($t:ty, $v:expr, $items:expr, $rev:expr) => {{
        let mut t = <$t>::new();
        t.append("@");
        let n = $v.len();
        for k in 0..n {
            let k = if $rev { n - 1 - k } else { k };
            if $v[k].reg {
                t.register($items[k].clone());
            } else {
                t.append("[");
                t.append(&$items[k]);
                t.append("]");
            }
        }
        t
    }};
}

/// The file in both orders; the header has to be the same.
macro_rules! files {
    ($t:ty, $v:expr, $items:expr, $f:expr) => {{
        let a = $f(&body!($t, $v, $items, false));
        let b = $f(&body!($t, $v, $items, true));
        match (a, b) {
            (Some(a), Some(b)) => {
                out_s(&a);
                match (split(a.as_bytes()), split(b.as_bytes())) {
                    (Some(x), Some(y)) => check(eq(x.0, y.0), 20),
                    _ => return fail(2),
                }
                a
            }
            _ => return fail(21),
        }
    }};
}

fn dart(p: &mut P<'_>) -> bool {
    p.eat("import \"")
}

fn use_of(path: String, alias: Option<String>, text: String, reg: bool) -> Use {
    Use { path, alias, system: false, free: false, text, reg }
}

fn cat(a: &str, b: &str, c: &str) -> String {
    let mut s = String::from(a);
    s.push_str(b);
    s.push_str(c);
    s
}

harnesses! {
    // params: 0 = items
    fn h_imp_dart() {
        let n = param(0) as usize;
        let fixed = style() == 0 && choose(0, 1) == 1;
        let reg = reg(n as u64) as usize;
        let mut v: Vec<Use> = Vec::new();
        let mut items = Vec::new();
        let mut core_alias = false;
        for k in 0..n {
            let kind = choose(0, 3);
            let path = if kind & 2 == 0 { modof("p/", &["dart:core_p", "dart:cor", "dart:async", "dart:core/p", "core", "p.dart", "../p.dart", "package:p/p.dart"]) } else { "dart:core".to_string() };
            let name = word("");
            let it = genco::lang::dart::import(istr(&path, fixed && k == 0), istr(&name, fixed && k == 0));
            if kind & 1 == 0 {
                let mut u = use_of(path, None, name, k == reg);
                u.free = kind == 2;
                v.push(u);
                items.push(it);
            } else {
                let alias = if param(5) == 4 { aliasword("z") } else { word("") };
                core_alias |= kind == 3;
                items.push(it.with_alias(istr(&alias, fixed && k == 1)));
                let text = cat(&alias, ".", &name);
                v.push(use_of(path, Some(alias), text, k == reg));
            }
        }
        let s = files!(dart::Tokens, v, items, |t: &dart::Tokens| t.to_file_string().ok());
        check(clean_file(s.as_bytes()), 1);
        let (h, refs) = match split(s.as_bytes()) { Some(x) => x, None => return fail(2) };
        check(spaced(h), 9);
        let mut p = P::new(h);
        let mut lines = Vec::new();
        while dart(&mut p) {
            let path = match p.until(b'"') { Some(x) => x, None => return fail(10) };
            let alias = p.alias();
            if !p.eat(";\n") { return fail(11) }
            lines.push(Line { path, alias, system: false });
        }
        check(p.done() || (p.eat("\n") && p.done()), 12);
        // an import of dart:core disables the implicit one, so that it has to be explicit
        let mut plain_core = false;
        for l in &lines { plain_core |= eq(l.path, b"dart:core") & l.alias.is_none(); }
        check(plain_core == core_alias, 13);
        judge(&v, &refs, &lines, |l| eq(l.path, b"dart:core") & l.alias.is_none());
    }

    // params: 0 = items
    fn h_imp_go() {
        let n = param(0) as usize;
        let fixed = style() == 0 && choose(0, 1) == 1;
        let reg = reg(n as u64) as usize;
        let package = choose(0, 1) == 1;
        let mut v: Vec<Use> = Vec::new();
        let mut items = Vec::new();
        for k in 0..n {
            let kind = choose(0, 2);
            let (last, path) = if param(5) == 5 {
                assume(kind == 0);
                let path = modof("", &["q/p", "r/p", "p", "p/q", "q/p/v2", "r/p/v2", "example.com/p", "q//p", "p-q"]);
                (path.rsplit('/').next().unwrap_or("").to_string(), path)
            } else {
                let last = modword(if kind == 2 { "q" } else { "" });
                let path = if kind == 1 { cat("p/q/", &last, "") } else { last.clone() };
                (last, path)
            };
            let name = word("");
            items.push(genco::lang::go::import(istr(&path, fixed && k == 0), istr(&name, fixed && k == 0)));
            let text = cat(&last, ".", &name);
            v.push(use_of(path, None, text, k == reg));
        }
        // two modules with the same last component can't be told apart, which is left to the user
        let s = files!(go::Tokens, v, items, |t: &go::Tokens| {
            let c = genco::lang::go::Config::default();
            let c = if package { c.with_package("own") } else { c };
            let mut w = fmt::FmtWriter::new(String::new());
            let f = fmt::Config::from_lang::<Go>();
            match t.format_file(&mut w.as_formatter(&f), &c) { Ok(()) => Some(w.into_inner()), Err(_) => None }
        });
        check(clean_file(s.as_bytes()), 1);
        let (h, refs) = match split(s.as_bytes()) { Some(x) => x, None => return fail(2) };
        check(spaced(h), 9);
        let mut p = P::new(h);
        if package && !p.eat("package own\n\n") { return fail(14) }
        let mut lines = Vec::new();
        while p.eat("import \"") {
            let path = match p.until(b'"') { Some(x) => x, None => return fail(10) };
            if !p.eat("\n") { return fail(11) }
            lines.push(Line { path, alias: None, system: false });
        }
        check(p.done() || (p.eat("\n") && p.done()), 12);
        judge(&v, &refs, &lines, |_| false);
    }

    // params: 0 = items
    fn h_imp_swift() {
        let n = param(0) as usize;
        let fixed = style() == 0 && choose(0, 1) == 1;
        let reg = reg(n as u64) as usize;
        let mut v: Vec<Use> = Vec::new();
        let mut items = Vec::new();
        for k in 0..n {
            let path = if param(5) == 5 { modof("", &["p", "pq", "p_q", "Foundation", "P", "Swift", "qp", "p.q"]) } else { modword(if choose(0, 1) == 1 { "p" } else { "" }) };
            let name = word("");
            items.push(genco::lang::swift::import(istr(&path, fixed && k == 0), istr(&name, fixed && k == 0)));
            v.push(use_of(path, None, name, k == reg));
        }
        let s = files!(swift::Tokens, v, items, |t: &swift::Tokens| t.to_file_string().ok());
        check(clean_file(s.as_bytes()), 1);
        let (h, refs) = match split(s.as_bytes()) { Some(x) => x, None => return fail(2) };
        check(spaced(h), 9);
        let mut p = P::new(h);
        let mut lines = Vec::new();
        while p.eat("import ") {
            let path = match p.word(b".") { Some(x) => x, None => return fail(10) };
            if !p.eat("\n") { return fail(11) }
            lines.push(Line { path, alias: None, system: false });
        }
        check(p.done() || (p.eat("\n") && p.done()), 12);
        judge(&v, &refs, &lines, |_| false);
    }

    // params: 0 = items
    fn h_imp_c() {
        let n = param(0) as usize;
        let fixed = style() == 0 && choose(0, 1) == 1;
        let reg = reg(n as u64) as usize;
        let mut v: Vec<Use> = Vec::new();
        let mut items = Vec::new();
        for k in 0..n {
            let system = choose(0, 1) == 1;
            let path = if param(5) == 5 {
                modof("", &["./p.h", "p.h", "p/p.h", "../p.h", "p", "p.hpp", "q/p.h", "p/../p.h", "/p.h"])
            } else {
                cat(&modword(if choose(0, 1) == 1 { "p/" } else { "" }), ".h", "")
            };
            let name = word("");
            let (a, b) = (istr(&path, fixed && k == 0), istr(&name, fixed && k == 0));
            items.push(if system { genco::lang::c::include_system(a, b) } else { genco::lang::c::include(a, b) });
            let mut u = use_of(path, None, name, k == reg);
            u.system = system;
            v.push(u);
        }
        let s = files!(c::Tokens, v, items, |t: &c::Tokens| t.to_file_string().ok());
        check(clean_file(s.as_bytes()), 1);
        let (h, refs) = match split(s.as_bytes()) { Some(x) => x, None => return fail(2) };
        check(spaced(h), 9);
        let mut p = P::new(h);
        let mut lines = Vec::new();
        while p.eat("#include ") {
            let system = p.eat("<");
            if !system && !p.eat("\"") { return fail(13) }
            let path = match p.until(if system { b'>' } else { b'"' }) { Some(x) => x, None => return fail(10) };
            if !p.eat("\n") { return fail(11) }
            lines.push(Line { path, alias: None, system });
        }
        check(p.done() || (p.eat("\n") && p.done()), 12);
        judge(&v, &refs, &lines, |_| false);
    }
}
