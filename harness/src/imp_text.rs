//! Modules whose names are arbitrary text: the header names exactly this module.
use crate::lit::{decode, L};
use crate::sx::*;
use genco::fmt;
use genco::lang::js::Module;
use genco::prelude::*;
use genco::tokens::ItemStr;

fn text() -> String {
    let mut s = String::new();
    if param(1) == 1 {
        for _ in 0..[3, 22, 23, 64, 255, 1025][choose(0, 5) as usize] {
            s.push('m');
        }
    }
    for _ in 0..param(0) {
        s.push(ch());
    }
    s
}

/// The only line of the header, between two texts; an empty line and the body follow.
fn line<'a>(s: &'a str, pre: &str, post: &str) -> Option<&'a str> {
    let mut end = String::from(post);
    end.push_str("\n\n[");
    s.strip_prefix(pre)?.strip_suffix("]\n")?.rsplit_once(&end).map(|p| p.0)
}

fn literal(l: L, s: Result<String, fmt::Error>, pre: &str, post: &str, want: &str) {
    match s {
        Ok(s) => {
            out_s(&s);
            match line(&s, pre, post).and_then(|q| decode(l, q)) {
                Some(d) => check(&d[..] == want.as_bytes(), 1),
                None => fail(2),
            }
            reach(1);
        }
        Err(_) => fail(3),
    }
}

/// The whole text is the first line of the header.
fn raw(s: Result<String, fmt::Error>, pre: &str, post: &str, want: &str) {
    match s {
        Ok(s) => {
            out_s(&s);
            match line(&s, pre, post) {
                Some(p) => check(p == want, 1),
                None => fail(2),
            }
            reach(1);
        }
        Err(_) => fail(3),
    }
}

macro_rules! body {
    ($t:ty, $i:expr) => {{
        let mut t = <$t>::new();
        t.append("[");
        t.append($i);
        t.append("]");
        t
    }};
}

harnesses! {
    fn h_path_dart() {
        let m = text();
        let i = dart::import(ItemStr::from(&m), "A");
        if choose(0, 1) == 0 {
            literal(L::Dart, body!(dart::Tokens, i).to_file_string(), "import ", ";", &m);
        } else {
            literal(L::Dart, body!(dart::Tokens, i.with_alias("b")).to_file_string(), "import ", " as b;", &m);
        }
    }

    fn h_path_go() {
        let m = text();
        // what the body says of such a module is up to the package it names
        let mut t = go::Tokens::new();
        t.register(go::import(ItemStr::from(&m), "A"));
        t.append("[]");
        literal(L::Go, t.to_file_string(), "import ", "", &m);
    }

    fn h_path_js() {
        let m = text();
        let path = choose(0, 1) == 1;
        let module = if path { Module::Path(m.clone().into()) } else { Module::from(m.clone()) };
        let i = js::import(module, "A");
        let (pre, i) = match choose(0, 2) {
            0 => ("import {A} from ", i),
            1 => ("import A from ", i.into_default()),
            _ => ("import * as A from ", i.into_wildcard()),
        };
        literal(L::Js, body!(js::Tokens, i).to_file_string(), pre, ";", &m);
    }

    fn h_path_c() {
        let m = text();
        // there is no way to write some characters in an include
        let system = choose(0, 1) == 1;
        for c in m.chars() {
            assume(c != '\n' && c != '\r' && c != if system { '>' } else { '"' });
        }
        if system {
            raw(body!(c::Tokens, c::include_system(ItemStr::from(&m), "A")).to_file_string(), "#include <", ">", &m);
        } else {
            raw(body!(c::Tokens, c::include(ItemStr::from(&m), "A")).to_file_string(), "#include \"", "\"", &m);
        }
    }
}
