use crate::lit::*;
use crate::sx::*;
use genco::prelude::*;
use genco::tokens::{quoted, Item};

/// `n` arbitrary characters.
fn text(n: u64) -> String {
    let mut s = String::new();
    let mut i = 0;
    while i < n {
        s.push(ch());
        i += 1;
    }
    s
}

/// Two pieces of text which are written next to each other into one literal.
fn pieces() -> (String, String) {
    let n = param(0);
    let k = choose(0, n);
    (padded(text(k)), text(n - k))
}

/// An identifier of a given length.
fn plain_text(n: usize) -> String {
    let mut p = String::with_capacity(n);
    for i in 0..n {
        p.push((b'a' + (i % 26) as u8) as char);
    }
    p
}

/// A character of an expression.
fn expr_ch() -> char {
    let c = ch();
    assume(matches!(c, 'a'..='z' | 'A'..='Z' | '0'..='9' | '_' | '.' | '$'));
    c
}

/// With param 1, a stretch of plain text of several lengths in front.
fn padded(s: String) -> String {
    if param(1) == 0 {
        return s;
    }
    let mut p = plain_text(LENS[choose(0, LENS.len() as u64 - 1) as usize]);
    p.push_str(&s);
    p
}

const LENS: [usize; 16] = [1, 7, 15, 31, 33, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, 4097];

fn joined(a: &str, b: &str) -> Vec<u8> {
    let mut v = Vec::new();
    v.extend_from_slice(a.as_bytes());
    v.extend_from_slice(b.as_bytes());
    v
}

fn judge(l: L, o: Result<String, genco::fmt::Error>, want: &[u8]) {
    match o {
        Ok(o) => {
            out_s(&o);
            match decode(l, &o) {
                Some(d) => {
                    reach(1);
                    check(&d[..] == want, 1);
                }
                None => fail(2),
            }
        }
        Err(_) => fail(3),
    }
}

macro_rules! plain {
    ($l:expr, $t:ty) => {{
        let (a, b) = pieces();
        let want = joined(&a, &b);
        let mut t: $t = Tokens::new();
        t.append(quoted(vec![a, b]));
        judge($l, t.to_string(), &want);
    }};
}

/// A literal with an interpolated expression between the two pieces of text.
macro_rules! eval {
    ($l:expr, $t:ty, $i:expr) => {{
        let (a, b) = pieces();
        let kind = choose(0, 8);
        let mut want = a.clone().into_bytes();
        want.push(0xff);
        let mut t: $t = Tokens::new();
        t.append(Item::OpenQuote(true));
        t.append(a);
        t.append(Item::OpenEval);
        match kind {
            0 => {
                t.append("x");
                want.extend_from_slice(b"x");
            }
            1 => {
                t.append("_a.b()");
                want.extend_from_slice(b"_a.b()");
            }
            2 => {
                t.append("x");
                t.append("1");
                want.extend_from_slice(b"x1");
            }
            3 => {
                let e = plain_text(LENS[choose(0, LENS.len() as u64 - 1) as usize]);
                want.extend_from_slice(e.as_bytes());
                t.append(e);
            }
            4 => {
                let mut e = plain_text(LENS[choose(0, LENS.len() as u64 - 1) as usize]);
                e.push_str("()");
                want.extend_from_slice(e.as_bytes());
                t.append(e);
            }
            5 => {
                let mut e = String::new();
                e.push(expr_ch());
                if choose(0, 1) == 1 {
                    e.push(expr_ch());
                }
                want.extend_from_slice(e.as_bytes());
                t.append(e);
            }
            6 => {
                // two expressions next to each other
                t.append("x");
                t.append(Item::CloseEval);
                t.append(Item::OpenEval);
                t.append("y");
                want.extend_from_slice(b"x\xfe\xffy");
            }
            7 => {
                // two expressions with text between
                t.append("x.y");
                t.append(Item::CloseEval);
                t.append("1");
                t.append(Item::OpenEval);
                t.append("y");
                want.extend_from_slice(b"x.y\xfe1\xffy");
            }
            _ => {
                t.append("{");
                t.space();
                t.append("}");
                want.extend_from_slice(b"{ }");
            }
        }
        t.append(Item::CloseEval);
        want.push(0xfe);
        match if kind == 0 || kind == 2 { choose(0, 2) } else { 0 } {
            0 => (),
            1 => t.register($i),
            _ => {
                // the text of an item
                t.append($i);
                want.extend_from_slice(b"It");
            }
        }
        want.extend_from_slice(b.as_bytes());
        t.append(b);
        t.append(Item::CloseQuote);
        judge($l, t.to_string(), &want);
    }};
}

harnesses! {
    fn h_str_rust() { plain!(L::Rust, rust::Tokens) }
    fn h_str_python() { plain!(L::Python, python::Tokens) }
    fn h_str_c() { plain!(L::C, c::Tokens) }
    fn h_str_csharp() { plain!(L::Csharp, csharp::Tokens) }
    fn h_str_go() { plain!(L::Go, go::Tokens) }
    fn h_str_swift() { plain!(L::Swift, swift::Tokens) }
    fn h_str_java() { plain!(L::Java, java::Tokens) }
    fn h_str_js() { plain!(L::Js, js::Tokens) }
    fn h_str_dart() { plain!(L::Dart, dart::Tokens) }
    fn h_str_nix() {
        let (a, b) = pieces();
        // a Nix string can not contain NUL at all
        for c in a.chars() { assume(c != '\0'); }
        for c in b.chars() { assume(c != '\0'); }
        let want = joined(&a, &b);
        let mut t: nix::Tokens = Tokens::new();
        t.append(quoted(vec![a, b]));
        judge(L::Nix, t.to_string(), &want);
    }
    fn h_eval_js() { eval!(L::Js, js::Tokens, js::import("m", "It")) }
    fn h_eval_dart() { eval!(L::Dart, dart::Tokens, dart::import("m", "It")) }
}
