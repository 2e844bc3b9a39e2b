//! The comment helpers keep every line in the comment, at the indentation of the place.
use crate::sx::*;
use genco::prelude::*;
use genco::tokens::{FormatInto, ItemStr};
use std::borrow::Cow;
use std::rc::Rc;

/// Lines of text: without line breaks, which would end the line.
fn line(java: bool) -> String {
    let mut s = String::new();
    match choose(0, 4) {
        0 => (),
        1 => s.push_str("x"),
        2 => s.push_str("  a b "),
        3 => {
            for _ in 0..param(1) {
                let c = ch();
                assume(c != '\n' && c != '\r');
                s.push(c);
            }
        }
        _ => {
            let n = [16, 80, 81, 120, 257][choose(0, 4) as usize];
            for i in 0..n {
                s.push(if i % 9 == 8 { ' ' } else { (b'a' + (i % 26) as u8) as char });
            }
        }
    }
    if java {
        let b = s.as_bytes();
        for i in 1..b.len() {
            // this would end the comment
            assume(!(b[i - 1] == b'*' && b[i] == b'/'));
        }
    }
    s
}

/// The stream around the comment, and its expected text.
fn around<L, F, C>(lines: &[String], comment: F, open: Option<&str>, mark: &str, close: Option<&str>)
where
    L: Lang,
    L::Format: Default,
    L::Config: Default,
    F: FnOnce() -> C,
    C: FormatInto<L>,
{
    let level = choose(0, 2) as usize;
    let before = choose(0, 2);
    let after = choose(0, 2);
    let mut t: Tokens<L> = Tokens::new();
    let mut w = String::new();
    let indent = |w: &mut String| {
        for _ in 0..level {
            w.push_str("    ");
        }
    };
    for _ in 0..level {
        t.indent();
    }
    let mut started = false;
    if before > 0 {
        // text on the line before does not join the comment, whether there is a line break or not
        t.append("int a;");
        if before == 2 {
            t.push();
        }
        indent(&mut w);
        w.push_str("int a;");
        started = true;
    }
    t.append(comment());
    let mut rows: Vec<String> = Vec::new();
    if !lines.is_empty() {
        if let Some(o) = open {
            rows.push(String::from(o));
        }
        for l in lines {
            let mut r = String::from(mark);
            if !l.is_empty() {
                r.push(' ');
                r.push_str(l);
            }
            rows.push(r);
        }
        if let Some(c) = close {
            rows.push(String::from(c));
        }
    }
    for r in &rows {
        if started {
            w.push('\n');
        }
        indent(&mut w);
        w.push_str(r);
        started = true;
    }
    match after {
        0 => (),
        _ => {
            if after == 1 {
                t.push();
            } else {
                t.line();
            }
            t.append("int b;");
            if started {
                w.push_str(if after == 1 { "\n" } else { "\n\n" });
            }
            indent(&mut w);
            w.push_str("int b;");
        }
    }
    match t.to_string() {
        Ok(o) => {
            out_s(&o);
            check(o == w, 1);
            reach(1);
        }
        Err(_) => fail(2),
    }
}

/// Every kind of list of lines.
macro_rules! lists {
    ($l:ty, $f:expr, $java:expr, $open:expr, $mark:expr, $close:expr) => {{
        let n = choose(0, param(0));
        let v: Vec<String> = (0..n).map(|_| line($java)).collect();
        match choose(0, 4) {
            0 => around::<$l, _, _>(&v, || $f(v.clone()), $open, $mark, $close),
            1 => around::<$l, _, _>(&v, || $f(v.iter().map(|s| &**s)), $open, $mark, $close),
            2 => around::<$l, _, _>(&v, || $f(v.iter().map(|s| ItemStr::from(&**s)).collect::<Vec<_>>()), $open, $mark, $close),
            3 => {
                // a list which does not know its length, and leaves some of what it goes through out
                let mut k = v.clone();
                let d = choose(0, n) as usize;
                k.insert(d, String::from("!"));
                around::<$l, _, _>(
                    &v,
                    || $f(k.iter().enumerate().filter(|(i, _)| *i != d).map(|(_, s)| Cow::Borrowed(&**s))),
                    $open,
                    $mark,
                    $close,
                )
            }
            _ => around::<$l, _, _>(&v, || $f(v.iter().map(|s| Rc::new(s.clone()))), $open, $mark, $close),
        }
    }};
}

harnesses! {
    // params: 0 = lines, 1 = arbitrary characters in one
    fn h_comment_java() { lists!(Java, java::block_comment, true, Some("/**"), " *", Some(" */")) }
    fn h_comment_csharp() { lists!(Csharp, csharp::comment, false, None, "//", None) }
    fn h_comment_csharp_doc() { lists!(Csharp, csharp::block_comment, false, None, "///", None) }
    fn h_comment_dart() { lists!(Dart, dart::doc_comment, false, None, "///", None) }
}
