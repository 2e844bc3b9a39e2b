//! Files and writers: every way of rendering gives the same bytes, headers and bodies are laid out as
//! one, and failures to write surface.
use crate::lang::{Import, T, Tok};
use crate::model::*;
use crate::sx::*;
use core::fmt::Write as _;
use genco::fmt;
use genco::prelude::*;
use genco::tokens::{quoted, Item};
use std::io;

const NAMES: [&str; 8] = ["a", "b", "c", "d", "e", "f", "g", "h"];

fn config(k: u64) -> fmt::Config {
    let c = fmt::Config::from_lang::<T>();
    match k {
        0 => c,
        1 => c.with_indentation(fmt::Indentation::Tab).with_newline("\r\n"),
        _ => c.with_indentation(fmt::Indentation::Space(1)).with_newline(""),
    }
}

fn nl(k: u64) -> &'static str {
    match k {
        0 => "\n",
        1 => "\r\n",
        _ => "",
    }
}

/// A stream with symbolic text.
fn stream(n: u64, kinds: u64) -> Tok {
    let mut t = Tok::new();
    for i in 0..n {
        match choose(0, kinds) {
            0 => t.append(NAMES[i as usize]),
            1 => t.space(),
            2 => t.push(),
            3 => t.line(),
            4 => t.indent(),
            5 => t.append(Import(i as u8)),
            6 => {
                let mut s = String::new();
                s.push(ch());
                t.append(quoted(s))
            }
            7 => {
                let mut s = String::new();
                s.push(ch());
                t.append(s)
            }
            _ => t.unindent(),
        }
    }
    t
}

fn by_fmt(t: &Tok, c: &fmt::Config, file: bool) -> Option<String> {
    let mut w = fmt::FmtWriter::new(String::new());
    put(t, &mut w.as_formatter(c), file).ok()?;
    Some(w.into_inner())
}

fn put(t: &Tok, f: &mut fmt::Formatter<'_>, file: bool) -> fmt::Result {
    if file {
        t.format_file(f, &())
    } else {
        t.format(f, &(), &())
    }
}

/// The lines, put together again.
fn join(v: &[String], nl: &str) -> String {
    let mut s = String::new();
    for (i, l) in v.iter().enumerate() {
        if i > 0 {
            s.push_str(nl);
        }
        s.push_str(l);
    }
    s
}

/// Accepts writes as told, one outcome for each call; then everything.
struct Flaky {
    got: Vec<u8>,
    /// calls which succeed first
    skip: u64,
    /// calls with a free outcome after them
    left: u64,
    /// an error was reported
    failed: bool,
    after: bool,
}

impl io::Write for Flaky {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after = true;
        }
        let k = if self.skip > 0 {
            self.skip -= 1;
            0
        } else if self.left > 0 && b.len() > 0 {
            self.left -= 1;
            choose(0, 4)
        } else {
            0
        };
        match k {
            0 => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            1 => {
                self.got.extend_from_slice(&b[..1]);
                Ok(1)
            }
            2 => Err(io::Error::from(io::ErrorKind::Interrupted)),
            3 => {
                self.failed = true;
                Err(io::Error::from(io::ErrorKind::BrokenPipe))
            }
            _ => {
                self.failed = true;
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// Fails at one call.
struct Failing {
    got: String,
    left: u64,
    failed: bool,
    after: bool,
}

impl Failing {
    fn call(&mut self) -> core::fmt::Result {
        if self.failed {
            self.after = true;
        }
        if self.left == 0 {
            self.failed = true;
            return Err(core::fmt::Error);
        }
        self.left -= 1;
        Ok(())
    }
}

impl core::fmt::Write for Failing {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        self.call()?;
        self.got.push_str(s);
        Ok(())
    }
    fn write_char(&mut self, c: char) -> core::fmt::Result {
        self.call()?;
        self.got.push(c);
        Ok(())
    }
}

/// Formats a file of some language with everything in it: header, indentation, quotes, evaluation.
fn sample(k: u64, w: &mut dyn Target) -> bool {
    macro_rules! lang {
        ($t:ty, $c:expr, $item:expr, $e:expr) => {{
            let mut t = <$t>::new();
            t.append($item);
            t.space();
            if $e {
                t.append(Item::OpenQuote(true));
                t.append("a$");
                t.append(Item::OpenEval);
                t.append("x");
                t.append(Item::CloseEval);
                t.append("b");
                t.append(Item::OpenEval);
                t.append("y");
                t.space();
                t.append("z");
                t.append(Item::CloseEval);
                t.append(Item::CloseQuote);
            } else {
                t.append(quoted("q\u{7f}\u{e9}\n"));
            }
            t.indent();
            t.append(quoted(quoted("i")));
            t.line();
            t.append("k");
            let c = fmt::Config::from_lang::<()>();
            w.put(&c, &mut |o| t.format_file(o, &$c))
        }};
    }
    match k {
        0 => lang!(rust::Tokens, rust::Config::default(), rust::import("p::q", "A").qualified(), false),
        1 => lang!(python::Tokens, python::Config::default(), python::import("p", "A").with_alias("B"), false),
        2 => lang!(js::Tokens, js::Config::default(), js::import("p", "A").with_alias("B"), true),
        3 => lang!(java::Tokens, java::Config::default().with_package("own"), java::import("p", "A"), false),
        4 => lang!(csharp::Tokens, csharp::Config::default().with_namespace("own"), csharp::import("p", "A"), false),
        5 => lang!(go::Tokens, go::Config::default().with_package("own"), go::import("p/q", "A"), false),
        6 => lang!(swift::Tokens, swift::Config::default(), swift::import("p", "A"), false),
        7 => lang!(c::Tokens, c::Config::default(), c::include("p", "A"), false),
        8 => lang!(dart::Tokens, dart::Config::default(), dart::import("p", "A").with_alias("B"), true),
        9 => lang!(nix::Tokens, nix::Config::default(), nix::variable("v", { let mut t = nix::Tokens::new(); t.append(nix::with("p.q", "A")); t }), false),
        _ => {
            let mut t = Tok::new();
            t.append(Import(0));
            t.append(Item::OpenQuote(true));
            t.append("a");
            t.append(Item::OpenEval);
            t.append(Import(1));
            t.append(quoted("b"));
            t.append(Item::CloseEval);
            t.append(quoted("c"));
            t.append(Item::CloseQuote);
            t.push();
            t.append("e");
            let c = fmt::Config::from_lang::<()>();
            w.put(&c, &mut |o| t.format_file(o, &()))
        }
    }
}

trait Target {
    /// Returns whether formatting succeeded.
    fn put(&mut self, c: &fmt::Config, f: &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> bool;
}

impl Target for fmt::FmtWriter<String> {
    fn put(&mut self, c: &fmt::Config, f: &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> bool {
        f(&mut self.as_formatter(c)).is_ok()
    }
}
impl Target for fmt::FmtWriter<Failing> {
    fn put(&mut self, c: &fmt::Config, f: &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> bool {
        f(&mut self.as_formatter(c)).is_ok()
    }
}
impl Target for fmt::IoWriter<Flaky> {
    fn put(&mut self, c: &fmt::Config, f: &mut dyn FnMut(&mut fmt::Formatter<'_>) -> fmt::Result) -> bool {
        f(&mut self.as_formatter(c)).is_ok()
    }
}

fn full(k: u64) -> String {
    let mut w = fmt::FmtWriter::new(String::new());
    check(sample(k, &mut w), 1);
    w.into_inner()
}

/// A language item which may fail to format.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Bad(pub bool);

genco::impl_lang! {
    pub F {
        type Config = ();
        type Format = ();
        type Item = Any;
    }
    Bad {
        fn format(&self, out: &mut fmt::Formatter<'_>, _: &(), _: &()) -> fmt::Result {
            if self.0 {
                return Err(core::fmt::Error);
            }
            out.write_char('B')
        }
    }
}

/// One request to a stream and to the model; `6` is the item with what it is written as.
macro_rules! steps {
    ($t:expr, $n:expr, $item:expr) => {{
        let mut used = false;
        let mut v = Vec::new();
        for i in 0..$n {
            let k = choose(0, 6);
            used |= k == 6;
            v.push(k);
            match k {
                0 => $t.append(NAMES[i as usize]),
                1 => $t.space(),
                2 => $t.push(),
                3 => $t.line(),
                4 => $t.indent(),
                5 => $t.unindent(),
                _ => $t.append($item),
            }
        }
        (used, v)
    }};
}

fn model(m: &mut Layout, v: &[u64], text: &str) {
    ops(m, v, text);
    m.op(Op::Nothing);
}

fn ops(m: &mut Layout, v: &[u64], text: &str) {
    for (i, k) in v.iter().enumerate() {
        match k {
            0 => m.op(Op::Lit(NAMES[i])),
            1 => m.op(Op::Space),
            2 => m.op(Op::Push),
            3 => m.op(Op::Line),
            4 => m.op(Op::Indent(1)),
            5 => m.op(Op::Indent(-1)),
            _ => m.op(Op::Lit(text)),
        }
    }
}

harnesses! {
    // All writers agree, and so do the shorthands. params: 0 = requests, 1 = highest kind
    fn h_writers() {
        let k = choose(0, 2);
        let file = choose(0, 1) == 1;
        let t = stream(param(0), param(1));
        let c = config(k);
        let s = match by_fmt(&t, &c, file) { Some(s) => s, None => return fail(1) };
        out_s(&s);
        // to bytes
        let mut w = fmt::IoWriter::new(Vec::new());
        check(put(&t, &mut w.as_formatter(&c), file).is_ok(), 2);
        check(&w.into_inner()[..] == s.as_bytes(), 3);
        // to lines
        let mut w = fmt::VecWriter::new();
        check(put(&t, &mut w.as_formatter(&c), file).is_ok(), 4);
        let lines = w.into_vec();
        let mut j = join(&lines, nl(k));
        if file {
            j.push_str(nl(k));
        }
        check(j == s, 5);
        // twice into one writer
        let mut w = fmt::FmtWriter::new(String::new());
        check(put(&t, &mut w.as_formatter(&c), file).is_ok(), 6);
        check(put(&t, &mut w.as_formatter(&c), file).is_ok(), 7);
        let d = w.into_inner();
        check(d.len() == 2 * s.len() && &d[..s.len()] == &s[..] && &d[s.len()..] == &s[..], 8);
        if k == 0 {
            let (a, b) = if file { (t.to_file_string(), t.to_file_vec()) } else { (t.to_string(), t.to_vec()) };
            match (a, b) {
                (Ok(a), Ok(b)) => {
                    check(a == s, 9);
                    check(b == lines, 10);
                }
                _ => fail(11),
            }
        }
        reach(1);
    }

    // Text which an item writes is as good as literals, whatever the pieces it writes it in.
    fn h_pieces() {
        let mut w = fmt::FmtWriter::new(String::new());
        let c = config(0);
        let mut t = Tok::new();
        if flag() { t.indent(); }
        if flag() { t.space(); }
        let mut a = t.clone();
        t.append("xé");
        a.append(Item::Literal("x".into()));
        let k = choose(0, 2);
        match k {
            0 => a.append("é"),
            1 => { a.append(""); a.append('é'.to_string()) }
            _ => a.append(genco::tokens::display('é')),
        }
        check(put(&t, &mut w.as_formatter(&c), false).is_ok(), 1);
        let s = w.into_inner();
        out_s(&s);
        match a.to_string() { Ok(r) => check(r == s, 2), Err(_) => fail(3) }
        reach(1);
    }

    // The underlying writer fails at one of its calls. params: 0 = highest language, 1 = most calls
    fn h_fail_fmt() {
        let k = choose(0, param(0));
        let want = full(k);
        let at = choose(0, param(1));
        let mut w = fmt::FmtWriter::new(Failing { got: String::new(), left: at, failed: false, after: false });
        let ok = sample(k, &mut w);
        let r = w.into_inner();
        out_s(&r.got);
        // reported if and only if it happened, and nothing is written behind it
        check(ok == !r.failed, 2);
        check(!r.after, 3);
        check(want.as_bytes().starts_with(r.got.as_bytes()), 4);
        if ok {
            check(r.got.len() == want.len(), 5);
            reach(2);
        } else {
            reach(1);
        }
    }

    // Short, interrupted, failing and refused writes of bytes, in any order, beginning at any call.
    // params: 0 = highest language, 1 = calls with a free outcome, 2 = most calls before them
    fn h_fail_io() {
        let k = choose(0, param(0));
        let want = full(k);
        let mut w = fmt::IoWriter::new(Flaky { got: Vec::new(), skip: choose(0, param(2)), left: param(1), failed: false, after: false });
        let ok = sample(k, &mut w);
        let r = w.into_inner();
        out(&r.got);
        check(ok == !r.failed, 2);
        check(!r.after, 3);
        check(want.as_bytes().starts_with(&r.got), 4);
        if ok {
            check(r.got.len() == want.len(), 5);
            reach(2);
        } else {
            reach(1);
        }
    }

    // An item which refuses to be formatted makes the whole fail.
    fn h_fail_item() {
        let n = param(0);
        let mut t: Tokens<F> = Tokens::new();
        let mut bad = false;
        let mut quotes = 0;
        for _ in 0..n {
            match choose(0, 5) {
                0 => t.append("x"),
                1 => t.append(Bad(false)),
                2 => {
                    t.append(Bad(true));
                    bad = true;
                }
                // registering it is no reason to format it
                3 => t.register(Bad(true)),
                // quotes inside of quotes inside of quotes
                4 => {
                    t.append(Item::OpenQuote(false));
                    quotes += 1;
                }
                _ => {
                    if quotes > 0 {
                        t.append(Item::CloseQuote);
                        quotes -= 1;
                    }
                }
            }
        }
        if quotes > 0 && flag() {
            // a quote which is not closed is no reason to overlook it
            assume(bad);
            quotes = 0;
        }
        for _ in 0..quotes {
            t.append(Item::CloseQuote);
        }
        check(t.to_string().is_err() == bad, 1);
        check(t.to_file_string().is_err() == bad, 2);
        check(t.to_vec().is_err() == bad, 3);
        check(t.to_file_vec().is_err() == bad, 4);
        reach(1 + bad as u64);
    }

    // A whole file: the header of each language, and any body. params: 0 = requests in the body,
    // 1 = highest language
    fn h_file() {
        let n = param(0);
        let mut m = Layout::new(b"    ", "\n");
        macro_rules! lang {
            ($t:ty, $l:ty, $c:expr, $item:expr, $text:expr, $pre:expr, $head:expr) => {
                lang!($t, $l, $c, $item, $text, $pre, $head, "")
            };
            ($t:ty, $l:ty, $c:expr, $item:expr, $text:expr, $pre:expr, $head:expr, $none:expr) => {{
                let mut t = <$t>::new();
                let (used, v) = steps!(t, n, $item);
                if !$pre.is_empty() {
                    m.op(Op::Lit($pre));
                    m.op(Op::Line);
                }
                let head = if used { $head } else { $none };
                if !head.is_empty() {
                    m.op(Op::Lit(head));
                    m.op(Op::Line);
                }
                m.op(Op::Nothing);
                model(&mut m, &v, $text);
                let mut w = fmt::FmtWriter::new(String::new());
                let f = fmt::Config::from_lang::<$l>();
                match t.format_file(&mut w.as_formatter(&f), &$c) { Ok(()) => Some(w.into_inner()), Err(_) => None }
            }};
        }
        let s = match choose(0, param(1)) {
            0 => lang!(rust::Tokens, Rust, rust::Config::default(), rust::import("p", "A"), "A", "", "use p::A;"),
            1 => lang!(python::Tokens, Python, python::Config::default(), python::import("p", "A"), "A", "", "from p import A"),
            2 => lang!(js::Tokens, JavaScript, js::Config::default(), js::import("p", "A"), "A", "", "import {A} from \"p\";"),
            3 => lang!(java::Tokens, Java, java::Config::default(), java::import("p", "A"), "A", "", "import p.A;"),
            4 => lang!(java::Tokens, Java, java::Config::default().with_package("own"), java::import("p", "A"), "A", "package own;", "import p.A;"),
            5 => lang!(csharp::Tokens, Csharp, csharp::Config::default(), csharp::import("p", "A"), "A", "", "using p;"),
            6 => lang!(go::Tokens, Go, go::Config::default(), go::import("p", "A"), "p.A", "", "import \"p\""),
            7 => lang!(go::Tokens, Go, go::Config::default().with_package("own"), go::import("p", "A"), "p.A", "package own", "import \"p\""),
            8 => lang!(swift::Tokens, Swift, swift::Config::default(), swift::import("p", "A"), "A", "", "import p"),
            9 => lang!(c::Tokens, C, c::Config::default(), c::include_system("p", "A"), "A", "", "#include <p>"),
            10 => lang!(dart::Tokens, Dart, dart::Config::default(), dart::import("p", "A"), "A", "", "import \"p\";"),
            11 => lang!(nix::Tokens, Nix, nix::Config::default().with_scoped(true), nix::with("p", "A"), "A", "", "with p;"),
            12 => lang!(nix::Tokens, Nix, nix::Config::default(), nix::with("p", "A"), "A", "", "{\n    p,\n    ...\n}:\n\nwith p;", "{\n    ...\n}:"),
            _ => {
                let mut t = csharp::Tokens::new();
                let (used, v) = steps!(t, n, csharp::import("p", "A"));
                if used {
                    m.op(Op::Lit("using p;"));
                    m.op(Op::Line);
                }
                m.op(Op::Lit("namespace own {"));
                m.op(Op::Indent(1));
                ops(&mut m, &v, "A");
                m.op(Op::Indent(-1));
                m.op(Op::Lit("}"));
                let mut w = fmt::FmtWriter::new(String::new());
                let f = fmt::Config::from_lang::<Csharp>();
                let c = csharp::Config::default().with_namespace("own");
                match t.format_file(&mut w.as_formatter(&f), &c) { Ok(()) => Some(w.into_inner()), Err(_) => None }
            }
        };
        let s = match s { Some(s) => s, None => return fail(1) };
        out_s(&s);
        m.out.push(b'\n');
        check(s.as_bytes() == &m.out[..], 2);
        check(clean_file(s.as_bytes()), 3);
        reach(1);
    }
}
