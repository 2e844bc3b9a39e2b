use crate::lang::*;
use crate::model::*;
use crate::sx::*;
use genco::fmt;
use genco::tokens::Item;

/// A letter which names the position in the stream, so that reordering or dropping is visible.
const NAMES: [&str; 12] = ["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"];
const IMPS: [&str; 12] = ["A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L"];

fn unit_of(k: u64) -> (fmt::Indentation, &'static [u8]) {
    match k {
        0 => (fmt::Indentation::Space(4), b"    "),
        1 => (fmt::Indentation::Tab, b"\t"),
        2 => (fmt::Indentation::Space(1), b" "),
        _ => (fmt::Indentation::Space(0), b""),
    }
}

fn nl_of(k: u64) -> &'static str {
    match k {
        0 => "\n",
        1 => "\r\n",
        _ => "",
    }
}

/// Apply one operation to the stream and to the model. `0 lit,1 space,2 push,3 line,4 indent,
/// 5 unindent,6 wide indentation,7 empty lit,8 lang item,9 register`.
fn step(k: u64, i: usize, t: &mut Tok, m: &mut Layout) {
    match k {
        0 => {
            t.append(NAMES[i]);
            m.op(Op::Lit(NAMES[i]));
        }
        1 => {
            t.space();
            m.op(Op::Space);
        }
        2 => {
            t.push();
            m.op(Op::Push);
        }
        3 => {
            t.line();
            m.op(Op::Line);
        }
        4 => {
            t.indent();
            m.op(Op::Indent(1));
        }
        5 => {
            t.unindent();
            m.op(Op::Indent(-1));
        }
        6 => {
            let n = choose(0, 5) as i16;
            let n = if n < 3 { n - 3 } else { n - 1 }; // -3 -2 -1 2 3 4
            t.append(Item::Indentation(n));
            m.op(Op::Indent(n));
        }
        7 => {
            t.append("");
            m.op(Op::Nothing);
        }
        8 => {
            t.append(Import(i as u8));
            m.op(Op::Lit(IMPS[i]));
        }
        _ => {
            t.register(Import(i as u8));
            m.op(Op::Nothing);
        }
    }
}

fn render(t: &Tok, ind: fmt::Indentation, nl: &'static str, file: bool) -> Option<String> {
    let mut w = fmt::FmtWriter::new(String::new());
    let c = fmt::Config::from_lang::<T>().with_indentation(ind).with_newline(nl);
    let mut f = w.as_formatter(&c);
    let r = if file { t.format_file(&mut f, &()) } else { t.format(&mut f, &(), &()) };
    match r {
        Ok(()) => Some(w.into_inner()),
        Err(_) => None,
    }
}

harnesses! {
    // params: 0 = number of operations, 1 = highest operation kind
    fn h_layout() {
        let n = param(0) as usize;
        let kinds = param(1);
        let mut t = Tok::new();
        let mut m = Layout::new(b"    ", "\n");
        let mut i = 0;
        while i < n {
            let k = choose(0, kinds);
            step(k, i, &mut t, &mut m);
            i += 1;
        }
        match t.to_string() {
            Ok(s) => {
                out_s(&s);
                if s.len() > 1 {
                    reach(1);
                }
                check(s.as_bytes() == &m.out[..], 1);
            }
            Err(_) => fail(2),
        }
        match t.to_file_string() {
            Ok(s) => {
                out_s(&s);
                m.out.push(b'\n');
                check(s.as_bytes() == &m.out[..], 3);
            }
            Err(_) => fail(4),
        }
    }

    // As above, over every indentation unit and line break the formatter can be configured with.
    fn h_layout_cfg() {
        let n = param(0) as usize;
        let (ind, unit) = unit_of(choose(0, 3));
        let nl = nl_of(choose(0, 2));
        let mut t = Tok::new();
        let mut m = Layout::new(unit, nl);
        let mut i = 0;
        while i < n {
            let k = choose(0, 5);
            step(k, i, &mut t, &mut m);
            i += 1;
        }
        match render(&t, ind, nl, false) {
            Some(s) => {
                out_s(&s);
                check(s.as_bytes() == &m.out[..], 1);
            }
            None => fail(2),
        }
        match render(&t, ind, nl, true) {
            Some(s) => {
                m.out.extend_from_slice(nl.as_bytes());
                check(s.as_bytes() == &m.out[..], 3);
            }
            None => fail(4),
        }
    }

    // Anything between two texts, over every indentation unit and line break. The text in front may
    // be at a deeper level. params: 0 = operations
    fn h_layout_between() {
        let n = param(0) as usize;
        let (ind, unit) = unit_of(choose(0, 3));
        let nl = nl_of(choose(0, 1));
        let mut t = Tok::new();
        let mut m = Layout::new(unit, nl);
        if choose(0, 1) == 1 {
            step(4, 0, &mut t, &mut m);
        }
        step(0, 0, &mut t, &mut m);
        for i in 0..n {
            let k = choose(0, 6);
            step(if k == 6 { 7 } else { k }, i + 1, &mut t, &mut m);
        }
        step(0, n + 1, &mut t, &mut m);
        match render(&t, ind, nl, false) {
            Some(s) => {
                out_s(&s);
                check(s.as_bytes() == &m.out[..], 1);
                reach(1);
            }
            None => fail(2),
        }
    }

    // Width of indentation and line breaks for every level, unit and pending space, through a
    // writer which only counts. params: 0 = largest level, 1 = largest unit.
    fn h_layout_width() {
        let maxl = param(0);
        let maxu = param(1);
        let level = range(0, maxl) as i64;
        let level = if choose(0, 1) == 1 { -level } else { level };
        let before = flag();
        let line = flag();
        let space = flag();
        let tab = choose(0, 1) == 1;
        let unit = if tab { 0 } else { choose(0, maxu) };
        let ind = if tab { fmt::Indentation::Tab } else { fmt::Indentation::Space(unit as usize) };
        let mut t = Tok::new();
        if before {
            t.append("x");
        }
        t.append(Item::Indentation(level as i16));
        if line {
            t.line();
        }
        if space {
            t.space();
        }
        t.append("y");
        let mut w = fmt::FmtWriter::new(Count { ..Count::default() });
        let c = fmt::Config::from_lang::<T>().with_indentation(ind);
        let r = t.format(&mut w.as_formatter(&c), &(), &());
        check(r.is_ok(), 1);
        let c = w.into_inner();
        let depth = if level > 0 { level as u64 } else { 0 };
        let spaces = (if tab { 0 } else { depth * unit }) + space as u64;
        let tabs = if tab { depth } else { 0 };
        // with no net indentation change nothing but the explicit requests remain
        let nl = if !before { 0 } else if line { 2 } else { (level != 0) as u64 };
        if depth > 0 {
            reach(1);
        }
        out(&[before as u8, line as u8]);
        check(c.spaces == spaces, 2);
        check(c.tabs == tabs, 3);
        check(c.newlines == nl, 4);
        check(c.text == 1 + before as u64, 5);
        check(c.clean, 6);
    }

    // The level may go through any i16 and come back, in any three steps which stay in range.
    fn h_layout_levels() {
        let a = i16_any();
        let b = i16_any();
        let c = range(0, 40) as i16;
        // the change from the second to the third level has to be expressible
        assume((c as i32 - b as i32) <= 32767 && (c as i32 - b as i32) >= -32768);
        assume((b as i32 - a as i32) <= 32767 && (b as i32 - a as i32) >= -32768);
        let mut t = Tok::new();
        t.append(Item::Indentation(a));
        t.append(Import(0));
        // texts at the intermediate levels write nothing, so the levels are free
        t.append("");
        t.append(Item::Indentation(b - a));
        t.append("");
        t.append(Item::Indentation(c - b));
        t.append("y");
        // remove the first item's own line by formatting with a zero-width unit
        let mut w = fmt::FmtWriter::new(Count { ..Count::default() });
        let cf = fmt::Config::from_lang::<T>().with_indentation(fmt::Indentation::Space(0));
        check(t.format(&mut w.as_formatter(&cf), &(), &()).is_ok(), 1);
        let k = w.into_inner();
        check(k.spaces == 0 && k.tabs == 0 && k.text == 2, 2);
        let moved = a != b || b != c;
        check(k.newlines == moved as u64, 3);
        // and with a visible unit, without the item in front
        let mut t = Tok::new();
        t.append(Item::Indentation(a));
        t.append("");
        t.append(Item::Indentation(b - a));
        t.append("");
        t.append(Item::Indentation(c - b));
        t.append("y");
        let mut w = fmt::FmtWriter::new(Count { ..Count::default() });
        let cf = fmt::Config::from_lang::<T>().with_indentation(fmt::Indentation::Space(3));
        check(t.format(&mut w.as_formatter(&cf), &(), &()).is_ok(), 4);
        let k = w.into_inner();
        check(k.spaces == 3 * c as u64, 5);
        check(k.newlines == 0 && k.tabs == 0 && k.text == 1, 6);
        reach(1);
    }
}

/// Counts what is written. Whitespace comes in runs of one kind, from one buffer each, so the first
/// and the last byte of a chunk say what it is.
#[derive(Default)]
struct Count {
    spaces: u64,
    tabs: u64,
    newlines: u64,
    text: u64,
    clean: bool,
    dirty: bool,
}

impl core::fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        let b = s.as_bytes();
        let n = b.len();
        if n == 0 {
            return Ok(());
        }
        let f = b[0];
        if b[n - 1] != f || b[n / 2] != f {
            self.dirty = true;
        }
        match f {
            b' ' => self.spaces += n as u64,
            b'\t' => self.tabs += n as u64,
            b'\n' => self.newlines += n as u64,
            _ => self.text += n as u64,
        }
        self.clean = !self.dirty;
        Ok(())
    }
}
