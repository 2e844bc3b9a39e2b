//! Reference model of what a token stream renders to (independent of genco's formatter).
//! State between written texts is just: how many line breaks are due, how many spaces are due, and
//! the indentation level.

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Op<'a> {
    Lit(&'a str),
    Space,
    Push,
    Line,
    Indent(i16),
    /// something that is in the stream but writes nothing and requests nothing
    Nothing,
}

pub struct Layout {
    pub out: Vec<u8>,
    unit: Vec<u8>,
    nl: &'static str,
    /// due before the next text
    br: u8,
    sp: usize,
    pub indent: i32,
    first: bool,
    /// the run of whitespace requests since the last non-whitespace item
    run_br: u8,
    run_sp: usize,
    run_delta: i32,
    pub overflow: bool,
}

impl Layout {
    pub fn new(unit: &[u8], nl: &'static str) -> Layout {
        Layout {
            out: Vec::new(),
            unit: unit.to_vec(),
            nl,
            br: 0,
            sp: 0,
            indent: 0,
            first: true,
            run_br: 0,
            run_sp: 0,
            run_delta: 0,
            overflow: false,
        }
    }
    fn end_run(&mut self) {
        if self.run_br > 0 {
            self.br = if self.run_br > self.br { self.run_br } else { self.br };
            self.sp = self.run_sp;
        } else {
            self.sp += self.run_sp;
        }
        self.indent += self.run_delta;
        if self.indent > 32767 || self.indent < -32768 {
            self.overflow = true;
        }
        self.run_br = 0;
        self.run_sp = 0;
        self.run_delta = 0;
    }
    pub fn text(&mut self, s: &str) {
        self.end_run();
        if s.is_empty() {
            return;
        }
        if !self.first {
            for _ in 0..self.br {
                self.out.extend_from_slice(self.nl.as_bytes());
            }
        }
        if self.first || self.br > 0 {
            let mut i = 0;
            while i < self.indent {
                self.out.extend_from_slice(&self.unit);
                i += 1;
            }
        }
        for _ in 0..self.sp {
            self.out.push(b' ');
        }
        self.out.extend_from_slice(s.as_bytes());
        self.first = false;
        self.br = 0;
        self.sp = 0;
    }
    pub fn op(&mut self, op: Op) {
        match op {
            Op::Lit(s) => self.text(s),
            Op::Nothing => self.end_run(),
            Op::Space => self.run_sp = 1,
            Op::Push => {
                self.run_br = if self.run_br == 2 { 2 } else { 1 };
                self.run_sp = 0;
            }
            Op::Line => {
                self.run_br = 2;
                self.run_sp = 0;
            }
            Op::Indent(n) => {
                self.run_delta += n as i32;
                if self.run_delta > 32767 || self.run_delta < -32768 {
                    self.overflow = true;
                }
                self.run_br = (self.run_delta != 0) as u8;
                self.run_sp = 0;
            }
        }
    }
}

/// A file never starts with an empty line, has no two consecutive empty lines, no trailing blanks
/// on a line, and ends in exactly one line break (texts themselves contain no blanks).
pub fn clean_file(s: &[u8]) -> bool {
    let n = s.len();
    if n == 0 || s[n - 1] != b'\n' {
        return false;
    }
    if n == 1 {
        return true;
    }
    let mut prev = b'\n';
    let mut prev2 = b'\n';
    let mut first = true;
    let mut i = 0;
    while i < n {
        let c = s[i];
        if c == b'\n' {
            if prev == b' ' || prev == b'\t' {
                return false;
            }
            if prev == b'\n' && (prev2 == b'\n' || first) {
                return false;
            }
            if i == n - 1 && prev == b'\n' {
                return false;
            }
        }
        first = false;
        prev2 = prev;
        prev = c;
        i += 1;
    }
    true
}
