//! Reference lexers for string literals: what text does a literal denote in its language?
//! Written from the language references, independently of genco. `None` means: not one complete,
//! valid literal. The result is UTF-8 text in which an interpolated expression is written as
//! `0xff expression 0xfe`.

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum L {
    Rust,
    Python,
    C,
    Csharp,
    Go,
    Swift,
    Java,
    Js,
    Dart,
    Nix,
}

pub struct Dec<'a> {
    s: &'a [u8],
    i: usize,
    pub out: Vec<u8>,
    /// pending high surrogate
    hi: u32,
}

/// Value of a hexadecimal digit. Without branches, to keep one path for all digits.
fn hexv(b: u8) -> Option<u32> {
    let d = (b as u32).wrapping_sub(48);
    let l = (b as u32 | 0x20).wrapping_sub(97);
    let (isd, isl) = (d < 10, l < 6);
    let v = (d & (isd as u32).wrapping_neg()) | (l.wrapping_add(10) & (isl as u32).wrapping_neg());
    if isd | isl {
        Some(v)
    } else {
        None
    }
}
fn is_oct(b: u8) -> bool {
    b >= b'0' && b <= b'7'
}
fn is_digit(b: u8) -> bool {
    b >= b'0' && b <= b'9'
}
pub fn is_ident_start(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || b == b'_'
}
pub fn is_ident(b: u8) -> bool {
    is_ident_start(b) || is_digit(b)
}

impl<'a> Dec<'a> {
    fn peek(&self) -> u8 {
        // 0xf8 never occurs in UTF-8
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0xf8
        }
    }
    fn byte(&mut self, b: u8) -> Option<()> {
        if self.hi != 0 {
            return None;
        }
        self.out.push(b);
        Some(())
    }
    /// Append a code point.
    fn cp(&mut self, c: u32) -> Option<()> {
        if self.hi != 0 {
            return None;
        }
        if c < 0x80 {
            self.out.push(c as u8);
        } else if c < 0x800 {
            self.out.push(0xc0 | (c >> 6) as u8);
            self.out.push(0x80 | (c & 0x3f) as u8);
        } else if c < 0x10000 {
            if c >= 0xd800 && c < 0xe000 {
                return None;
            }
            self.out.push(0xe0 | (c >> 12) as u8);
            self.out.push(0x80 | ((c >> 6) & 0x3f) as u8);
            self.out.push(0x80 | (c & 0x3f) as u8);
        } else if c < 0x110000 {
            self.out.push(0xf0 | (c >> 18) as u8);
            self.out.push(0x80 | ((c >> 12) & 0x3f) as u8);
            self.out.push(0x80 | ((c >> 6) & 0x3f) as u8);
            self.out.push(0x80 | (c & 0x3f) as u8);
        } else {
            return None;
        }
        Some(())
    }
    /// Append a UTF-16 code unit.
    fn unit(&mut self, u: u32) -> Option<()> {
        if u >= 0xd800 && u < 0xdc00 {
            if self.hi != 0 {
                return None;
            }
            self.hi = u;
            return Some(());
        }
        if u >= 0xdc00 && u < 0xe000 {
            if self.hi == 0 {
                return None;
            }
            let c = 0x10000 + ((self.hi - 0xd800) << 10) + (u - 0xdc00);
            self.hi = 0;
            return self.cp(c);
        }
        self.cp(u)
    }
    /// Exactly `n` hexadecimal digits.
    fn hex(&mut self, n: usize) -> Option<u32> {
        let mut v = 0;
        let mut k = 0;
        while k < n {
            let d = hexv(self.peek())?;
            v = v * 16 + d;
            self.i += 1;
            k += 1;
        }
        Some(v)
    }
    /// As many hexadecimal digits as there are, between 1 and `max`.
    fn hex_greedy(&mut self, max: usize) -> Option<u32> {
        let mut v = self.hex(1)?;
        let mut k = 1;
        while k < max {
            match hexv(self.peek()) {
                Some(d) => {
                    v = v * 16 + d;
                    self.i += 1;
                    k += 1;
                }
                None => break,
            }
        }
        Some(v)
    }
    fn braced_hex(&mut self, max: usize) -> Option<u32> {
        if self.peek() != b'{' {
            return None;
        }
        self.i += 1;
        let v = self.hex_greedy(max)?;
        if self.peek() != b'}' {
            return None;
        }
        self.i += 1;
        Some(v)
    }
    fn oct_greedy(&mut self, max: usize) -> u32 {
        let mut v = 0;
        let mut k = 0;
        while k < max && is_oct(self.peek()) {
            v = v * 8 + (self.peek() - b'0') as u32;
            self.i += 1;
            k += 1;
        }
        v
    }

    /// The escape sequence after a backslash.
    fn escape(&mut self, l: L, template: bool) -> Option<()> {
        let e = self.peek();
        if e == 0xf8 {
            return None;
        }
        // escapes shared by (almost) everything
        match e {
            b'\\' | b'"' => {
                self.i += 1;
                return self.byte(e);
            }
            b'n' => {
                self.i += 1;
                return self.byte(b'\n');
            }
            b't' => {
                self.i += 1;
                return self.byte(b'\t');
            }
            b'r' => {
                self.i += 1;
                return self.byte(b'\r');
            }
            b'\'' => {
                self.i += 1;
                if l == L::Go {
                    return None;
                }
                return self.byte(b'\'');
            }
            _ => {}
        }
        let simple = |c: u8| -> Option<u8> {
            let a = match c {
                b'a' => 7,
                b'b' => 8,
                b'f' => 12,
                b'v' => 11,
                _ => return None,
            };
            let ok = match l {
                L::C | L::Csharp | L::Go | L::Python => true,
                L::Java => a == 8 || a == 12,
                L::Js | L::Dart => a != 7,
                _ => false,
            };
            if ok {
                Some(a)
            } else {
                None
            }
        };
        if let Some(b) = simple(e) {
            self.i += 1;
            return self.byte(b);
        }
        match l {
            L::Rust => match e {
                b'0' => {
                    self.i += 1;
                    self.byte(0)
                }
                b'x' => {
                    self.i += 1;
                    let v = self.hex(2)?;
                    if v > 0x7f {
                        return None;
                    }
                    self.byte(v as u8)
                }
                b'u' => {
                    self.i += 1;
                    let v = self.braced_hex(6)?;
                    self.cp(v)
                }
                _ => None,
            },
            L::Swift => match e {
                b'0' => {
                    self.i += 1;
                    self.byte(0)
                }
                b'u' => {
                    self.i += 1;
                    let v = self.braced_hex(8)?;
                    self.cp(v)
                }
                _ => None,
            },
            L::Python => match e {
                b'0'..=b'7' => {
                    let v = self.oct_greedy(3);
                    self.cp(v)
                }
                b'x' => {
                    self.i += 1;
                    let v = self.hex(2)?;
                    self.cp(v)
                }
                b'u' => {
                    self.i += 1;
                    let v = self.hex(4)?;
                    self.cp(v)
                }
                b'U' => {
                    self.i += 1;
                    let v = self.hex(8)?;
                    self.cp(v)
                }
                _ => None,
            },
            L::C => match e {
                b'?' => {
                    self.i += 1;
                    self.byte(b'?')
                }
                b'0'..=b'7' => {
                    let v = self.oct_greedy(3);
                    if v > 0xff {
                        return None;
                    }
                    self.byte(v as u8)
                }
                b'x' => {
                    self.i += 1;
                    let v = self.hex_greedy(20)?;
                    if v > 0xff {
                        return None;
                    }
                    self.byte(v as u8)
                }
                b'u' | b'U' => {
                    self.i += 1;
                    let v = self.hex(if e == b'u' { 4 } else { 8 })?;
                    // universal character names below U+00A0 are not permitted
                    if v < 0xa0 && v != 0x24 && v != 0x40 && v != 0x60 {
                        return None;
                    }
                    self.cp(v)
                }
                _ => None,
            },
            L::Go => match e {
                b'0'..=b'7' => {
                    let at = self.i;
                    let v = self.oct_greedy(3);
                    if self.i != at + 3 || v > 0xff {
                        return None;
                    }
                    self.byte(v as u8)
                }
                b'x' => {
                    self.i += 1;
                    let v = self.hex(2)?;
                    self.byte(v as u8)
                }
                b'u' | b'U' => {
                    self.i += 1;
                    let v = self.hex(if e == b'u' { 4 } else { 8 })?;
                    self.cp(v)
                }
                _ => None,
            },
            L::Csharp => match e {
                b'0' => {
                    self.i += 1;
                    self.byte(0)
                }
                b'x' => {
                    self.i += 1;
                    let v = self.hex_greedy(4)?;
                    self.unit(v)
                }
                b'u' => {
                    self.i += 1;
                    let v = self.hex(4)?;
                    self.unit(v)
                }
                b'U' => {
                    self.i += 1;
                    let v = self.hex(8)?;
                    self.cp(v)
                }
                _ => None,
            },
            L::Java => match e {
                b's' => {
                    self.i += 1;
                    self.byte(b' ')
                }
                b'0'..=b'7' => {
                    let v = if e <= b'3' { self.oct_greedy(3) } else { self.oct_greedy(2) };
                    self.cp(v)
                }
                // `\u` is handled before
                _ => None,
            },
            L::Js => match e {
                b'0' => {
                    self.i += 1;
                    if is_digit(self.peek()) {
                        return None;
                    }
                    self.byte(0)
                }
                b'1'..=b'9' => None,
                b'x' => {
                    self.i += 1;
                    let v = self.hex(2)?;
                    self.cp(v)
                }
                b'u' => {
                    self.i += 1;
                    if self.peek() == b'{' {
                        let v = self.braced_hex(8)?;
                        self.cp(v)
                    } else {
                        let v = self.hex(4)?;
                        self.unit(v)
                    }
                }
                b'\n' | b'\r' => None,
                // an identity escape
                0x80..=0xff => None,
                c => {
                    let _ = template;
                    self.i += 1;
                    self.byte(c)
                }
            },
            L::Dart => match e {
                b'x' => {
                    self.i += 1;
                    let v = self.hex(2)?;
                    self.unit(v)
                }
                b'u' => {
                    self.i += 1;
                    if self.peek() == b'{' {
                        let v = self.braced_hex(6)?;
                        self.cp(v)
                    } else {
                        let v = self.hex(4)?;
                        self.unit(v)
                    }
                }
                b'\n' | b'\r' | 0x80..=0xff => None,
                c => {
                    self.i += 1;
                    self.byte(c)
                }
            },
            L::Nix => match e {
                // any other character stands for itself
                0x80..=0xff => None,
                c => {
                    self.i += 1;
                    self.byte(c)
                }
            },
        }
    }

    /// `{ expression }`, at the opening brace. Braces inside have to match.
    fn braced_expr(&mut self) -> Option<()> {
        self.i += 1;
        self.byte(0xff)?;
        let mut depth = 0;
        loop {
            let b = self.peek();
            if b == 0xf8 {
                return None;
            }
            self.i += 1;
            if b == b'}' {
                if depth == 0 {
                    break;
                }
                depth -= 1;
            }
            if b == b'{' {
                depth += 1;
            }
            self.out.push(b);
        }
        self.byte(0xfe)
    }

    fn body(&mut self, l: L, delim: u8) -> Option<()> {
        let template = delim == b'`';
        loop {
            let b = self.peek();
            if b == 0xf8 {
                return None;
            }
            if b == delim {
                self.i += 1;
                return if self.hi == 0 { Some(()) } else { None };
            }
            match b {
                b'\\' => {
                    if l == L::Java && self.i + 1 < self.s.len() && self.s[self.i + 1] == b'u' {
                        // A unicode escape is translated before anything else. Backslashes are always
                        // consumed in pairs here, so this one is preceded by an even number of them.
                        self.i += 1;
                        while self.peek() == b'u' {
                            self.i += 1;
                        }
                        let v = self.hex(4)?;
                        // it must not act as a line break, delimiter or escape
                        if v == 10 || v == 13 || v == 0x22 || v == 0x5c {
                            return None;
                        }
                        self.unit(v)?;
                        continue;
                    }
                    self.i += 1;
                    self.escape(l, template)?;
                    continue;
                }
                b'\n' => {
                    if !(template || l == L::Nix || l == L::Rust) {
                        return None;
                    }
                }
                b'\r' => {
                    // a raw carriage return is invalid, or does not denote itself
                    return None;
                }
                0 => {
                    if l != L::Js && l != L::Dart && l != L::Java {
                        return None;
                    }
                }
                b'$' if l == L::Dart || template || l == L::Nix => {
                    let n = if self.i + 1 < self.s.len() { self.s[self.i + 1] } else { 0xf8 };
                    if n == b'{' {
                        self.i += 1;
                        self.braced_expr()?;
                        continue;
                    }
                    if l == L::Dart {
                        if !is_ident_start(n) {
                            return None;
                        }
                        self.i += 1;
                        self.byte(0xff)?;
                        while is_ident(self.peek()) {
                            let b = self.peek();
                            self.out.push(b);
                            self.i += 1;
                        }
                        self.byte(0xfe)?;
                        continue;
                    }
                    if l == L::Nix && n == b'$' {
                        // `$$` is two plain characters, even before a brace
                        self.i += 2;
                        self.byte(b'$')?;
                        self.byte(b'$')?;
                        continue;
                    }
                }
                // further line terminators of C#
                0xc2 if l == L::Csharp => {
                    if self.i + 1 < self.s.len() && self.s[self.i + 1] == 0x85 {
                        return None;
                    }
                }
                0xe2 if l == L::Csharp => {
                    if self.i + 2 < self.s.len() && self.s[self.i + 1] == 0x80 && (self.s[self.i + 2] == 0xa8 || self.s[self.i + 2] == 0xa9) {
                        return None;
                    }
                }
                _ => {}
            }
            self.i += 1;
            self.byte(b)?;
        }
    }
}

/// The text one complete literal denotes.
pub fn decode(l: L, s: &str) -> Option<Vec<u8>> {
    let mut d = Dec { s: s.as_bytes(), i: 0, out: Vec::new(), hi: 0 };
    let delim = d.peek();
    if !(delim == b'"' || (l == L::Js && delim == b'`')) {
        return None;
    }
    d.i = 1;
    d.body(l, delim)?;
    if d.i != d.s.len() {
        return None;
    }
    Some(d.out)
}
