//! Helpers to read generated import headers: which local name stands for what?
use crate::sx::*;
use genco::tokens::ItemStr;

/// One of eight letters, symbolic. Enough to tell any four names apart and to order them any way.
pub fn letter() -> u8 {
    b'a' + range(0, 7) as u8
}

use core::sync::atomic::{AtomicU64, Ordering::Relaxed};

/// How many words there were so far, to tell them apart.
static COUNT: AtomicU64 = AtomicU64::new(0);
/// The word with another letter (style 2), or the length of all (style 3).
static WHICH: AtomicU64 = AtomicU64::new(0);

/// Param 5 says what names look like:
/// 0: a prefix by role and one symbolic letter;
/// 1: one symbolic letter, upper or lower case, so that names of different roles coincide as well;
/// 2: as 0, and one of them has another letter behind it;
/// 3: as 0, all followed by plain text of a length out of a few;
/// 4: concrete ones: param 6 modules, param 7 names (0: all different), aliases all different;
/// 5: concrete ones, modules out of the first param 6 of a list of related ones, param 7 names, two aliases.
pub fn style() -> u64 {
    COUNT.store(0, Relaxed);
    WHICH.store(
        match param(5) {
            2 => choose(0, 8),
            3 => [3, 24, 70][choose(0, 2) as usize],
            _ => 0,
        },
        Relaxed,
    );
    param(5)
}

/// Which item is registered only, if any.
pub fn reg(n: u64) -> u64 {
    if param(5) >= 4 && choose(0, 1) == 1 {
        return n;
    }
    if param(5) >= 4 { 0 } else { choose(0, n) }
}

fn pick(a: u64) -> u8 {
    if a == 0 {
        let c = COUNT.fetch_add(1, Relaxed);
        return b"lcpgkamdjbnefhoi"[c as usize % 16];
    }
    b'a' + choose(0, a - 1) as u8
}

fn make(pre: &str, concrete: u64) -> String {
    let mode = param(5);
    let mut v = Vec::new();
    if mode == 5 {
        // no prefix, so that they coincide where they can
    } else if mode != 1 {
        v.extend_from_slice(pre.as_bytes());
    } else if let Some(i) = pre.rfind(|c: char| c == '.' || c == '/') {
        v.extend_from_slice(&pre.as_bytes()[..i + 1]);
    }
    match mode {
        1 => v.push(letter() ^ (range(0, 1) as u8) << 5),
        2 => {
            v.push(letter());
            if COUNT.fetch_add(1, Relaxed) == WHICH.load(Relaxed) {
                v.push(letter());
            }
        }
        3 => {
            v.push(letter());
            for i in 0..WHICH.load(Relaxed) {
                v.push(b"word_Of9"[i as usize % 8]);
            }
        }
        5 if concrete == 0 => v.push(b"bp"[choose(0, 1) as usize]),
        // like some of the modules
        5 => v.push(b"pqba"[choose(0, concrete - 1) as usize]),
        4 => v.push(pick(concrete)),
        _ => v.push(letter()),
    }
    unsafe { String::from_utf8_unchecked(v) }
}

/// The name of an item, with a prefix which may be empty.
pub fn word(pre: &str) -> String {
    make(pre, param(7))
}

/// The name of a module.
pub fn modword(pre: &str) -> String {
    make(pre, param(6))
}

/// The name of a module, or one of a list of related ones (style 5).
pub fn modof(pre: &str, list: &[&str]) -> String {
    if param(5) != 5 {
        return modword(pre);
    }
    let n = if (param(6) as usize) < list.len() { param(6) } else { list.len() as u64 };
    list[choose(0, n - 1) as usize].to_string()
}

/// Another name for something.
pub fn aliasword(pre: &str) -> String {
    make(pre, 0)
}

/// The same text, as a static or as an owned item.
pub fn istr(s: &str, fixed: bool) -> ItemStr {
    if fixed {
        ItemStr::Static(Box::leak(s.to_owned().into_boxed_str()))
    } else {
        ItemStr::from(s)
    }
}

/// Equality without a case split.
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    let mut i = 0;
    while i < a.len() {
        d |= a[i] ^ b[i];
        i += 1;
    }
    d == 0
}

pub fn eqo(a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => eq(a, b),
        _ => false,
    }
}

pub fn is_word(b: u8) -> bool {
    (b >= b'a' && b <= b'z') || (b >= b'A' && b <= b'Z') || (b >= b'0' && b <= b'9') || b == b'_'
}

pub struct P<'a> {
    pub s: &'a [u8],
    pub i: usize,
}

impl<'a> P<'a> {
    pub fn new(s: &'a [u8]) -> P<'a> {
        P { s, i: 0 }
    }
    pub fn done(&self) -> bool {
        self.i >= self.s.len()
    }
    pub fn peek(&self) -> u8 {
        if self.i < self.s.len() {
            self.s[self.i]
        } else {
            0
        }
    }
    pub fn eat(&mut self, w: &str) -> bool {
        let w = w.as_bytes();
        if self.i + w.len() > self.s.len() {
            return false;
        }
        let mut k = 0;
        while k < w.len() {
            if self.s[self.i + k] != w[k] {
                return false;
            }
            k += 1;
        }
        self.i += w.len();
        true
    }
    pub fn need(&mut self, w: &str) -> Option<()> {
        if self.eat(w) {
            Some(())
        } else {
            None
        }
    }
    /// A word, with further characters allowed inside.
    pub fn word(&mut self, also: &[u8]) -> Option<&'a [u8]> {
        let a = self.i;
        while self.i < self.s.len() {
            let b = self.s[self.i];
            let mut ok = is_word(b);
            for x in also {
                ok |= b == *x;
            }
            if !ok {
                break;
            }
            self.i += 1;
        }
        if self.i == a {
            return None;
        }
        Some(&self.s[a..self.i])
    }
    pub fn until(&mut self, end: u8) -> Option<&'a [u8]> {
        let a = self.i;
        while self.i < self.s.len() {
            if self.s[self.i] == end {
                self.i += 1;
                return Some(&self.s[a..self.i - 1]);
            }
            self.i += 1;
        }
        None
    }
    /// An optional ` as name`.
    pub fn alias(&mut self) -> Option<&'a [u8]> {
        if self.eat(" as ") {
            self.word(&[])
        } else {
            None
        }
    }
}

/// Cut a file into its header and the references in its body. The body is `@[r][r]...`.
pub fn split(s: &[u8]) -> Option<(&[u8], Vec<&[u8]>)> {
    let mut p = P::new(s);
    let header = p.until(b'@')?;
    let mut refs = Vec::new();
    while p.eat("[") {
        refs.push(p.until(b']')?);
    }
    p.need("\n")?;
    if !p.done() {
        return None;
    }
    Some((header, refs))
}

/// The header is separated from the body by one empty line, if there is a header.
pub fn spaced(h: &[u8]) -> bool {
    let n = h.len();
    n == 0 || (n >= 3 && h[n - 1] == b'\n' && h[n - 2] == b'\n' && h[n - 3] != b'\n' && h[0] != b'\n')
}

/// The part before the last separator, and what follows it.
pub fn rsplit<'a>(s: &'a [u8], sep: &str) -> (Option<&'a [u8]>, &'a [u8]) {
    let w = sep.as_bytes();
    let mut i = s.len();
    while i >= w.len() {
        if eq(&s[i - w.len()..i], w) {
            return (Some(&s[..i - w.len()]), &s[i..]);
        }
        i -= 1;
    }
    (None, s)
}
