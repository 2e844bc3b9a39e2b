//! A value appended to a stream contributes exactly its own text.
use crate::lang::*;
use crate::sx::*;
use genco::prelude::*;
use genco::tokens::{display, from_fn, static_literal, Item, ItemStr};
use std::borrow::Cow;
use std::fmt;
use std::rc::Rc;

/// Two texts around the value, whatever it is.
fn around(f: impl FnOnce(&mut Tok), want: &str) {
    around_out(f, want, true)
}

fn around_out(f: impl FnOnce(&mut Tok), want: &str, show: bool) {
    around_ws(f, want, show, choose(0, 2))
}

fn around_ws(f: impl FnOnce(&mut Tok), want: &str, show: bool, ws: u64) {
    let mut t = Tok::new();
    t.append("<");
    let (mid, end) = match ws {
        0 => ("", ""),
        1 => {
            t.space();
            (" ", " ")
        }
        _ => {
            t.indent();
            ("\n    ", "\n")
        }
    };
    f(&mut t);
    match ws {
        0 => (),
        1 => t.space(),
        _ => t.unindent(),
    }
    t.append(">");
    // whether an empty text separates two whitespace requests is left open
    assume(ws == 0 || !want.is_empty());
    let mut w = String::from("<");
    w.push_str(mid);
    w.push_str(want);
    w.push_str(end);
    w.push('>');
    match t.to_string() {
        Ok(o) => {
            if show {
                out_s(&o);
            }
            check(o == w, 1);
            reach(1);
        }
        Err(_) => fail(2),
    }
}

/// Independent of the standard library's formatting: does `s` spell `v` (given as sign and magnitude)?
fn spells(s: &[u8], neg: bool, mag: u128) -> bool {
    let s = if neg {
        match s.split_first() {
            Some((b'-', r)) => r,
            _ => return false,
        }
    } else {
        s
    };
    if s.is_empty() || s.len() > 39 || (s[0] == b'0' && s.len() > 1) {
        return false;
    }
    let mut v = 0u128;
    let mut ok = true;
    for b in s {
        ok &= *b >= b'0' && *b <= b'9';
        v = v.wrapping_mul(10).wrapping_add((*b - b'0') as u128);
    }
    ok && v == mag
}

macro_rules! int {
    ($v:expr) => {{
        let v = $v;
        let want = v.to_string();
        around(|t| t.append(v), &want);
    }};
}

/// The types of 64 bits, whose digits take the solver long, only without whitespace around.
macro_rules! long_int {
    ($v:expr) => {{
        let v = $v;
        let want = v.to_string();
        around_ws(|t| t.append(v), &want, true, 0);
    }};
}

/// 128-bit integers: the engine has a stand-in for their digits (an injective one), so that the text
/// itself is not comparable to the native one.
macro_rules! wide_int {
    ($v:expr) => {{
        let v = $v;
        let want = v.to_string();
        around_out(|t| t.append(v), &want, false);
    }};
}

fn edge(f: impl FnOnce(&mut Tok), neg: bool, mag: u128) {
    let mut t = Tok::new();
    f(&mut t);
    match t.to_string() {
        Ok(o) => {
            out_s(&o);
            check(spells(o.as_bytes(), neg, mag), 1);
            reach(1);
        }
        Err(_) => fail(2),
    }
}

fn wide() -> u128 {
    (any_u64() as u128) << 64 | any_u64() as u128
}

fn text(n: u64) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(ch());
    }
    s
}

struct Parts<'a>(&'a str, char);
impl fmt::Display for Parts<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        use fmt::Write as _;
        f.write_str(self.0)?;
        f.write_char(self.1)?;
        f.write_str("")?;
        f.write_str(self.0)
    }
}

const LENS: [usize; 8] = [0, 1, 22, 23, 24, 64, 255, 1025];

harnesses! {
    // Every value of every integer type.
    fn h_value_int() {
        match choose(0, 11) {
            0 => int!(any_u64() as u8),
            1 => int!(any_u64() as u16),
            2 => int!(any_u64() as u32),
            3 => long_int!(any_u64()),
            4 => wide_int!(wide()),
            5 => int!(any_u64() as i8),
            6 => int!(any_u64() as i16),
            7 => int!(any_u64() as i32),
            8 => long_int!(any_u64() as i64),
            9 => wide_int!(wide() as i128),
            10 => long_int!(any_u64() as usize),
            _ => long_int!(any_u64() as isize),
        }
    }

    // The ends and the powers of ten and two of the wide types: known values.
    fn h_value_edge() {
        let two = flag();
        let k = choose(0, if two { 127 } else { 38 }) as u32;
        let p: u128 = if two { 1 << k } else { 10u128.pow(k) };
        let v = match choose(0, 3) {
            0 => p,
            1 => p.wrapping_sub(1),
            2 => p.wrapping_neg(),
            _ => p.wrapping_neg().wrapping_add(1),
        };
        match choose(0, 6) {
            0 => edge(|t| t.append(v as u32), false, v as u32 as u128),
            1 => edge(|t| t.append(v as i32), (v as i32) < 0, (v as i32).unsigned_abs() as u128),
            2 => edge(|t| t.append(v as u64), false, v as u64 as u128),
            3 => edge(|t| t.append(v as i64), (v as i64) < 0, (v as i64).unsigned_abs() as u128),
            4 => edge(|t| t.append(v), false, v),
            5 => edge(|t| t.append(v as i128), (v as i128) < 0, (v as i128).unsigned_abs()),
            _ => edge(|t| t.append(v as usize), false, v as usize as u128),
        }
    }

    // The small types against an independent reading of the digits.
    fn h_value_digits() {
        let v = any_u64();
        let mut t = Tok::new();
        let (neg, mag) = match choose(0, 3) {
            0 => { t.append(v as u8); (false, v as u8 as u128) }
            1 => { t.append(v as i8); ((v as i8) < 0, (v as i8).unsigned_abs() as u128) }
            2 => { t.append(v as u16); (false, v as u16 as u128) }
            _ => { t.append(v as i16); ((v as i16) < 0, (v as i16).unsigned_abs() as u128) }
        };
        match t.to_string() {
            Ok(o) => {
                out_s(&o);
                check(spells(o.as_bytes(), neg, mag), 1);
                reach(1);
            }
            Err(_) => fail(2),
        }
    }

    // Every way to give a text. params: 0 = characters
    fn h_value_text() {
        let mut s = text(choose(0, param(0)));
        let pad = LENS[choose(0, LENS.len() as u64 - 1) as usize];
        for i in 0..pad {
            s.push((b'a' + (i % 26) as u8) as char);
        }
        let r: &str = &s;
        let c = s.clone();
        match choose(0, 21) {
            0 => around(|t| t.append(format_args!("{}", r)), r),
            1 => around(|t| t.append(format_args!("[{}{}]", r, 7)), &{ let mut w = String::from("["); w.push_str(r); w.push_str("7]"); w }),
            2 => around(|t| t.append(display(Parts(r, 'x'))), &{ let mut w = String::from(r); w.push('x'); w.push_str(r); w }),
            3 => around(|t| t.append(display(r)), r),
            4 => around(|t| t.append(static_literal(Box::leak(c.into_boxed_str()))), r),
            5 => around(|t| t.append(ItemStr::Static(Box::leak(c.into_boxed_str()))), r),
            6 => around(|t| t.append(&ItemStr::Static(Box::leak(c.into_boxed_str()))), r),
            7 => around(|t| t.append(ItemStr::from(&ItemStr::from(r))), r),
            8 => around(|t| t.append(ItemStr::from(&c)), r),
            9 => around(|t| t.append(ItemStr::from(&r)), r),
            10 => around(|t| t.append(ItemStr::from(Cow::Borrowed(r))), r),
            11 => around(|t| t.append(ItemStr::from(Cow::<str>::Owned(c))), r),
            12 => around(|t| t.append(ItemStr::from(&Cow::Borrowed(r))), r),
            13 => around(|t| t.append(ItemStr::from(&Cow::<str>::Owned(c))), r),
            14 => around(|t| t.append(ItemStr::from(Rc::new(c))), r),
            15 => {
                // the shared string is shared, not taken
                let rc = Rc::new(c);
                let other = rc.clone();
                around(|t| t.append(rc), r);
                check(*other == *r, 3);
            }
            16 => around(|t| t.append(Some(Some(c))), r),
            17 => around(|t| t.append(vec![Some(c), None]), r),
            18 => around(|t| t.append(from_fn(|t| t.append(r))), r),
            19 => around(|t| t.append(Item::Literal(ItemStr::from(c))), r),
            20 => around(|t| t.append(from_fn(|t| { t.append(from_fn(|t| t.append(r))) })), r),
            _ => around(|t| quote_in!(*t => $r), r),
        }
    }

    // Lists contribute their parts one after another. params: 0 = longest list
    fn h_value_lists() {
        let m = param(0);
        let k = choose(0, m + 5);
        let v: Vec<String> = if k <= m {
            (0..k).map(|_| text(choose(0, 1))).collect()
        } else {
            let n = [8, 15, 17, 33, 65][(k - m - 1) as usize];
            let c = choose(0, 2) as usize * (n - 1) / 2;
            (0..n).map(|i| if i == c { text(1) } else { String::from(["a", "", "bc", "d"][i % 4]) }).collect()
        };
        let mut want = String::new();
        for s in &v {
            want.push_str(s);
        }
        let refs: Vec<&str> = v.iter().map(|s| &**s).collect();
        match choose(0, 8) {
            0 => around(|t| t.append(v.clone()), &want),
            1 => around(|t| t.append(&v), &want),
            2 => around(|t| t.append(&refs[..]), &want),
            3 => around(|t| t.append(Cow::Borrowed(&refs[..])), &want),
            4 => around(|t| t.append(Cow::<[String]>::Owned(v.clone())), &want),
            5 => around(|t| t.append(&Cow::Borrowed(&refs[..])), &want),
            6 => around(|t| t.append(&Cow::<[String]>::Owned(v.clone())), &want),
            7 => around(|t| t.append(vec![refs.clone(), Vec::new(), refs.clone()]), &{ let mut w = want.clone(); w.push_str(&want); w }),
            _ => around(|t| quote_in!(*t => $(for s in &refs => $(*s))), &want),
        }
    }
}
