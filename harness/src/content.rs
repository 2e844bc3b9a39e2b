//! Equality, order, hashing and iteration go by content.
use crate::lang::*;
use crate::sx::*;
use core::cmp::Ordering;
use core::hash::{Hash, Hasher};
use genco::tokens::{Item, ItemStr};

/// Remembers what it was fed.
#[derive(Default)]
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
        self.0.push(b.len() as u8);
    }
    fn finish(&self) -> u64 {
        0
    }
}

fn hashed<H: Hash + ?Sized>(h: &H) -> Vec<u8> {
    let mut r = Rec::default();
    h.hash(&mut r);
    r.0
}

/// Compare two values which should be equal if and only if `same`.
fn agree<V: Eq + Ord + Hash>(a: &V, b: &V, same: bool, id: u64) {
    check((a == b) == same, id);
    check((b == a) == same, id);
    check((a != b) != same, id);
    let o = a.cmp(b);
    check((o == Ordering::Equal) == same, id + 1);
    check(b.cmp(a) == o.reverse(), id + 1);
    check(a.partial_cmp(b) == Some(o), id + 1);
    check((a < b) == (o == Ordering::Less) && (a > b) == (o == Ordering::Greater), id + 1);
    check((a <= b) == (o != Ordering::Greater) && (a >= b) == (o != Ordering::Less), id + 1);
    if same {
        check(hashed(a) == hashed(b), id + 2);
    }
}

fn ordered<V: Ord>(a: &V, b: &V, c: &V, id: u64) {
    if a <= b && b <= c {
        check(a <= c, id);
    }
    if a < b && b <= c {
        check(a < c, id);
    }
}

fn store(s: &str) -> ItemStr {
    if choose(0, 1) == 1 {
        ItemStr::Static(Box::leak(String::from(s).into_boxed_str()))
    } else {
        ItemStr::Box(String::from(s).into_boxed_str())
    }
}

const NAMES: [&str; 3] = ["a", "b", "ab"];

/// One item, and what it is in plain data.
fn item(kinds: u64) -> (Item<T>, [u8; 3]) {
    match choose(0, kinds) {
        0 => {
            let i = choose(0, 2);
            (Item::Literal(store(NAMES[i as usize])), [0, i as u8, 0])
        }
        1 => (Item::Space, [1, 0, 0]),
        2 => {
            // an indentation of zero leaves nothing behind
            let n = [1, 2, -1][choose(0, 2) as usize];
            (Item::Indentation(n), [2, n as u8, 0])
        }
        3 => (Item::Line, [3, 0, 0]),
        4 => (Item::Push, [4, 0, 0]),
        5 => {
            let b = choose(0, 1) == 1;
            (Item::OpenQuote(b), [5, b as u8, 0])
        }
        6 => (Item::CloseQuote, [6, 0, 0]),
        7 => (Item::OpenEval, [7, 0, 0]),
        _ => (Item::CloseEval, [8, 0, 0]),
    }
}

/// One item as it is in a stream, in plain data.
fn key(i: &Item<T>) -> [u8; 3] {
    match i {
        Item::Literal(s) => {
            let mut n = 9;
            for (k, x) in NAMES.iter().enumerate() {
                if s.as_bytes() == x.as_bytes() {
                    n = k as u8;
                }
            }
            [0, n, 0]
        }
        Item::Space => [1, 0, 0],
        Item::Indentation(n) => [2, *n as u8, (*n >> 8) as u8 ^ ((*n < 0) as u8).wrapping_neg()],
        Item::Line => [3, 0, 0],
        Item::Push => [4, 0, 0],
        Item::OpenQuote(b) => [5, *b as u8, 0],
        Item::CloseQuote => [6, 0, 0],
        Item::OpenEval => [7, 0, 0],
        Item::CloseEval => [8, 0, 0],
        Item::Lang(_, i) => match **i {
            Any::Import(i) => [9, i.0, 0],
        },
        Item::Register(_, i) => match **i {
            Any::Import(i) => [10, i.0, 0],
        },
    }
}

fn keys(t: &Tok) -> Vec<[u8; 3]> {
    t.iter().map(key).collect()
}

/// `n` requests; imports and registrations are kinds of their own.
fn stream(n: u64, kinds: u64) -> Tok {
    let mut t = Tok::new();
    for _ in 0..n {
        match choose(0, 2) {
            0 => t.append(item(kinds).0),
            1 => t.append(Import(choose(0, 1) as u8)),
            _ => t.register(Import(choose(0, 1) as u8)),
        }
    }
    t
}

fn text(n: u64, hi: u64) -> String {
    let mut s = String::new();
    for _ in 0..n {
        s.push(ch_in('\0', unsafe { char::from_u32_unchecked(hi as u32) }));
    }
    s
}

harnesses! {
    // Texts, however they are stored. params: 0 = longest
    fn h_content_str() {
        let a = text(choose(0, param(0)), 0x10ffff);
        let b = text(choose(0, param(0)), 0x10ffff);
        let x = store(&a);
        let y = store(&b);
        let same = a == b;
        agree(&x, &y, same, 1);
        check(x.cmp(&y) == a.cmp(&b), 4);
        check(&*x == &*a && x.as_ref() == &*a, 5);
        let c = x.clone();
        agree(&c, &x, true, 6);
        reach(if same { 1 } else { 2 });
    }

    fn h_content_str_order() {
        let (a, b, c) = (text(choose(0, 1), 127), text(choose(0, 1), 127), text(choose(0, 1), 127));
        ordered(&store(&a), &store(&b), &store(&c), 1);
        reach(1);
    }

    // A text is displayed like a string, under every width and alignment.
    fn h_content_display() {
        let a = text(choose(0, param(0)), 0x10ffff);
        let x = store(&a);
        let w = choose(0, 5) as usize;
        let (l, r) = match choose(0, 4) {
            0 => (format!("{x}"), format!("{a}")),
            1 => (format!("{x:w$}"), format!("{a:w$}")),
            2 => (format!("{x:>w$}"), format!("{a:>w$}")),
            3 => (format!("{x:*^w$}"), format!("{a:*^w$}")),
            _ => (format!("{x:.w$}"), format!("{a:.w$}")),
        };
        out_s(&l);
        check(l == r, 1);
        reach(1);
    }

    // Two single items.
    fn h_content_item() {
        let (a, x) = item(8);
        let (b, y) = item(8);
        agree(&a, &b, x == y, 1);
        check(key(&a) == x, 4);
        reach(if x == y { 1 } else { 2 });
    }

    // Items as they are found in streams, at different places: whether the place counts is left open, but
    // equality, order and hashing agree about it.
    fn h_content_item_place() {
        let pick = || -> Item<T> {
            let mut t = Tok::new();
            for _ in 0..choose(0, 2) {
                match choose(0, 2) {
                    0 => t.append("a"),
                    1 => t.append(Import(9)),
                    _ => t.register(Import(8)),
                }
            }
            let n = t.iter().count();
            let i = Import(choose(0, 1) as u8);
            match choose(0, 1) {
                0 => t.append(i),
                _ => t.register(i),
            }
            let v = t.into_iter().nth(n);
            match v {
                Some(v) => v,
                None => unsupported(),
            }
        };
        let (a, b) = (pick(), pick());
        let same = a == b;
        agree(&a, &b, same, 1);
        if key(&a) != key(&b) {
            check(!same, 4);
        }
        agree(&a, &a.clone(), true, 5);
        reach(if same { 1 } else { 2 });
    }

    fn h_content_item_order() {
        let (a, b, c) = (item(param(0)).0, item(param(0)).0, item(param(0)).0);
        ordered(&a, &b, &c, 1);
        reach(1);
    }

    // Two streams, and the lists of their items. params: 0 = requests, 1 = highest kind of item
    fn h_content_stream() {
        let a = stream(param(0), param(1));
        let b = stream(param(0), param(1));
        let (x, y) = (keys(&a), keys(&b));
        let same = x == y;
        agree(&a, &b, same, 1);
        let l: Vec<Item<T>> = b.iter().cloned().collect();
        check((a == l) == same && (l == a) == same, 4);
        check((a == l[..]) == same && (l[..] == a) == same, 5);
        check((a != l) != same && (l[..] != a) != same, 6);
        if same {
            match (a.to_string(), b.to_string()) {
                (Ok(x), Ok(y)) => {
                    out_s(&x);
                    check(x == y, 7);
                }
                (Err(_), Err(_)) => (),
                _ => fail(8),
            }
            check(a.walk_imports().eq(b.walk_imports()), 9);
            check(a.is_empty() == b.is_empty(), 10);
        }
        reach(if same { 1 } else { 2 });
    }

    // All ways to go through a stream see the same items, and say how many are left. A stream put
    // together from them is the same stream. params: 0 = requests
    fn h_content_iter() {
        let mut a = stream(param(0), 8);
        // long ones as well
        for _ in 0..[0, 9, 40][choose(0, 2) as usize] {
            a.append("x");
        }
        let x = keys(&a);
        let n = x.len();
        check(a.is_empty() == (n == 0), 1);
        let mut it = a.iter();
        let mut i = 0;
        loop {
            check(it.size_hint() == (n - i, Some(n - i)), 2);
            match it.next() {
                Some(v) => {
                    check(i < n && key(v) == x[i], 3);
                    i += 1;
                }
                None => break,
            }
        }
        check(i == n, 4);
        check((&a).into_iter().map(key).eq(x.iter().copied()), 5);
        let mut it = a.clone().into_iter();
        let mut i = 0;
        loop {
            check(it.size_hint() == (n - i, Some(n - i)), 6);
            match it.next() {
                Some(v) => {
                    check(i < n && key(&v) == x[i], 7);
                    i += 1;
                }
                None => break,
            }
        }
        check(i == n, 8);
        let c = a.clone();
        agree(&a, &c, true, 9);
        let r: Tok = a.iter().collect();
        let o: Tok = a.clone().into_iter().collect();
        let mut e = Tok::new();
        e.extend(a.iter().cloned());
        let mut p = Tok::with_capacity(3);
        for i in &a {
            p.append(i.clone());
        }
        for t in [&r, &o, &e, &p] {
            check(keys(t) == x, 12);
            agree(&a, t, true, 13);
            check(t.walk_imports().eq(a.walk_imports()), 16);
        }
        check(Tok::new() == Tok::default() && Tok::with_capacity(9) == Tok::new(), 17);
        reach(1);
    }
}
