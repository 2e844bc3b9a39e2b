//! Building a stream piecewise is the same as building it at once.
use crate::lang::*;
use crate::sx::*;
use genco::prelude::*;
use genco::tokens::{from_fn, register, Item, ItemStr};
use std::borrow::Cow;
use std::rc::Rc;

const NAMES: [&str; 6] = ["a", "b", "c", "d", "e", "f"];

/// The requests made of a stream, as plain data.
#[derive(Clone, Copy, PartialEq, Eq)]
struct Step {
    k: u64,
    i: usize,
    n: i16,
}

fn apply(s: Step, t: &mut Tok) {
    match s.k {
        0 => t.append(NAMES[s.i]),
        1 => t.space(),
        2 => t.push(),
        3 => t.line(),
        4 => t.append(Item::Indentation(s.n)),
        5 => t.append(Import(s.i as u8)),
        6 => t.register(Import(s.i as u8)),
        7 => t.append(Item::OpenQuote(false)),
        _ => t.append(Item::CloseQuote),
    }
}

/// The same request as an item (not available for registration).
fn item_of(s: Step) -> Item<T> {
    match s.k {
        0 => Item::Literal(ItemStr::Static(NAMES[s.i])),
        1 => Item::Space,
        2 => Item::Push,
        3 => Item::Line,
        4 => Item::Indentation(s.n),
        7 => Item::OpenQuote(false),
        8 => Item::CloseQuote,
        _ => Item::Literal(ItemStr::Static("")),
    }
}

fn build(steps: &[Step]) -> Tok {
    let mut t = Tok::new();
    for s in steps {
        apply(*s, &mut t);
    }
    t
}

/// In a run of whitespace requests whose indentation cancels out exactly, genco drops the whole run.
/// Where the run is cut then matters, so such runs are left out.
fn cancels(steps: &[Step]) -> bool {
    let mut i = 0;
    while i < steps.len() {
        let k = steps[i].k;
        if k >= 1 && k <= 4 {
            // any sub-run which cancels
            let mut net = 0i32;
            let mut any = false;
            let mut j = i;
            while j < steps.len() && steps[j].k >= 1 && steps[j].k <= 4 {
                if steps[j].k == 4 {
                    net += steps[j].n as i32;
                    any = true;
                    if any && net == 0 {
                        return true;
                    }
                }
                j += 1;
            }
        }
        i += 1;
    }
    false
}

fn steps(n: usize, kinds: u64) -> Vec<Step> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        let k = choose(0, kinds);
        let n = if k == 4 {
            // a symbolic, case-split amount
            match choose(0, 3) {
                0 => 1,
                1 => -1,
                2 => 2,
                _ => 0,
            }
        } else {
            0
        };
        v.push(Step { k, i, n });
        i += 1;
    }
    v
}

fn imports(t: &Tok) -> Vec<u8> {
    let mut v = Vec::new();
    for i in t.walk_imports() {
        match i {
            Any::Import(i) => v.push(i.0),
        }
    }
    v
}

/// The language items in the order they are walked: from the last to the first.
fn walked(v: &[Step]) -> Vec<u8> {
    let mut o = Vec::new();
    for s in v.iter().rev() {
        if s.k == 5 || s.k == 6 {
            o.push(s.i as u8);
        }
    }
    o
}

/// Same output on its own, same output when more follows (which shows pending whitespace), and the
/// same items to import.
fn same(d: &Tok, r: &Tok, id: u64) {
    let (mut x, mut y) = (d.clone(), r.clone());
    x.append("z");
    y.append("z");
    match (x.to_string(), y.to_string()) {
        (Ok(a), Ok(b)) => check(a == b, id),
        (Err(_), Err(_)) => (),
        _ => fail(id),
    }
    match (d.to_string(), r.to_string()) {
        (Ok(a), Ok(b)) => check(a == b, id + 1),
        (Err(_), Err(_)) => (),
        _ => fail(id + 1),
    }
    check(imports(d) == imports(r), id + 2);
    check(d.is_empty() == r.is_empty(), id + 3);
}

harnesses! {
    // params: 0 = requests, 1 = highest kind. Every way of adding the middle part.
    fn h_compose() {
        let n = param(0) as usize;
        let v = steps(n, param(1));
        assume(!cancels(&v));
        let i = choose(0, n as u64) as usize;
        let j = choose(i as u64, n as u64) as usize;
        let d = build(&v);
        let mut r = build(&v[..i]);
        let b = build(&v[i..j]);
        // the same as a list of streams, one for each request
        let mut l = Vec::new();
        for k in i..j {
            l.push(build(&v[k..k + 1]));
        }
        match choose(0, 15) {
            0 => r.append(b),
            1 => r.append(&b),
            2 => {
                r.append(None::<Tok>);
                r.append(Some(b))
            }
            3 => r.append(l),
            4 => r.append(&l),
            5 => r.append(&l[..]),
            6 => r.append(Cow::Borrowed(&l[..])),
            7 => r.append(Cow::<[Tok]>::Owned(l)),
            8 => r.append(&Cow::Borrowed(&l[..])),
            9 => r.append(&Cow::<[Tok]>::Owned(l)),
            10 => r.append(vec![Some(&b), None]),
            11 => r.extend(b),
            12 => r.extend(b.iter().cloned()),
            13 => {
                let c: Tok = b.iter().collect();
                check(c == b, 20);
                let c: Tok = b.into_iter().collect();
                r.append(c)
            }
            14 => {
                for it in b {
                    r.append(it)
                }
            }
            _ => {
                let m = v[i..j].to_vec();
                r.append(from_fn(move |t: &mut Tok| {
                    for s in &m {
                        apply(*s, t);
                    }
                }))
            }
        }
        for s in &v[j..] {
            apply(*s, &mut r);
        }
        same(&d, &r, 1);
        check(imports(&r) == walked(&v), 10);
        out(&imports(&r));
        reach(1);
    }

    // Items registered alone or in tuples are walked from the last to the first, and write nothing.
    fn h_compose_register() {
        let n = choose(1, 8) as u8;
        let (a, b, c, d) = (Import(0), Import(1), Import(2), Import(3));
        let (e, f, g, h) = (Import(4), Import(5), Import(6), Import(7));
        let mut t = Tok::new();
        let before = flag();
        if before {
            t.append(Import(20));
        }
        if flag() {
            match n {
                1 => t.register((a,)),
                2 => t.register((a, &b)),
                3 => t.register((a, b, c)),
                4 => t.register((&a, b, c, d)),
                5 => t.register((a, b, c, d, e)),
                6 => t.register((a, b, &c, d, e, f)),
                7 => t.register((a, b, c, d, e, f, g)),
                _ => t.register((a, b, c, &d, e, f, g, &h)),
            }
        } else {
            match n {
                1 => t.append(register(a)),
                2 => t.append(register((a, b))),
                3 => t.append(register((&a, b, c))),
                4 => t.append(register((a, b, c, d))),
                5 => t.append(register((a, &b, c, d, e))),
                6 => t.append(register((a, b, c, d, e, f))),
                7 => t.append(register((a, b, &c, d, e, f, g))),
                _ => t.append(register((a, b, c, d, e, f, g, h))),
            }
        }
        let after = flag();
        if after {
            t.append(Import(21));
        }
        let mut want = Vec::new();
        if after {
            want.push(21);
        }
        for k in (0..n).rev() {
            want.push(k);
        }
        if before {
            want.push(20);
        }
        check(imports(&t) == want, 1);
        match t.to_string() {
            Ok(s) => check(s == match (before, after) { (true, true) => "UV", (true, false) => "U", (false, true) => "V", _ => "" }, 2),
            Err(_) => fail(3),
        }
        reach(1);
    }

    // Longer streams, cut in three and put together in both groupings.
    fn h_compose_deep() {
        let n = param(0) as usize;
        let v = steps(n, param(1));
        assume(!cancels(&v));
        let i = choose(0, n as u64) as usize;
        let j = choose(i as u64, n as u64) as usize;
        let d = build(&v);
        let (a, b, c) = (build(&v[..i]), build(&v[i..j]), build(&v[j..]));
        let mut l = a.clone();
        l.append(&b);
        l.append(&c);
        same(&d, &l, 1);
        let mut bc = b;
        bc.append(c);
        let mut r = a;
        r.append(bc);
        same(&d, &r, 5);
        reach(1);
    }

    // A stream made of plain items is what the requests make of it, whatever the iterator claims
    // about its length.
    fn h_compose_items() {
        let n = param(0) as usize;
        let v = steps(n, 8);
        for s in &v { assume(s.k != 5 && s.k != 6); }
        let items: Vec<Item<T>> = v.iter().map(|s| item_of(*s)).collect();
        let d = build(&v);
        let lo = range(0, n as u64) as usize;
        let hi = match choose(0, 3) { 0 => None, 1 => Some(n), 2 => Some(usize::MAX), _ => Some(n + 3) };
        let it = Hint { it: items.clone().into_iter(), hint: (0, hi) };
        let r: Tok = match choose(0, 2) {
            0 => it.collect(),
            1 => {
                let mut r = Tok::new();
                r.extend(Hint { it: items.clone().into_iter(), hint: (if lo > n { n } else { 0 }, hi) });
                r
            }
            _ => Hint { it: items.iter(), hint: (0, hi) }.collect(),
        };
        same(&d, &r, 1);
        reach(1);
    }

    // Every accepted kind of text is the same literal.
    fn h_compose_text() {
        let n = param(0);
        let mut s = String::new();
        let mut i = 0;
        while i < n {
            s.push(ch());
            i += 1;
        }
        let mut d = Tok::new();
        d.append(&*s);
        let mut r = Tok::new();
        match choose(0, 11) {
            0 => r.append(s.clone()),
            1 => r.append(&s),
            2 => r.append(Rc::new(s.clone())),
            3 => r.append(&Rc::new(s.clone())),
            4 => r.append(Cow::Borrowed(&*s)),
            5 => r.append(Cow::<str>::Owned(s.clone())),
            6 => r.append(&Cow::Borrowed(&*s)),
            7 => r.append(&Cow::<str>::Owned(s.clone())),
            8 => r.append(ItemStr::from(&*s)),
            9 => r.append(&ItemStr::from(s.clone().into_boxed_str())),
            10 => r.append(Item::Literal(ItemStr::from(&s))),
            _ => r.append(genco::tokens::display(&s)),
        }
        same(&d, &r, 1);
        match r.to_string() {
            Ok(o) => {
                out_s(&o);
                check(o == s, 10);
            }
            Err(_) => fail(11),
        }
        reach(1);
    }
}

struct Hint<I> {
    it: I,
    hint: (usize, Option<usize>),
}
impl<I: Iterator> Iterator for Hint<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}
