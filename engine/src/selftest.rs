//! The rewrites of terms, against the meaning of the operations: random terms, random values.
use crate::term::*;

const N: usize = 6;

pub fn run(rounds: u32) {
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move |n: u64| {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        (seed >> 11) % n
    };
    let mut count = 0u64;
    for _ in 0..rounds {
        let mut ar = Arena::new();
        let ws = [2u32, 6, 8, 16, 1, 8];
        let models: Vec<Vec<u64>> = (0..N)
            .map(|i| ws.iter().map(|w| rnd(1 << 20) & [mask(*w) as u64, 3, 0, !0][i % 4] & mask(*w) as u64).collect())
            .collect();
        let mut pool: Vec<(T, [u128; N])> = Vec::new();
        for (i, w) in ws.iter().enumerate() {
            let t = ar.var(*w, i);
            let mut v = [0; N];
            for (j, m) in models.iter().enumerate() {
                v[j] = m[i] as u128;
            }
            pool.push((t, v));
        }
        for _ in 0..80 {
            let mut pick = |ar: &mut Arena, rnd: &mut dyn FnMut(u64) -> u64| {
                if rnd(5) == 0 {
                    let w = [1, 2, 8, 9, 16, 32, 64][rnd(7) as usize];
                    let k = [0u128, 1, 2, 3, 0xff, 0x100, mask(w), mask(w) / 2, rnd(300) as u128][rnd(9) as usize] & mask(w);
                    (ar.konst(w, k), [k; N])
                } else {
                    let lo = if rnd(2) == 0 { 0 } else { pool.len() as u64 * 2 / 3 };
                    pool[(lo + rnd(pool.len() as u64 - lo)) as usize]
                }
            };
            let (a, x) = pick(&mut ar, &mut rnd);
            let (b, y) = pick(&mut ar, &mut rnd);
            let (c, z) = pick(&mut ar, &mut rnd);
            let (wa, wb) = (ar.w(a), ar.w(b));
            let w = wa.max(wb);
            let f = |g: &dyn Fn(usize) -> u128| {
                let mut o = [0; N];
                for (i, o) in o.iter_mut().enumerate() {
                    *o = g(i);
                }
                o
            };
            let kind = rnd(24);
            let (t, v, what): (T, [u128; N], &str) = match kind {
                0..=12 => {
                    let op = [
                        Op::Add, Op::Add, Op::Add, Op::Sub, Op::Mul, Op::And, Op::Or, Op::Xor, Op::Shl, Op::LShr, Op::AShr, Op::UDiv, Op::URem,
                    ][kind as usize];
                    let (a, b) = (ar.zext(a, w), ar.zext(b, w));
                    if matches!(op, Op::UDiv | Op::URem) && y.contains(&0) {
                        continue;
                    }
                    (ar.bin(op, a, b), f(&|i| fold(op, w, x[i], y[i])), "bin")
                }
                13 | 14 => {
                    let (a, b) = (ar.zext(a, w), ar.zext(b, w));
                    (ar.eq(a, b), f(&|i| (x[i] == y[i]) as u128), "eq")
                }
                15 | 16 => {
                    let (a, b) = (ar.zext(a, w), ar.zext(b, w));
                    (ar.ult(a, b), f(&|i| (x[i] < y[i]) as u128), "ult")
                }
                17 => {
                    let (a, b) = (ar.zext(a, w), ar.zext(b, w));
                    (ar.slt(a, b), f(&|i| (sext(x[i], w) < sext(y[i], w)) as u128), "slt")
                }
                18 if wa + wb <= 64 => (ar.concat(a, b), f(&|i| x[i] << wb | y[i]), "concat"),
                19 | 20 if wa > 1 => {
                    let lo = rnd(wa as u64) as u32;
                    let hi = lo + rnd((wa - lo) as u64) as u32;
                    (ar.extract(a, hi, lo), f(&|i| (x[i] >> lo) & mask(hi - lo + 1)), "extract")
                }
                21 => {
                    let n = wa + rnd((65 - wa) as u64) as u32;
                    (ar.sext_t(a, n), f(&|i| sext(x[i], wa) as u128 & mask(n)), "sext")
                }
                22 => {
                    let c1 = ar.extract(c, 0, 0);
                    let (a, b) = (ar.zext(a, w), ar.zext(b, w));
                    (ar.ite(c1, a, b), f(&|i| if z[i] & 1 == 1 { x[i] } else { y[i] }), "ite")
                }
                _ => {
                    let n = wa + rnd((65 - wa) as u64) as u32;
                    // store the bytes and load them again
                    let t = ar.zext(a, n);
                    if n % 8 != 0 {
                        (t, x, "zext")
                    } else {
                        let mut r = ar.extract(t, 7, 0);
                        for k in 1..n / 8 {
                            let b = ar.extract(t, k * 8 + 7, k * 8);
                            r = ar.concat(b, r);
                        }
                        (r, x, "bytes")
                    }
                }
            };
            count += 1;
            for (i, m) in models.iter().enumerate() {
                let got = ar.eval(t, m);
                assert!(got == v[i], "{what} {kind}: {got:#x} for {:#x}, of {:#x} {:#x}, {wa} {wb}", v[i], x[i], y[i]);
                assert!(got <= ar.bound(t), "{what}: {got:#x} above its bound");
            }
            pool.push((t, v));
        }
    }
    println!("selftest: {count} terms agree");
}
