//! Clamping and key material (C08, C09).

use crate::rng::scripted;
use common::ed25519;
use common::types::{PublicKey, SecretKey, Signature};
use engine::lits::Lits;
use engine::{combine, ensure, hash_dbg, Run, Verdict};
use std::cell::RefCell;
use std::fmt::Debug;
use std::rc::Rc;

fn want<T: PartialOrd + Copy>(v: T, lo: T, hi: T) -> T {
    if v >= lo && v <= hi {
        v
    } else if v < lo {
        lo
    } else {
        hi
    }
}

fn one<T: PartialOrd + Copy + Debug>(v: T, lo: T, hi: T) -> Result<(), String> {
    let got = common::clamp(v, lo, hi);
    ensure!(got == want(v, lo, hi), "clamp({:?}, {:?}, {:?}) is {:?}", v, lo, hi, got);
    Ok(())
}

/// A value that cannot be copied and is ordered by its first part only, so that
/// it shows which of the three was returned.
#[derive(Debug)]
struct Marked(i32, char);
impl PartialEq for Marked {
    fn eq(&self, o: &Marked) -> bool {
        self.0 == o.0
    }
}
impl PartialOrd for Marked {
    fn partial_cmp(&self, o: &Marked) -> Option<std::cmp::Ordering> {
        self.0.partial_cmp(&o.0)
    }
}

pub fn c08(r: &mut Run) {
    r.family("every value of one byte within every pair of bounds");
    for lo in -128..=127i8 {
        for hi in lo..=127i8 {
            let key = combine(lo as u8 as u64 + 1, hi as u8 as u64 + 1);
            r.case(
                key,
                || format!("bytes clamped to {} .. {}", lo, hi),
                || {
                    for v in -128..=127i8 {
                        one(v, lo, hi)?;
                        one(v as u8 ^ 0x80, lo as u8 ^ 0x80, hi as u8 ^ 0x80)?;
                        let m = common::clamp(Marked(v as i32, 'v'), Marked(lo as i32, 'l'), Marked(hi as i32, 'h'));
                        let w = want(v, lo, hi) as i32;
                        ensure!(m.0 == w, "clamp({}, {}, {}) of a type that is moved is {}", v, lo, hi, m.0);
                        ensure!(v < lo || v > hi || m.1 == 'v', "a value within the bounds was replaced by an equal bound");
                    }
                    Ok(if lo == hi { "trivial single value" } else { "bounds" })
                },
            );
        }
    }
    let mut e: Vec<usize> = (0..=40).collect();
    for k in 6..64 {
        e.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    e.extend([usize::MAX - 1, usize::MAX]);
    e.extend(Lits::of(&["common/src", "dht/src"]).around(u64::MAX).into_iter().map(|n| n as usize));
    e.sort_unstable();
    e.dedup();
    r.note("edge values", e.len());
    r.family("edge values of wide types within every pair of edge bounds");
    for (i, &lo) in e.iter().enumerate() {
        for &hi in &e[i..] {
            r.case(
                combine(hash_dbg(&lo), hash_dbg(&hi)),
                || format!("clamped to {} .. {}", lo, hi),
                || {
                    for &v in &e {
                        one(v, lo, hi)?;
                        let s = |n: usize| n as isize ^ isize::MIN;
                        one(s(v), s(lo), s(hi))?;
                        one(v as f64, lo as f64, hi as f64)?;
                    }
                    Ok(if lo == hi { "trivial single value" } else { "bounds" })
                },
            );
        }
    }
    let f = [f64::NEG_INFINITY, f64::MIN, -1.5, -f64::MIN_POSITIVE, -0.0, 0.0, f64::MIN_POSITIVE, 0.1, 1.0, f64::MAX, f64::INFINITY];
    r.family("floating point and text");
    for (i, &lo) in f.iter().enumerate() {
        for &hi in &f[i..] {
            r.case(
                combine(7, combine(lo.to_bits(), hi.to_bits())),
                || format!("clamped to {} .. {}", lo, hi),
                || {
                    for &v in &f {
                        one(v, lo, hi)?;
                    }
                    Ok("bounds")
                },
            );
        }
    }
    let t = ["", "a", "aa", "ab", "b", "\u{e9}", "z"];
    let mut s = t.to_vec();
    s.sort_unstable();
    for (i, &lo) in s.iter().enumerate() {
        for &hi in &s[i..] {
            r.case(
                combine(8, hash_dbg(&(lo, hi))),
                || format!("clamped to {:?} .. {:?}", lo, hi),
                || {
                    for &v in &s {
                        one(v, lo, hi)?;
                        let got = common::clamp(v.to_string(), lo.to_string(), hi.to_string());
                        ensure!(got == want(v, lo, hi), "clamp({:?}, {:?}, {:?}) is {:?}", v, lo, hi, got);
                    }
                    Ok("bounds")
                },
            );
        }
    }
}

// ------------------------------------------------------------------------ C09

/// `n` seeds created one after the other from a source whose `bit`-th bit is
/// flipped, and how many words were drawn.
fn seeds(n: usize, flip: Option<usize>, base: u64) -> (Vec<[u8; 32]>, usize) {
    let count = Rc::new(RefCell::new(0usize));
    let c = count.clone();
    let v = scripted(
        move |k| {
            let mut c = c.borrow_mut();
            let i = *c;
            *c += 1;
            let mut w = engine::mix(base.wrapping_add(i as u64));
            if let Some(b) = flip {
                if b / 64 == i {
                    w ^= 1 << (b % 64);
                }
            }
            match k {
                Some(k) => w % k,
                None => w,
            }
        },
        || (0..n).map(|_| ed25519::create_seed()).collect(),
    );
    let asked = *count.borrow();
    (v, asked)
}

fn independent(n: usize, base: u64) -> Verdict {
    let (plain, asked) = seeds(n, None, base);
    let bits = |v: &[[u8; 32]]| -> Vec<bool> { v.iter().flat_map(|s| s.iter().flat_map(|b| (0..8).map(move |k| b >> k & 1 == 1))).collect() };
    let p = bits(&plain);
    let mut decided = vec![0u32; p.len()];
    for b in 0..asked * 64 {
        let (v, again) = seeds(n, Some(b), base);
        ensure!(again == asked, "{} random words are drawn, then {}", asked, again);
        let d: Vec<usize> = bits(&v).iter().zip(&p).enumerate().filter(|(_, (x, y))| x != y).map(|(i, _)| i).collect();
        ensure!(d.len() <= 1, "bit {} of the random source decides {} bits of the seeds", b, d.len());
        for i in d {
            decided[i] += 1;
        }
    }
    for (i, n) in decided.iter().enumerate() {
        ensure!(*n > 0, "bit {} of byte {} of seed {} does not follow the random source", i % 8, i / 8 % 32, i / 256);
    }
    Ok(if n == 0 { "trivial no seed" } else { "seeds" })
}

macro_rules! holder {
    ($ty: ident, $n: expr, $r: expr) => {
        $r.family(concat!(stringify!($ty), ": every byte in every place"));
        $r.case(
            combine(50, hash_dbg(&stringify!($ty))),
            || concat!("a new ", stringify!($ty)).to_string(),
            || {
                let k = $ty::default();
                ensure!(k.len() == $n && k.iter().all(|b| *b == 0), "a new one is {:?}", &k[..]);
                Ok("new")
            },
        );
        for i in 0..$n {
            for x in 0..=255u8 {
                $r.case(
                    combine(51 + i as u64, combine(x as u64, hash_dbg(&stringify!($ty)))),
                    || format!("{} with byte {} set to {}", stringify!($ty), i, x),
                    || {
                        let mut k = $ty::default();
                        k[..].iter_mut().enumerate().for_each(|(j, b)| *b = j as u8 ^ 0x5a);
                        let before = k.clone();
                        k[i] = x;
                        let mut w: Vec<u8> = (0..$n).map(|j| j as u8 ^ 0x5a).collect();
                        ensure!(before[..] == w[..], "a copy changed with its original, or differs from it");
                        w[i] = x;
                        ensure!(k[..] == w[..], "holds {:?}", &k[..]);
                        ensure!(k.clone()[..] == w[..], "a copy holds {:?}", &k.clone()[..]);
                        Ok("byte")
                    },
                );
            }
        }
    };
}

pub fn c09(r: &mut Run) {
    let n = r.pick(4, 12);
    r.note("most seeds in a row", n);
    r.family("seeds from every single changed bit of the random source");
    for k in 0..=n {
        for base in [1u64, 0x1234_5678_9abc] {
            r.case(combine(k as u64 + 1, base), || format!("{} seeds in a row", k), || independent(k, base));
        }
    }
    holder!(PublicKey, 32, r);
    holder!(SecretKey, 64, r);
    holder!(Signature, 64, r);
}
