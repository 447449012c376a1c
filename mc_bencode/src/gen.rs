//! Families of value trees and documents.

use crate::model::T;
use crate::model::T::*;
use crate::model::{bytes, dict};

pub fn int_edges() -> Vec<i64> {
    let mut v: Vec<i128> = (-1100..=1100).collect();
    for k in 0..=63u32 {
        let p = 1i128 << k;
        v.extend([p - 1, p, p + 1, -p - 1, -p, -p + 1]);
    }
    let mut p: i128 = 1;
    for _ in 0..19 {
        v.extend([p - 1, p, p + 1, -p - 1, -p, -p + 1, 2 * p, 5 * p, 9 * p, -9 * p]);
        p *= 10;
    }
    v.extend([i64::MAX as i128, i64::MAX as i128 - 1, i64::MIN as i128, i64::MIN as i128 + 1]);
    let mut v: Vec<i64> = v
        .into_iter()
        .filter(|n| *n >= i64::MIN as i128 && *n <= i64::MAX as i128)
        .map(|n| n as i64)
        .collect();
    v.sort_by_key(|n| (n.unsigned_abs(), *n < 0));
    v.dedup();
    v
}

pub fn leaves() -> Vec<T> {
    let mut v: Vec<T> = [
        0,
        1,
        -1,
        10,
        -10,
        255,
        256,
        65536,
        i32::MAX as i64,
        i32::MIN as i64,
        1 << 32,
        i64::MAX,
        i64::MIN,
    ]
    .iter()
    .map(|n| I(*n))
    .collect();
    for s in strings() {
        v.push(B(s));
    }
    v
}

pub fn strings() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        &b""[..],
        b"a",
        b"e",
        b":",
        b"0:",
        b"i1e",
        b"le",
        b"de",
        b"\0",
        b"\xff",
        b"\xc3\xa9",
        b"\n\t ",
        b"-1",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect();
    for n in [9, 10, 11, 99, 100, 255, 256] {
        v.push((0..n).map(|i| b'0' + (i % 75) as u8).collect());
    }
    v
}

pub fn keys() -> Vec<String> {
    [
        "", "a", "b", "aa", "ab", "A", "\u{e9}", "e\u{301}", "\0", "z", "10", "2", "\u{65e5}\u{672c}",
        "a\0", "\u{10ffff}", "\u{e000}", "\u{ffff}", "piece length", "i1e",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// All trees with exactly `n` nodes over four leaves and three keys.
pub fn by_nodes(max: usize) -> Vec<Vec<T>> {
    let keys = ["a", "b", "\u{e9}"];
    // forests[n][k]: all k-sequences of trees with n nodes in total
    let mut trees: Vec<Vec<T>> = vec![vec![]];
    for n in 1..=max {
        let mut out: Vec<T> = vec![];
        if n == 1 {
            out.extend([I(0), I(-1), bytes(b""), bytes(b"a")]);
        }
        for k in 0..=(n - 1) {
            let mut seqs: Vec<Vec<T>> = vec![];
            forests(&trees, n - 1, k, &mut vec![], &mut seqs);
            for s in &seqs {
                out.push(L(s.clone()));
            }
            if k <= 3 {
                for mask in 0u32..8 {
                    if mask.count_ones() as usize != k {
                        continue;
                    }
                    let ks: Vec<&str> = (0..3).filter(|i| mask >> i & 1 == 1).map(|i| keys[i]).collect();
                    for s in &seqs {
                        out.push(dict(ks.iter().map(|k| k.to_string()).zip(s.iter().cloned()).collect()));
                    }
                }
            }
        }
        trees.push(out);
    }
    trees
}

fn forests(trees: &[Vec<T>], nodes: usize, k: usize, acc: &mut Vec<T>, out: &mut Vec<Vec<T>>) {
    if k == 0 {
        if nodes == 0 {
            out.push(acc.clone());
        }
        return;
    }
    for first in 1..=nodes {
        if nodes - first < k - 1 {
            break;
        }
        if first >= trees.len() {
            break;
        }
        for t in &trees[first] {
            acc.push(t.clone());
            forests(trees, nodes - first, k - 1, acc, out);
            acc.pop();
        }
    }
}

/// Wide families: every pair of leaves, every pair of keys, triples of a few.
pub fn wide(f: &mut dyn FnMut(T)) {
    let ls = leaves();
    let ks = keys();
    for l in &ls {
        f(l.clone());
        f(L(vec![l.clone()]));
    }
    for a in &ls {
        for b in &ls {
            f(L(vec![a.clone(), b.clone()]));
        }
    }
    for k in &ks {
        for l in &ls {
            f(dict(vec![(k.clone(), l.clone())]));
        }
    }
    let few = [I(0), I(i64::MIN), bytes(b""), bytes(b"1:x"), L(vec![]), D(vec![])];
    for (i, k) in ks.iter().enumerate() {
        for l in &ks[i + 1..] {
            for a in &few {
                for b in &few {
                    f(dict(vec![(k.clone(), a.clone()), (l.clone(), b.clone())]));
                }
            }
        }
    }
    for i in 0..ks.len() {
        for j in i + 1..ks.len() {
            for k in j + 1..ks.len() {
                f(dict(vec![(ks[i].clone(), I(1)), (ks[j].clone(), L(vec![I(2)])), (ks[k].clone(), bytes(b"3"))]));
            }
        }
    }
    for a in &few {
        for b in &few {
            for c in &few {
                f(L(vec![a.clone(), b.clone(), c.clone()]));
                f(dict(vec![("k".into(), a.clone()), ("l".into(), b.clone()), ("m".into(), c.clone())]));
                f(L(vec![L(vec![a.clone(), b.clone()]), c.clone()]));
                f(L(vec![a.clone(), D(vec![("x".into(), b.clone())]), c.clone()]));
                f(dict(vec![("p".into(), L(vec![a.clone(), b.clone()])), ("q".into(), c.clone())]));
                f(dict(vec![("p".into(), D(vec![("q".into(), a.clone()), ("r".into(), b.clone())])), ("q".into(), c.clone())]));
            }
        }
    }
}

/// Nestings: a container in a container, up to `depth` levels, each level one
/// of: list first, list last, dictionary first, dictionary last.
pub fn chains(depth: usize, f: &mut dyn FnMut(T)) {
    engine::words::sequences(4, 1, depth, |ix| {
        let mut t = I(7);
        for &k in ix {
            t = match k {
                0 => L(vec![t, bytes(b"x")]),
                1 => L(vec![I(-3), t]),
                2 => dict(vec![("a".into(), t), ("b".into(), bytes(b""))]),
                _ => dict(vec![("a".into(), I(5)), ("b".into(), t)]),
            };
        }
        f(t);
    });
}

/// Large values: one dimension at a time.
pub fn large(thorough: bool, f: &mut dyn FnMut(T)) {
    for n in int_edges() {
        f(I(n));
    }
    let mut lens: Vec<usize> = (0..=1100).collect();
    lens.extend([4095, 4096, 9999, 10000, 32767, 32768, 65535, 65536, 65537, 99999, 100000, 1_000_000]);
    if thorough {
        lens.extend((1101..=12000).step_by(1));
        lens.extend([9_999_999, 10_000_000, 16_777_216]);
    }
    for &n in &lens {
        let s: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
        f(B(s));
    }
    let mut counts: Vec<usize> = (0..=270).collect();
    counts.extend([511, 512, 1000, 1024, 4096, 65535, 65536, 65537]);
    for &n in &counts {
        f(L((0..n).map(|i| I(i as i64)).collect()));
        f(L((0..n).map(|i| if i % 2 == 0 { bytes(b"") } else { L(vec![]) }).collect()));
        f(dict((0..n).map(|i| (format!("{:06}", i * 37 % 65537), I(i as i64))).collect()));
        f(dict((0..n).map(|i| (format!("k{}", i), bytes(b"v"))).collect()));
    }
    for n in 0..=300 {
        let mut k = "y".repeat(n);
        f(dict(vec![(k.clone(), I(1))]));
        k.push('\u{20ac}');
        f(dict(vec![(k, I(2)), ("y".into(), I(3))]));
        f(dict(vec![("\u{e9}".repeat(n), bytes(b"w"))]));
    }
    // every character that starts a new UTF-8 length, as key and as value
    for c in [0x7fu32, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff] {
        let k: String = char::from_u32(c).unwrap().to_string();
        f(dict(vec![(k.clone(), bytes(k.as_bytes()))]));
    }
    for d in 1..=400usize {
        f(nest(d, 0));
        f(nest(d, 1));
        f(nest(d, 2));
        // other values than a list at the bottom
        for leaf in [D(vec![]), I(-5), bytes(b""), bytes(b"abc"), dict(vec![("".into(), I(1))]), L(vec![D(vec![]), L(vec![]), I(0)]), B(vec![0xff; 300])] {
            for kind in 0..3 {
                f(nest_in(d, kind, leaf.clone()));
            }
        }
    }
    // long strings, many elements and long keys at every small depth
    for d in 2..=24usize {
        for n in [100usize, 255, 256, 1000, 1024, 4095, 4096, 4097, 5000, 10_000, 65_536, 70_000] {
            for kind in 0..3 {
                f(nest_in(d, kind, B((0..n).map(|i| (i * 7 + i / 256) as u8).collect())));
                if n <= 10_000 {
                    f(nest_in(d, kind, L((0..n).map(|i| I(i as i64)).collect())));
                    f(nest_in(d, kind, dict((0..n.min(5000)).map(|i| (format!("{:05}", i * 37 % 9973), bytes(b"v"))).collect())));
                    f(nest_in(d, kind, dict(vec![("q".repeat(n), I(1)), ("r".into(), D(vec![]))])));
                }
            }
        }
    }
}

pub fn nest(depth: usize, kind: usize) -> T {
    nest_in(depth, kind, L(vec![]))
}

/// A value inside `depth - 1` containers.
pub fn nest_in(depth: usize, kind: usize, mut t: T) -> T {
    for i in 1..depth {
        t = match kind {
            0 => L(vec![t]),
            1 => D(vec![("k".into(), t)]),
            _ if i % 2 == 0 => L(vec![I(i as i64), t]),
            _ => D(vec![("a".into(), bytes(b"z")), ("b".into(), t)]),
        };
    }
    t
}

/// The documents whose every mutation is tried.
pub fn base_documents() -> Vec<Vec<u8>> {
    [
        &b"i0e"[..],
        b"i-12e",
        b"i9223372036854775807e",
        b"i-9223372036854775808e",
        b"0:",
        b"1:a",
        b"4:spam",
        b"10:helloworld",
        b"le",
        b"de",
        b"lee",
        b"l0:e",
        b"lli1eeleldee",
        b"l4:spam4:eggse",
        b"li1ei-2e3:abce",
        b"d0:0:e",
        b"d1:ai1ee",
        b"d3:cow3:moo4:spam4:eggse",
        b"d4:spaml1:a1:bee",
        b"d1:ad1:bi1e1:c4:abcde1:di3ee",
        b"d2:\xc3\xa91:x1:zi0ee",
        b"d1:ald1:bleed1:ceei1e1:b0:e",
        b"ld1:a0:eli5eee",
        b"d1:rd2:id20:abcdefghij0123456789e1:t2:aa1:y1:re",
        b"d1:ad2:id20:abcdefghij01234567896:target20:mnopqrstuvwxyz123456e1:q9:find_node1:t2:aa1:y1:qe",
        b"d8:announce20:http://t.example/ann4:infod6:lengthi5e4:name1:f12:piece lengthi16384e6:pieces20:aaaaaaaaaaaaaaaaaaaaee",
    ]
    .iter()
    .map(|s| s.to_vec())
    .collect()
}

/// Every single-byte substitution, insertion and deletion, every truncation,
/// adjacent swap and duplication of the base documents.
pub fn mutations(f: &mut dyn FnMut(&[u8])) {
    for d in base_documents() {
        f(&d);
        let mut w;
        for i in 0..d.len() {
            f(&d[..i]);
            f(&d[i..]);
            w = d.clone();
            w.remove(i);
            f(&w);
            w = d.clone();
            w.insert(i, d[i]);
            f(&w);
            if i + 1 < d.len() {
                w = d.clone();
                w.swap(i, i + 1);
                f(&w);
            }
            for b in 0..=255u8 {
                w = d.clone();
                w[i] = b;
                f(&w);
            }
        }
        for i in 0..=d.len() {
            for b in 0..=255u8 {
                w = d.clone();
                w.insert(i, b);
                f(&w);
            }
        }
        for e in base_documents().iter().take(20) {
            w = d.clone();
            w.extend_from_slice(e);
            f(&w);
        }
    }
}

/// Numbers and lengths around every limit.
pub fn numbers(f: &mut dyn FnMut(&[u8])) {
    let mut spell: Vec<String> = vec![];
    for n in int_edges() {
        spell.push(n.to_string());
    }
    for k in 18..=40usize {
        for d in ["1", "9", "0", "92", "18", "2"] {
            let mut s = String::from(d);
            while s.len() < k {
                s.push(if d == "1" { '0' } else { '9' });
            }
            spell.push(s.clone());
            spell.push(format!("-{}", s));
        }
    }
    for s in [
        "9223372036854775806", "9223372036854775807", "9223372036854775808", "9223372036854775809",
        "-9223372036854775807", "-9223372036854775808", "-9223372036854775809", "18446744073709551614",
        "18446744073709551615", "18446744073709551616", "18446744073709551617", "-18446744073709551615",
        "4294967295", "4294967296", "4294967297", "340282366920938463463374607431768211456", "", "-", "+", "+1",
        "--1", "-+1", "1-", "1+1", " 1", "1 ", "1_0", "0x1", "1.0", "1e3", "00", "01", "-0", "-01", "+0",
    ] {
        spell.push(s.to_string());
    }
    for s in &spell {
        f(format!("i{}e", s).as_bytes());
        f(format!("i{}", s).as_bytes());
        f(format!("li{}ee", s).as_bytes());
        f(format!("d1:ai{}ee", s).as_bytes());
        f(format!("{}:", s).as_bytes());
        f(format!("{}:abc", s).as_bytes());
        f(format!("l{}:abce", s).as_bytes());
        f(format!("d{}:abci1ee", s).as_bytes());
        f(format!("d1:a{}:abce", s).as_bytes());
    }
    for n in 0..=300usize {
        let body: Vec<u8> = (0..n + 1).map(|i| b"abe:01l"[i % 7]).collect();
        for have in [n.wrapping_sub(1), n, n + 1] {
            if have == usize::MAX {
                continue;
            }
            let mut w = format!("{}:", n).into_bytes();
            w.extend_from_slice(&body[..have]);
            f(&w);
            let mut x = b"l".to_vec();
            x.extend_from_slice(&w);
            f(&x);
            x.push(b'e');
            f(&x);
        }
    }
}

/// Dictionaries with their entries in every order, with and without repeated
/// keys.
pub fn orders(f: &mut dyn FnMut(&[u8])) {
    let ks: [&[u8]; 5] = [b"1:a", b"1:b", b"2:aa", b"0:", b"2:\xc3\xa9"];
    let vs: [&[u8]; 4] = [b"i1e", b"1:x", b"l1:ae", b"d1:ai2ee"];
    for n in 1..=4usize {
        engine::words::sequences(5, n, n, |k| {
            engine::words::sequences(if n < 4 { 4 } else { 2 }, n, n, |v| {
                let mut w = b"d".to_vec();
                for i in 0..n {
                    w.extend_from_slice(ks[k[i]]);
                    w.extend_from_slice(vs[v[i]]);
                }
                w.push(b'e');
                f(&w);
            });
        });
    }
}

/// The literals of the code under check, read once.
pub fn lits() -> &'static engine::lits::Lits {
    static L: std::sync::OnceLock<engine::lits::Lits> = std::sync::OnceLock::new();
    L.get_or_init(|| engine::lits::Lits::of(&["bencode/src"]))
}

/// Trees built from the literals of the sources: as numbers, as string
/// lengths, as element counts, as depths, as values and as keys.
pub fn literal(thorough: bool, f: &mut dyn FnMut(T)) {
    let (len, count) = if thorough { (8_000_000, 300_000) } else { (1_100_000, 40_000) };
    let l = lits();
    for &n in &l.ints {
        for m in [n, n * 2, n / 2, n * 8] {
            for d in -1..=1 {
                let v = m as i128 + d;
                for v in [v, -v] {
                    if let Ok(v) = i64::try_from(v) {
                        f(I(v));
                        f(L(vec![I(v), I(v)]));
                        f(dict(vec![("k".into(), I(v)), ("l".into(), bytes(b"x"))]));
                    }
                }
            }
        }
    }
    for n in l.around(len) {
        let n = n as usize;
        let s: Vec<u8> = (0..n).map(|i| (i * 11 + i / 256) as u8).collect();
        f(B(s.clone()));
        f(L(vec![B(s.clone()), I(1)]));
        f(dict(vec![("a".into(), B(s)), ("b".into(), I(2))]));
        if n <= 70_000 {
            f(dict(vec![("q".repeat(n), I(1)), ("r".into(), I(2))]));
            // the same below other containers
            for d in [2usize, 3, 6, 10, 18, 40, 70, 130, 260] {
                f(nest_in(d, 2, dict(vec![("a".into(), B((0..n).map(|i| (i * 5) as u8).collect())), ("b".into(), D(vec![]))])));
            }
        }
    }
    for n in l.around(count) {
        let n = n as usize;
        f(L((0..n).map(|i| I(i as i64)).collect()));
        f(L(vec![L((0..n).map(|_| bytes(b"")).collect()), I(1)]));
        f(L((0..n).map(|i| if i % 3 == 0 { D(vec![]) } else { L(vec![]) }).collect()));
        f(dict((0..n).map(|i| (format!("{:06}", i * 37 % 999_983), I(i as i64))).collect()));
        if n <= 1200 && n > 0 {
            for k in 0..3 {
                f(nest(n, k));
                for leaf in [D(vec![]), I(7), bytes(b""), dict(vec![("k".into(), bytes(b"v"))])] {
                    f(nest_in(n, k, leaf));
                }
            }
        }
    }
    let strs = l.strs();
    for t in &l.texts {
        f(bytes(t));
        f(L(vec![bytes(t), bytes(b"x")]));
        f(dict(vec![("k".into(), bytes(t))]));
    }
    for k in &strs {
        f(dict(vec![(k.clone(), I(1))]));
        f(dict(vec![(k.clone(), L(vec![bytes(k.as_bytes())]))]));
        f(dict(vec![(k.clone(), dict(vec![(k.clone(), bytes(b"\xff"))]))]));
    }
    for k in strs.iter().take(60) {
        for m in strs.iter().take(60) {
            if k < m {
                f(dict(vec![(k.clone(), I(1)), (m.clone(), bytes(b"z"))]));
            }
        }
    }
}

/// Documents and near-documents built from the literals of the sources.
pub fn literal_words(thorough: bool, f: &mut dyn FnMut(&[u8])) {
    literal(thorough, &mut |t| {
        let w = crate::model::enc(&t);
        f(&w);
        f(&w[..w.len() - 1]);
        let mut x = w.clone();
        x.push(b'e');
        f(&x);
        if w.len() < 100_000 {
            f(&[&b"l"[..], &w, b"i1ee"].concat());
            f(&[&b"d1:a"[..], &w, b"1:bi1ee"].concat());
        }
    });
    let l = lits();
    for &n in &l.ints {
        for m in [n.saturating_sub(1), n, n + 1, n * 2, n * 8] {
            f(format!("i{}e", m).as_bytes());
            f(format!("i-{}e", m).as_bytes());
            f(format!("{}:", m).as_bytes());
            f(format!("{}:abc", m).as_bytes());
            f(format!("l{}:abce", m).as_bytes());
            f(format!("d{}:abci1ee", m).as_bytes());
        }
    }
    for n in l.around(20_000) {
        // numbers and lengths of that many digits, runs of that many brackets
        let n = n as usize;
        f(format!("i{}e", "1".repeat(n)).as_bytes());
        f(format!("{}:", "1".repeat(n)).as_bytes());
        if n <= 1500 {
            f(&vec![b'l'; n]);
            f(&b"d1:a".repeat(n));
            f(&[vec![b'l'; n], vec![b'e'; n + 1]].concat());
        }
    }
    for t in &l.texts {
        f(t);
        f(&[&t[..], b"i1e"].concat());
        f(&[b"i1e", &t[..]].concat());
        f(&[b"i", &t[..], b"e"].concat());
        f(&[&t[..], b":"].concat());
        f(&[b"d", &t[..], b"e"].concat());
        f(&[b"l", &t[..], b"e"].concat());
    }
}
