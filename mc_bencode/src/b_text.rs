//! Text forms, error conversions and comparisons (B09, B10, B11).

use crate::gen;
use crate::model::*;
use bencode::{Error, Value, ValueRef};
use engine::{ensure, hash, show, words, Run, Verdict};
use std::cmp::Ordering;
use std::io;

// ------------------------------------------------------------------------ B09

/// The text of bytes: invalid parts become replacement characters.
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn shown(t: &T) -> Verdict {
    let doc = enc(t);
    let (v, q) = (to_value(t), to_ref(t));
    let want = text(&doc);
    ensure!(v.to_string() == want, "owning: shown as {:?}", v.to_string());
    ensure!(q.to_string() == want, "borrowing: shown as {:?}", q.to_string());
    ensure!(same(t, &v) && same_ref(t, &q), "showing changed the value");
    match std::str::from_utf8(&doc) {
        Ok(s) => {
            match s.parse::<Value>() {
                Ok(x) => ensure!(same(t, &x), "its text is read back as {:?}", x),
                Err(e) => return Err(format!("its text is not read back: {:?}", e)),
            }
            Ok(if doc.len() < 4 { "trivial short" } else { "text of a value" })
        }
        Err(_) => {
            ensure!(v.to_string().contains('\u{fffd}'), "shown without a mark for the bytes that are no text");
            Ok("value with bytes that are no text")
        }
    }
}

/// Reading a text is decoding its bytes.
fn read(w: &str) -> Verdict {
    let a = w.parse::<Value>();
    let b = Value::decode(w.as_bytes());
    match (&a, &b) {
        (Ok(x), Ok(y)) => ensure!(x == y, "read as {:?}, decoded as {:?}", x, y),
        (Err(x), Err(y)) => ensure!(x == y, "read with error {:?}, decoded with error {:?}", x, y),
        _ => return Err(format!("read as {:?}, decoded as {:?}", a, b)),
    }
    match (parse(w.as_bytes()), &a) {
        (None, Ok(x)) => Err(format!("malformed, but read as {:?}", x)),
        (Some(p), Ok(x)) => {
            ensure!(spells(&p.value, x), "read as {:?}", x);
            ensure!(x.to_string().parse::<Value>().as_ref() == Ok(x) || x.to_string().contains('\u{fffd}'), "does not survive showing and reading");
            Ok("text of a value")
        }
        (Some(p), Err(e)) => {
            ensure!(p.odd_number, "well-formed, but not read: {:?}", e);
            Ok("text with a non-minimal number")
        }
        (None, Err(_)) => Ok("trivial text of no value"),
    }
}

pub fn b09(r: &mut Run) {
    let (n, c, k) = r.pick((5, 6, 6), (6, 8, 7));
    r.note("most nodes of a small tree", n);
    r.note("longest chain of containers", c);
    r.note("all texts: length", k);
    let one = |r: &mut Run, t: &T| {
        let d = enc(t);
        r.case(hash(&d), || clip(&d), || shown(t));
    };
    r.family("all trees by node count");
    for ts in gen::by_nodes(n) {
        for t in &ts {
            one(r, t);
        }
    }
    r.family("wide: pairs and triples of edge leaves and keys");
    gen::wide(&mut |t| one(r, &t));
    r.family("chains of containers");
    gen::chains(c, &mut |t| one(r, &t));
    r.family("large: one dimension at a time");
    let th = r.thorough();
    gen::large(th, &mut |t| one(r, &t));
    r.family("literals of the sources");
    gen::literal(th, &mut |t| one(r, &t));
    r.family("every string of up to two bytes, and three over edges of UTF-8");
    let all: Vec<u8> = (0..=255).collect();
    words::words(&all, 0, 2, |w| one(r, &bytes(w)));
    let edges = [0x00, b'a', 0x7f, 0x80, 0xbf, 0xc0, 0xc2, 0xdf, 0xe0, 0xa0, 0xed, 0x9f, 0xef, 0xf0, 0x90, 0xf4, 0x8f, 0xf5, 0xff];
    words::words(&edges, 3, if th { 4 } else { 3 }, |w| one(r, &T::L(vec![bytes(w), T::I(1)])));
    r.family("long texts of wide characters, shifted");
    for n in gen::lits().around(if th { 1_100_000 } else { 70_000 }) {
        let n = n as usize;
        for c in ["\u{e9}", "\u{20ac}", "\u{1f980}", "\u{fffd}", "a\u{301}"] {
            for shift in 0..4 {
                for tail in [&b""[..], b"\xff", b"z"] {
                    // a text around n bytes long, and one character across n
                    let mut w = vec![b'x'; shift];
                    while w.len() < n + 4 {
                        w.extend(c.bytes());
                    }
                    w.extend(tail);
                    one(r, &bytes(&w));
                    let mut w = vec![b'x'; n.saturating_sub(shift)];
                    w.extend(c.bytes());
                    w.extend(tail);
                    one(r, &bytes(&w));
                    one(r, &T::L(vec![bytes(&w), bytes(c.as_bytes())]));
                }
            }
        }
    }
    r.family("all texts over the alphabet");
    let alpha: Vec<char> = "ilde01-:a\u{e9}".chars().collect();
    words::sequences(alpha.len(), 0, k, |ix| {
        let w: String = ix.iter().map(|&i| alpha[i]).collect();
        r.case(hash(w.as_bytes()), || w.clone(), || read(&w));
    });
    r.family("damaged documents that are texts");
    gen::mutations(&mut |w| {
        if let Ok(w) = std::str::from_utf8(w) {
            r.case(hash(w.as_bytes()), || w.to_string(), || read(w));
        }
    });
    r.family("space and signs around documents");
    for d in gen::base_documents() {
        if let Ok(d) = std::str::from_utf8(&d) {
            for s in [" ", "\n", "\r\n", "\t", "\0", "\u{feff}", "\u{a0}", "\u{2028}", "+", ",", "e"] {
                for w in [format!("{}{}", s, d), format!("{}{}", d, s), format!("{}{}{}", s, d, s)] {
                    r.case(hash(w.as_bytes()), || format!("{:?}", w), || read(&w));
                }
            }
        }
    }
}

fn clip(b: &[u8]) -> String {
    if b.len() <= 200 {
        show(b)
    } else {
        format!("{}.. ({} bytes)", show(&b[..120]), b.len())
    }
}

// ------------------------------------------------------------------------ B10

fn every_error() -> Vec<Error> {
    let mut v = vec![
        Error::IO,
        Error::EOF,
        Error::ParseInt,
        Error::ParseBytes,
        Error::ParseString,
        Error::ParseList,
        Error::ParseDict,
        Error::DepthLimit,
        Error::ItemLimit,
    ];
    for b in 0..=255u8 {
        v.push(Error::InvalidChar(b));
        v.push(Error::ExpectedChar(b));
    }
    v
}

/// The numbers written in a text.
fn numbers(s: &str) -> Vec<u64> {
    s.split(|c: char| !c.is_ascii_digit()).filter_map(|p| p.parse().ok()).collect()
}

fn kind_of(e: &Error) -> io::ErrorKind {
    match e {
        Error::IO => io::ErrorKind::Other,
        Error::EOF => io::ErrorKind::UnexpectedEof,
        _ => io::ErrorKind::InvalidData,
    }
}

fn copy(e: &Error) -> Error {
    match e {
        Error::IO => Error::IO,
        Error::EOF => Error::EOF,
        Error::ParseInt => Error::ParseInt,
        Error::ParseBytes => Error::ParseBytes,
        Error::ParseString => Error::ParseString,
        Error::ParseList => Error::ParseList,
        Error::ParseDict => Error::ParseDict,
        Error::InvalidChar(b) => Error::InvalidChar(*b),
        Error::ExpectedChar(b) => Error::ExpectedChar(*b),
        Error::DepthLimit => Error::DepthLimit,
        Error::ItemLimit => Error::ItemLimit,
    }
}

fn converted(e: &Error) -> Result<String, String> {
    let x = io::Error::from(copy(e));
    ensure!(x.kind() == kind_of(e), "{:?} becomes an I/O error of kind {:?}", e, x.kind());
    let m = x.to_string();
    if let Error::InvalidChar(b) | Error::ExpectedChar(b) = e {
        ensure!(numbers(&m).contains(&(*b as u64)), "the message of {:?} does not name the byte: {:?}", e, m);
    }
    Ok(m)
}

pub fn b10(r: &mut Run) {
    let k = r.pick(5, 7);
    r.note("all words: length", k);
    let all = every_error();
    r.family("every pair of errors");
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            let key = engine::combine(i as u64 + 1, j as u64 + 1);
            r.case(
                key,
                || format!("{:?} and {:?}", a, b),
                || {
                    ensure!((a == b) == (i == j), "equality does not tell them apart");
                    let (x, y) = (converted(a)?, converted(b)?);
                    ensure!((a.to_string() == b.to_string()) == (i == j), "shown as {:?} and {:?}", a.to_string(), b.to_string());
                    if i == j {
                        return Ok("trivial same error");
                    }
                    ensure!(x != y, "both give the message {:?}", x);
                    Ok("two errors")
                },
            );
        }
    }
    r.family("errors of all words over the alphabet");
    let judge = |w: &[u8]| -> Verdict {
        let mut bad = 0;
        for (d, i) in [(None, None), (Some(0), None), (None, Some(0)), (Some(1), Some(1))] {
            for e in [Value::decode_with_limits(w, d, i).err(), ValueRef::decode_with_limits(w, d, i).err()] {
                if let Some(e) = e {
                    bad += 1;
                    ensure!(!matches!(e, Error::IO), "reading bytes gives an I/O error");
                    converted(&e)?;
                    if matches!(e, Error::DepthLimit) {
                        ensure!(d.is_some(), "depth error without a depth limit");
                    }
                    if matches!(e, Error::ItemLimit) {
                        ensure!(i.is_some(), "item error without an item limit");
                    }
                    if let Error::InvalidChar(b) = e {
                        ensure!(w.contains(&b), "the error names a byte the input does not have: {:?}", e);
                    }
                }
            }
        }
        Ok(if bad == 0 { "trivial no error" } else { "error" })
    };
    words::words(b"ilde01-:a\xff", 0, k, |w| r.case(hash(w), || show(w), || judge(w)));
    r.family("errors of all words of up to two bytes");
    let bytes: Vec<u8> = (0..=255).collect();
    words::words(&bytes, 1, 2, |w| r.case(hash(w), || show(w), || judge(w)));
    r.family("errors of damaged documents");
    gen::mutations(&mut |w| r.case(hash(w), || show(w), || judge(w)));
}

// ------------------------------------------------------------------------ B11

/// Place of a kind in the order of kinds, taken from the code under check: the
/// property leaves it open, but it must be one order.
fn rank(t: &T) -> usize {
    match t {
        T::I(_) => 0,
        T::B(_) => 1,
        T::L(_) => 2,
        T::D(_) => 3,
    }
}

fn cmp(a: &T, b: &T, kinds: &[[Ordering; 4]; 4]) -> Ordering {
    match (a, b) {
        (T::I(x), T::I(y)) => x.cmp(y),
        (T::B(x), T::B(y)) => x.cmp(y),
        (T::L(x), T::L(y)) => {
            for (p, q) in x.iter().zip(y) {
                match cmp(p, q, kinds) {
                    Ordering::Equal => {}
                    o => return o,
                }
            }
            x.len().cmp(&y.len())
        }
        (T::D(x), T::D(y)) => {
            for (p, q) in x.iter().zip(y) {
                match p.0.as_bytes().cmp(q.0.as_bytes()).then_with(|| cmp(&p.1, &q.1, kinds)) {
                    Ordering::Equal => {}
                    o => return o,
                }
            }
            x.len().cmp(&y.len())
        }
        _ => kinds[rank(a)][rank(b)],
    }
}

pub fn b11(r: &mut Run) {
    let (n, few) = r.pick((4, 3), (5, 3));
    r.note("most nodes of a small tree, each against every tree of the next line", n);
    r.note("most nodes of the other tree", few);
    let reps = [T::I(0), bytes(b"x"), T::L(vec![T::I(1)]), dict(vec![("k".into(), T::I(1))])];
    let mut kinds = [[Ordering::Equal; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            if i != j {
                if let Some(o) = to_value(&reps[i]).partial_cmp(&to_value(&reps[j])) {
                    kinds[i][j] = o;
                }
            }
        }
    }
    r.family("the order of kinds");
    for i in 0..4 {
        for j in 0..4 {
            for k in 0..4 {
                r.case(
                    (i * 16 + j * 4 + k) as u64 + 1,
                    || format!("{:?}, {:?}, {:?}", reps[i], reps[j], reps[k]),
                    || {
                        ensure!(kinds[i][j] == kinds[j][i].reverse() && (kinds[i][j] == Ordering::Equal) == (i == j), "not an order");
                        if kinds[i][j] == kinds[j][k] {
                            ensure!(kinds[i][k] == kinds[i][j], "not transitive");
                        }
                        Ok(if i == j && j == k { "trivial one kind" } else { "kinds" })
                    },
                );
            }
        }
    }
    let pair = |r: &mut Run, a: &T, b: &T| {
        let (x, y) = (enc(a), enc(b));
        r.case(
            engine::combine(hash(&x), hash(&y)),
            || format!("{} and {}", clip(&x), clip(&y)),
            || {
                let (va, vb, qa, qb) = (to_value(a), to_value(b), to_ref(a), to_ref(b));
                let eq = x == y;
                ensure!((va == vb) == eq && (va != vb) != eq, "owning: equality is {}", va == vb);
                ensure!((qa == qb) == eq && (qa != qb) != eq, "borrowing: equality is {}", qa == qb);
                let want = cmp(a, b, &kinds);
                ensure!(va.partial_cmp(&vb) == Some(want), "owning: compares as {:?}, not {:?}", va.partial_cmp(&vb), want);
                ensure!(qa.partial_cmp(&qb) == Some(want), "borrowing: compares as {:?}, not {:?}", qa.partial_cmp(&qb), want);
                ensure!((va < vb, va <= vb, va > vb, va >= vb) == (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()), "owning: comparison operators disagree");
                ensure!((qa < qb, qa <= qb, qa > qb, qa >= qb) == (want.is_lt(), want.is_le(), want.is_gt(), want.is_ge()), "borrowing: comparison operators disagree");
                if eq {
                    ensure!(va.clone() == va && qa.clone() == qa && same(a, &va.clone()) && same_ref(a, &qa.clone()), "a copy differs");
                }
                Ok(if eq { "trivial equal" } else if rank(a) != rank(b) { "different kinds" } else { "same kind" })
            },
        )
    };
    r.family("small trees against smaller trees");
    let by = gen::by_nodes(n);
    let small: Vec<&T> = by.iter().take(few + 1).flatten().collect();
    for t in by.iter().flatten() {
        for u in &small {
            pair(r, t, u);
            pair(r, u, t);
        }
    }
    r.family("edge integers");
    let ints: Vec<i64> = gen::int_edges().into_iter().filter(|n| n.unsigned_abs() < 12 || n.unsigned_abs() > 1 << 6).collect();
    for &a in &ints {
        for &b in &ints {
            if a.unsigned_abs() < 1100 && b.unsigned_abs() < 1100 && (a - b).abs() > 3 && (a % 16 != 0 || b % 16 != 0) {
                continue;
            }
            pair(r, &T::I(a), &T::I(b));
        }
    }
    r.family("strings, as values, in lists, as keys");
    let mut ss: Vec<Vec<u8>> = gen::strings();
    let abc = [0x00u8, b'a', b'b', 0x7f, 0xff];
    words::words(&abc, 1, 3, |w| ss.push(w.to_vec()));
    for len in [7usize, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100] {
        for d in [0, len / 2, len - 1] {
            let mut s = vec![b'm'; len];
            ss.push(s.clone());
            s[d] = b'l';
            ss.push(s.clone());
            s[d] = 0xe9;
            ss.push(s);
        }
    }
    for a in &ss {
        for b in &ss {
            pair(r, &bytes(a), &bytes(b));
            pair(r, &T::L(vec![bytes(a)]), &T::L(vec![bytes(b), T::I(0)]));
            if let (Ok(k), Ok(l)) = (String::from_utf8(a.clone()), String::from_utf8(b.clone())) {
                pair(r, &dict(vec![(k, T::I(1))]), &dict(vec![(l, T::I(0))]));
            }
        }
    }
    r.family("long lists and dictionaries differing in one place");
    for n in [1usize, 2, 3, 8, 33, 100, 257] {
        let base: Vec<T> = (0..n as i64).map(|i| T::I(i * 3)).collect();
        for d in (0..n).filter(|d| n < 40 || d % 16 == 0 || *d == n - 1) {
            for x in [T::I(d as i64 * 3 + 1), T::I(-1), bytes(b""), T::L(vec![])] {
                let mut other = base.clone();
                other[d] = x;
                pair(r, &T::L(base.clone()), &T::L(other.clone()));
                pair(r, &T::L(other.clone()), &T::L(base.clone()));
                let m = |v: &[T]| dict(v.iter().enumerate().map(|(i, t)| (format!("{:03}", i), t.clone())).collect());
                pair(r, &m(&base), &m(&other));
                let mut less = base.clone();
                less.truncate(d);
                pair(r, &T::L(less.clone()), &T::L(other.clone()));
                pair(r, &m(&base), &m(&less));
            }
        }
    }
    r.family("dictionaries and lists differing in one or two values");
    let all: Vec<T> = vec![
        T::I(0),
        T::I(1),
        bytes(b""),
        bytes(b"a"),
        T::L(vec![]),
        T::L(vec![T::I(0)]),
        T::L(vec![T::L(vec![])]),
        dict(vec![]),
        dict(vec![("k".into(), T::I(0))]),
        dict(vec![("k".into(), T::L(vec![]))]),
    ];
    for n in 2..=6usize {
        for base in &all {
            for i in 0..n {
                for x in &all {
                    for (j, y) in (0..n).flat_map(|j| all.iter().map(move |y| (j, y))) {
                        if n > 3 && y != x && y != base {
                            continue;
                        }
                        let mut a = vec![base.clone(); n];
                        let mut b = a.clone();
                        a[i] = x.clone();
                        b[j] = y.clone();
                        let m = |v: &[T]| dict(v.iter().enumerate().map(|(i, t)| (format!("{}", i), t.clone())).collect());
                        pair(r, &m(&a), &m(&b));
                        pair(r, &T::L(a), &T::L(b));
                    }
                }
            }
        }
    }
    r.family("literals of the sources");
    let mut lits: Vec<T> = vec![];
    gen::literal(false, &mut |t| {
        if enc(&t).len() < 200 {
            lits.push(t)
        }
    });
    lits.truncate(400);
    for a in &lits {
        for b in &lits {
            pair(r, a, b);
        }
    }
}
