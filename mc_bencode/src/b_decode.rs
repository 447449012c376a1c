use crate::gen;
use crate::mem;
use crate::model::*;
use bencode::{Error, Value, ValueRef};
use engine::{ensure, hash, show, words, Run, Verdict};

const ALPHABET: &[u8] = b"ilde012-:a\xff";

/// Words of the reference recogniser: every viable prefix up to `max` bytes
/// (`in_budget` only those that can be completed within it), and each extended
/// by every symbol of the alphabet. Calls f(word, viable).
fn viable(max: usize, r: &mut Run, f: &mut dyn FnMut(&mut Run, &[u8])) {
    let mut w = vec![];
    fn go(max: usize, c: &Conf, w: &mut Vec<u8>, r: &mut Run, f: &mut dyn FnMut(&mut Run, &[u8])) {
        r.state(engine::hash_dbg(c));
        f(r, w);
        if w.len() == max || r.stop() {
            return;
        }
        // inside a string, the next byte is free: two representatives
        let in_string = matches!(c.tok, Tok::Str { .. });
        for &b in ALPHABET {
            if in_string && b != b'e' && b != b'0' && b != 0xff {
                continue;
            }
            w.push(b);
            match c.step(b) {
                Some(n) if n.need() + w.len() <= max && n.stack.len() < 900 => {
                    r.transition(engine::combine(engine::hash_dbg(c), b as u64));
                    go(max, &n, w, r, f)
                }
                _ => f(r, w),
            }
            w.pop();
        }
    }
    go(max, &Conf::start(), &mut w, r, f);
}

fn judge(b: &[u8], near: bool) -> Verdict {
    let m = parse(b);
    let v = Value::decode(b);
    let q = ValueRef::decode(b);
    match m {
        None => {
            ensure!(v.is_err(), "owning: accepted malformed input as {:?}", v);
            ensure!(q.is_err(), "borrowing: accepted malformed input as {:?}", q);
            Ok(if near { "rejected, one step from a document or prefix" } else { "trivial rejected" })
        }
        Some(p) => {
            match &v {
                Ok(x) => ensure!(spells(&p.value, x), "owning: decoded to {:?}", x),
                Err(e) => ensure!(p.odd_number, "owning: rejected a well-formed document: {:?}", e),
            }
            match &q {
                Ok(x) => ensure!(spells_ref(&p.value, x), "borrowing: decoded to {:?}", x),
                Err(e) => ensure!(p.odd_number, "borrowing: rejected a well-formed document: {:?}", e),
            }
            Ok(if p.odd_number {
                "document with a non-minimal number"
            } else if p.items == 1 {
                "accepted scalar or empty container"
            } else {
                "accepted container"
            })
        }
    }
}

pub fn b03(r: &mut Run) {
    let (n, k) = r.pick((6, 13), (8, 16));
    r.note("all words: alphabet", show(ALPHABET));
    r.note("all words: length", n);
    r.note("viable prefixes: length", k);
    r.family("viable prefixes of the recogniser and one step off");
    r.tracing(true);
    viable(k, r, &mut |r, w| r.case(hash(w), || show(w), || judge(w, true)));
    r.tracing(false);
    r.family("all words over the alphabet");
    words::words(ALPHABET, 0, n, |w| {
        r.case(hash(w), || show(w), || judge(w, false));
    });
    r.family("all words of up to two bytes");
    let all: Vec<u8> = (0..=255).collect();
    words::words(&all, 0, 2, |w| r.case(hash(w), || show(w), || judge(w, false)));
    r.family("single damages of the base documents");
    gen::mutations(&mut |w| r.case(hash(w), || show(w), || judge(w, true)));
    r.family("numbers and lengths around the limits");
    gen::numbers(&mut |w| r.case(hash(w), || show(w), || judge(w, true)));
    r.family("dictionaries written in every order");
    gen::orders(&mut |w| r.case(hash(w), || show(w), || judge(w, true)));
    r.family("every byte in a key, in a string, after a document");
    for b in 0..=255u8 {
        for c in 0..=255u8 {
            for w in [
                vec![b'd', b'2', b':', b, c, b'0', b':', b'e'],
                vec![b'l', b'2', b':', b, c, b'e'],
                vec![b'l', b'1', b':', b, c, b'e'],
                vec![b'i', b, c, b'e'],
                vec![b, c, b'i', b'1', b'e'],
                vec![b'i', b'1', b'e', b, c],
                vec![b'd', b, c, b'e'],
            ] {
                r.case(hash(&w), || show(&w), || judge(&w, true));
            }
        }
    }
    r.family("large documents");
    let th = r.thorough();
    gen::large(th, &mut |t| {
        let w = enc(&t);
        r.case(hash(&w), || clip(&w), || judge(&w, true));
        let w = &w[..w.len() - 1];
        r.case(hash(w), || clip(w), || judge(w, true));
    });
    r.family("literals of the sources");
    gen::literal_words(th, &mut |w| r.case(hash(w), || clip(w), || judge(w, true)));
}

fn clip(b: &[u8]) -> String {
    if b.len() <= 200 {
        show(b)
    } else {
        format!("{}..{} ({} bytes)", show(&b[..120]), show(&b[b.len() - 40..]), b.len())
    }
}

// ------------------------------------------------------------------------ B04

fn bound(len: usize) -> usize {
    8192 + 400 * len
}

fn decode_all(b: &[u8], full: bool) -> Verdict {
    let limits: &[(Option<usize>, Option<usize>)] = if full {
        &[(None, None), (Some(0), None), (None, Some(0)), (Some(1), Some(1)), (Some(2), Some(3)), (Some(usize::MAX), Some(usize::MAX))]
    } else {
        &[(None, None)]
    };
    let mut ok = false;
    for &(d, i) in limits {
        let (a, m) = mem::peak(|| Value::decode_with_limits(b, d, i).is_ok());
        ensure!(m <= bound(b.len()), "owning: limits {:?} {:?}: {} bytes of heap for {} bytes of input", d, i, m, b.len());
        let (c, m) = mem::peak(|| ValueRef::decode_with_limits(b, d, i).is_ok());
        ensure!(m <= bound(b.len()), "borrowing: limits {:?} {:?}: {} bytes of heap for {} bytes of input", d, i, m, b.len());
        ok |= a || c;
    }
    Ok(if b.is_empty() {
        "trivial empty"
    } else if ok {
        "returned a value"
    } else {
        "returned an error"
    })
}

pub fn b04(r: &mut Run) {
    let all: Vec<u8> = (0..=255).collect();
    let (n, k) = r.pick((6, 11), (8, 15));
    r.note("all words: length", n);
    r.note("viable prefixes: length", k);
    r.note("heap bound in bytes", "8192 + 400 per byte of input");
    r.family("all words of up to three bytes");
    words::words(&all, 0, 3, |w| r.case(hash(w), || show(w), || decode_all(w, w.len() < 3)));
    r.family("all words over the alphabet");
    words::words(ALPHABET, 4, n, |w| r.case(hash(w), || show(w), || decode_all(w, w.len() < 6)));
    r.family("viable prefixes of the recogniser and one step off");
    viable(k, r, &mut |r, w| r.case(hash(w), || show(w), || decode_all(w, false)));
    r.family("single damages of the base documents");
    gen::mutations(&mut |w| r.case(hash(w), || show(w), || decode_all(w, true)));
    r.family("numbers and lengths around the limits");
    gen::numbers(&mut |w| r.case(hash(w), || show(w), || decode_all(w, true)));
    r.family("repetitions of short words");
    for n in [100usize, 1000, 1500] {
        words::words(b"ilde0:1", 1, 4, |unit| {
            let w: Vec<u8> = unit.iter().cycle().take(unit.len() * n).copied().collect();
            r.case(hash(&w), || format!("{} repeated {} times", show(unit), n), || decode_all(&w, false));
        });
    }
    r.family("large documents");
    let th = r.thorough();
    gen::large(th, &mut |t| {
        let w = enc(&t);
        r.case(hash(&w), || clip(&w), || decode_all(&w, false));
    });
    r.family("literals of the sources");
    gen::literal_words(th, &mut |w| r.case(hash(w), || clip(w), || decode_all(w, w.len() < 5000)));
    r.family("wide documents");
    for n in r.pick(vec![1_000_000usize], vec![100_000, 1_000_000, 5_000_000]) {
        for doc in 0..8 {
            let (name, w): (&str, Vec<u8>) = match doc {
                0 => ("l (i0e)^n e", [b"l".to_vec(), b"i0e".repeat(n), b"e".to_vec()].concat()),
                1 => ("l (0:)^n e", [b"l".to_vec(), b"0:".repeat(n), b"e".to_vec()].concat()),
                2 => ("l (le)^n e", [b"l".to_vec(), b"le".repeat(n), b"e".to_vec()].concat()),
                3 => ("l (d1:ai1ee)^n e", [b"l".to_vec(), b"d1:ai1ee".repeat(n), b"e".to_vec()].concat()),
                4 => ("d of n ascending keys e", [b"d".to_vec(), (0..n).flat_map(|i| format!("8:{:08}0:", i).into_bytes()).collect(), b"e".to_vec()].concat()),
                5 => ("d of n descending keys e", [b"d".to_vec(), (0..n).rev().flat_map(|i| format!("8:{:08}le", i).into_bytes()).collect(), b"e".to_vec()].concat()),
                6 => ("a string of 10 n bytes", [format!("{}:", 10 * n).into_bytes(), vec![b'x'; 10 * n]].concat()),
                _ => ("l (i0e)^n", [b"l".to_vec(), b"i0e".repeat(n)].concat()),
            };
            for borrowed in [false, true] {
                let label = format!("{} decoding {} with n = {}", if borrowed { "borrowing" } else { "owning" }, name, n);
                let w = &w;
                r.case_forked(hash(label.as_bytes()), 8 << 20, 20, || label.clone(), move || {
                    let lim = Some(usize::MAX);
                    let ok = if borrowed { ValueRef::decode_with_limits(w, None, lim).is_ok() } else { Value::decode_with_limits(w, None, lim).is_ok() };
                    Ok(if ok { "returned a value" } else { "returned an error" })
                });
            }
        }
    }
    r.family("deep documents on an 8 MB stack");
    for depth in [500usize, 1000, 2000, 1_000_000] {
        for doc in 0..6 {
            let (name, w): (&str, Vec<u8>) = match doc {
                0 => ("l^n e^n", [vec![b'l'; depth], vec![b'e'; depth]].concat()),
                1 => ("(d1:a)^n 0: e^n", [b"d1:a".repeat(depth), b"0:".to_vec(), vec![b'e'; depth]].concat()),
                2 => ("l^n", vec![b'l'; depth]),
                3 => ("d^n", vec![b'd'; depth]),
                4 => ("l^n e^(n-1)", [vec![b'l'; depth], vec![b'e'; depth - 1]].concat()),
                _ => ("(ld1:k)^(n/2) 0: e^n", [b"ld1:k".repeat(depth / 2), b"0:".to_vec(), vec![b'e'; depth]].concat()),
            };
            for borrowed in [false, true] {
                for how in 0..3 {
                    let label = format!(
                        "{} decoding {} with n = {}, {}",
                        if borrowed { "borrowing" } else { "owning" },
                        name,
                        depth,
                        ["result dropped", "result leaked", "depth limit 100"][how]
                    );
                    let w = &w;
                    r.case_forked(hash(label.as_bytes()), 8 << 20, 20, || label.clone(), move || {
                        let lim = if how == 2 { Some(100) } else { None };
                        let ok = if borrowed {
                            let v = ValueRef::decode_with_limits(w, lim, None);
                            let ok = v.is_ok();
                            if how == 1 {
                                std::mem::forget(v);
                            }
                            ok
                        } else {
                            let v = Value::decode_with_limits(w, lim, None);
                            let ok = v.is_ok();
                            if how == 1 {
                                std::mem::forget(v);
                            }
                            ok
                        };
                        Ok(if ok { "returned a value" } else { "returned an error" })
                    });
                }
            }
        }
    }
}

// ------------------------------------------------------------------------ B05

fn both(b: &[u8], lims: &[Option<usize>], near: bool) -> Verdict {
    let mut ok = false;
    for &d in lims {
        for &i in lims {
            let v = Value::decode_with_limits(b, d, i);
            let q = ValueRef::decode_with_limits(b, d, i);
            match (&v, &q) {
                (Ok(x), Ok(y)) => {
                    ensure!(agree(x, y), "limits {:?} {:?}: owning {:?}, borrowing {:?}", d, i, x, y);
                    ok = true;
                }
                (Err(x), Err(y)) => ensure!(x == y, "limits {:?} {:?}: owning error {:?}, borrowing error {:?}", d, i, x, y),
                _ => return Err(format!("limits {:?} {:?}: owning {:?}, borrowing {:?}", d, i, v, q)),
            }
            if d.is_none() && i.is_none() {
                let (a, c) = (Value::decode(b), ValueRef::decode(b));
                match (&a, &c) {
                    (Ok(x), Ok(y)) => ensure!(agree(x, y), "owning {:?}, borrowing {:?}", x, y),
                    (Err(x), Err(y)) => ensure!(x == y, "owning error {:?}, borrowing error {:?}", x, y),
                    _ => return Err(format!("owning {:?}, borrowing {:?}", a, c)),
                }
            }
        }
    }
    Ok(if ok {
        "same value"
    } else if near {
        "same error"
    } else {
        "trivial same error on an arbitrary word"
    })
}

pub fn b05(r: &mut Run) {
    let (n, k) = r.pick((5, 10), (7, 13));
    let lims = [None, Some(0), Some(1), Some(2), Some(3)];
    r.note("all words: length", n);
    r.note("viable prefixes: length", k);
    r.note("limits", "every pair of none, 0, 1, 2, 3");
    r.family("viable prefixes of the recogniser and one step off");
    viable(k, r, &mut |r, w| r.case(hash(w), || show(w), || both(w, &lims, true)));
    r.family("all words over the alphabet");
    words::words(ALPHABET, 0, n, |w| r.case(hash(w), || show(w), || both(w, &lims, false)));
    r.family("single damages of the base documents");
    gen::mutations(&mut |w| r.case(hash(w), || show(w), || both(w, &lims[..3], true)));
    r.family("numbers and lengths around the limits");
    gen::numbers(&mut |w| r.case(hash(w), || show(w), || both(w, &lims[..2], true)));
    r.family("dictionaries written in every order, with repeated keys");
    gen::orders(&mut |w| r.case(hash(w), || show(w), || both(w, &[None, Some(4), Some(7)], true)));
    r.family("every byte in a key, in a string, after a document");
    for b in 0..=255u8 {
        for c in 0..=255u8 {
            for w in [
                vec![b'd', b'2', b':', b, c, b'0', b':', b'e'],
                vec![b'i', b, c, b'e'],
                vec![b'i', b'1', b'e', b, c],
                vec![b, c],
                vec![b'l', b, c, b'e'],
            ] {
                r.case(hash(&w), || show(&w), || both(&w, &[None], true));
            }
        }
    }
    r.family("large documents");
    let th = r.thorough();
    gen::large(th, &mut |t| {
        let w = enc(&t);
        r.case(hash(&w), || clip(&w), || both(&w, &[None, Some(65535), Some(65536)], true));
    });
    r.family("literals of the sources");
    let ls: Vec<Option<usize>> = gen::lits().around(100_000).into_iter().map(|n| Some(n as usize)).collect();
    gen::literal_words(th, &mut |w| r.case(hash(w), || clip(w), || both(w, &[None, Some(3)], true)));
    r.note("literal limits", ls.len());
    for d in gen::base_documents() {
        r.case(hash(&[&d[..], b"lim"].concat()), || format!("{} under limits of the sources", show(&d)), || both(&d, &ls[..ls.len().min(150)], true));
    }
}

// ------------------------------------------------------------------------ B06

fn limited(w: &[u8], p: &Parsed, ds: &[Option<usize>], is: &[Option<usize>]) -> Verdict {
    for &d in ds {
        for &i in is {
            let over_d = d.map_or(false, |d| p.depth > d);
            let over_i = i.map_or(false, |i| p.items - 1 > i);
            let v = Value::decode_with_limits(w, d, i);
            let q = ValueRef::decode_with_limits(w, d, i);
            let judge = |e: Option<&Error>, right: bool, who: &str| -> Result<(), String> {
                match e {
                    None => {
                        ensure!(!over_d && !over_i, "{}: limits {:?} {:?}: accepted with depth {} and {} values", who, d, i, p.depth, p.items);
                        ensure!(right, "{}: limits {:?} {:?}: the value differs", who, d, i);
                    }
                    Some(Error::DepthLimit) => ensure!(over_d, "{}: limits {:?} {:?}: depth error, but depth is {}", who, d, i, p.depth),
                    Some(Error::ItemLimit) => ensure!(over_i, "{}: limits {:?} {:?}: item error, but there are {} values", who, d, i, p.items),
                    Some(e) => return Err(format!("{}: limits {:?} {:?}: error {:?}", who, d, i, e)),
                }
                Ok(())
            };
            judge(v.as_ref().err(), v.as_ref().map_or(true, |v| spells(&p.value, v)), "owning")?;
            judge(q.as_ref().err(), q.as_ref().map_or(true, |v| spells_ref(&p.value, v)), "borrowing")?;
        }
    }
    Ok(if p.items == 1 { "trivial single value" } else { "all limits exact" })
}

fn around(ns: &[usize]) -> Vec<Option<usize>> {
    let mut v: Vec<usize> = vec![];
    for &n in ns {
        v.extend([n.saturating_sub(2), n.saturating_sub(1), n, n + 1, n + 2]);
    }
    v.sort();
    v.dedup();
    let mut v: Vec<Option<usize>> = v.into_iter().map(Some).collect();
    v.push(Some(usize::MAX));
    v.push(None);
    v
}

pub fn b06(r: &mut Run) {
    let (n, c) = r.pick((5, 6), (6, 8));
    r.note("most nodes of a small tree", n);
    r.note("longest chain of containers", c);
    r.note("limits", "absent, 0 to two beyond the document's own, largest; every pair");
    let mut one = |r: &mut Run, w: &[u8], wide: bool| {
        r.case(
            hash(w),
            || clip(w),
            || {
                let p = parse(w).expect("harness: malformed");
                if wide {
                    limited(w, &p, &around(&[0, p.depth]), &around(&[0, p.items / 2, p.items]))
                } else {
                    let ds: Vec<Option<usize>> = (0..p.depth + 3).map(Some).chain([None, Some(usize::MAX)]).collect();
                    let is: Vec<Option<usize>> = (0..p.items + 3).map(Some).chain([None, Some(usize::MAX)]).collect();
                    limited(w, &p, &ds, &is)
                }
            },
        )
    };
    r.family("all trees by node count");
    for ts in gen::by_nodes(n) {
        for t in ts {
            one(r, &enc(&t), false);
        }
    }
    r.family("chains of containers");
    gen::chains(c, &mut |t| one(r, &enc(&t), false));
    r.family("wide: pairs and triples of edge leaves and keys");
    gen::wide(&mut |t| one(r, &enc(&t), true));
    r.family("dictionaries written in every order, with repeated keys");
    gen::orders(&mut |w| one(r, w, true));
    r.family("large documents");
    let th = r.thorough();
    gen::large(th, &mut |t| one(r, &enc(&t), true));
    r.family("literals of the sources");
    gen::literal(th, &mut |t| one(r, &enc(&t), true));
    let ls = gen::lits().around(if th { 20_000 } else { 3_000 });
    for &n in &ls {
        // a document at, above and below every pair of a literal depth and a
        // literal number of values
        let n = n as usize;
        for (d, i) in [(1, n), (2, n), (n.min(1200), 0), (n.min(1200), n), (n.min(1200), 2)] {
            if d == 0 {
                continue;
            }
            let w = [vec![b'l'; d], b"0:".repeat(i), vec![b'e'; d]].concat();
            one(r, &w, true);
        }
    }
    r.family("more values than any counter of few bits holds");
    for k in 17..=r.pick(21, 23) {
        for n in [(1usize << k) - 1, (1 << k) + 2] {
            let w = [&b"l"[..], &b"0:".repeat(n), b"e"].concat();
            r.case(
                hash(&w),
                || clip(&w),
                || {
                    let p = parse(&w).expect("harness: malformed");
                    limited(&w, &p, &[None], &[None, Some(p.items - 2), Some(p.items - 1), Some(p.items)])
                },
            );
        }
    }
    r.family("malformed documents under limits");
    gen::mutations(&mut |w| {
        r.case(
            hash(w),
            || show(w),
            || {
                if parse(w).is_some() {
                    return Ok("trivial well-formed");
                }
                for d in [None, Some(0), Some(1), Some(5)] {
                    for i in [None, Some(0), Some(1), Some(2), Some(20)] {
                        ensure!(Value::decode_with_limits(w, d, i).is_err(), "owning: accepted under limits {:?} {:?}", d, i);
                        ensure!(ValueRef::decode_with_limits(w, d, i).is_err(), "borrowing: accepted under limits {:?} {:?}", d, i);
                    }
                }
                Ok("stays rejected")
            },
        )
    });
}
