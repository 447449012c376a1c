//! D06 to D09 and D15: what the store says about announced peers.

use crate::small::{compact, lits, sizes, special, Id};
use crate::store::*;
use bencode::Value;
use common::mc;
use dht::storage::DhtStorage;
use engine::{choice, combine, ensure, hash_dbg, show, Run, Verdict};
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;

type Dict = BTreeMap<String, Value>;

/// Replies a query may be given: none, an empty list, entries of others.
fn templates() -> Vec<Dict> {
    let d = |e: Vec<(&str, Value)>| -> Dict { e.into_iter().map(|(k, v)| (k.to_string(), v)).collect() };
    vec![
        d(vec![]),
        d(vec![("values", Value::List(vec![]))]),
        d(vec![
            ("id", Value::Bytes(vec![1; 20])),
            ("values", Value::List(vec![Value::Bytes(b"other".to_vec()), Value::Int(1)])),
            ("token", Value::Bytes(b"tk".to_vec())),
            ("z", Value::Int(3)),
        ]),
        // addresses that others put there, and one that is announced as well
        d(vec![(
            "values",
            Value::List(
                [0usize, 1, 4, 5, 6, 7, 16, 17, 18, 19, 24, 26, 36, 38]
                    .iter()
                    .map(|n| Value::Bytes((0..*n).map(|i| (i * 37 + 11) as u8).collect()))
                    .chain([Value::Bytes(vec![0; 6]), Value::Bytes(vec![0; 18]), Value::Bytes(vec![1, 1, 1, 1, 0, 1])])
                    .chain([Value::List(vec![Value::Bytes(vec![1; 6])]), Value::Dict(d(vec![("values", Value::List(vec![]))]))])
                    .collect(),
            ),
        )]),
    ]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Source {
    Lowest,
    Highest,
    Middle,
}

fn script(s: Source) -> mc::Script {
    let mut asked = 0;
    Box::new(move |n| {
        asked += 1;
        if asked > 3000 {
            // for those who ask until they like the answer
            return choice::any(asked) % n.unwrap_or(u64::MAX);
        }
        match (s, n) {
        (Source::Lowest, _) => 0,
        (Source::Highest, Some(n)) => n - 1,
        (Source::Highest, None) => u64::MAX,
        (Source::Middle, Some(n)) => n / 2,
        (Source::Middle, None) => u64::MAX / 2,
        }
    })
}

fn get(real: &Real, t: &Id, no_seed: bool, scrape: bool, from: &SocketAddr, before: &Dict) -> Result<(bool, Dict), String> {
    let mut v = Value::Dict(before.clone());
    let full = real
        .s
        .get_peers(&hash_id(t), no_seed, scrape, from, &mut v)
        .map_err(|e| format!("query for {} from {} failed: {}", t[0], from, e))?;
    match v {
        Value::Dict(d) => Ok((full, d)),
        v => Err(format!("the reply became {}", show(&v.to_vec()))),
    }
}

/// Endpoints added to the reply, after checking that nothing else changed.
fn added(before: &Dict, after: &Dict) -> Result<Vec<Vec<u8>>, String> {
    let mut a = after.clone();
    let mut b = before.clone();
    if !b.contains_key("n") {
        a.remove("n");
    }
    let list = |v: Option<Value>| match v {
        None => Ok(vec![]),
        Some(Value::List(l)) => Ok(l),
        Some(v) => Err(format!("values became {}", show(&v.to_vec()))),
    };
    let had = b.contains_key("values");
    ensure!(!had || a.contains_key("values"), "the list of values is gone");
    let old = list(b.remove("values"))?;
    let new = list(a.remove("values"))?;
    ensure!(a == b, "other entries of the reply became {}", show(&Value::Dict(a.clone()).to_vec()));
    ensure!(new.len() >= old.len() && new[..old.len()] == old[..], "earlier values became {:?}", new);
    new[old.len()..]
        .iter()
        .map(|v| match v {
            Value::Bytes(b) => Ok(b.clone()),
            v => Err(format!("an endpoint is {}", show(&v.to_vec()))),
        })
        .collect()
}

fn requesters(w: &World) -> Vec<SocketAddr> {
    let mut v = vec![w.eps[0], ep4([77, 1, 2, 3], 4)];
    v.extend(w.eps.iter().find(|e| e.is_ipv6()));
    v.push(ep6([0x77; 16], 9, 0));
    // an address that carries an IPv4 address is still an IPv6 address
    v.push(ep6([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 77, 1, 2, 3], 4, 0));
    v.extend(&w.askers);
    v
}

/// Requesters of every kind of address.
fn odd_requesters() -> Vec<SocketAddr> {
    let mut v = vec![];
    for hi in [0u16, 0x64, 0x7f00, 0x0a00, 0xc0a8, 0xe000, 0xffff, 0x2002, 0x2001, 0xfe80, 0xfc00, 0xff02] {
        let [x, y] = hi.to_be_bytes();
        for port in [0, 1, 6881, 65535] {
            v.extend(special(hi).iter().map(|o| ep6(*o, port, 0)));
            v.push(ep4([x, y, 0, 1], port));
            v.push(ep4([x, y, 0, 0], port));
        }
    }
    v.push(ep6([0; 16], 0, 0));
    v.push(ep6([0xff; 16], 65535, 0));
    v.push(ep4([0xff; 4], 65535));
    v
}

fn matching(m: &Model, t: usize, six: bool, no_seed: bool) -> BTreeSet<Vec<u8>> {
    match m.torrents.get(&t) {
        Some(tor) => tor.family(six).iter().filter(|(_, s)| !(no_seed && **s)).map(|(e, _)| e.clone()).collect(),
        None => BTreeSet::new(),
    }
}

fn plain(real: &mut Real, m: &mut Model, op: &Op) -> Result<(), String> {
    follow(real, m, op)
}

fn listed(real: &Real, m: &Model, sources: &[Source], requesters: &[SocketAddr]) -> Verdict {
    let w = real.w;
    let mut some = false;
    for t in 0..w.torrents.len() {
        for from in requesters {
            let six = from.is_ipv6();
            let limit = if six { w.max_reply / 4 } else { w.max_reply };
            for no_seed in [false, true] {
                let want = matching(m, t, six, no_seed);
                let k = want.len().min(limit);
                for before in templates() {
                    for s in sources {
                        mc::install(Some(script(*s)));
                        let (_, after) = get(real, &w.torrents[t], no_seed, false, from, &before)?;
                        mc::install(None);
                        let what = || {
                            format!(
                                "torrent {}, {} request{}, reply holding {}, {:?} random numbers",
                                w.torrents[t][0],
                                if six { "IPv6" } else { "IPv4" },
                                if no_seed { " without seeds" } else { "" },
                                show(&Value::Dict(before.clone()).to_vec()),
                                s
                            )
                        };
                        if !m.torrents.contains_key(&t) {
                            ensure!(after == before, "{}: unknown, but the reply became {}", what(), show(&Value::Dict(after.clone()).to_vec()));
                            continue;
                        }
                        let got = added(&before, &after).map_err(|e| format!("{}: {}", what(), e))?;
                        let set: BTreeSet<Vec<u8>> = got.iter().cloned().collect();
                        ensure!(set.len() == got.len(), "{}: an endpoint is listed twice in {:?}", what(), got);
                        ensure!(set.is_subset(&want), "{}: listed {:?}, but only {:?} match", what(), got, want);
                        ensure!(got.len() == k, "{}: {} endpoints listed, not {}", what(), got.len(), k);
                        some |= k > 0;
                    }
                }
            }
        }
    }
    Ok(if some { "peers listed" } else { "trivial no peer listed" })
}

/// All announcements of the given endpoints.
fn anns(ts: &[usize], es: &[usize], names: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for &t in ts {
        for &e in es {
            for &name in names {
                for seed in [false, true] {
                    v.push(Op::Ann { t, e, name, seed });
                }
            }
        }
    }
    v
}

fn bulk(n: usize, order: u32, six: bool) -> Vec<SocketAddr> {
    let ep = |i: usize| {
        let port = 1000 + (i * 37 % 11) as u16;
        if six {
            let mut o = [0x20; 16];
            o[13] = (i / 7) as u8;
            o[14] = (i % 7) as u8;
            ep6(o, port + (i % 7) as u16, 0)
        } else {
            ep4([11, (i / 7) as u8, 3, (i % 7) as u8], port)
        }
    };
    let mut v: Vec<usize> = (0..n).collect();
    match order {
        0 => {}
        1 => v.reverse(),
        // from both ends inwards
        2 => v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect(),
        // from the middle outwards
        _ => {
            v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
            v.reverse();
        }
    }
    v.into_iter().map(ep).collect()
}

pub fn d06(r: &mut Run) {
    let sources = [Source::Lowest, Source::Highest];
    let run = |r: &mut Run, w: &World, deep: usize, wide: usize| {
        let from = requesters(w);
        let check = |real: &Real, m: &Model| listed(real, m, &sources, &from);
        let j = Judge { step: &plain, check: &check, seeds: &[] };
        unmerged(r, w, wide, &j);
        merged(r, w, deep, 300_000, &j);
    };
    let check = |real: &Real, m: &Model| listed(real, m, &[Source::Lowest], &requesters(real.w));
    everything(r, &Judge { step: &plain, check: &check, seeds: &[] }, true, false);
    one_host(r, &Judge { step: &plain, check: &check, seeds: &[] }, &[1, 2, 4, 8]);
    let limits: &[usize] = if r.thorough() { &[0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 100] } else { &[0, 1, 2, 3, 4, 7, 8, 12, 100] };
    r.note("reply limits", format!("{:?}", limits));
    r.family("announcements of several torrents and families");
    let wide = r.pick(3, 4);
    let deep = r.pick(4, 5);
    for &l in limits {
        let mut w = World::new();
        w.torrents.truncate(3);
        w.max_reply = l;
        w.ops = anns(&[0, 1], &[0, 1, 5, 6, 8], &[0]);
        // a named torrent
        w.names.push("a name".into());
        w.ops.push(Op::Ann { t: 1, e: 2, name: 1, seed: false });
        run(r, &w, deep, wide);
    }
    r.family("announcements of one torrent, all orders");
    let wide = r.pick(4, 5);
    let deep = r.pick(5, 7);
    for six in [false, true] {
        for l in [2, 12, 100] {
            let mut w = World::new();
            w.torrents.truncate(1);
            w.max_reply = l;
            w.ops = if six { anns(&[0], &[6, 7, 8, 9, 10, 11], &[0]) } else { anns(&[0], &[0, 1, 2, 3, 4, 5], &[0]) };
            run(r, &w, deep, wide - 1);
            if l == 100 {
                unmerged(r, &w, wide, &Judge { step: &plain, check: &|real, m| listed(real, m, &[Source::Lowest], &[w.eps[0], w.eps[6]]), seeds: &[] });
            }
        }
    }
    r.family("many peers");
    let sizes: Vec<usize> = if r.thorough() { (0..140).chain([199, 200, 201, 300, 401, 499, 500]).collect() } else { (0..64).chain([99, 100, 101, 130, 401]).collect() };
    let sizes: Vec<usize> = sizes.into_iter().chain(crate::small::sizes(r.pick(600, 1200))).collect::<BTreeSet<_>>().into_iter().collect();
    for n in sizes {
        for order in 0..4 {
            for six in [false, true] {
                for limit in [10, 100, 1000] {
                    // half of the peers announce again with the other seed state
                    for again in [false, true] {
                        let mut w = World::new();
                        w.torrents.truncate(1);
                        w.eps = bulk(n, order, six);
                        w.max_reply = limit;
                        let mut ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 3 == 0 }).collect();
                        if again {
                            ops.extend((0..n).rev().filter(|e| e % 2 == 0).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 3 != 0 }));
                        }
                        let from = [ep4([1, 1, 1, 1], 1), ep6([1; 16], 1, 0)];
                        let check = |real: &Real, m: &Model| listed(real, m, &[Source::Lowest, Source::Middle, Source::Highest], &from);
                        let what = format!("{} {} peers in order {}{}", n, if six { "IPv6" } else { "IPv4" }, order, if again { ", every second again" } else { "" });
                        single(r, &w, &ops, &what, &Judge { step: &plain, check: &check, seeds: &[] });
                    }
                }
            }
        }
    }
    r.family("addresses of every kind");
    for block in 0..2048u32 {
        for named in [false, true] {
            let mut w = World::new();
            w.torrents.truncate(1);
            w.names = vec!["".into(), "named".into()];
            w.eps = vec![];
            for hi in (block * 32..block * 32 + 32).map(|h| h as u16) {
                let [x, y] = hi.to_be_bytes();
                w.eps.extend(special(hi).iter().map(|o| ep6(*o, hi, 0)));
                w.eps.push(ep4([x, y, 0, 1], hi));
            }
            let ops: Vec<Op> = (0..w.eps.len()).rev().map(|e| Op::Ann { t: 0, e, name: named as usize, seed: e % 2 == 0 }).collect();
            let from = [ep4([1, 1, 1, 1], 1), ep6([1; 16], 1, 0), w.eps[0], w.eps[1], w.eps[2]];
            let check = |real: &Real, m: &Model| listed(real, m, &[Source::Lowest], &from);
            single(r, &w, &ops, &format!("leading octets from {:04x}, named {}", block * 32, named), &Judge { step: &plain, check: &check, seeds: &[] });
        }
    }
    r.family("requesters of every kind of address");
    for from in odd_requesters() {
        for limit in [3, 100] {
            let mut w = World::new();
            w.torrents.truncate(2);
            w.max_reply = limit;
            let ops: Vec<Op> = (0..w.eps.len()).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 2 == 0 }).collect();
            let check = |real: &Real, m: &Model| listed(real, m, &[Source::Lowest, Source::Highest], &[from]);
            single(r, &w, &ops, &format!("asked by {}, reply limit {}", from, limit), &Judge { step: &plain, check: &check, seeds: &[] });
        }
    }
    r.family("reply limits of the sources");
    for limit in crate::small::sizes(r.pick(600, 1200)).into_iter().chain(lits().ints.iter().filter(|n| **n > 1200 && **n <= usize::MAX as u128).map(|n| *n as usize)).chain([usize::MAX, usize::MAX / 2 + 1]) {
        for n in [1, 5, 31] {
            let n = if limit < 3000 { limit + n } else { 40 * n };
            for six in [false, true] {
                let mut w = World::new();
                w.torrents.truncate(1);
                w.eps = bulk(n, 0, six);
                w.max_peers = 100_000;
                w.max_reply = limit;
                let ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 3 == 0 }).collect();
                let from = [ep4([1, 1, 1, 1], 1), ep6([1; 16], 1, 0)];
                let check = |real: &Real, m: &Model| listed(real, m, &[Source::Lowest, Source::Highest], &from);
                single(r, &w, &ops, &format!("{} peers, reply limit {}, IPv6 {}", n, limit, six), &Judge { step: &plain, check: &check, seeds: &[] });
            }
        }
    }
    r.family("every endpoint byte");
    for pos in 0..18 {
        for x in 0..=255u8 {
            let mut w = World::new();
            w.torrents.truncate(1);
            let mut o = [0x20; 16];
            let mut port = [3u8, 4];
            if pos < 16 {
                o[pos] = x;
            } else {
                port[pos - 16] = x;
            }
            let port = u16::from_be_bytes(port);
            w.eps = vec![ep6(o, port, 0), ep4([o[0], o[1], o[2], o[3]], port), ep6([0x20; 16], 0x0304, 0), ep4([0x20; 4], 0x0304)];
            let ops: Vec<Op> = (0..4).map(|e| Op::Ann { t: 0, e, name: 0, seed: false }).collect();
            let from = [ep4([1, 1, 1, 1], 1), ep6([1; 16], 1, 0)];
            let check = |real: &Real, m: &Model| listed(real, m, &[Source::Lowest], &from);
            single(r, &w, &ops, &format!("endpoint byte {} is {}", pos, x), &Judge { step: &plain, check: &check, seeds: &[] });
        }
    }
}

// ------------------------------------------------------------------------ D07

fn fair(w: &World, ops: &[Op], six: bool, no_seed: bool) -> (Verdict, u64) {
    let settings = w.settings();
    let mut real = Real::new(w, &settings);
    let mut m = Model::default();
    for op in ops {
        if let Err(e) = follow(&mut real, &mut m, op) {
            return (Err(e), 0);
        }
    }
    let want = matching(&m, 0, six, no_seed);
    let limit = if six { w.max_reply / 4 } else { w.max_reply };
    let k = want.len().min(limit);
    let from = if six { ep6([0x77; 16], 9, 0) } else { ep4([77, 1, 2, 3], 4) };
    let before = &templates()[1];
    let mut p: BTreeMap<Vec<u8>, f64> = want.iter().map(|e| (e.clone(), 0.0)).collect();
    let mut bad = None;
    let mut exact = true;
    let mut endless = false;
    let mut total = 0.0;
    let runs = choice::explore(None, |ch| {
        let (s, weight) = choice::relay(ch, 12);
        mc::install(Some(Box::new(s)));
        let got = get(&real, &w.torrents[0], no_seed, false, &from, before).and_then(|(_, a)| added(before, &a));
        mc::install(None);
        if weight.endless() {
            endless = true;
            return false;
        }
        let (pr, ex) = weight.finish();
        exact &= ex;
        total += pr;
        match got {
            Ok(l) => {
                for e in l.iter().collect::<BTreeSet<_>>() {
                    // strangers and repetitions are for another property
                    if let Some(x) = p.get_mut(e) {
                        *x += pr;
                    }
                }
            }
            Err(e) => bad = Some(e),
        }
        bad.is_none()
    });
    if let Some(b) = bad {
        return (Err(b), runs);
    }
    if endless {
        return (Ok("trivial asks until it likes the answer"), runs);
    }
    let fairp = if want.is_empty() { 0.0 } else { k as f64 / want.len() as f64 };
    for (e, x) in &p {
        if exact && (total - 1.0).abs() < 1e-9 && (x - fairp).abs() > 1e-9 {
            return (Err(format!("{:?} is listed with probability {:.4}, not {:.4} ({} of {})", e, x, fairp, k, want.len())), runs);
        }
        if k > 0 && *x == 0.0 {
            return (Err(format!("{:?} is never listed", e)), runs);
        }
    }
    (Ok(if k < want.len() && k > 0 { "sampled" } else { "trivial all or none listed" }), runs)
}

/// Seconds of CPU time for the search through merged states, which gives up then.
const MOST_WORK: f64 = 11.0;

/// How a query ends when the random source answers `prefix` and then `tail`.
struct Play {
    /// number of alternatives of every draw
    bounds: Vec<u64>,
    /// which of the wanted peers are listed
    listed: Vec<bool>,
}

/// Ways to go on answering from draw `from` on: (draw, alternatives) to answer.
/// Among them, one draw that is answered unlike all others, at every place.
fn tails(from: usize, most: usize) -> Vec<Box<dyn Fn(u64, u64) -> u64>> {
    let mut v: Vec<Box<dyn Fn(u64, u64) -> u64>> = vec![
        Box::new(|_, _| 0),
        Box::new(|_, n| n - 1),
        Box::new(|_, n| n / 2),
        Box::new(|i, n| if i % 2 == 0 { 0 } else { n - 1 }),
        Box::new(|i, n| if i % 3 == 0 { n - 1 } else { n / 3 }),
        Box::new(|i, n| i * 7 % n),
        Box::new(|i, n| engine::mix(i + 1) % n),
    ];
    v.extend(lone(from, most));
    v
}

fn lone(from: usize, most: usize) -> Vec<Box<dyn Fn(u64, u64) -> u64>> {
    let mut v: Vec<Box<dyn Fn(u64, u64) -> u64>> = vec![];
    for j in from..most {
        let j = j as u64;
        v.push(Box::new(move |i, n| if i == j { 0 } else { n - 1 }));
        v.push(Box::new(move |i, n| if i == j { n - 1 } else { 0 }));
    }
    v
}

fn play(real: &Real, want: &[Vec<u8>], no_seed: bool, from: &SocketAddr, prefix: &[u64], tail: Box<dyn Fn(u64, u64) -> u64>) -> Result<Option<Play>, String> {
    let seen = std::rc::Rc::new(std::cell::RefCell::new((vec![], true)));
    let s = seen.clone();
    let p = prefix.to_vec();
    mc::install(Some(Box::new(move |n| {
        let mut s = s.borrow_mut();
        let i = s.0.len();
        assert!(i < 50_000, "asks the random source without end");
        if i > 3000 {
            s.1 = false;
        }
        let n = match n {
            Some(n) => n,
            None => {
                s.1 = false;
                return 0;
            }
        };
        s.0.push(n);
        match p.get(i) {
            _ if i > 3000 => choice::any(i as u64) % n,
            Some(a) => *a % n,
            None => tail(i as u64, n),
        }
    })));
    let before = &templates()[1];
    let got = get(real, &real.w.torrents[0], no_seed, false, from, before).and_then(|(_, a)| added(before, &a));
    mc::install(None);
    let got: BTreeSet<Vec<u8>> = got?.into_iter().collect();
    let (bounds, exact) = (seen.borrow().0.clone(), seen.borrow().1);
    Ok(exact.then(|| Play { bounds, listed: want.iter().map(|e| got.contains(e)).collect() }))
}

/// The probability of each of the wanted peers, for counts at which the answers
/// cannot be enumerated one sequence after the other: sequences after which the
/// query goes on alike, whatever follows of `tails`, are one state. None if that
/// does not fit (the source is used in another way, or there are too many states).
fn merged_chances(real: &Real, want: &[Vec<u8>], no_seed: bool, from: &SocketAddr, until: f64, runs: &mut u64) -> Result<Option<Vec<f64>>, String> {
    struct State {
        mass: f64,
        prefix: Vec<u64>,
        decided: Vec<Option<bool>>,
        listed: Vec<f64>,
    }
    // (key, decided, alternatives of the next draw)
    let look = |prefix: &[u64], runs: &mut u64| -> Result<Option<(u64, Vec<Option<bool>>, u64)>, String> {
        let mut all = vec![];
        let mut most = 0;
        for round in 0..2 {
            let ways = if round == 0 { tails(prefix.len(), 0) } else { lone(prefix.len(), most) };
            for t in ways {
                *runs += 1;
                match play(real, want, no_seed, from, prefix, t)? {
                    Some(p) if p.bounds.len() >= prefix.len() => {
                        most = most.max(p.bounds.len());
                        all.push(p)
                    }
                    _ => return Ok(None),
                }
            }
        }
        let next = all[0].bounds.get(prefix.len()).copied().unwrap_or(0);
        if all.iter().any(|p| p.bounds.get(prefix.len()).copied().unwrap_or(0) != next) {
            return Ok(None);
        }
        let decided: Vec<Option<bool>> = (0..want.len())
            .map(|i| {
                let x = all[0].listed[i];
                all.iter().all(|p| p.listed[i] == x).then_some(x)
            })
            .collect();
        if next == 0 && decided.iter().any(|d| d.is_none()) {
            return Ok(None);
        }
        let mut key = 1;
        for p in &all {
            for b in &p.bounds[prefix.len()..] {
                key = combine(key, *b);
            }
            key = combine(key, 0xABCD);
            for (i, d) in decided.iter().enumerate() {
                let bit = if d.is_some() { 2 } else { p.listed[i] as u64 };
                key = combine(key, bit);
            }
        }
        Ok(Some((key, decided, next)))
    };
    let mut p = vec![0.0; want.len()];
    let (_, decided, next) = match look(&[], runs)? {
        Some(x) => x,
        None => return Ok(None),
    };
    let listed = decided.iter().map(|d| (*d == Some(true)) as u32 as f64).collect();
    let mut layer = vec![(State { mass: 1.0, prefix: vec![], decided, listed }, next)];
    while !layer.is_empty() {
        let mut below: BTreeMap<u64, (State, u64)> = BTreeMap::new();
        for (s, n) in layer {
            if n == 0 {
                for (x, l) in p.iter_mut().zip(&s.listed) {
                    *x += l;
                }
                continue;
            }
            for a in 0..n {
                let mut prefix = s.prefix.clone();
                prefix.push(a);
                let (key, decided, next) = match look(&prefix, runs)? {
                    Some(x) => x,
                    None => return Ok(None),
                };
                let mass = s.mass / n as f64;
                let mut listed: Vec<f64> = s.listed.iter().map(|l| l / n as f64).collect();
                for i in 0..want.len() {
                    match (s.decided[i], decided[i]) {
                        (None, Some(x)) => listed[i] += if x { mass } else { 0.0 },
                        (x, y) if x == y => {}
                        // what looked decided was not
                        _ => return Ok(None),
                    }
                }
                match below.entry(key) {
                    std::collections::btree_map::Entry::Vacant(v) => {
                        v.insert((State { mass, prefix, decided, listed }, next));
                    }
                    std::collections::btree_map::Entry::Occupied(mut o) => {
                        let (t, _) = o.get_mut();
                        t.mass += mass;
                        for (x, l) in t.listed.iter_mut().zip(&listed) {
                            *x += l;
                        }
                    }
                }
                if below.len() > 300 || choice::cpu() > until {
                    return Ok(None);
                }
            }
        }
        layer = below.into_values().collect();
    }
    Ok(Some(p))
}

/// Like `merged_chances`, with few ways to go on: sequences are one state when each
/// way changes the list by the same peers, compared with the first way. What the
/// lists differ by so far is carried along.
fn shifted_chances(real: &Real, want: &[Vec<u8>], no_seed: bool, from: &SocketAddr, until: f64, runs: &mut u64) -> Result<Option<Vec<f64>>, String> {
    struct State {
        mass: f64,
        prefix: Vec<u64>,
        base: Vec<bool>,
        shift: Vec<f64>,
        next: u64,
    }
    let look = |prefix: &[u64], runs: &mut u64| -> Result<Option<(u64, Vec<bool>, u64)>, String> {
        let mut base: Option<Play> = None;
        let mut key = 1;
        for t in tails(prefix.len(), prefix.len() + 2) {
            *runs += 1;
            let p = match play(real, want, no_seed, from, prefix, t)? {
                Some(p) if p.bounds.len() >= prefix.len() => p,
                _ => return Ok(None),
            };
            key = combine(key, engine::hash(&p.bounds[prefix.len()..].iter().flat_map(|b| b.to_le_bytes()).collect::<Vec<u8>>()));
            if let Some(b) = &base {
                key = combine(key, engine::hash(&p.listed.iter().zip(&b.listed).map(|(x, y)| (*x as u8) * 2 + *y as u8).map(|x| if x == 3 { 0 } else { x }).collect::<Vec<u8>>()));
            } else {
                base = Some(p);
            }
        }
        let b = base.unwrap();
        let next = b.bounds.get(prefix.len()).copied().unwrap_or(0);
        Ok(Some((key, b.listed, next)))
    };
    let mut p = vec![0.0; want.len()];
    let mut layer = match look(&[], runs)? {
        Some((_, base, next)) => vec![State { mass: 1.0, prefix: vec![], shift: vec![0.0; want.len()], base, next }],
        None => return Ok(None),
    };
    while !layer.is_empty() {
        let mut below: BTreeMap<u64, State> = BTreeMap::new();
        for s in layer {
            if s.next == 0 {
                for (i, x) in p.iter_mut().enumerate() {
                    *x += s.shift[i] + if s.base[i] { s.mass } else { 0.0 };
                }
                continue;
            }
            let n = s.next as f64;
            for a in 0..s.next {
                let mut prefix = s.prefix.clone();
                prefix.push(a);
                let (key, base, next) = match look(&prefix, runs)? {
                    Some(x) => x,
                    None => return Ok(None),
                };
                let mass = s.mass / n;
                let t = below.entry(key).or_insert_with(|| State { mass: 0.0, prefix, shift: vec![0.0; want.len()], base: base.clone(), next });
                if t.next != next {
                    return Ok(None);
                }
                t.mass += mass;
                for i in 0..want.len() {
                    t.shift[i] += s.shift[i] / n + mass * (base[i] as u8 as f64 - t.base[i] as u8 as f64);
                }
                if below.len() > 300 || choice::cpu() > until {
                    return Ok(None);
                }
            }
        }
        layer = below.into_values().collect();
    }
    Ok(Some(p))
}

/// Chances at large counts. They count only when the merged states give, at a few
/// peers, what the enumeration of every answer gives; and for `huge` counts, when
/// both ways to merge states agree at counts that both can do.
fn fair_wide(n: usize, limit: usize, seeds: bool, six: bool, huge: bool) -> (Verdict, u64) {
    let mut runs = 0;
    let until = choice::cpu() + MOST_WORK;
    let from = if six { ep6([0x77; 16], 9, 0) } else { ep4([77, 1, 2, 3], 4) };
    let mut counts = vec![n.min(5)];
    if huge {
        counts.extend([13, 24]);
    }
    counts.push(n);
    for n in counts.clone() {
        let last = n == *counts.last().unwrap();
        let mut w = World::new();
        w.torrents.truncate(1);
        w.eps = bulk(n, 1, six);
        w.max_peers = 10_000;
        w.max_reply = if six { 4 * limit } else { limit };
        let ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: seeds && e % 3 == 0 }).collect();
        let settings = w.settings();
        let mut real = Real::new(&w, &settings);
        let mut m = Model::default();
        for op in &ops {
            if let Err(e) = follow(&mut real, &mut m, op) {
                return (Err(e), runs);
            }
        }
        let want: Vec<Vec<u8>> = matching(&m, 0, six, seeds).into_iter().collect();
        let k = want.len().min(limit);
        let fairp = if want.is_empty() { 0.0 } else { k as f64 / want.len() as f64 };
        let chances = |which: bool, runs: &mut u64| if which { shifted_chances(&real, &want, seeds, &from, until, runs) } else { merged_chances(&real, &want, seeds, &from, until, runs) };
        let p = match chances(huge, &mut runs) {
            Ok(Some(p)) => p,
            Ok(None) => return (Ok("trivial states do not merge"), runs),
            Err(e) => return (Err(e), runs),
        };
        let differ = |a: f64, b: f64| (a - b).abs() > 1e-7;
        if last {
            if let Some(i) = p.iter().position(|x| differ(*x, fairp)) {
                return (Err(format!("{:?}, number {} of {}, is listed with probability {:.6}, not {:.6}", want[i], i, want.len(), p[i], fairp)), runs);
            }
        } else if huge && n > 5 {
            match chances(false, &mut runs) {
                Ok(Some(q)) if q.iter().zip(&p).all(|(a, b)| !differ(*a, *b)) => {}
                Ok(_) => return (Ok("trivial states merge in two ways"), runs),
                Err(e) => return (Err(e), runs),
            }
        } else if p.iter().any(|x| differ(*x, fairp)) {
            // such a count is for `fair` to judge
            return (Ok("trivial unlike the enumeration"), runs);
        }
    }
    (Ok(if huge { "sampled, states merged by what they change" } else { "sampled, states merged" }), runs)
}

pub fn d07(r: &mut Run) {
    let n = r.pick(7, 9);
    r.note("most peers", n);
    r.note("random source", "every answer of every draw");
    let mut one = |r: &mut Run, w: &World, ops: &[Op], six: bool, no_seed: bool, what: String| {
        let key = combine(hash_dbg(&what), hash_dbg(&ops));
        let mut runs = 0;
        r.case(key, || what.clone(), || {
            let (v, n) = fair(w, ops, six, no_seed);
            runs = n;
            v
        });
        r.count("executions of a query", runs);
    };
    r.family("peers without seeds");
    for six in [false, true] {
        for n in 1..=n {
            for l in 0..=n {
                for odd in 0..if six { 4 } else { 1 } {
                    for order in 0..4 {
                        let mut w = World::new();
                        w.eps = bulk(n, order, six);
                        w.max_reply = if six { 4 * l + odd } else { l };
                        let ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: false }).collect();
                        one(r, &w, &ops, six, false, format!("{} {} peers in order {}, reply limit {}", n, if six { "IPv6" } else { "IPv4" }, order, w.max_reply));
                    }
                }
            }
        }
    }
    r.family("settings that should not matter");
    for o in others(r.thorough()) {
        for six in [false, true] {
            for l in 0..4 {
                let mut w = World::new();
                w.other = o.clone();
                w.eps = bulk(4, 0, six);
                w.max_reply = if six { 4 * l } else { l };
                let ops: Vec<Op> = (0..4).map(|e| Op::Ann { t: 0, e, name: 0, seed: e == 1 }).collect();
                one(r, &w, &ops, six, l == 1, format!("{:?}: 4 {} peers, reply limit {}", o, if six { "IPv6" } else { "IPv4" }, w.max_reply));
            }
        }
    }
    r.family("peers of both families, named torrents, announced again");
    let top = r.pick(5, 7);
    for six in [false, true] {
        for n in 1..=top {
            for other in [0usize, 1, 3, 8, 21] {
                for l in 0..=n + 1 {
                    for name in 0..2 {
                        for again in [false, true] {
                            let mut w = World::new();
                            w.names = vec!["".into(), "named".into()];
                            w.eps = bulk(n, 0, six);
                            w.eps.extend(bulk(other, 0, !six));
                            w.max_reply = if six { 4 * l } else { l };
                            let mut ops: Vec<Op> = (0..n + other).map(|e| Op::Ann { t: 0, e, name, seed: false }).collect();
                            if again {
                                ops.extend((0..n + other).filter(|e| e % 2 == 0).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 4 == 0 }));
                                ops.push(Op::Ann { t: 1, e: 0, name: 0, seed: false });
                            }
                            one(r, &w, &ops, six, again, format!("{} {} peers and {} others, reply limit {}, named {}, again {}", n, if six { "IPv6" } else { "IPv4" }, other, w.max_reply, name, again));
                        }
                    }
                }
            }
        }
    }
    r.family("every pattern of seeds");
    let n = r.pick(6, 8);
    for six in [false, true] {
        for n in 1..=n {
            for mask in 0..1u32 << n {
                for l in 1..n {
                    for no_seed in [false, true] {
                        let mut w = World::new();
                        w.eps = bulk(n, 0, six);
                        w.max_reply = if six { 4 * l } else { l };
                        let ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: mask >> e & 1 == 1 }).collect();
                        one(r, &w, &ops, six, no_seed, format!("{} {} peers, seeds {:b}, no_seed {}, reply limit {}", n, if six { "IPv6" } else { "IPv4" }, mask, no_seed, w.max_reply));
                    }
                }
            }
        }
    }
    r.family("many more peers than can be listed, states merged");
    let counts: Vec<usize> = r.pick(vec![9, 17, 33, 40], vec![9, 17, 33, 40, 65, 101, 130, 260]);
    for n in counts {
        let most = if n > 60 { 3 } else { 5 };
        for l in (1..=most).chain([n / 2, n - 1]) {
            if n > 60 && l > most {
                continue;
            }
            for seeds in [false, true] {
                let six = (n + l) % 2 == 1;
                let mut runs = 0;
                let what = format!("{} {} peers, reply limit {}, without seeds {}", n, if six { "IPv6" } else { "IPv4" }, l, seeds);
                r.case(hash_dbg(&what), || what.clone(), || {
                    let (v, n) = fair_wide(n, l, seeds, six, false);
                    runs = n;
                    v
                });
                r.count("executions of a query", runs);
            }
        }
    }
    r.family("hundreds of peers, states merged by what they change");
    let counts: Vec<usize> = r.pick(vec![70, 140, 270], vec![70, 140, 270, 520]);
    for n in counts {
        for l in if n > 200 { 1..=1 } else { 1..=2 } {
            for seeds in [false, true] {
                for six in [false, true] {
                    let mut runs = 0;
                    let what = format!("{} {} peers, reply limit {}, without seeds {}", n, if six { "IPv6" } else { "IPv4" }, l, seeds);
                    r.case(hash_dbg(&what), || what.clone(), || {
                        let (v, n) = fair_wide(n, l, seeds, six, true);
                        runs = n;
                        v
                    });
                    r.count("executions of a query", runs);
                }
            }
        }
    }
}

// ------------------------------------------------------------------------ D08

fn known(real: &Real, t: &Id) -> Result<bool, String> {
    let (_, d) = get(real, t, false, true, &ep4([77, 1, 2, 3], 4), &Dict::new())?;
    Ok(d.contains_key("BFpe") || d.contains_key("BFsd"))
}

/// Everything stored, compared with the model.
fn contents(real: &Real, m: &Model) -> Result<(), String> {
    let w = real.w;
    let before = &templates()[1];
    for t in 0..w.torrents.len() {
        let k = known(real, &w.torrents[t])?;
        ensure!(k == m.torrents.contains_key(&t), "torrent {} is {}known", w.torrents[t][0], if k { "" } else { "un" });
        for six in [false, true] {
            let from = if six { ep6([0x77; 16], 9, 0) } else { ep4([77, 1, 2, 3], 4) };
            for no_seed in [false, true] {
                let (_, after) = get(real, &w.torrents[t], no_seed, false, &from, before)?;
                let got: BTreeSet<Vec<u8>> = added(before, &after)?.into_iter().collect();
                let want = matching(m, t, six, no_seed);
                ensure!(
                    got == want,
                    "torrent {} holds the {} peers {:?}{}, not {:?}",
                    w.torrents[t][0],
                    if six { "IPv6" } else { "IPv4" },
                    got,
                    if no_seed { " besides seeds" } else { "" },
                    want
                );
            }
        }
    }
    Ok(())
}

fn capacity(real: &Real, m: &Model, limit_reached: &dyn Fn(&Model) -> bool) -> Verdict {
    let w = real.w;
    let mut n = 0;
    for t in &w.torrents {
        n += known(real, t)? as usize;
    }
    ensure!(n <= w.max_torrents, "{} torrents are tracked, the limit is {}", n, w.max_torrents);
    contents(real, m)?;
    let mut from: Vec<SocketAddr> = w.eps.clone();
    from.push(ep4([77, 1, 2, 3], 4));
    from.push(ep6([0x77; 16], 9, 0));
    for t in 0..w.torrents.len() {
        for f in &from {
            let want = match m.torrents.get(&t) {
                None if w.max_peers == 0 => continue,
                None => m.torrents.len() >= w.max_torrents,
                Some(tor) => {
                    let l = tor.family(f.is_ipv6());
                    l.len() >= w.max_peers && !l.contains_key(&compact(f))
                }
            };
            for scrape in [false, true] {
                let (full, _) = get(real, &w.torrents[t], false, scrape, f, &templates()[1])?;
                ensure!(full == want, "a query for torrent {} from {} says {} (scrape {})", w.torrents[t][0], f, if full { "full" } else { "not full" }, scrape);
            }
        }
    }
    Ok(if limit_reached(m) {
        "a limit is reached"
    } else if m.torrents.is_empty() {
        "trivial empty"
    } else {
        "below the limits"
    })
}

pub fn d08(r: &mut Run) {
    let check = |real: &Real, m: &Model| {
        let w = real.w;
        capacity(real, m, &|m: &Model| {
            m.torrents.len() >= w.max_torrents || m.torrents.values().any(|t| t.v4.len() >= w.max_peers || t.v6.len() >= w.max_peers)
        })
    };
    let j = Judge { step: &plain, check: &check, seeds: &[] };
    everything(r, &j, true, false);
    r.family("every pair of limits");
    let wide = r.pick(3, 4);
    let deep = r.pick(5, 7);
    r.note("longest history, unmerged", wide);
    r.note("longest history, merged", deep);
    for max_torrents in [0, 1, 2, 3, 1000] {
        for max_peers in [0, 1, 2, 3, 1000] {
            let mut w = World::new();
            w.names = vec!["".into(), "nm".into()];
            w.torrents.truncate(4);
            w.max_torrents = max_torrents;
            w.max_peers = max_peers;
            w.ops = anns(&[0, 1, 2], &[0, 1, 6], &[0]);
            unmerged(r, &w, if max_torrents >= 1 && max_torrents < 4 && max_peers < 4 { wide } else { 2 }, &j);
            w.eps = vec![w.eps[0], w.eps[1], w.eps[2], w.eps[6], w.eps[7], w.eps[10], w.eps[11]];
            w.ops = anns(&[0], &[0, 1, 2, 3, 5, 6], &[0]);
            w.ops.extend((1..4).map(|t| Op::Ann { t, e: 0, name: 0, seed: false }));
            merged(r, &w, deep, 400_000, &j);
        }
    }
    r.family("limits in the hundreds");
    for limit in sizes(r.pick(520, 1100)).into_iter().chain([5, 100, 500]) {
        for order in 0..4 {
            let mut w = World::new();
            w.torrents.truncate(1);
            w.max_peers = limit;
            w.eps = bulk(limit + 3, order, order % 2 == 1);
            w.max_reply = 100_000;
            let mut ops: Vec<Op> = (0..limit + 3).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 2 == 0 }).collect();
            ops.extend((0..limit + 3).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 3 == 0 }));
            single(r, &w, &ops, &format!("{} peers in order {}, announced twice", limit + 3, order), &j);
            let mut w = World::new();
            w.max_torrents = limit;
            w.torrents = (0..limit + 3)
                .map(|i| {
                    let mut t = [order as u8; 20];
                    t[0] = i as u8;
                    t[1] = (i >> 8) as u8;
                    t
                })
                .collect();
            w.eps.truncate(1);
            let ops: Vec<Op> = (0..limit + 3).map(|t| Op::Ann { t, e: 0, name: 0, seed: false }).collect();
            single(r, &w, &ops, &format!("{} torrents", limit + 3), &j);
        }
    }
}

// ------------------------------------------------------------------------ D09

fn scrape(real: &Real, m: &Model, from: &[SocketAddr]) -> Verdict {
    let w = real.w;
    let mut some = false;
    for t in 0..w.torrents.len() {
        for f in from {
            let six = f.is_ipv6();
            for no_seed in [false, true] {
                for before in templates() {
                    let (_, after) = get(real, &w.torrents[t], no_seed, true, f, &before)?;
                    let mut rest = after.clone();
                    let tor = match m.torrents.get(&t) {
                        Some(t) => t,
                        None => {
                            ensure!(rest == before, "a scrape of an unknown torrent changed the reply");
                            continue;
                        }
                    };
                    rest.remove("n");
                    for (key, seeds) in [("BFsd", true), ("BFpe", false)] {
                        let got = match rest.remove(key) {
                            Some(Value::Bytes(b)) => b,
                            v => return Err(format!("{} is {:?}", key, v)),
                        };
                        let mut want = vec![0u8; 256];
                        for (e, s) in tor.family(six) {
                            if *s == seeds {
                                for b in ip_bits(e) {
                                    want[b / 8] |= 1 << (b % 8);
                                    some = true;
                                }
                            }
                        }
                        ensure!(
                            got == want,
                            "torrent {} to {}: {} is {:?}, not {:?} (set bits)",
                            w.torrents[t][0],
                            f,
                            key,
                            set_bits(&got),
                            set_bits(&want)
                        );
                    }
                    ensure!(rest == before, "a scrape left the reply with {:?}", rest);
                }
            }
        }
    }
    Ok(if some { "peers summarised" } else { "trivial no peer" })
}

fn set_bits(b: &[u8]) -> Vec<usize> {
    (0..b.len() * 8).filter(|i| b[i / 8] >> (i % 8) & 1 == 1).collect()
}

fn ip_bits(e: &[u8]) -> [usize; 2] {
    let h = engine::sha1::reference(&e[..e.len() - 2]);
    let n = |i: usize| (h[i] as usize + 256 * h[i + 1] as usize) % 2048;
    [n(0), n(2)]
}

pub fn d09(r: &mut Run) {
    let check = |real: &Real, m: &Model| {
        let from = requesters(real.w);
        scrape(real, m, &from)
    };
    let j = Judge { step: &plain, check: &check, seeds: &[] };
    everything(r, &j, true, false);
    r.family("announcements of two torrents");
    let mut w = World::new();
    w.torrents.truncate(3);
    w.ops = anns(&[0, 1], &[0, 1, 2, 6, 8], &[0]);
    unmerged(r, &w, r.pick(3, 4), &j);
    merged(r, &w, r.pick(5, 6), 300_000, &j);
    r.family("announcements of one torrent");
    let mut w = World::new();
    w.torrents.truncate(1);
    w.ops = anns(&[0], &[0, 1, 2, 6, 7, 8, 10, 11], &[0]);
    merged(r, &w, r.pick(5, 8), 300_000, &j);
    r.family("every byte of an address");
    for pos in 0..16 {
        for x in 0..=255u8 {
            for seed in [false, true] {
                let mut w = World::new();
                w.torrents.truncate(1);
                let mut o = [0x31; 16];
                o[pos] = x;
                w.eps = vec![ep6(o, 1, 0), ep4([o[0], o[1], o[2], o[3]], 1)];
                let ops: Vec<Op> = (0..2).map(|e| Op::Ann { t: 0, e, name: 0, seed }).collect();
                single(r, &w, &ops, &format!("address byte {} is {}, seed {}", pos, x, seed), &j);
            }
        }
    }
    r.family("addresses of every kind");
    for block in 0..4096u32 {
        let mut w = World::new();
        w.torrents.truncate(1);
        w.eps = vec![];
        for hi in (block * 16..block * 16 + 16).map(|h| h as u16) {
            let [x, y] = hi.to_be_bytes();
            w.eps.extend(special(hi).iter().map(|o| ep6(*o, hi, 0)));
            w.eps.push(ep4([x, y, 0, 1], hi));
        }
        let ops: Vec<Op> = (0..w.eps.len()).rev().map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 7 < 3 }).collect();
        single(r, &w, &ops, &format!("leading octets from {:04x}", block * 16), &j);
    }
    r.family("many peers");
    for n in sizes(r.pick(600, 1200)).into_iter().filter(|n| *n > 0).chain([20, 130, 249, 251, 400]) {
        for order in 0..4 {
            for six in [false, true] {
                let mut w = World::new();
                w.torrents.truncate(1);
                w.max_reply = 100;
                w.eps = bulk(n, order, six);
                let mut ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 3 == 0 }).collect();
                single(r, &w, &ops, &format!("{} peers in order {}, IPv6 {}", n, order, six), &j);
                ops.extend((0..n).filter(|e| e % 2 == 0).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 3 != 0 }));
                single(r, &w, &ops, &format!("{} peers in order {}, IPv6 {}, every second again", n, order, six), &j);
            }
        }
    }
}

// ------------------------------------------------------------------------ D15

fn named(real: &Real, m: &Model) -> Verdict {
    let w = real.w;
    let mut some = false;
    for t in 0..w.torrents.len() {
        for f in requesters(w) {
            for scrape in [false, true] {
                for no_seed in [false, true] {
                    let (_, after) = get(real, &w.torrents[t], no_seed, scrape, &f, &templates()[1])?;
                    let want = match m.torrents.get(&t) {
                        Some(tor) if !tor.name.is_empty() => Some(Value::Bytes(tor.name.clone().into_bytes())),
                        _ => None,
                    };
                    ensure!(
                        after.get("n") == want.as_ref(),
                        "torrent {} is named {:?}, not {:?} (query from {}, scrape {})",
                        w.torrents[t][0],
                        after.get("n").map(|v| show(&v.to_vec())),
                        want.as_ref().map(|v| show(&v.to_vec())),
                        f,
                        scrape
                    );
                    some |= want.is_some();
                }
            }
        }
    }
    Ok(if some { "named" } else { "trivial no name" })
}

pub fn d15(r: &mut Run) {
    let j = Judge { step: &plain, check: &named, seeds: &[] };
    everything(r, &j, true, false);
    let long = |c: &str, n: usize| c.repeat(n);
    let mut w = World::new();
    w.torrents.truncate(3);
    w.names = vec![
        "".into(),
        "first name".into(),
        "other".into(),
        long("x", 100) + "yz",
        long("\u{e9}", 101),
        long("\u{1f980}", 99) + "ab",
        "a\u{0}b\n".into(),
    ];
    w.ops = vec![];
    for t in 0..2 {
        for name in 0..w.names.len() {
            for e in [0, 6] {
                w.ops.push(Op::Ann { t, e, name, seed: name % 2 == 0 });
            }
        }
    }
    r.family("histories of named announcements");
    unmerged(r, &w, r.pick(3, 4), &j);
    merged(r, &w, r.pick(6, 8), 300_000, &j);
    r.family("names of every character and text");
    let mut names: Vec<String> = (0u32..=r.pick(0x2fff, 0x10ffff)).filter_map(char::from_u32).map(|c| c.to_string()).collect();
    for c in (0..=127u8).map(|c| c as char).chain(['\u{a0}', '\u{feff}', '\u{2028}', '\u{301}', '\u{200b}', '\u{fffd}']) {
        names.extend([format!("{}x", c), format!("x{}", c), format!("x{}y", c), format!("{}{}", c, c), format!("a/b{}c.d", c), format!("{}{}", "n".repeat(99), c), format!("{}{}z", "n".repeat(99), c)]);
    }
    for t in lits().strs() {
        names.extend([t.clone(), format!("{}x", t), format!("x{}", t), t.to_uppercase(), t.repeat(40)]);
    }
    names.sort_unstable();
    names.dedup();
    for n in names {
        let mut w = World::new();
        w.torrents.truncate(2);
        let what = format!("name {}", show(n.as_bytes()));
        w.names = vec![n, "later".into()];
        let ops = [Op::Ann { t: 0, e: 0, name: 0, seed: false }, Op::Ann { t: 0, e: 6, name: 1, seed: true }];
        single(r, &w, &ops, &what, &j);
    }
    r.family("the name of any announcement");
    for before in (0..=40).chain(sizes(300)) {
        for after in [0usize, 1, 3] {
            for six in [false, true] {
                let mut w = World::new();
                w.torrents.truncate(2);
                w.names = vec!["".into(), "the name".into(), "later".into()];
                w.eps = bulk(before + after + 1, 0, six);
                let ops: Vec<Op> = (0..=before + after).map(|e| Op::Ann { t: 0, e, name: (e >= before) as usize + (e > before) as usize, seed: e % 2 == 0 }).collect();
                single(r, &w, &ops, &format!("named after {} announcements, {} others follow, IPv6 {}", before, after, six), &j);
                // a known peer brings the name
                let mut ops: Vec<Op> = (0..=before).map(|e| Op::Ann { t: 0, e, name: 0, seed: false }).collect();
                ops.extend((0..=after).map(|e| Op::Ann { t: 0, e: e.min(before), name: 1 + (e > 0) as usize, seed: true }));
                single(r, &w, &ops, &format!("named by one of {} known peers, {} others follow, IPv6 {}", before + 1, after, six), &j);
                // a dropped announcement brings the name
                w.max_peers = before;
                let mut ops: Vec<Op> = (0..before).map(|e| Op::Ann { t: 0, e, name: 0, seed: false }).collect();
                ops.push(Op::Ann { t: 0, e: before, name: 1, seed: true });
                ops.push(Op::Ann { t: 0, e: 0, name: 2, seed: true });
                single(r, &w, &ops, &format!("named by a peer there is no room for after {}, IPv6 {}", before, six), &j);
            }
        }
    }
    r.family("every length, characters of one to four bytes");
    for (ci, c) in ["a", "\u{e9}", "\u{20ac}", "\u{1f980}"].iter().enumerate() {
        for n in (0..=310).chain(sizes(r.pick(5000, 70_000))) {
            for (k, tail) in ["", "z", "\u{20ac}"].iter().enumerate() {
                let mut w = World::new();
                w.torrents.truncate(2);
                w.names = vec![c.repeat(n) + tail, "later".into()];
                let ops = [Op::Ann { t: 0, e: 0, name: 0, seed: false }, Op::Ann { t: 0, e: 1, name: 1, seed: true }];
                let what = format!("{} characters of {} bytes, then tail {}", n, [1, 2, 3, 4][ci], k);
                single(r, &w, &ops[..1], &what, &j);
                single(r, &w, &ops, &format!("{}, then another name", what), &j);
            }
        }
    }
}
