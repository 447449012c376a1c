//! D18 to D21: edited node states, unusable replies, messages, observers.

use crate::small::{compact, lits, sizes, Id};
use crate::store::*;
use bencode::{Value, ValueRef};
use common::sha1::Sha1Hash;
use dht::dht_observer::DhtObserver;
use dht::msg::{verify_message_impl, KeyDesc, Msg};
use dht::node::NodeId;
use dht::observer::{Observer, ObserverFlags};
use dht::state::DhtState;
use dht::storage::DhtStorage;
use dht::traversal_algorithm::TraversalAlgorithm;
use engine::{combine, ensure, hash, hash_dbg, show, words, Run, Verdict};
use std::collections::{BTreeMap, HashSet};
use std::io;
use std::net::{IpAddr, SocketAddr};
use std::time::Instant;

fn dict(e: Vec<(&str, Value)>) -> Value {
    Value::Dict(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

// ------------------------------------------------------------------------ D18

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Edit {
    Id(usize),
    Node(usize),
    Node6(usize),
    Clear,
    /// saves, and continues with what is read from the bytes
    Reload,
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Lists {
    ids: Vec<(IpAddr, Id)>,
    nodes: Vec<SocketAddr>,
    nodes6: Vec<SocketAddr>,
}

fn menu() -> Lists {
    let e = endpoints();
    Lists { ids: vec![(e[0].ip(), [7; 20]), (e[6].ip(), [0; 20])], nodes: vec![e[0], e[3]], nodes6: vec![e[6], e[8]] }
}

impl Lists {
    fn edit(&mut self, e: Edit) {
        let m = menu();
        match e {
            Edit::Id(i) => self.ids.push(m.ids[i]),
            Edit::Node(i) => self.nodes.push(m.nodes[i]),
            Edit::Node6(i) => self.nodes6.push(m.nodes6[i]),
            Edit::Clear => *self = Lists::default(),
            Edit::Reload => {}
        }
    }
    /// The bencoding of the saved state, written by hand.
    fn saved(&self) -> Vec<u8> {
        let mut o = b"d".to_vec();
        let mut list = |k: &str, l: Vec<Vec<u8>>| {
            if l.is_empty() {
                return;
            }
            o.extend(format!("{}:{}l", k.len(), k).bytes());
            for e in l {
                o.extend(format!("{}:", e.len()).bytes());
                o.extend(e);
            }
            o.push(b'e');
        };
        let octets = |a: &IpAddr| match a {
            IpAddr::V4(a) => a.octets().to_vec(),
            IpAddr::V6(a) => a.octets().to_vec(),
        };
        list("node-id", self.ids.iter().map(|(a, i)| [&i[..], &octets(a)[..]].concat()).collect());
        list("nodes", self.nodes.iter().map(compact).collect());
        list("nodes6", self.nodes6.iter().map(compact).collect());
        o.push(b'e');
        o
    }
}

fn edit(d: &mut DhtState, e: Edit) -> Result<(), String> {
    let m = menu();
    match e {
        Edit::Id(i) => d.nids.push((m.ids[i].0, Sha1Hash::from(m.ids[i].1))),
        Edit::Node(i) => d.nodes.push(m.nodes[i]),
        Edit::Node6(i) => d.nodes6.push(m.nodes6[i]),
        Edit::Clear => d.clear(),
        Edit::Reload => {
            let b = d.save().to_vec();
            let v = ValueRef::decode(&b).map_err(|e| format!("saved as {}, which does not decode: {:?}", show(&b), e))?;
            *d = DhtState::read(&v).map_err(|e| format!("saved as {}, which does not load: {}", show(&b), e))?;
        }
    }
    Ok(())
}

fn edited(es: &[Edit]) -> Verdict {
    let mut d = DhtState::default();
    let mut m = Lists::default();
    for (i, e) in es.iter().enumerate() {
        edit(&mut d, *e)?;
        m.edit(*e);
        let now = Lists {
            ids: d
                .nids
                .iter()
                .map(|(a, i)| {
                    let mut b = [0; 20];
                    b.copy_from_slice(i);
                    (*a, b)
                })
                .collect(),
            nodes: d.nodes.clone(),
            nodes6: d.nodes6.clone(),
        };
        ensure!(now == m, "after {} edits the state holds {:?}", i + 1, now);
        let b = d.save().to_vec();
        ensure!(b == m.saved(), "after {} edits the state is saved as {}, not {}", i + 1, show(&b), show(&m.saved()));
    }
    Ok(if !es.contains(&Edit::Clear) { "trivial never cleared" } else if m == Lists::default() { "cleared" } else { "cleared and filled again" })
}

pub fn d18(r: &mut Run) {
    let (wide, deep) = r.pick((5, 8), (6, 10));
    r.note("unmerged histories: length", wide);
    r.note("merged histories: length", deep);
    let ops = [Edit::Id(0), Edit::Id(1), Edit::Node(0), Edit::Node(1), Edit::Node6(0), Edit::Node6(1), Edit::Clear, Edit::Reload];
    let mut one = |r: &mut Run, es: &[Edit]| r.case(hash_dbg(&es), || format!("{:?}", es), || edited(es));
    r.family("every history");
    words::sequences(ops.len(), 0, wide, |ix| {
        let es: Vec<Edit> = ix.iter().map(|&i| ops[i]).collect();
        one(r, &es);
    });
    r.family("every transition of every state with at most two entries per list");
    let mut seen: HashSet<Lists> = HashSet::new();
    let mut layer = vec![(Lists::default(), vec![])];
    seen.insert(Lists::default());
    r.state(hash_dbg(&Lists::default()));
    r.tracing(true);
    for _ in 0..deep {
        let mut next = vec![];
        for (m, path) in &layer {
            for op in ops {
                let mut n = m.clone();
                n.edit(op);
                if n.ids.len() > 2 || n.nodes.len() > 2 || n.nodes6.len() > 2 {
                    continue;
                }
                let mut p: Vec<Edit> = path.clone();
                p.push(op);
                r.transition(combine(hash_dbg(m), hash_dbg(&op)));
                one(r, &p);
                // whatever is left behind by clearing must not show later
                for tail in [vec![Edit::Clear], vec![Edit::Clear, Edit::Node(1)], vec![Edit::Clear, Edit::Reload, Edit::Id(0)], vec![Edit::Clear, Edit::Clear, Edit::Node6(0), Edit::Reload]] {
                    let q: Vec<Edit> = p.iter().cloned().chain(tail).collect();
                    one(r, &q);
                }
                if seen.insert(n.clone()) {
                    r.state(hash_dbg(&n));
                    next.push((n, p));
                }
            }
        }
        layer = next;
    }
    r.tracing(false);
    r.family("long lists");
    for n in (1..40).chain(sizes(r.pick(1100, 70_000))).chain([63, 64, 65, 100, 255, 256, 257, 1000]) {
        for which in 0..7u8 {
            let mut es = vec![];
            for i in 0..n {
                let all = [Edit::Id(i % 2), Edit::Node(i % 2), Edit::Node6(i % 2)];
                es.extend(all.iter().enumerate().filter(|(k, _)| (which + 1) >> k & 1 == 1).map(|(_, e)| *e));
            }
            es.extend([Edit::Clear, Edit::Node(1), Edit::Reload, Edit::Clear, Edit::Reload]);
            r.case(
                combine(n as u64, which as u64 + 77),
                || format!("{} entries in lists {:b}, then {:?}", n, which + 1, &es[es.len() - 5..]),
                || {
                    let mut d = DhtState::default();
                    let mut m = Lists::default();
                    for e in &es {
                        edit(&mut d, *e)?;
                        m.edit(*e);
                        if *e == Edit::Clear || *e == Edit::Node(1) {
                            ensure!(d.save().to_vec() == m.saved(), "after {:?} the state is saved as {}", e, show(&d.save().to_vec()));
                        }
                    }
                    ensure!(d.save().to_vec() == m.saved(), "saved as {}", show(&d.save().to_vec()));
                    Ok("cleared")
                },
            );
        }
    }
}

// ------------------------------------------------------------------------ D19

fn unusable() -> Vec<Value> {
    let s = |t: &str| Value::Bytes(t.as_bytes().to_vec());
    vec![
        Value::Int(0),
        Value::Int(-1),
        s(""),
        s("values"),
        Value::List(vec![]),
        Value::List(vec![Value::Bytes(vec![1; 6])]),
        Value::List(vec![dict(vec![("values", Value::List(vec![]))])]),
        dict(vec![("values", Value::Int(0))]),
        dict(vec![("values", s(""))]),
        dict(vec![("values", s("abcdef"))]),
        dict(vec![("values", dict(vec![]))]),
        dict(vec![("values", dict(vec![("values", Value::List(vec![]))])), ("a", Value::Int(1)), ("z", Value::List(vec![]))]),
    ]
}

fn refused(real: &Real, m: &Model) -> Verdict {
    let w = real.w;
    let counters = format!("{:?}", real.s.counters());
    let mut some = false;
    for t in 0..w.torrents.len() {
        let known = m.torrents.contains_key(&t);
        for from in [ep4([77, 1, 2, 3], 4), w.eps[0], ep6([0x77; 16], 9, 0)] {
            for no_seed in [false, true] {
                for scrape in [false, true] {
                    let ask = |v: &mut Value| -> io::Result<bool> {
                        common::mc::install(Some(Box::new(|_| 0)));
                        let res = real.s.get_peers(&hash_id(&w.torrents[t]), no_seed, scrape, &from, v);
                        common::mc::install(None);
                        res
                    };
                    let good = || {
                        let mut v = dict(vec![]);
                        let full = ask(&mut v).map_err(|e| format!("a usable reply is refused: {}", e))?;
                        Ok::<_, String>((full, v))
                    };
                    let usable = good()?;
                    for before in unusable() {
                        let what = || format!("torrent {} from {}, reply {}, scrape {}", w.torrents[t][0], from, show(&before.to_vec()), scrape);
                        let mut v = before.clone();
                        let res = ask(&mut v);
                        let no_dict = !matches!(before, Value::Dict(_));
                        if !known {
                            ensure!(v == before, "{}: unknown, but the reply became {}", what(), show(&v.to_vec()));
                            ensure!(matches!(&res, Ok(f) if *f == usable.0), "{}: {:?}, although {} with an empty reply", what(), res, usable.0);
                            continue;
                        }
                        some = true;
                        if no_dict || !scrape {
                            let e = match res {
                                Err(e) => e,
                                Ok(f) => return Err(format!("{}: answered {} with {}", what(), f, show(&v.to_vec()))),
                            };
                            ensure!(e.kind() == io::ErrorKind::InvalidData, "{}: refused as {:?}", what(), e.kind());
                        } else {
                            ensure!(matches!(&res, Ok(f) if *f == usable.0), "{}: {:?}", what(), res);
                        }
                        match (&before, &v) {
                            (Value::Dict(b), Value::Dict(a)) => {
                                for (k, x) in b {
                                    ensure!(a.get(k) == Some(x), "{}: entry {:?} became {:?}", what(), k, a.get(k));
                                }
                                let Value::Dict(u) = &usable.1 else { return Err("the reply is no dictionary any more".into()) };
                                for (k, x) in a {
                                    ensure!(b.contains_key(k) || (k != "values" && u.get(k) == Some(x)), "{}: entry {:?} was added", what(), k);
                                }
                            }
                            _ => ensure!(v == before, "{}: the reply became {}", what(), show(&v.to_vec())),
                        }
                    }
                    let again = good()?;
                    ensure!(again == usable, "after refused queries the reply is {}, not {}", show(&again.1.to_vec()), show(&usable.1.to_vec()));
                }
            }
        }
    }
    ensure!(format!("{:?}", real.s.counters()) == counters, "the counters changed from {} to {:?}", counters, real.s.counters());
    Ok(if some { "known torrent" } else { "trivial no torrent" })
}

pub fn d19(r: &mut Run) {
    let (wide, deep) = r.pick((3, 4), (4, 6));
    r.note("unmerged histories: length", wide);
    r.note("merged histories: length", deep);
    let step = |real: &mut Real, m: &mut Model, op: &Op| follow(real, m, op);
    let j = Judge { step: &step, check: &refused, seeds: &[] };
    everything(r, &j, true, false);
    for (mt, mp, mr) in [(1000, 1000, 1000), (1, 1000, 4), (2, 1, 1), (2, 0, 100), (0, 5, 5), (2, 2, 0)] {
        r.family(&format!("room for {} torrents, {} peers, {} replies", mt, mp, mr));
        let mut w = World::new();
        w.torrents.truncate(3);
        w.max_torrents = mt;
        w.max_peers = mp;
        w.max_reply = mr;
        w.names = vec!["".into(), "name".into()];
        for t in 0..2 {
            for e in [0, 1, 6, 7] {
                for seed in [false, true] {
                    w.ops.push(Op::Ann { t, e, name: e % 2, seed });
                }
            }
        }
        unmerged(r, &w, wide.min(if mt == 1000 { wide } else { wide - 1 }), &j);
        merged(r, &w, deep, 20_000, &j);
    }
    r.family("many peers");
    for n in sizes(255).into_iter().filter(|n| *n > 0).chain([10, 50, 99, 100, 101, 200]) {
        for six in [false, true] {
            let mut w = World::new();
            w.torrents.truncate(2);
            w.max_reply = 10;
            w.max_peers = 100;
            w.eps = (0..n).map(|i| if six { ep6([i as u8; 16], 9, 0) } else { ep4([9, 9, i as u8, 1], 1000 + i as u16) }).collect();
            let ops: Vec<Op> = (0..n).map(|e| Op::Ann { t: 0, e, name: 0, seed: e % 2 == 0 }).collect();
            single(r, &w, &ops, &format!("{} peers of family {}", n, if six { 6 } else { 4 }), &j);
        }
    }
}

// ------------------------------------------------------------------------ D20

fn reasons() -> (String, String) {
    let v = ValueRef::Int(0);
    let e = ValueRef::Dict(BTreeMap::new());
    let k = [KeyDesc::mc_new("k", 0, 0, 0)];
    let why = |m: &ValueRef| match verify_message_impl(m, &k, &mut [m]) {
        Ok(()) => "accepted".to_string(),
        Err(e) => e.to_string(),
    };
    (why(&v), why(&e))
}

fn verified(msg: &Value, keys: &[&str]) -> Verdict {
    let (no_dict, no_key) = reasons();
    let bytes = msg.to_vec();
    let decoded = ValueRef::decode(&bytes).map_err(|e| format!("does not decode: {:?}", e))?;
    let desc: Vec<KeyDesc> = keys.iter().map(|k| KeyDesc::mc_new(k, 0, 0, 0)).collect();
    let dummy = ValueRef::Bytes(b"not set");
    let mut ret = vec![&dummy; keys.len()];
    let res = verify_message_impl(&decoded, &desc, &mut ret);
    match msg {
        Value::Dict(d) => {
            if keys.iter().all(|k| d.contains_key(*k)) {
                ensure!(res.is_ok(), "refused: {:?}", res);
                for (k, v) in keys.iter().zip(&ret) {
                    ensure!(ValueRef::to_owned(v) == d[*k], "for {:?} {:?} is found", k, v);
                }
                Ok(if keys.is_empty() { "trivial no key" } else { "accepted" })
            } else {
                ensure!(res.is_err(), "accepted without all keys");
                ensure!(res.unwrap_err() == no_key, "a missing key is reported as {:?}, elsewhere as {:?}", res, no_key);
                Ok("key missing")
            }
        }
        _ => {
            ensure!(res.is_err(), "accepted, but no dictionary");
            ensure!(res.unwrap_err() == no_dict, "reported as {:?}, elsewhere as {:?}", res, no_dict);
            Ok("no dictionary")
        }
    }
}

pub fn d20(r: &mut Run) {
    let (n, k) = r.pick((4, 5), (5, 7));
    r.note("keys of the menu in a message", n);
    r.note("most keys asked for", k);
    let names = ["a", "", "ab", "y", "\u{e9}", "q"];
    let vals = [
        Value::Int(5),
        Value::Bytes(b"q".to_vec()),
        Value::List(vec![Value::Int(1)]),
        dict(vec![("a", Value::Int(2)), ("b", Value::Int(3))]),
        Value::Bytes(vec![]),
        Value::Int(5),
    ];
    let mut one = |r: &mut Run, m: &Value, ks: &[&str]| {
        let key = combine(hash(&m.to_vec()), hash_dbg(&ks));
        r.case(key, || format!("{} asked for {:?}", show(&m.to_vec()), ks), || verified(m, ks));
    };
    r.family("the two reasons for refusal");
    r.case(1, || "reasons".into(), || {
        let (a, b) = reasons();
        ensure!(a != b && a != "accepted" && b != "accepted", "no dictionary gives {:?}, a missing key {:?}", a, b);
        Ok("reasons")
    });
    r.family("no dictionary");
    let mut lists: Vec<Vec<&str>> = vec![];
    words::sequences(n, 0, k.min(4), |ix| lists.push(ix.iter().map(|&i| names[i]).collect()));
    for m in [&vals[0], &vals[1], &vals[2], &vals[4], &Value::List(vec![]), &Value::List(vec![vals[3].clone()]), &Value::Int(0)] {
        for l in &lists {
            one(r, m, l);
        }
    }
    r.family("every subset of the menu asked for every sequence of keys");
    for mask in 0..1u32 << n {
        let m = dict((0..n).filter(|i| mask >> i & 1 == 1).map(|i| (names[i], vals[i].clone())).collect());
        words::sequences(n, 0, k, |ix| {
            let ks: Vec<&str> = ix.iter().map(|&i| names[i]).collect();
            one(r, &m, &ks);
        });
    }
    r.family("keys that begin with each other");
    let names = ["a", "ab", "abc", "abcd", "b", "ba", "B", "a\u{0}", ""];
    let (most, asked) = r.pick((3, 3), (4, 4));
    for mask in 0..1u32 << names.len() {
        if mask.count_ones() > most {
            continue;
        }
        let m = dict((0..names.len()).filter(|i| mask >> i & 1 == 1).map(|i| (names[i], vals[i % vals.len()].clone())).collect());
        words::sequences(names.len(), 1, asked, |ix| {
            let ks: Vec<&str> = ix.iter().map(|&i| names[i]).collect();
            one(r, &m, &ks);
        });
    }
    r.family("keys of the sources");
    let mut texts = lits().strs();
    texts.extend(texts.clone().iter().map(|t| format!("{}x", t)));
    texts.push("k".repeat(300));
    texts.sort_unstable();
    texts.dedup();
    for t in texts.iter().map(|t| t.as_str()) {
        for v in &vals {
            let m = dict(vec![(t, v.clone()), ("m", Value::Int(1))]);
            for ks in [vec![t], vec![t, "m"], vec!["m", t], vec![t, t], vec!["m"], vec![t, "missing"], vec!["missing", t]] {
                one(r, &m, &ks);
            }
            one(r, &dict(vec![("m", v.clone())]), &[t]);
            one(r, &dict(vec![("m", v.clone())]), &["m", t]);
        }
    }
    r.family("many keys");
    for size in sizes(r.pick(140, 400)).into_iter().filter(|n| *n > 0).chain([5, 6, 7, 9, 100]) {
        let all: Vec<String> = (0..size).map(|i| format!("k{:03}", i)).collect();
        let m = dict(all.iter().enumerate().map(|(i, k)| (k.as_str(), Value::Int(i as i64))).collect());
        let ks: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
        one(r, &m, &ks);
        let rev: Vec<&str> = ks.iter().rev().cloned().collect();
        one(r, &m, &rev);
        for i in 0..size {
            for odd in ["k", "k00", "K000", "zzz", ""] {
                let mut x = ks.clone();
                x[i] = odd;
                one(r, &m, &x);
            }
            let mut less = m.clone();
            if let Value::Dict(d) = &mut less {
                d.remove(ks[i]);
            }
            one(r, &less, &ks);
            one(r, &less, &rev);
        }
    }
}

// ------------------------------------------------------------------------ D21

struct Watched(ObserverFlags);
impl Observer for Watched {
    fn reply(&mut self, _: &Msg) {}
    fn short_timeout(&mut self) {}
    fn flags(&self) -> ObserverFlags {
        self.0
    }
    fn timeout(&mut self) {}
    fn abort(&mut self) {}
    fn get_observer(&self) -> &DhtObserver {
        unreachable!()
    }
    fn algorithm(&self) -> &dyn TraversalAlgorithm {
        unreachable!()
    }
    fn send(&self) -> Instant {
        Instant::now()
    }
    fn set_target(&mut self, _: &SocketAddr) {}
    fn target_addr(&self) -> IpAddr {
        IpAddr::V4([0; 4].into())
    }
    fn target_endpoint(&self) -> SocketAddr {
        ep4([0; 4], 0)
    }
    fn set_id(&mut self, _: &NodeId) {}
    fn id(&self) -> &NodeId {
        unreachable!()
    }
}

pub fn d21(r: &mut Run) {
    use ObserverFlags as F;
    let all = [F::QUERIED, F::INITIAL, F::NO_ID, F::SHORT_TIMEOUT, F::FAILED, F::IPV6_ADDRESS, F::ALIVE, F::DONE];
    r.family("every set of flags");
    for m in 0..256u32 {
        r.case(
            m as u64 + 1,
            || format!("flags {:08b}", m),
            || {
                let mut f = F::empty();
                for (i, x) in all.iter().enumerate() {
                    if m >> i & 1 == 1 {
                        f |= *x;
                    }
                }
                ensure!(Watched(f).has_short_timeout() == (m >> 3 & 1 == 1), "short timeout reported as {}", Watched(f).has_short_timeout());
                for (i, x) in all.iter().enumerate() {
                    ensure!(f.contains(*x) == (m >> i & 1 == 1), "flag {:?} is {}", x, f.contains(*x));
                    let mut g = f;
                    g.remove(*x);
                    ensure!(Watched(g).has_short_timeout() == (m >> 3 & 1 == 1 && i != 3), "without {:?} short timeout reported as {}", x, Watched(g).has_short_timeout());
                    g = f;
                    g.insert(*x);
                    ensure!(Watched(g).has_short_timeout() == (m >> 3 & 1 == 1 || i == 3), "with {:?} short timeout reported as {}", x, Watched(g).has_short_timeout());
                }
                Ok(if m == 0 { "trivial none" } else { "flags" })
            },
        );
    }
}
