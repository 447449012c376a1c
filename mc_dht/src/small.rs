//! D01 to D05, D14, D17: node state, settings, addresses, distances.

use bencode::{Value, ValueRef};
use common::sha1::Sha1Hash;
use dht::node::NodeIds;
use dht::settings::DhtSettings;
use dht::state::{extract_node_ids, DhtState};
use dht::{detail, node};
use engine::lits::Lits;
use engine::{choice, combine, ensure, hash, hash_dbg, show, words, Run, Verdict};
use std::collections::BTreeMap;
use std::io;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr};

pub type Id = [u8; 20];

/// The literals of the sources.
pub fn lits() -> &'static Lits {
    static L: std::sync::OnceLock<Lits> = std::sync::OnceLock::new();
    L.get_or_init(|| Lits::of(&["dht/src", "common/src", "bencode/src"]))
}

/// Numbers up to a bound: those of the sources and around the powers of two.
pub fn sizes(most: u64) -> Vec<usize> {
    let mut v: Vec<usize> = lits().around(most).into_iter().map(|n| n as usize).collect();
    for k in 0..64 {
        v.extend([(1u64 << k) - 1, 1 << k, (1 << k) + 1].into_iter().filter(|n| *n <= most).map(|n| n as usize));
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Addresses that carry an IPv4 address or have a meaning of their own, by
/// their first two octets.
pub fn special(hi: u16) -> Vec<[u8; 16]> {
    let [x, y] = hi.to_be_bytes();
    vec![
        [x, y, 10, 1, 2, 3, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        [x, y, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1],
        [x, y, 0, 0, 0, 0, 0, 0, 0, 0, 0x5e, 0xfe, 192, 168, 1, 1],
        // IPv4 addresses within IPv6 ones: mapped, compatible, translated, 6to4
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, x, y, 0, 1],
        [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, x, y, 3, 1],
        [0, 0x64, 0xff, 0x9b, 0, 0, 0, 0, 0, 0, 0, 0, x, y, 0, 1],
        [0x20, 2, x, y, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
    ]
}

fn v4(a: [u8; 4], p: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(a.into()), p)
}
fn v6(a: [u8; 16], p: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V6(a.into()), p)
}
fn octets(a: &IpAddr) -> Vec<u8> {
    match a {
        IpAddr::V4(a) => a.octets().to_vec(),
        IpAddr::V6(a) => a.octets().to_vec(),
    }
}
pub fn compact(a: &SocketAddr) -> Vec<u8> {
    let mut v = octets(&a.ip());
    v.push((a.port() >> 8) as u8);
    v.push(a.port() as u8);
    v
}

fn endpoints4() -> Vec<SocketAddr> {
    vec![v4([1, 2, 3, 4], 6881), v4([1, 2, 3, 4], 1), v4([0, 0, 0, 0], 0), v4([255, 255, 255, 255], 65535), v4([127, 0, 0, 1], 256)]
}
fn endpoints6() -> Vec<SocketAddr> {
    let mut mapped = [0; 16];
    mapped[10..].copy_from_slice(&[0xff, 0xff, 1, 2, 3, 4]);
    vec![
        v6([0x20, 1, 0xd, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], 6881),
        v6([0; 16], 0),
        v6([0xff; 16], 65535),
        v6(mapped, 255),
        v6([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1], 1),
    ]
}
fn ids() -> Vec<(IpAddr, Id)> {
    let mut asc = [0; 20];
    for i in 0..20 {
        asc[i] = i as u8 + 1;
    }
    vec![
        (IpAddr::V4([10, 0, 0, 1].into()), asc),
        (endpoints6()[0].ip(), asc),
        (IpAddr::V4([0, 0, 0, 0].into()), [0; 20]),
        (endpoints6()[3].ip(), [0xff; 20]),
    ]
}

#[derive(Clone, Debug, Default, PartialEq)]
struct S {
    nids: Vec<(IpAddr, Id)>,
    nodes: Vec<SocketAddr>,
    nodes6: Vec<SocketAddr>,
}

fn real(s: &S) -> DhtState {
    let mut d = DhtState::default();
    d.nids = s.nids.iter().map(|(a, i)| (*a, Sha1Hash::from(*i))).collect();
    d.nodes = s.nodes.clone();
    d.nodes6 = s.nodes6.clone();
    d
}
fn ids_of(n: &NodeIds) -> Vec<(IpAddr, Id)> {
    n.iter()
        .map(|(a, i)| {
            let mut b = [0; 20];
            b.copy_from_slice(i);
            (*a, b)
        })
        .collect()
}
fn model(d: &DhtState) -> S {
    S { nids: ids_of(&d.nids), nodes: d.nodes.clone(), nodes6: d.nodes6.clone() }
}

fn state_restores(s: &S) -> Verdict {
    let d = real(s);
    let v = d.save();
    let r = DhtState::read(&v.as_ref()).map_err(|e| format!("does not load directly: {}", e))?;
    ensure!(model(&r) == *s, "loads directly as {:?}", model(&r));
    let b = v.to_vec();
    let q = ValueRef::decode(&b).map_err(|e| format!("encoded as {}, which does not decode: {:?}", show(&b), e))?;
    let r = DhtState::read(&q).map_err(|e| format!("does not load from bytes: {}", e))?;
    ensure!(model(&r) == *s, "loads from bytes as {:?}", model(&r));
    ensure!(r.save() == v && d.save() == v, "saving again differs");
    Ok(if *s == S::default() { "trivial empty" } else { "restored" })
}

pub fn d01(r: &mut Run) {
    let n = r.pick(3, 4);
    r.note("most entries per list in the product of lists", n);
    let (a, b, c) = (ids(), endpoints4(), endpoints6());
    let mut lists = |k: usize| {
        let mut v = vec![];
        words::sequences(k, 0, n, |ix| v.push(ix.to_vec()));
        v
    };
    r.family("every combination of three short lists");
    let la = lists(a.len());
    let lb = lists(3);
    let lc = lists(3);
    for x in &la {
        for y in &lb {
            for z in &lc {
                let s = S {
                    nids: x.iter().map(|&i| a[i]).collect(),
                    nodes: y.iter().map(|&i| b[i]).collect(),
                    nodes6: z.iter().map(|&i| c[i]).collect(),
                };
                r.case(hash_dbg(&s), || format!("{:?}", s), || state_restores(&s));
            }
        }
    }
    r.family("every port, every byte of every field");
    let mut one = |r: &mut Run, s: S| r.case(hash_dbg(&s), || format!("{:?}", s), || state_restores(&s));
    for p in 0..=65535u16 {
        one(r, S { nodes: vec![v4([9, 8, 7, 6], p)], ..S::default() });
        one(r, S { nodes6: vec![v6([9; 16], p)], ..S::default() });
    }
    for i in 0..20 {
        for x in 0..=255u8 {
            let mut id = [3; 20];
            id[i] = x;
            one(r, S { nids: vec![(IpAddr::V4([1, 1, 1, 1].into()), id), (IpAddr::V6([2; 16].into()), id)], ..S::default() });
            if i < 16 {
                let mut o = [5; 16];
                o[i] = x;
                one(r, S { nids: vec![(IpAddr::V6(o.into()), [7; 20])], nodes6: vec![v6(o, 77)], ..S::default() });
            }
            if i < 4 {
                let mut o = [5; 4];
                o[i] = x;
                one(r, S { nids: vec![(IpAddr::V4(o.into()), [7; 20])], nodes: vec![v4(o, 77)], ..S::default() });
            }
        }
    }
    r.family("every pair of leading octets");
    for hi in 0..=65535u16 {
        let [x, y] = hi.to_be_bytes();
        let sp = special(hi);
        one(r, S {
            nids: sp.iter().map(|o| (IpAddr::V6((*o).into()), [7; 20])).chain([(IpAddr::V4([x, y, 0, 1].into()), [x; 20])]).collect(),
            nodes: vec![v4([x, y, 0, 1], 77), v4([0, 1, x, y], hi)],
            nodes6: sp.iter().map(|o| v6(*o, 77)).collect(),
        });
    }
    r.family("long lists");
    for n in (0..70).chain(sizes(r.pick(5000, 70_000))).chain([1000, 2000]) {
        let s = S {
            nids: (0..n).map(|i| (if i % 3 == 0 { c[i % 5].ip() } else { b[i % 5].ip() }, [i as u8; 20])).collect(),
            nodes: (0..n).map(|i| v4([10, 1, (i >> 8) as u8, i as u8], (i * 7) as u16)).collect(),
            nodes6: (0..n / 2).map(|i| v6([i as u8; 16], (60000 - i) as u16)).collect(),
        };
        r.case(hash_dbg(&s), || format!("lists of {}, {} and {}", s.nids.len(), s.nodes.len(), s.nodes6.len()), || state_restores(&s));
        let t = S { nodes: s.nodes.iter().rev().cloned().collect(), ..S::default() };
        r.case(hash_dbg(&t), || format!("list of {}", n), || state_restores(&t));
    }
}

// ------------------------------------------------------------------------ D02

/// Entry of a damaged list: bytes of a length, or another type.
fn entries() -> Vec<Value> {
    let mut v: Vec<Value> = [0usize, 4, 5, 6, 7, 16, 17, 18, 19, 20, 22, 24, 26, 36, 38]
        .iter()
        .map(|&n| Value::Bytes((0..n).map(|i| (i * 11 + n) as u8).collect()))
        .collect();
    // an IPv4 address within an IPv6 one, and nothing but zeros
    v.push(Value::Bytes([&[0; 10][..], &[0xff, 0xff, 1, 2, 3, 4, 5, 6]].concat()));
    v.push(Value::Bytes(vec![0; 18]));
    v.push(Value::Int(7));
    v.push(Value::List(vec![Value::Bytes(vec![1; 6])]));
    v.push(Value::Dict([("a".to_string(), Value::Bytes(vec![1; 24]))].into_iter().collect()));
    v
}

fn read_ep(b: &[u8]) -> Option<SocketAddr> {
    let port = |x: &[u8]| x[0] as u16 * 256 + x[1] as u16;
    match b.len() {
        6 => Some(v4([b[0], b[1], b[2], b[3]], port(&b[4..]))),
        18 => {
            let mut o = [0; 16];
            o.copy_from_slice(&b[..16]);
            Some(v6(o, port(&b[16..])))
        }
        _ => None,
    }
}

fn read_id(b: &[u8]) -> Option<(IpAddr, Id)> {
    if b.len() != 24 && b.len() != 36 {
        return None;
    }
    let mut id = [0; 20];
    id.copy_from_slice(&b[..20]);
    let a = &b[20..];
    Some(if a.len() == 4 {
        (IpAddr::V4(Ipv4Addr::new(a[0], a[1], a[2], a[3])), id)
    } else {
        let mut o = [0; 16];
        o.copy_from_slice(a);
        (IpAddr::V6(Ipv6Addr::from(o)), id)
    })
}

fn expected_ids(v: &Value, k: &str) -> Vec<(IpAddr, Id)> {
    let Value::Dict(d) = v else { return vec![] };
    match d.get(k) {
        Some(Value::Bytes(b)) if b.len() == 20 => {
            let mut id = [0; 20];
            id.copy_from_slice(b);
            vec![(IpAddr::V4(Ipv4Addr::new(127, 0, 0, 1)), id)]
        }
        Some(Value::List(l)) => l.iter().filter_map(|e| if let Value::Bytes(b) = e { read_id(b) } else { None }).collect(),
        _ => vec![],
    }
}

fn expected(v: &Value) -> S {
    let mut s = S::default();
    let Value::Dict(d) = v else { return s };
    s.nids = expected_ids(v, "node-id");
    let eps = |k: &str| match d.get(k) {
        Some(Value::List(l)) => l.iter().filter_map(|e| if let Value::Bytes(b) = e { read_ep(b) } else { None }).collect(),
        _ => vec![],
    };
    s.nodes = eps("nodes");
    s.nodes6 = eps("nodes6");
    s
}

fn damaged(v: &Value) -> Verdict {
    let want = expected(v);
    let r = DhtState::read(&v.as_ref()).map_err(|e| format!("loading failed: {}", e))?;
    ensure!(model(&r) == want, "loads as {:?}, not {:?}", model(&r), want);
    let x = extract_node_ids(&v.as_ref(), "node-id").map_err(|e| format!("extracting ids failed: {}", e))?;
    ensure!(ids_of(&x) == want.nids, "extracted ids are {:?}", x);
    // the ids may be asked for under any key
    let mut keys = vec!["nodes", "nodes6", "", "id"];
    if let Value::Dict(d) = v {
        keys.extend(d.keys().map(|k| k.as_str()));
    }
    for k in keys {
        let x = extract_node_ids(&v.as_ref(), k).map_err(|e| format!("extracting ids under {:?} failed: {}", k, e))?;
        ensure!(ids_of(&x) == expected_ids(v, k), "extracted ids under {:?} are {:?}", k, x);
    }
    let b = v.to_vec();
    let q = ValueRef::decode(&b).map_err(|e| format!("does not decode: {:?}", e))?;
    let r = DhtState::read(&q).map_err(|e| format!("loading from bytes failed: {}", e))?;
    ensure!(model(&r) == want, "loads from bytes as {:?}, not {:?}", model(&r), want);
    Ok(if want != S::default() {
        "something kept"
    } else if matches!(v, Value::Dict(d) if !d.is_empty()) {
        "nothing usable"
    } else {
        "trivial no section"
    })
}

fn dictv(e: Vec<(&str, Value)>) -> Value {
    Value::Dict(e.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
}

fn l0(ns: &[usize]) -> Value {
    Value::List(ns.iter().map(|&n| Value::Bytes((0..n).map(|i| (i * 3 + n) as u8).collect())).collect())
}

pub fn d02(r: &mut Run) {
    let es = entries();
    let n = r.pick(4, 5);
    r.note("most entries of a damaged list", n);
    let mut one = |r: &mut Run, v: Value| {
        r.case(hash(&v.to_vec()), || show(&v.to_vec()), || damaged(&v));
    };
    r.family("no dictionary");
    for e in &es {
        one(r, e.clone());
    }
    one(r, dictv(vec![]));
    r.family("each section a list of every sequence of entries");
    for k in ["node-id", "nodes", "nodes6"] {
        words::sequences(es.len(), 0, n, |ix| {
            one(r, dictv(vec![(k, Value::List(ix.iter().map(|&i| es[i].clone()).collect()))]));
        });
    }
    r.family("every entry length");
    for k in ["node-id", "nodes", "nodes6"] {
        for len in 0..=64usize {
            let b = |x: usize| Value::Bytes((0..len).map(|i| (i * 5 + x) as u8).collect());
            one(r, dictv(vec![(k, b(1))]));
            one(r, dictv(vec![(k, Value::List(vec![b(2)]))]));
            one(r, dictv(vec![(k, Value::List(vec![b(3), Value::Bytes(vec![1; 24]), b(4), Value::Bytes(vec![2; 6])]))]));
        }
    }
    for len in sizes(r.pick(70_000, 1_000_000)) {
        for k in ["node-id", "nodes", "nodes6"] {
            let b = Value::Bytes(vec![3; len]);
            one(r, dictv(vec![(k, b.clone())]));
            one(r, dictv(vec![(k, Value::List(vec![Value::Bytes(vec![1; 18]), b, Value::Bytes(vec![1; 24]), Value::Bytes(vec![2; 6])]))]));
        }
    }
    r.family("entries that are addresses of every kind");
    for hi in 0..=65535u16 {
        let ep = |p: u8| -> Vec<Value> { special(hi).iter().map(|o| Value::Bytes([&o[..], &[p, 1]].concat())).collect() };
        let mut low: Vec<Value> = ep(0);
        low.push(Value::Bytes(vec![1, 2, 3, 4, (hi >> 8) as u8, hi as u8]));
        low.push(Value::Bytes(vec![(hi >> 8) as u8, hi as u8, 0, 0, 0, 0]));
        let ids = special(hi).iter().map(|o| Value::Bytes([&[9; 20][..], &o[..]].concat())).collect();
        one(r, dictv(vec![("node-id", Value::List(ids)), ("nodes", Value::List(low)), ("nodes6", Value::List(ep(2)))]));
    }
    r.family("damaged lists of many entries");
    for n in sizes(1100) {
        for k in ["node-id", "nodes", "nodes6"] {
            for bad in [1, 2, 7] {
                one(r, dictv(vec![(k, Value::List((0..n).map(|i| es[(i * bad + i / 5) % es.len()].clone()).collect()))]));
            }
        }
    }
    r.family("sections of other names");
    for u in lits().strs() {
        one(r, dictv(vec![(&u, l0(&[24, 6, 18, 36]))]));
        one(r, dictv(vec![(&u, Value::Bytes(vec![4; 20])), ("nodes6", l0(&[18]))]));
        one(r, dictv(vec![(&u, Value::Int(1)), ("nodes", l0(&[6, 18])), ("node-id", l0(&[24]))]));
    }
    r.family("every combination of sections of every type");
    let l = l0;
    let secs: Vec<Option<Value>> = vec![
        None,
        Some(Value::Int(-1)),
        Some(Value::Bytes(vec![])),
        Some(Value::Bytes(vec![9; 6])),
        Some(Value::Bytes(vec![9; 20])),
        Some(Value::Bytes(vec![9; 24])),
        Some(Value::List(vec![])),
        Some(l(&[24, 36])),
        Some(l(&[6, 18])),
        Some(l(&[6])),
        Some(l(&[18, 5, 18])),
        Some(dictv(vec![("nodes", l(&[6]))])),
    ];
    for a in &secs {
        for b in &secs {
            for c in &secs {
                for extra in [false, true] {
                    let mut v = vec![];
                    for (k, s) in [("node-id", a), ("nodes", b), ("nodes6", c)] {
                        if let Some(s) = s {
                            v.push((k, s.clone()));
                        }
                    }
                    if extra {
                        v.push(("node", l(&[6])));
                        v.push(("nodes5", l(&[24])));
                        v.push(("", Value::Int(0)));
                        v.push(("node-ids", Value::Bytes(vec![1; 20])));
                    }
                    one(r, dictv(v));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ D03, D04

const INTS: [&str; 13] = [
    "max_peers_reply",
    "search_branching",
    "max_fail_count",
    "max_torrents",
    "max_dht_items",
    "max_peers",
    "max_torrent_search_reply",
    "block_timeout",
    "block_ratelimit",
    "item_lifetime",
    "upload_rate_limit",
    "sample_infohashes_interval",
    "max_infohashes_sample_count",
];
const BOOLS: [&str; 8] = [
    "restrict_routing_ips",
    "restrict_search_ips",
    "extended_routing_table",
    "aggressive_lookups",
    "privacy_lookups",
    "enforce_node_id",
    "ignore_dark_internet",
    "read_only",
];

fn ints(s: &mut DhtSettings) -> [&mut usize; 13] {
    [
        &mut s.max_peers_reply,
        &mut s.search_branching,
        &mut s.max_fail_count,
        &mut s.max_torrents,
        &mut s.max_dht_items,
        &mut s.max_peers,
        &mut s.max_torrent_search_reply,
        &mut s.block_timeout,
        &mut s.block_ratelimit,
        &mut s.item_lifetime,
        &mut s.upload_rate_limit,
        &mut s.sample_infohashes_interval,
        &mut s.max_infohashes_sample_count,
    ]
}
fn bools(s: &mut DhtSettings) -> [&mut bool; 8] {
    [
        &mut s.restrict_routing_ips,
        &mut s.restrict_search_ips,
        &mut s.extended_routing_table,
        &mut s.aggressive_lookups,
        &mut s.privacy_lookups,
        &mut s.enforce_node_id,
        &mut s.ignore_dark_internet,
        &mut s.read_only,
    ]
}

/// Sets settings by number: integers from 0, switches from 13.
pub fn set(s: &mut DhtSettings, to: &[(usize, usize)]) {
    for (i, x) in to {
        if *i < 13 {
            *ints(s)[*i] = *x;
        } else {
            *bools(s)[*i - 13] = *x != 0;
        }
    }
}
/// The default of a switch.
pub fn switch(i: usize) -> bool {
    plain(DhtSettings::default()).1[i - 13]
}
/// Whether the setting is one of the limits of the store.
pub fn is_limit(i: usize) -> bool {
    [0, 3, 4, 5].contains(&i)
}

type Set = ([usize; 13], [bool; 8]);

fn plain(mut s: DhtSettings) -> Set {
    let mut a = [0; 13];
    let mut b = [false; 8];
    for (x, y) in a.iter_mut().zip(ints(&mut s)) {
        *x = *y;
    }
    for (x, y) in b.iter_mut().zip(bools(&mut s)) {
        *x = *y;
    }
    (a, b)
}

fn differs(got: &Set, want: &Set) -> String {
    let mut v = vec![];
    for i in 0..13 {
        if got.0[i] != want.0[i] {
            v.push(format!("{} is {}, not {}", INTS[i], got.0[i], want.0[i]));
        }
    }
    for i in 0..8 {
        if got.1[i] != want.1[i] {
            v.push(format!("{} is {}, not {}", BOOLS[i], got.1[i], want.1[i]));
        }
    }
    v.join(", ")
}

fn settings_restore(s: &Set, default: &Set) -> Verdict {
    let mut d = DhtSettings::default();
    for (x, y) in ints(&mut d).into_iter().zip(s.0) {
        *x = y;
    }
    for (x, y) in bools(&mut d).into_iter().zip(s.1) {
        *x = y;
    }
    let v = d.save();
    ensure!(plain(d) == *s, "saving changed the settings");
    let r = plain(DhtSettings::read(&v.as_ref()));
    ensure!(r == *s, "directly: {}", differs(&r, s));
    let b = v.to_vec();
    let q = ValueRef::decode(&b).map_err(|e| format!("does not decode: {:?}", e))?;
    let r = plain(DhtSettings::read(&q));
    ensure!(r == *s, "through bytes: {}", differs(&r, s));
    Ok(if s == default { "trivial defaults" } else { "restored" })
}

fn label(s: &Set, default: &Set) -> String {
    format!("settings where {}", differs(s, default).replace(", not", ", default"))
}

pub fn d03(r: &mut Run) {
    let def = plain(DhtSettings::default());
    let mut one = |r: &mut Run, s: Set| r.case(hash_dbg(&s), || label(&s, &def), || settings_restore(&s, &def));
    r.family("every combination of switches");
    for m in 0..256u32 {
        let mut s = def;
        for i in 0..8 {
            s.1[i] = m >> i & 1 == 1;
        }
        one(r, s);
        for i in 0..13 {
            s.0[i] = 1000 + i;
        }
        one(r, s);
        s.0 = [0; 13];
        one(r, s);
        s.0 = [1; 13];
        one(r, s);
    }
    let mut edges: Vec<usize> = (0..=300).collect();
    for k in 8..64 {
        let p = 1usize << k;
        edges.extend([p - 1, p, p + 1]);
    }
    edges.extend([usize::MAX, usize::MAX - 1, i64::MAX as usize]);
    edges.extend(lits().around(u64::MAX).into_iter().map(|n| n as usize));
    r.family("each number alone");
    for i in 0..13 {
        for &e in &edges {
            let mut s = def;
            s.0[i] = e;
            one(r, s);
        }
    }
    r.family("each pair of settings");
    let few = [0usize, 1, 5, 20, 100, 65536, i64::MAX as usize];
    for i in 0..13 {
        for j in 0..13 {
            for &a in &few {
                for &b in &few {
                    let mut s = def;
                    s.0[i] = a;
                    s.0[j] = b;
                    one(r, s);
                }
            }
        }
        for j in 0..8 {
            for &a in &few {
                let mut s = def;
                s.0[i] = a;
                s.1[j] = !s.1[j];
                one(r, s);
            }
        }
    }
    r.family("all distinct");
    for k in 0..50 {
        let mut s = def;
        for i in 0..13 {
            s.0[i] = (i * 1009 + k * 7919) << k;
        }
        one(r, s);
    }
}

fn settings_of(v: &Value, def: &Set) -> Set {
    let mut s = *def;
    let Value::Dict(d) = v else { return s };
    for (i, k) in INTS.iter().enumerate() {
        if let Some(Value::Int(n)) = d.get(*k) {
            s.0[i] = *n as usize;
        }
    }
    for (i, k) in BOOLS.iter().enumerate() {
        if let Some(Value::Int(n)) = d.get(*k) {
            s.1[i] = *n != 0;
        }
    }
    s
}

fn settings_load(v: &Value, def: &Set) -> Verdict {
    let want = settings_of(v, def);
    let r = plain(DhtSettings::read(&v.as_ref()));
    ensure!(r == want, "directly: {}", differs(&r, &want));
    let b = v.to_vec();
    let q = ValueRef::decode(&b).map_err(|e| format!("does not decode: {:?}", e))?;
    let r = plain(DhtSettings::read(&q));
    ensure!(r == want, "through bytes: {}", differs(&r, &want));
    Ok(match v {
        Value::Dict(d) if d.is_empty() => "trivial empty",
        Value::Dict(_) if want == *def => "only defaults",
        Value::Dict(_) => "something set",
        _ => "no dictionary",
    })
}

pub fn d04(r: &mut Run) {
    let def = plain(DhtSettings::default());
    let vals = vec![
        Value::Int(0),
        Value::Int(1),
        Value::Int(2),
        Value::Int(4321),
        Value::Int(1 << 40),
        Value::Int(256),
        Value::Bytes(vec![]),
        Value::Bytes(b"12".to_vec()),
        Value::List(vec![Value::Int(3)]),
        dictv(vec![("max_peers", Value::Int(3))]),
    ];
    let keys: Vec<&str> = INTS.iter().chain(BOOLS.iter()).cloned().collect();
    let mut one = |r: &mut Run, v: Value| r.case(hash(&v.to_vec()), || show(&v.to_vec()), || settings_load(&v, &def));
    r.family("no dictionary");
    for v in &vals {
        one(r, v.clone());
    }
    one(r, dictv(vec![]));
    r.family("one entry");
    for k in &keys {
        for v in &vals {
            one(r, dictv(vec![(k, v.clone())]));
        }
        if BOOLS.contains(k) {
            for n in [-1, i64::MIN, i64::MAX, 255, 256, 65536, 1 << 32, -256] {
                one(r, dictv(vec![(k, Value::Int(n))]));
            }
        } else {
            for n in 0..3000 {
                one(r, dictv(vec![(k, Value::Int(n))]));
            }
            for b in 11..63 {
                one(r, dictv(vec![(k, Value::Int(1 << b))]));
                one(r, dictv(vec![(k, Value::Int((1 << b) - 1))]));
            }
        }
    }
    r.family("one entry, numbers of the sources");
    for k in &keys {
        for n in lits().around(i64::MAX as u64) {
            one(r, dictv(vec![(k, Value::Int(n as i64))]));
            if BOOLS.contains(k) {
                one(r, dictv(vec![(k, Value::Int(-(n as i64)))]));
            }
        }
        for t in lits().strs().iter().map(|s| s.as_str()).chain(["1", "0", "true", "false", "77", " 5", "5e", "-1"]) {
            one(r, dictv(vec![(k, Value::Bytes(t.as_bytes().to_vec()))]));
        }
    }
    r.family("two entries");
    for (i, k) in keys.iter().enumerate() {
        for l in &keys[i + 1..] {
            for v in &vals {
                for w in &vals {
                    one(r, dictv(vec![(k, v.clone()), (l, w.clone())]));
                }
            }
        }
    }
    r.family("unknown entries");
    let mut unknown: Vec<String> =
        ["", "max_peer", "max_peers_", "Max_peers", "prefer_verified_node_ids", "zzz", "max_peers_replyx", "read-only"].iter().map(|s| s.to_string()).collect();
    unknown.extend(lits().strs());
    for k in &keys {
        unknown.extend([k.to_uppercase(), k.replace('_', "-"), k.replace('_', ""), k.replace('_', " "), format!("{} ", k), format!(" {}", k), format!("dht_{}", k), k[1..].to_string(), k[..k.len() - 1].to_string(), format!("{}\0", k)]);
    }
    unknown.retain(|u| !keys.contains(&u.as_str()));
    unknown.sort_unstable();
    unknown.dedup();
    for u in unknown.iter().map(|s| s.as_str()) {
        for v in &vals {
            one(r, dictv(vec![(u, v.clone())]));
            for k in &keys {
                one(r, dictv(vec![(u, v.clone()), (k, Value::Int(77))]));
            }
        }
    }
    r.family("all entries but one");
    for k in &keys {
        for v in &vals {
            let mut e: Vec<(&str, Value)> = keys.iter().enumerate().map(|(i, l)| (*l, Value::Int(500 + i as i64))).collect();
            for x in &mut e {
                if x.0 == *k {
                    x.1 = v.clone();
                }
            }
            one(r, dictv(e));
        }
    }
}

// ------------------------------------------------------------------------ D05

#[derive(Clone, Copy, Debug, PartialEq)]
enum Addr {
    Ip(IpAddr),
    Ep(SocketAddr),
}

fn bytes_of(a: &Addr) -> Vec<u8> {
    match a {
        Addr::Ip(i) => octets(i),
        Addr::Ep(e) => compact(e),
    }
}
fn write<W: io::Write>(w: &mut W, a: &Addr) -> io::Result<()> {
    match a {
        Addr::Ip(i) => detail::write_address(w, i),
        Addr::Ep(e) => detail::write_socket_addr(w, e),
    }
}
fn read<R: io::Read>(r: &mut R, like: &Addr) -> io::Result<Addr> {
    Ok(match like {
        Addr::Ip(IpAddr::V4(_)) => Addr::Ip(detail::read_v4_address(r)?),
        Addr::Ip(IpAddr::V6(_)) => Addr::Ip(detail::read_v6_address(r)?),
        Addr::Ep(SocketAddr::V4(_)) => Addr::Ep(detail::read_v4_socket_address(r)?),
        Addr::Ep(SocketAddr::V6(_)) => Addr::Ep(detail::read_v6_socket_address(r)?),
    })
}

fn plain_addr(a: &Addr) -> Verdict {
    let want = bytes_of(a);
    let mut out = vec![0xee];
    write(&mut out, a).map_err(|e| format!("write failed: {}", e))?;
    ensure!(out[0] == 0xee && out[1..] == want[..], "written as {}", show(&out[1..]));
    let mut src = want.clone();
    src.extend_from_slice(b"rest");
    let mut cur = &src[..];
    let back = read(&mut cur, a).map_err(|e| format!("read failed: {}", e))?;
    ensure!(back == *a, "read back as {:?}", back);
    ensure!(cur == b"rest", "left {} unread", show(cur));
    for n in 0..want.len() {
        let mut c = &want[..n];
        ensure!(read(&mut c, a).is_err(), "read from the first {} bytes", n);
    }
    Ok("address")
}

struct Faulty<'a> {
    ch: &'a mut choice::Chooser,
    data: Vec<u8>,
    at: usize,
    hard: bool,
    seen_end: bool,
}
impl io::Write for Faulty<'_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = match self.ch.choose(6) {
            0 => b.len(),
            1 => 1,
            2 => (b.len() + 1) / 2,
            3 => return Err(io::ErrorKind::Interrupted.into()),
            4 => {
                self.hard = true;
                return Ok(0);
            }
            _ => {
                self.hard = true;
                return Err(io::ErrorKind::Other.into());
            }
        };
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl io::Read for Faulty<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let left = self.data.len() - self.at;
        if left == 0 {
            self.seen_end = true;
            return Ok(0);
        }
        let n = b.len().min(left);
        let n = match self.ch.choose(5) {
            0 => n,
            1 => n.min(1),
            2 => (n + 1) / 2,
            3 => return Err(io::ErrorKind::Interrupted.into()),
            _ => {
                self.hard = true;
                return Err(io::ErrorKind::Other.into());
            }
        };
        b[..n].copy_from_slice(&self.data[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

pub fn d05(r: &mut Run) {
    let mut list: Vec<Addr> = vec![];
    for e in endpoints4().into_iter().chain(endpoints6()) {
        list.push(Addr::Ip(e.ip()));
        list.push(Addr::Ep(e));
    }
    r.family("every byte in every position, every port");
    let mut one = |r: &mut Run, a: Addr| r.case(hash_dbg(&a), || format!("{:?}", a), || plain_addr(&a));
    for a in &list {
        one(r, *a);
    }
    for i in 0..16 {
        for x in 0..=255u8 {
            for base in [0u8, 0xff, 0x31] {
                let mut o = [base; 16];
                o[i] = x;
                one(r, Addr::Ip(IpAddr::V6(o.into())));
                one(r, Addr::Ep(v6(o, 0x1234)));
                if i < 4 {
                    let mut o = [base; 4];
                    o[i] = x;
                    one(r, Addr::Ip(IpAddr::V4(o.into())));
                    one(r, Addr::Ep(v4(o, 0x1234)));
                }
            }
        }
    }
    for p in 0..=65535u16 {
        one(r, Addr::Ep(v4([1, 2, 3, 4], p)));
        one(r, Addr::Ep(v6([6; 16], p)));
    }
    for hi in 0..=65535u16 {
        let [x, y] = hi.to_be_bytes();
        one(r, Addr::Ep(v4([x, y, 0, 1], 80)));
        one(r, Addr::Ip(IpAddr::V4([0, 1, x, y].into())));
        for o in special(hi) {
            one(r, Addr::Ip(IpAddr::V6(o.into())));
            one(r, Addr::Ep(v6(o, hi)));
        }
    }
    let dev = r.pick(3, 6);
    r.note("faults per execution", dev as u64);
    r.family("faulty sinks");
    for a in &list {
        let mut runs = 0;
        r.case(combine(1, hash_dbg(a)), || format!("{:?} to a faulty sink", a), || {
            let want = bytes_of(a);
            let mut bad = None;
            choice::explore(Some(dev), |ch| {
                runs += 1;
                let mut w = Faulty { ch, data: vec![], at: 0, hard: false, seen_end: false };
                let res = write(&mut w, a);
                let (data, hard) = (w.data, w.hard);
                bad = if !want.starts_with(&data) {
                    Some(format!("the sink received {}", show(&data)))
                } else if res.is_ok() && data != want {
                    Some(format!("success after {} of {} bytes", data.len(), want.len()))
                } else if res.is_ok() == hard {
                    Some(format!("result {:?} from a sink that {}", res, if hard { "failed" } else { "only delayed" }))
                } else {
                    None
                };
                bad.is_none()
            });
            match bad {
                Some(b) => Err(b),
                None => Ok("every fault placement of a sink"),
            }
        });
        r.count("executions with faults", runs);
    }
    r.family("faulty sources, whole and truncated");
    for a in &list {
        let full = bytes_of(a);
        for n in 0..=full.len() + 3 {
            let mut runs = 0;
            r.case(combine(2 + n as u64, hash_dbg(a)), || format!("{:?} from a faulty source of {} bytes", a, n), || {
                let mut bad = None;
                let mut data = full.clone();
                data.extend_from_slice(b"XYZ");
                data.truncate(n);
                choice::explore(Some(dev), |ch| {
                    runs += 1;
                    let mut w = Faulty { ch, data: data.clone(), at: 0, hard: false, seen_end: false };
                    let res = read(&mut w, a);
                    let (at, hard) = (w.at, w.hard);
                    bad = match &res {
                        Ok(b) if *b != *a => Some(format!("read as {:?}", b)),
                        Ok(_) if hard => Some("success from a source that failed".into()),
                        Ok(_) if at != full.len() => Some(format!("consumed {} bytes of {}", at, full.len())),
                        Err(e) if !hard && n >= full.len() => Some(format!("error {:?} from a source that only delayed", e)),
                        Err(_) if at > full.len() => Some(format!("consumed {} bytes of {}", at, full.len())),
                        _ => None,
                    };
                    bad.is_none()
                });
                match bad {
                    Some(b) => Err(b),
                    None => Ok(if n < full.len() { "every fault placement of a truncated source" } else { "every fault placement of a source" }),
                }
            });
            r.count("executions with faults", runs);
        }
    }
}

// ------------------------------------------------------------------ D14, D17

fn exp(a: &Id, b: &Id) -> usize {
    for i in 0..160 {
        if (a[i / 8] ^ b[i / 8]) >> (7 - i % 8) & 1 == 1 {
            return 159 - i;
        }
    }
    0
}

fn id_family() -> Vec<Id> {
    let mut v: Vec<Id> = vec![[0; 20], [0xff; 20], [0x55; 20], [0xaa; 20]];
    for i in 0..160 {
        let mut a = [0; 20];
        a[i / 8] = 0x80 >> (i % 8);
        v.push(a);
        a.iter_mut().for_each(|b| *b = !*b);
        v.push(a);
        let mut a = [0x55; 20];
        a[i / 8] ^= 0x80 >> (i % 8);
        v.push(a);
        // ones from bit i down
        let mut a = [0; 20];
        for j in i..160 {
            a[j / 8] |= 0x80 >> (j % 8);
        }
        v.push(a);
    }
    v
}

fn hexs(a: &Id) -> String {
    a.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn d14(r: &mut Run) {
    let f = id_family();
    r.family("pairs of ids");
    for a in &f {
        for b in &f {
            r.case(combine(hash(a), hash(b)), || format!("{} and {}", hexs(a), hexs(b)), || {
                let (x, y) = (Sha1Hash::from(*a), Sha1Hash::from(*b));
                let (g, h) = (node::distance_exp(&x, &y), node::distance_exp(&y, &x));
                ensure!(g == exp(a, b), "exponent {}, not {}", g, exp(a, b));
                ensure!(g == h, "exponents {} and {} by order", g, h);
                let m = node::min_distance_exp(&x, &[y.clone()]);
                ensure!(m == g, "minimum over one id is {}, not {}", m, g);
                Ok(if a == b { "identical" } else { "different" })
            });
        }
    }
    r.family("the nearest id in every place of a set");
    let most = r.pick(80, 400);
    for n in (1..=most).chain(sizes(r.pick(600, 4000))).map(|n| n.max(1)) {
        let places: Vec<usize> = if n <= most { (0..n).collect() } else { (0..n).filter(|p| p % (n / 8) == 0 || p + 1 == n || sizes(600).contains(p)).collect() };
        for p in places {
            r.case(combine(combine(5, n as u64), p as u64), || format!("nearest at {} of {}", p, n), || {
                let a = Sha1Hash::from([0; 20]);
                let near = |e: usize| {
                    let mut t = [0; 20];
                    t[19 - e / 8] = 1 << (e % 8);
                    Sha1Hash::from(t)
                };
                for (far, least) in [(159, 158), (40, 3), (1, 0), (130, 129)] {
                    let mut set: Vec<Sha1Hash> = (0..n).map(|i| near(if far > 100 { far - (far - least - 1).min(i % 2) } else { far + (i * 7) % 119 })).collect();
                    set[p] = near(least);
                    let got = node::min_distance_exp(&a, &set);
                    ensure!(got == least, "minimum {}, not {}", got, least);
                    set[p] = near(far);
                    let got = node::min_distance_exp(&a, &set);
                    ensure!(got == far, "minimum {}, not {}, without the nearest", got, far);
                }
                Ok("set")
            });
        }
    }
    r.family("sets of ids");
    let n = r.pick(4, 5);
    r.note("largest set of ids", n);
    let mut some: Vec<Id> = vec![[0; 20]];
    for i in [159, 158, 157, 120, 80, 8, 7, 1, 0] {
        let mut a = [0; 20];
        a[i / 8] = 0x80 >> (i % 8);
        some.push(a);
    }
    some.push([0xff; 20]);
    for a in &some {
        words::sequences(some.len(), 1, n, |ix| {
            let key = combine(hash(a), hash_dbg(&ix));
            r.case(key, || format!("{} to {:?}", hexs(a), ix.iter().map(|&i| hexs(&some[i])).collect::<Vec<_>>()), || {
                let set: Vec<Sha1Hash> = ix.iter().map(|&i| Sha1Hash::from(some[i])).collect();
                let want = ix.iter().map(|&i| exp(a, &some[i])).min().unwrap();
                let got = node::min_distance_exp(&Sha1Hash::from(*a), &set);
                ensure!(got == want, "minimum {}, not {}", got, want);
                Ok("set")
            });
        });
    }
}

pub fn d17(r: &mut Run) {
    let (len, vals) = r.pick((9, 8), (12, 9));
    r.note("longest sequence", len);
    r.note("values", format!("0 to {} even numbers, searched for every number around", vals));
    fn lb<T: PartialOrd + Copy + std::fmt::Debug>(v: &[T], x: T) -> Result<(), String> {
        let want = v.iter().filter(|y| **y < x).count();
        let got = detail::lower_bound(v, &x);
        ensure!(got == want, "{:?} belongs at {}, not {}", x, want, got);
        Ok(())
    }
    r.family("every ascending sequence");
    fn go(len: usize, vals: i64, v: &mut Vec<i64>, r: &mut Run) {
        let w = v.clone();
        r.case(hash_dbg(&w), || format!("{:?}", w), || {
            for x in -1..=2 * vals + 1 {
                lb(&w, x)?;
                lb(&w.iter().map(|y| *y as f64 / 2.0).collect::<Vec<_>>(), x as f64 / 2.0)?;
            }
            Ok(if w.is_empty() { "trivial empty" } else { "sequence" })
        });
        if v.len() == len {
            return;
        }
        let lo = v.last().map_or(0, |x| x / 2);
        for x in lo..=vals {
            v.push(2 * x);
            go(len, vals, v, r);
            v.pop();
        }
    }
    go(len, vals, &mut vec![], r);
    r.family("long sequences");
    for n in 0..=r.pick(700i64, 1500) {
        r.case(combine(1, n as u64), || format!("{} numbers", n), || {
            let v: Vec<i64> = (0..n).map(|i| i / 3 * 2).collect();
            for x in -1..=n {
                lb(&v, x)?;
            }
            let s: Vec<[u8; 2]> = (0..n).map(|i| [(i >> 8) as u8, i as u8]).collect();
            for x in 0..=n {
                lb(&s, [(x >> 8) as u8, x as u8])?;
            }
            Ok("long sequence")
        });
    }
    r.family("longer sequences");
    for n in sizes(r.pick(70_000, 1_000_000)) {
        r.case(combine(2, n as u64), || format!("{} numbers, searched near the edges and the numbers of the sources", n), || {
            let v: Vec<u64> = (0..n as u64).map(|i| i * 2).collect();
            let w: Vec<u64> = (0..n as u64).map(|i| i / 700).collect();
            let c: Vec<u8> = vec![7; n];
            let near = |at: u64| (at.saturating_sub(3)..=at + 3).filter(|i| *i <= 2 * n as u64 + 1);
            let mut xs: Vec<u64> = near(0).chain(near(n as u64 * 2)).chain(near(n as u64)).chain(near(n as u64 / 2)).collect();
            xs.extend(sizes(2 * n as u64).into_iter().map(|n| n as u64));
            for x in xs {
                let got = detail::lower_bound(&v, &x);
                ensure!(got == ((x as usize + 1) / 2).min(n), "{} of even numbers belongs at {}, not {}", x, ((x as usize + 1) / 2).min(n), got);
                let y = x / 700;
                let got = detail::lower_bound(&w, &y);
                ensure!(got == (y as usize * 700).min(n), "{} of runs of 700 belongs at {}, not {}", y, (y as usize * 700).min(n), got);
            }
            for (x, want) in [(6, 0), (7, 0), (8, n)] {
                let got = detail::lower_bound(&c, &x);
                ensure!(got == want, "{} among sevens belongs at {}, not {}", x, want, got);
            }
            Ok("long sequence")
        });
    }
    let _ = BTreeMap::<u8, u8>::new();
}
