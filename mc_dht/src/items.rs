//! D10 to D13: stored items, eviction and counters.

use crate::small::{lits, sizes, Id};
use crate::store::*;
use bencode::Value;
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
use engine::{ensure, show, Run, Verdict};
use std::collections::{BTreeMap, BTreeSet};
use std::net::IpAddr;

type Dict = BTreeMap<String, Value>;

fn templates(busy: &[&str]) -> Vec<Dict> {
    let mut other: Dict = BTreeMap::new();
    other.insert("id".into(), Value::Bytes(vec![1; 20]));
    other.insert("nodes".into(), Value::List(vec![Value::Int(1)]));
    other.insert("zz".into(), Value::Int(3));
    let mut full = other.clone();
    for k in busy {
        full.insert(k.to_string(), Value::Bytes(b"earlier".to_vec()));
    }
    vec![Dict::new(), other, full]
}

/// As `follow`, but at the limit any eviction is accepted: which item goes is
/// the matter of another property.
fn lenient(real: &mut Real, m: &mut Model, op: &Op) -> Result<(), String> {
    let (mutable, t) = match op {
        Op::PutI { t, .. } => (false, *t),
        Op::PutM { t, .. } => (true, *t),
        _ => return follow(real, m, op),
    };
    let known = m.table(mutable).contains_key(&t);
    let room = m.table(mutable).len() < real.w.max_items;
    real.apply(op);
    let roomy = World { max_items: usize::MAX, ops: vec![], ..copy(real.w) };
    *m = m.step(&roomy, op).pop().unwrap();
    if !known && !room {
        let have = real.present(mutable);
        m.table_mut(mutable).retain(|k, _| have.contains(k));
    }
    Ok(())
}

fn copy(w: &World) -> World {
    World {
        max_torrents: w.max_torrents,
        max_peers: w.max_peers,
        max_reply: w.max_reply,
        max_items: w.max_items,
        torrents: vec![],
        eps: vec![],
        names: vec![],
        targets: vec![],
        values: vec![],
        salts: vec![],
        ids: vec![],
        askers: vec![],
        style: (0, 0),
        other: vec![],
        ops: vec![],
    }
}

fn name(t: &Id) -> String {
    show(t)
}

// ------------------------------------------------------------------------ D10

fn immutable(real: &Real, m: &Model) -> Verdict {
    let w = real.w;
    for (t, id) in w.targets.iter().enumerate() {
        for before in templates(&["v"]) {
            let mut v = Value::Dict(before.clone());
            let got = real.s.get_immutable_item(&hash_id(id), &mut v);
            let after = match v {
                Value::Dict(d) => d,
                v => return Err(format!("the reply became {}", show(&v.to_vec()))),
            };
            let mut want = before.clone();
            if let Some(i) = m.imm.get(&t) {
                want.insert("v".into(), w.values[i.v].clone());
            }
            ensure!(got == m.imm.contains_key(&t), "target {} is reported {}", name(id), if got { "present" } else { "absent" });
            ensure!(after == want, "target {}: the reply is {}, not {}", name(id), show(&Value::Dict(after.clone()).to_vec()), show(&Value::Dict(want.clone()).to_vec()));
        }
    }
    Ok(if m.imm.is_empty() { "trivial nothing stored" } else { "stored" })
}

pub fn d10(r: &mut Run) {
    let j = Judge { step: &lenient, check: &immutable, seeds: &[] };
    let js = Judge { step: &lenient, check: &immutable, seeds: &[1] };
    everything(r, &js, false, true);
    r.family("puts of three targets, room for all");
    let mut w = World::new();
    w.targets.truncate(4);
    for t in 0..3 {
        for v in [0, 1, 3] {
            for a in [0, 1] {
                w.ops.push(Op::PutI { t, v, a, n: 1 });
            }
        }
    }
    // the other table and the peers must not matter
    w.ops.push(Op::PutM { t: 0, v: 2, seq: 1, a: 0, n: 1 });
    w.ops.push(Op::Ann { t: 0, e: 0, name: 0, seed: false });
    unmerged(r, &w, r.pick(4, 5), &j);
    merged(r, &w, r.pick(6, 8), 300_000, &j);
    r.family("puts with evictions");
    for max in [0, 1, 2, 3] {
        let mut w = World::new();
        w.max_items = max;
        w.targets = near_and_far();
        for t in 0..4 {
            for v in [0, 4] {
                w.ops.push(Op::PutI { t, v, a: 0, n: 1 });
            }
            w.ops.push(Op::PutI { t, v: 1, a: 1, n: 5 });
        }
        w.ops.push(Op::PutM { t: 0, v: 2, seq: 1, a: 0, n: 1 });
        unmerged(r, &w, r.pick(4, 5), &js);
        merged(r, &w, r.pick(5, 7), 30_000, &js);
    }
    r.family("every kind of value");
    let mut vals = values();
    vals.extend((0..300usize).map(|n| Value::Bytes((0..n).map(|i| i as u8).collect())));
    vals.extend([i64::MIN, -1, 0, i64::MAX].iter().map(|i| Value::Int(*i)));
    vals.push(Value::List(vec![]));
    vals.push(Value::Dict(BTreeMap::new()));
    let mut deep = Value::Int(1);
    for _ in 0..50 {
        deep = Value::List(vec![deep]);
    }
    vals.push(deep);
    vals.push(Value::Bytes(vec![b'v'; 1000]));
    for v in 0..vals.len() {
        let mut w = World::new();
        w.targets.truncate(2);
        w.values = vals.clone();
        let ops = [Op::PutI { t: 0, v, a: 0, n: 1 }, Op::PutI { t: 0, v: (v + 1) % vals.len(), a: 1, n: 1 }, Op::PutI { t: 1, v: (v + 2) % vals.len(), a: 1, n: 1 }];
        for n in 1..=3 {
            let mut k = vec![0; n];
            k[n - 1] = v;
            single(r, &w, &ops[..n], &format!("value {} and {} puts after it", show(&vals[v].to_vec()), n - 1), &j);
        }
    }
    r.family("values of every size of the sources");
    for n in sizes(r.pick(1_100_000, 5_000_000)) {
        for kind in 0..3 {
            let mut w = World::new();
            w.targets.truncate(2);
            let big = match kind {
                0 => Value::Bytes((0..n).map(|i| (i * 7) as u8).collect()),
                1 if n <= 70_000 => Value::List((0..n).map(|i| Value::Int(i as i64 % 10)).collect()),
                2 if n <= 70_000 => Value::Dict((0..n).map(|i| (format!("{:06}", i), Value::Int(1))).collect()),
                _ => continue,
            };
            w.values = vec![big, Value::Int(3)];
            let ops = [Op::PutI { t: 0, v: 0, a: 0, n: 1 }, Op::PutI { t: 1, v: 1, a: 1, n: 1 }, Op::PutI { t: 0, v: 1, a: 1, n: 1 }];
            single(r, &w, &ops, &format!("value of kind {} and size {}, then others", kind, n), &j);
        }
    }
    for n in lits().around(i64::MAX as u64) {
        let mut w = World::new();
        w.targets.truncate(2);
        w.values = vec![Value::Int(n as i64), Value::Int(-(n as i64))];
        let ops = [Op::PutI { t: 0, v: 0, a: 0, n: 1 }, Op::PutI { t: 1, v: 1, a: 1, n: 1 }];
        single(r, &w, &ops, &format!("numbers {} and -{}", n, n), &j);
    }
    for t in lits().texts.iter() {
        let mut w = World::new();
        w.targets.truncate(2);
        let d = Value::Dict(String::from_utf8(t.clone()).into_iter().map(|k| (k, Value::Bytes(t.clone()))).collect());
        w.values = vec![Value::Bytes(t.clone()), d];
        let ops = [Op::PutI { t: 0, v: 0, a: 0, n: 1 }, Op::PutI { t: 1, v: 1, a: 1, n: 1 }];
        single(r, &w, &ops, &format!("text {}", show(t)), &j);
    }
    r.family("items put by many");
    for n in (1..=64).chain(sizes(700)).filter(|n| *n > 0) {
        let mut w = World::new();
        w.targets.truncate(3);
        let ops = [Op::PutI { t: 0, v: 0, a: 0, n }, Op::PutI { t: 1, v: 1, a: 0, n: 1 }, Op::PutI { t: 0, v: 1, a: 0, n }];
        single(r, &w, &ops, &format!("put from {} addresses", n), &j);
        // every address with a value of its own, before and after others
        for kind in 0..4 {
            let mut w = World::new();
            w.targets.truncate(3);
            let count = w.values.len();
            let v = |i: usize| match kind {
                0 => i % count,
                1 => (i / 3 + 1) % count,
                2 => count - 1 - i % count,
                _ => (i == n - 1) as usize,
            };
            let ops: Vec<Op> = (0..n).map(|i| Op::PutI { t: (i % 5 == 4) as usize, v: v(i), a: i, n: 1 }).collect();
            single(r, &w, &ops, &format!("put from {} addresses, values of kind {}", n, kind), &j);
        }
    }
    r.family("targets that differ in one bit");
    for bit in 0..160 {
        let mut w = World::new();
        let mut t = [0x5a; 20];
        t[bit / 8] ^= 0x80 >> (bit % 8);
        w.targets = vec![[0x5a; 20], t];
        let ops = [Op::PutI { t: 0, v: 0, a: 0, n: 1 }, Op::PutI { t: 1, v: 1, a: 1, n: 1 }];
        single(r, &w, &ops[..1], &format!("target bit {}, one put", bit), &j);
        single(r, &w, &ops, &format!("target bit {}, two puts", bit), &j);
    }
}

// ------------------------------------------------------------------------ D11

fn mutable(real: &Real, m: &Model) -> Verdict {
    let w = real.w;
    for (t, id) in w.targets.iter().enumerate() {
        let h = hash_id(id);
        let item = m.mt.get(&t);
        for before in [7i64, i64::MIN] {
            let mut seq = before;
            let got = real.s.get_mutable_item_seq(&h, &mut seq);
            ensure!(got == item.is_some(), "target {}: a sequence number is reported {}", name(id), if got { "present" } else { "absent" });
            let want = item.map_or(before, |i| i.seq);
            ensure!(seq == want, "target {}: sequence number {}, not {}", name(id), seq, want);
        }
        let cur = item.map_or(0, |i| i.seq);
        let mut asks = vec![i64::MIN, -1, 0, 1, 2, i64::MAX, cur, cur.saturating_sub(1), cur.saturating_add(1)];
        asks.sort();
        asks.dedup();
        for ask in asks {
            for force in [false, true] {
                for before in templates(&["v", "sig", "k", "seq"]) {
                    let mut v = Value::Dict(before.clone());
                    let got = real.s.get_mutable_item(&h, ask, force, &mut v);
                    let after = match v {
                        Value::Dict(d) => d,
                        v => return Err(format!("the reply became {}", show(&v.to_vec()))),
                    };
                    let mut want = before.clone();
                    if let Some(i) = item {
                        want.insert("seq".into(), Value::Int(i.seq));
                        if force || (ask >= 0 && ask < i.seq) {
                            want.insert("v".into(), w.values[i.v].clone());
                            want.insert("sig".into(), Value::Bytes(w.sig(t, i.v, i.seq).to_vec()));
                            want.insert("k".into(), Value::Bytes(w.key(t, i.v).to_vec()));
                        }
                    }
                    ensure!(got == item.is_some(), "target {} is reported {}", name(id), if got { "present" } else { "absent" });
                    ensure!(
                        after == want,
                        "target {} asked with {}{}: the reply is {}, not {}",
                        name(id),
                        ask,
                        if force { ", forced" } else { "" },
                        show(&Value::Dict(after.clone()).to_vec()),
                        show(&Value::Dict(want.clone()).to_vec())
                    );
                }
            }
        }
    }
    Ok(if m.mt.is_empty() { "trivial nothing stored" } else { "stored" })
}

pub fn d11(r: &mut Run) {
    let j = Judge { step: &lenient, check: &mutable, seeds: &[] };
    let js = Judge { step: &lenient, check: &mutable, seeds: &[1] };
    everything(r, &js, false, true);
    let seqs = [i64::MIN, -1, 0, 1, 2, i64::MAX];
    r.family("one target, every order of sequence numbers");
    let mut w = World::new();
    w.targets.truncate(2);
    for s in seqs {
        for v in [0, 1, 3] {
            w.ops.push(Op::PutM { t: 0, v, seq: s, a: 0, n: 1 });
        }
    }
    unmerged(r, &w, r.pick(4, 5), &j);
    merged(r, &w, r.pick(7, 10), 300_000, &j);
    r.family("several targets");
    let mut w = World::new();
    w.targets.truncate(4);
    for t in 0..3 {
        for s in [0, 1, 2] {
            for v in [0, 1] {
                w.ops.push(Op::PutM { t, v, seq: s, a: v, n: 1 });
            }
        }
    }
    w.ops.push(Op::PutI { t: 0, v: 2, a: 0, n: 1 });
    unmerged(r, &w, r.pick(4, 5), &j);
    merged(r, &w, r.pick(5, 6), 300_000, &j);
    r.family("puts with evictions");
    for max in [0, 1, 2] {
        let mut w = World::new();
        w.max_items = max;
        w.targets = near_and_far();
        for t in 0..4 {
            for s in [1, 2] {
                w.ops.push(Op::PutM { t, v: s as usize, seq: s, a: 0, n: 1 });
            }
            w.ops.push(Op::PutM { t, v: 4, seq: 1, a: 1, n: 5 });
        }
        unmerged(r, &w, r.pick(4, 5), &js);
        merged(r, &w, r.pick(5, 7), 30_000, &js);
    }
    r.family("every pair of values and order");
    let mut vals = values();
    vals.extend((0..40usize).map(|n| Value::Bytes(vec![b'0' + n as u8; n])));
    for a in 0..vals.len() {
        for b in 0..vals.len() {
            for (s1, s2) in [(1, 2), (2, 1), (1, 1)] {
                let mut w = World::new();
                w.targets.truncate(1);
                w.values = vals.clone();
                let ops = [Op::PutM { t: 0, v: a, seq: s1, a: 0, n: 1 }, Op::PutM { t: 0, v: b, seq: s2, a: 1, n: 1 }];
                single(r, &w, &ops, &format!("value {} at {} then {} at {}", show(&vals[a].to_vec()), s1, show(&vals[b].to_vec()), s2), &j);
            }
        }
    }
    r.family("values and salts of every size of the sources");
    for n in sizes(r.pick(70_000, 1_100_000)).into_iter().chain(0..300) {
        for (m, s2) in [(n, 2), (n + 1, 2), (1, 2), (n + 1, 0)] {
            let mut w = World::new();
            w.targets.truncate(1);
            w.values = vec![Value::Bytes(vec![b'x'; n]), Value::Bytes(vec![b'y'; m])];
            w.salts = vec![vec![b's'; n.min(1100)], vec![]];
            let ops = [Op::PutM { t: 0, v: 0, seq: 1, a: 0, n: 1 }, Op::PutM { t: 0, v: 1, seq: s2, a: 1, n: 1 }];
            single(r, &w, &ops[..1], &format!("value of {} bytes", n), &j);
            single(r, &w, &ops, &format!("value of {} bytes, then of {} at {}", n, m, s2), &j);
        }
    }
    r.family("items put by many");
    for n in (1..=64).chain(sizes(700)).filter(|n| *n > 0) {
        let mut w = World::new();
        w.targets.truncate(3);
        let ops = [
            Op::PutM { t: 0, v: 0, seq: 1, a: 0, n },
            Op::PutM { t: 1, v: 1, seq: 5, a: 0, n: 1 },
            Op::PutM { t: 0, v: 1, seq: 0, a: 0, n },
            Op::PutM { t: 0, v: 2, seq: 3, a: 0, n },
        ];
        for k in 1..=4 {
            single(r, &w, &ops[..k], &format!("{} puts, from {} addresses", k, n), &j);
        }
        for kind in 0..4 {
            let count = w.values.len();
            let seq = |i: usize| match kind {
                0 => i as i64,
                1 => (i / 2) as i64,
                2 => (i ^ 5) as i64,
                _ => (i + 1 == n) as i64,
            };
            let ops: Vec<Op> = (0..n).map(|i| Op::PutM { t: (i % 5 == 4) as usize, v: (i / (kind + 1)) % count, seq: seq(i), a: i, n: 1 }).collect();
            single(r, &w, &ops, &format!("put from {} addresses, numbers of kind {}", n, kind), &j);
        }
    }
    r.family("every pair of sequence numbers");
    let mut ss: Vec<i64> = (-3..6).collect();
    for k in [7, 8, 15, 16, 31, 32, 62] {
        ss.extend([1i64 << k, (1 << k) - 1, -(1 << k)]);
    }
    ss.extend([i64::MIN, i64::MAX, i64::MAX - 1]);
    ss.extend(lits().ints.iter().filter(|n| **n <= i64::MAX as u128).map(|n| *n as i64));
    ss.sort_unstable();
    ss.dedup();
    for &a in &ss {
        for &b in &ss {
            let mut w = World::new();
            w.targets.truncate(1);
            let ops = [Op::PutM { t: 0, v: 0, seq: a, a: 0, n: 1 }, Op::PutM { t: 0, v: 1, seq: b, a: 0, n: 1 }];
            single(r, &w, &ops, &format!("sequence numbers {} then {}", a, b), &j);
        }
    }
}

// ------------------------------------------------------------------------ D12

/// Targets at distance exponents 0, 0, 1, 2, 159 and 100 from the zero id.
pub fn near_and_far() -> Vec<Id> {
    let bit = |e: usize| {
        let mut t = [0; 20];
        t[19 - e / 8] = 1 << (e % 8);
        t
    };
    vec![[0; 20], bit(0), bit(1), bit(2), bit(159), bit(100)]
}

fn bounded(real: &Real, m: &Model) -> Verdict {
    let w = real.w;
    let mut reached = false;
    for mutable in [false, true] {
        let have = real.present(mutable);
        let what = if mutable { "mutable" } else { "immutable" };
        ensure!(have.len() <= w.max_items, "{} {} items are stored", have.len(), what);
        let want: BTreeSet<usize> = m.table(mutable).keys().cloned().collect();
        ensure!(
            have == want,
            "the {} targets stored are {:?}, not {:?}",
            what,
            have.iter().map(|t| name(&w.targets[*t])).collect::<Vec<_>>(),
            want.iter().map(|t| name(&w.targets[*t])).collect::<Vec<_>>()
        );
        reached |= have.len() == w.max_items;
    }
    Ok(if reached { "at the limit" } else { "below the limit" })
}

pub fn d12(r: &mut Run) {
    require_seeding(r);
    let seeds: &[u64] = if r.thorough() { &[1, 2, 3, 4] } else { &[1, 2] };
    r.note("orders of each hash map", seeds.len());
    let j = Judge { step: &follow, check: &bounded, seeds };
    let wide = r.pick(4, 5);
    let deep = r.pick(5, 6);
    r.note("longest history, unmerged", wide);
    everything(r, &j, false, true);
    let own = |w: &World| vec![vec![[0; 20]], vec![w.targets[4], w.targets[2]], vec![[0xff; 20]]];
    let ops = |mutable: bool, ts: &[usize], ns: &[(usize, usize)]| {
        let mut v = vec![];
        for &t in ts {
            for &(a, n) in ns {
                v.push(if mutable { Op::PutM { t, v: 0, seq: 1, a, n } } else { Op::PutI { t, v: 0, a, n } });
            }
        }
        v
    };
    for mutable in [false, true] {
        r.family(if mutable { "mutable items" } else { "immutable items" });
        for max in [0, 1, 2, 3] {
            let mut w = World::new();
            w.max_items = max;
            w.targets = near_and_far();
            w.ids = own(&w);
            w.ops = ops(mutable, &[0, 1, 2, 3, 4], &[(0, 1), (0, 5), (4, 6)]);
            w.ops.push(Op::Ids(1));
            unmerged(r, &w, wide, &j);
            // puts of versions older and newer than the stored one
            if mutable {
                for t in [1, 3] {
                    w.ops.push(Op::PutM { t, v: 1, seq: 0, a: 0, n: 1 });
                    w.ops.push(Op::PutM { t, v: 2, seq: 2, a: 4, n: 1 });
                }
            }
            w.ops.push(Op::Ids(2));
            merged(r, &w, deep, 60_000, &j);
        }
    }
    // repeated puts: announcers counted once, across the threshold of five
    for mutable in [false, true] {
        r.family(if mutable { "mutable items, announcers" } else { "immutable items, announcers" });
        let mut w = World::new();
        w.max_items = 2;
        w.targets = near_and_far();
        for n1 in 0..=12usize {
            for n2 in 0..=12usize {
                for (x, y, z) in [(2, 3, 0), (3, 2, 1), (0, 1, 2), (4, 5, 3), (5, 2, 4)] {
                    for rep in [1usize, 2] {
                        let mut ops = vec![];
                        let put = |t: usize, a: usize| if mutable { Op::PutM { t, v: 0, seq: 1, a, n: 1 } } else { Op::PutI { t, v: 0, a, n: 1 } };
                        for _ in 0..rep {
                            ops.extend((0..=n1).map(|a| put(x, a)));
                            ops.extend((0..=n2).map(|a| put(y, 20 + a)));
                        }
                        ops.push(put(z, 0));
                        let what = format!("targets {} and {} put {} times from {} and {} addresses, then {}, mutable {}", x, y, rep, n1 + 1, n2 + 1, z, mutable);
                        single(r, &w, &ops, &what, &j);
                    }
                }
            }
        }
    }
    r.family("something between the puts that decide");
    let counts: &[usize] = if r.thorough() { &[1, 4, 5, 6, 9, 10, 25, 40] } else { &[1, 5, 6, 25, 40] };
    for mutable in [false, true] {
        let put = |m: bool, t: usize, seq: i64, a: usize, n: usize| if m { Op::PutM { t, v: seq as usize % 3, seq, a, n } } else { Op::PutI { t, v: 0, a, n } };
        for (x, y, z) in [(2, 3, 0), (3, 2, 1), (0, 1, 2), (4, 5, 3), (5, 2, 4)] {
            let mut between = vec![vec![], vec![Op::Ids(0)], vec![Op::Ids(1)], vec![Op::Ids(1), Op::Ids(0)]];
            for s in [61, 3601, 90_000, 700_000, 40_000_000] {
                between.push(vec![Op::Wait(s)]);
            }
            for t in [x, y, z] {
                for q in 14..19 {
                    between.push(vec![Op::Ask { q, t }]);
                }
                between.push(vec![put(!mutable, t, 1, 0, 1)]);
                between.push(vec![put(!mutable, t, 1, 0, 40)]);
                between.push(vec![put(!mutable, 0, 1, 0, 1), put(!mutable, 1, 1, 0, 1), put(!mutable, t, 1, 0, 1)]);
                between.push(vec![Op::Ann { t, e: 0, name: 0, seed: false }]);
            }
            let mut again = vec![vec![]];
            for t in [x, y] {
                // from an address known, from a new one; older and newer versions
                for a in [0, 50] {
                    for seq in if mutable { 0..=2 } else { 1..=1 } {
                        again.push(vec![put(mutable, t, seq, a, 1)]);
                    }
                }
            }
            for &nx in counts {
                for &ny in counts {
                    for b in &between {
                        for g in &again {
                            let mut w = World::new();
                            w.max_items = 2;
                            w.targets = near_and_far();
                            w.torrents = w.targets.clone();
                            w.ids = own(&w);
                            let mut ops = vec![put(mutable, x, 1, 0, nx), put(mutable, y, 1, 3, ny)];
                            ops.extend(b.iter().chain(g).cloned());
                            ops.push(put(mutable, z, 1, 0, 1));
                            let what = w.show(&ops);
                            single(r, &w, &ops, &what, &j);
                        }
                    }
                }
            }
        }
    }
    r.family("every number of announcers");
    for mutable in [false, true] {
        for n in 0..=r.pick(300usize, 700).max(*sizes(690).last().unwrap()) {
            // two at the same distance, the second put by one; then two at
            // distances that many announcers must outweigh
            for (x, y, z, m) in [(0, 1, 2, 1), (1, 0, 2, 4), (2, 0, 1, 5), (4, 5, 2, n / 2)] {
                let mut w = World::new();
                w.max_items = 2;
                w.targets = near_and_far();
                let put = |t: usize, n: usize| if mutable { Op::PutM { t, v: 0, seq: 1, a: 0, n } } else { Op::PutI { t, v: 0, a: 0, n } };
                let ops = [put(x, n + 1), put(y, m.max(1)), put(z, 1)];
                single(r, &w, &ops, &format!("target {} from {} addresses, target {} from {}, then {}, mutable {}", x, n + 1, y, m, z, mutable), &j);
            }
        }
    }
    r.family("many own ids");
    for mutable in [false, true] {
        for n in (1..=40).chain(sizes(300)).map(|n| n.max(1)) {
            for p in [0, 1, n / 2, n - 1] {
                let mut w = World::new();
                w.max_items = 2;
                w.targets = near_and_far();
                let mut ids = vec![[0xff; 20]; n];
                ids[p.min(n - 1)] = w.targets[5];
                w.ids = vec![ids];
                let put = |t: usize| if mutable { Op::PutM { t, v: 0, seq: 1, a: 0, n: 1 } } else { Op::PutI { t, v: 0, a: 0, n: 1 } };
                for (x, y, z) in [(5, 4, 0), (4, 5, 0), (5, 0, 4)] {
                    single(r, &w, &[put(x), put(y), put(z)], &format!("own id number {} of {}, targets {} {} {}, mutable {}", p, n, x, y, z, mutable), &j);
                }
            }
        }
    }
    r.family("every distance");
    for mutable in [false, true] {
        for e in 0..160usize {
            for other in [0usize, 80, 159] {
                let mut w = World::new();
                w.max_items = 2;
                let bit = |e: usize| {
                    let mut t = [0; 20];
                    t[19 - e / 8] = 1 << (e % 8);
                    t
                };
                w.targets = vec![bit(e), bit(other), [0; 20]];
                if e == other {
                    continue;
                }
                for n in [1, 5, 25, 40] {
                    let put = |t: usize, n: usize| if mutable { Op::PutM { t, v: 0, seq: 1, a: 0, n } } else { Op::PutI { t, v: 0, a: 0, n } };
                    let ops = [put(0, n), put(1, 1), put(2, 1)];
                    single(r, &w, &ops, &format!("exponents {} ({} addresses) and {}, then 0, mutable {}", e, n, other, mutable), &j);
                }
            }
        }
    }
    r.family("limits in the dozens");
    for mutable in [false, true] {
        for max in sizes(r.pick(520, 1100)).into_iter().filter(|n| *n > 3).chain([5, 10, 50, 100]) {
            let mut w = World::new();
            w.max_items = max;
            w.targets = (0..max + 10)
                .map(|i| {
                    let mut t = [0; 20];
                    t[1 + i % 19] = 1 + (i / 19) as u8;
                    t[0] = (i / 190) as u8;
                    t
                })
                .collect();
            let ops: Vec<Op> = (0..max + 10).map(|t| if mutable { Op::PutM { t, v: 0, seq: 1, a: t % 5, n: 1 + t % 7 } } else { Op::PutI { t, v: 0, a: t % 5, n: 1 + t % 7 } }).collect();
            single(r, &w, &ops, &format!("{} puts, mutable {}", max + 10, mutable), &j);
        }
    }
}

// ------------------------------------------------------------------------ D13

/// The four numbers of the counters, by name where the names are shown.
fn numbers(s: &str) -> Option<[i64; 4]> {
    let after = |k: &str| -> Option<i64> {
        let rest = &s[s.find(k)? + k.len()..];
        let rest = rest.trim_start_matches([':', ' '].as_ref());
        let end = rest.find(|c: char| !(c == '-' || c.is_ascii_digit())).unwrap_or(rest.len());
        rest[..end].parse().ok()
    };
    Some([after(" torrents")?, after(" peers")?, after(" immutable_data")?, after(" mutable_data")?])
}

fn counted(real: &Real, _: &Model) -> Verdict {
    let w = real.w;
    let text = format!("{:?}", real.s.counters());
    let got = numbers(&text).ok_or_else(|| format!("counters shown as {}", text))?;
    // the counters handed out are a copy
    let mut copy = real.s.counters();
    copy.reset();
    ensure!(numbers(&format!("{:?}", copy)) == Some([0; 4]), "counters that were reset are {:?}", copy);
    let again = format!("{:?}", real.s.counters());
    ensure!(again == text, "the counters became {} when a copy of them was reset", again);
    let mut want = [0i64; 4];
    for t in &w.torrents {
        let mut known = false;
        for from in [ep4([77, 1, 2, 3], 4), ep6([0x77; 16], 9, 0)] {
            let mut v = Value::Dict(BTreeMap::new());
            let q = |scrape, v: &mut Value| real.s.get_peers(&hash_id(t), false, scrape, &from, v).map_err(|e| format!("query failed: {}", e));
            q(true, &mut v)?;
            known |= v.dict_len() != Some(0);
            let mut v = Value::Dict([("values".to_string(), Value::List(vec![]))].into_iter().collect());
            q(false, &mut v)?;
            want[1] += v.dict_find_list_value("values").map_or(0, |l| l.len() as i64);
        }
        want[0] += known as i64;
    }
    want[2] = real.present(false).len() as i64;
    want[3] = real.present(true).len() as i64;
    ensure!(got == want, "counters are {:?}, stored are {:?} (torrents, peers, immutable and mutable items)", got, want);
    Ok(if want == [0; 4] { "trivial empty" } else { "counted" })
}

/// A torrent, a peer of each family and an item of each kind at a time, all
/// new, up to two beyond the limit.
fn piled(n: usize) -> Verdict {
    let mut c = DhtSettings::default();
    c.max_torrents = n;
    c.max_peers = n;
    c.max_dht_items = n;
    let mut s = DefaultDhtStorage::new(&c);
    let id = |i: usize| {
        let mut b = [7; 20];
        b[2..10].copy_from_slice(&(i as u64).to_be_bytes());
        hash_id(&b)
    };
    s.update_node_ids(&[id(0)]);
    let from: IpAddr = [1, 2, 3, 4].into();
    for i in 0..n + 2 {
        let b = (i as u32).to_be_bytes();
        s.announce_peer(&id(i), &ep4([5, 6, 7, 8], 9), "", false);
        // the first torrent has that one peer already
        s.announce_peer(&id(0), &ep4([b[1], b[2], b[3], 200], 10), "", false);
        s.announce_peer(&id(0), &ep6([b[0], 1, b[1], 2, b[2], 3, b[3], 4, 0, 0, 0, 0, 0, 0, 0, 1], 10, 0), "", true);
        s.put_immutable_item(&id(i), b"i1e", &from);
        s.put_mutable_item(&id(i), b"i1e", &Default::default(), 1, &Default::default(), b"", &from);
        let k = (i + 1).min(n) as i64;
        // one peer of every torrent, but of the first as many as it takes
        let want = [k, if n == 0 { 0 } else { k - 1 + (i as i64 + 2).min(n as i64) + k }, k, k];
        let text = format!("{:?}", s.counters());
        let got = numbers(&text).ok_or_else(|| format!("counters shown as {}", text))?;
        ensure!(got == want, "counters are {:?} after {} of everything, not {:?}", got, i + 1, want);
    }
    Ok(if n == 0 { "trivial empty" } else { "counted" })
}

/// Evictions are followed wherever they go.
fn loose(real: &mut Real, m: &mut Model, op: &Op) -> Result<(), String> {
    let _ = m;
    real.apply(op);
    Ok(())
}

pub fn d13(r: &mut Run) {
    let j = Judge { step: &loose, check: &counted, seeds: &[1] };
    let jp = Judge { step: &loose, check: &counted, seeds: &[] };
    let wide = r.pick(4, 5);
    let deep = r.pick(5, 6);
    r.note("longest history, unmerged", wide);
    everything(r, &j, true, true);
    r.family("everything at once, small limits");
    for (mt, mp, mi) in [(1000, 1000, 1000), (1, 1, 1), (2, 2, 2), (0, 0, 0), (1, 2, 1), (2, 0, 2), (0, 2, 0)] {
        let mut w = World::new();
        w.max_torrents = mt;
        w.max_peers = mp;
        w.max_items = mi;
        w.torrents.truncate(3);
        w.targets = near_and_far();
        for t in 0..2 {
            for e in [0, 1, 6] {
                w.ops.push(Op::Ann { t, e, name: 0, seed: e == 0 });
            }
        }
        for t in [1, 2, 4] {
            w.ops.push(Op::PutI { t, v: 0, a: 0, n: 1 });
            w.ops.push(Op::PutM { t, v: 0, seq: 1, a: 0, n: 1 });
            w.ops.push(Op::PutM { t, v: 1, seq: 2, a: 0, n: 1 });
        }
        w.ops.push(Op::PutI { t: 1, v: 1, a: 1, n: 1 });
        unmerged(r, &w, wide, &j);
        merged(r, &w, deep, 20_000, &j);
    }
    r.family("peers only");
    for (mt, mp) in [(2, 1), (2, 2), (2, 1000), (2, 0), (1000, 0)] {
        let mut w = World::new();
        w.max_torrents = mt;
        w.max_peers = mp;
        w.torrents.truncate(3);
        w.names = vec!["".into(), "nm".into()];
        w.eps = vec![w.eps[0], w.eps[1], w.eps[6], w.eps[10], w.eps[11]];
        for t in 0..3 {
            for e in 0..5 {
                w.ops.push(Op::Ann { t, e, name: 0, seed: false });
                if t == 0 && e % 2 == 0 {
                    w.ops.push(Op::Ann { t, e, name: 1, seed: true });
                }
            }
        }
        unmerged(r, &w, wide, &jp);
        merged(r, &w, deep + 1, 20_000, &jp);
    }
    r.family("limits of the sources");
    for n in sizes(r.pick(520, 1100)) {
        let mut w = World::new();
        w.max_torrents = n;
        w.max_items = n;
        w.max_reply = 100_000;
        let id = |i: usize| {
            let mut t = [i as u8; 20];
            t[3] = (i >> 8) as u8;
            t
        };
        w.torrents = (0..n + 2).map(id).collect();
        w.targets = (0..n + 2).map(id).collect();
        w.eps.truncate(1);
        let ops: Vec<Op> = (0..n + 2).flat_map(|t| [Op::Ann { t, e: 0, name: 0, seed: false }, Op::PutI { t, v: 0, a: 0, n: 1 }, Op::PutM { t, v: 0, seq: 1, a: 0, n: 1 }]).collect();
        single(r, &w, &ops, &format!("{} torrents and items of each kind", n + 2), &j);
        let mut w = World::new();
        w.torrents.truncate(1);
        w.targets.truncate(1);
        w.max_peers = n;
        w.max_reply = 100_000;
        w.eps = (0..n + 2).map(|i| ep4([9, (i >> 8) as u8, i as u8, 1], 7)).chain((0..n + 2).map(|i| ep6([i as u8; 16], 1000 + (i >> 8) as u16, 0))).collect();
        let ops: Vec<Op> = (0..w.eps.len()).chain(0..w.eps.len()).enumerate().map(|(i, e)| Op::Ann { t: 0, e, name: 0, seed: (e + i / w.eps.len()) % 2 == 0 }).collect();
        single(r, &w, &ops, &format!("{} peers of each family, announced twice", n + 2), &jp);
    }
    r.family("as many of everything as a limit allows");
    for n in sizes(r.pick(5000, 40_000)).into_iter().chain([10_000, 33_000, 66_000]) {
        r.case(engine::combine(77, n as u64), || format!("{} of everything", n), || piled(n));
    }
    r.family("items only");
    for mi in [1, 2, 3] {
        let mut w = World::new();
        w.max_items = mi;
        w.torrents.clear();
        w.targets = near_and_far();
        for t in 0..5 {
            w.ops.push(Op::PutI { t, v: 0, a: 0, n: 1 });
            w.ops.push(Op::PutM { t, v: 0, seq: 1, a: 0, n: 1 });
        }
        unmerged(r, &w, wide + 1, &j);
    }
}
