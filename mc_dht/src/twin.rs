//! D22: stores side by side.

use crate::store::*;
use bencode::Value;
use dht::settings::DhtSettings;
use dht::storage::DhtStorage;
use engine::{combine, ensure, hash_dbg, words, Run, Verdict};
use std::collections::{BTreeMap, HashMap};

/// Everything the store answers, peers in order of their bytes.
fn answers(real: &Real) -> String {
    let w = real.w;
    let mut out = format!("{:?}", real.s.counters());
    let empty = || Value::Dict(BTreeMap::new());
    for t in &w.torrents {
        for six in [false, true] {
            for (no_seed, scrape) in [(false, false), (true, false), (false, true)] {
                let mut v = empty();
                let full = real.s.get_peers(&hash_id(t), no_seed, scrape, &w.eps[if six { 8 } else { 2 }], &mut v).map_err(|e| e.kind());
                if let Some(Value::List(l)) = v.as_dict_mut().and_then(|d| d.get_mut("values")) {
                    l.sort_by(|a, b| a.as_bytes().cmp(&b.as_bytes()));
                }
                out += &format!(" {:?} {:?}", full, v);
            }
        }
    }
    for t in &w.targets {
        let mut seq = -77;
        let (mut i, mut m) = (empty(), empty());
        let known = (
            real.s.get_immutable_item(&hash_id(t), &mut i),
            real.s.get_mutable_item_seq(&hash_id(t), &mut seq),
            real.s.get_mutable_item(&hash_id(t), 0, true, &mut m),
        );
        out += &format!(" {:?} {} {:?} {:?}", known, seq, i, m);
    }
    out
}

fn alone(w: &World, ops: &[Op]) -> String {
    let settings = w.settings();
    let mut r = Real::new(w, &settings);
    ops.iter().for_each(|o| r.apply(o));
    answers(&r)
}

/// How the second store comes and goes.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Life {
    /// both live all the time
    Both,
    /// the first is gone before the second is made
    After,
}

fn side_by_side(ws: [&World; 2], ops: [&[Op]; 2], order: &[bool], life: Life, want: [&str; 2]) -> Verdict {
    let settings: [DhtSettings; 2] = [ws[0].settings(), ws[1].settings()];
    let both = |got: &str, i: usize| -> Result<(), String> {
        ensure!(got == want[i], "the {} store answers {} but alone it answers {}", ["first", "second"][i], got, want[i]);
        Ok(())
    };
    if life == Life::After {
        for i in 0..2 {
            let mut r = Real::new(ws[i], &settings[i]);
            ops[i].iter().for_each(|o| r.apply(o));
            both(&answers(&r), i)?;
        }
        return Ok("one after the other");
    }
    let mut rs = [Real::new(ws[0], &settings[0]), Real::new(ws[1], &settings[1])];
    let mut next = [0, 0];
    for &second in order {
        let i = second as usize;
        rs[i].apply(&ops[i][next[i]]);
        next[i] += 1;
    }
    both(&answers(&rs[0]), 0)?;
    both(&answers(&rs[1]), 1)?;
    both(&answers(&rs[0]), 0)?;
    Ok(if ops[0].is_empty() || ops[1].is_empty() { "trivial only one store used" } else { "two stores used" })
}

pub fn d22(r: &mut Run) {
    let a = |t, e, name, seed| Op::Ann { t, e, name, seed };
    let world = |tight: bool| {
        let mut w = World::new();
        w.torrents.truncate(2);
        // distances all different, so that evictions leave no choice
        w.targets = (0..2).map(|i| [1 << i; 20]).collect();
        w.names = vec!["".into(), "nm".into(), "other".into()];
        w.ids = vec![vec![[0; 20]], vec![[0xff; 20]]];
        if tight {
            w.max_torrents = 1;
            w.max_peers = 1;
            w.max_items = 1;
        }
        w.ops = vec![
            a(0, 0, 1, false),
            a(0, 0, 2, true),
            a(0, 6, 0, false),
            a(1, 1, 0, true),
            Op::PutI { t: 0, v: 0, a: 0, n: 1 },
            Op::PutI { t: 1, v: 1, a: 1, n: 1 },
            Op::PutM { t: 0, v: 2, seq: 1, a: 0, n: 1 },
            Op::PutM { t: 0, v: 1, seq: 2, a: 1, n: 2 },
            Op::PutM { t: 1, v: 0, seq: 0, a: 0, n: 1 },
            Op::Ids(1),
            Op::Ask { q: 0, t: 0 },
            Op::Ask { q: 12, t: 0 },
        ];
        w
    };
    // two items of which each store lets go of another one
    let near = |last: bool| {
        let mut w = world(false);
        w.max_items = 2;
        w.targets = vec![[1; 20], [9; 20], [0x10; 20]];
        w.ids = vec![vec![[0; 20]], vec![[8; 20]]];
        if last {
            w.ids.swap(0, 1);
        }
        w.ops = (0..3).map(|t| Op::PutI { t, v: t, a: t, n: 1 }).collect();
        w.ops.extend((0..3).map(|t| Op::PutM { t, v: t, seq: 1, a: t, n: 1 }));
        w.ops.push(Op::Ids(1));
        w
    };
    let (roomy, tight, one_id, other_id) = (world(false), world(true), near(false), near(true));
    let depth = r.pick(4, 5);
    r.note("longest history of both stores together", depth as u64);
    let mut seen: HashMap<(String, Vec<usize>), String> = HashMap::new();
    let pairs = [
        ("roomy and roomy stores", &roomy, &roomy, depth),
        ("roomy and tight stores", &roomy, &tight, depth),
        ("tight and roomy stores", &tight, &roomy, depth),
        ("tight and tight stores", &tight, &tight, depth),
        ("stores of different ids", &one_id, &other_id, depth),
        ("stores of equal ids", &one_id, &one_id, depth),
    ];
    for (name, w0, w1, depth) in pairs {
        r.family(name);
        let ws = [w0, w1];
        let same = std::ptr::eq(w0, w1);
        let n = w0.ops.len();
        assert_eq!(n, w1.ops.len());
        let of = [0, 1].map(|i| format!("{} {:?}", ws[i].limits(), ws[i].ids));
        let mut one = |r: &mut Run, ix: &[usize], life: Life| {
            let mine = |second: bool| -> Vec<usize> { ix.iter().filter(|i| (**i >= n) == second).map(|i| i % n).collect() };
            let ks = [mine(false), mine(true)];
            let ops: Vec<Vec<Op>> = (0..2).map(|i| ks[i].iter().map(|k| ws[i].ops[*k].clone()).collect()).collect();
            let order: Vec<bool> = ix.iter().map(|i| *i >= n).collect();
            let k = combine(hash_dbg(&name), combine(life as u64 + 1, hash_dbg(&ix)));
            let label = || format!("{:?}: first {}; second {}; order {:?}", life, ws[0].show(&ops[0]), ws[1].show(&ops[1]), order);
            r.case(k, label, || {
                // the same histories, each in a process where nothing came before
                let mut want = |i: usize| {
                    seen.entry((of[i].clone(), ks[i].clone()))
                        .or_insert_with(|| engine::in_child(4 << 20, 20, || alone(ws[i], &ops[i])))
                        .clone()
                };
                let (x, y) = (want(0), want(1));
                side_by_side(ws, [&ops[0], &ops[1]], &order, life, [&x, &y])
            });
        };
        words::sequences(2 * n, 1, depth, |ix| {
            if r.stop() {
                return;
            }
            // by the symmetry of equal stores one of them may be first
            if same && ix[0] >= n {
                return;
            }
            one(r, ix, Life::Both);
            let mut later = false;
            // the first store's operations all before the second's
            if ix.iter().all(|i| {
                later |= *i >= n;
                (*i >= n) == later
            }) && later
                && ix[0] < n
            {
                one(r, ix, Life::After);
            }
        });
        // all operations on both, interleaved in many ways
        for step in 1..2 * n {
            for from in [0, n / 2, n] {
                let ix: Vec<usize> = (0..4 * n).map(|i| (from + i * step + i / (2 * n)) % (2 * n)).collect();
                one(r, &ix, Life::Both);
            }
        }
    }
    many(r, &[&roomy, &tight, &one_id, &other_id]);
}

/// Operations that fill a store: torrents of several peers of both families, names,
/// items of both kinds, and queries in between.
fn filled(w: &World, n: usize) -> Vec<Op> {
    let mut ops = vec![];
    for t in 0..w.torrents.len().min(n) {
        for e in 0..w.eps.len().min(n) {
            ops.push(Op::Ann { t, e, name: (t + e) % w.names.len(), seed: (t + e) % 2 == 0 });
            if e % 4 == 3 {
                ops.push(Op::Ask { q: 0, t });
            }
        }
    }
    for t in 0..w.targets.len().min(n) {
        for k in 0..3 {
            ops.push(Op::PutI { t, v: (t + k) % w.values.len(), a: k, n: 1 });
            ops.push(Op::PutM { t, v: (t + 2 * k) % w.values.len(), seq: k as i64, a: k, n: k + 1 });
        }
    }
    ops
}

/// Many stores in one process: a new one is empty, whatever others held, however
/// many there were, and whether they are gone or still there.
fn many(r: &mut Run, small: &[&World]) {
    r.family("one full store after another");
    let mut sizes: Vec<usize> = (1..=20).collect();
    sizes.extend(r.pick(vec![33, 65, 130, 300], vec![33, 65, 130, 300, 700, 1100]));
    let wide = |n: usize| {
        let mut w = World::new();
        w.torrents = (0..n).map(|i| id_of(1, i)).collect();
        w.targets = (0..n).map(|i| id_of(2, i)).collect();
        w.eps.truncate(12);
        w
    };
    for &n in &sizes {
        let w = wide(n);
        let ops = filled(&w, n);
        for later in 0..3 {
            for between in [0usize, 1, 3] {
                let what = format!("{} operations on a store of {} torrents, {} empty stores, then store {}", ops.len(), n, between, later);
                r.case(hash_dbg(&what), || what.clone(), || {
                    let next = [&w, small[0], small[1]][later];
                    let next_ops = if later == 0 { vec![] } else { filled(next, 2) };
                    let want = engine::in_child(4 << 20, 20, || alone(next, &next_ops));
                    let settings = w.settings();
                    for round in 0..2 {
                        {
                            let mut full = Real::new(&w, &settings);
                            ops.iter().for_each(|o| full.apply(o));
                            answers(&full);
                        }
                        for _ in 0..between {
                            Real::new(next, &settings);
                        }
                        let got = alone(next, &next_ops);
                        ensure!(got == want, "the store after {} full ones answers {} but alone it answers {}", round + 1, got, want);
                    }
                    Ok("one after the other")
                });
            }
        }
    }
    r.family("hundreds of stores");
    let total = r.pick(400, 3000);
    for (i, w) in small.iter().enumerate() {
        for keep in [1usize, 2, 3, 5, 17, 100, 1000] {
            for each in [0usize, 1, 3, 100] {
                let what = format!("{} stores of kind {}, {} at a time, up to {} operations on each", total, i, keep, each);
                r.case(hash_dbg(&what), || what.clone(), || {
                    let settings = w.settings();
                    // store number k is given the operations from k on, as many as it says
                    let of = |k: usize| -> Vec<Op> { (0..each.min(w.ops.len())).map(|j| w.ops[(k + j) % w.ops.len()].clone()).collect() };
                    let want: Vec<String> = (0..w.ops.len()).map(|k| engine::in_child(4 << 20, 20, || alone(w, &of(k)))).collect();
                    let empty = engine::in_child(4 << 20, 20, || alone(w, &[]));
                    let mut open: std::collections::VecDeque<(usize, Real)> = Default::default();
                    for k in 0..total {
                        let s = Real::new(w, &settings);
                        if k % 7 == 0 {
                            let got = answers(&s);
                            ensure!(got == empty, "new store {} answers {} but alone it answers {}", k, got, empty);
                        }
                        open.push_back((k, s));
                        let (_, s) = open.back_mut().unwrap();
                        of(k).iter().for_each(|o| s.apply(o));
                        if open.len() >= keep.min(total) {
                            let (k, s) = open.pop_front().unwrap();
                            let got = answers(&s);
                            ensure!(got == want[k % w.ops.len()], "store {} answers {} but alone it answers {}", k, got, want[k % w.ops.len()]);
                        }
                    }
                    for (k, s) in &open {
                        let got = answers(s);
                        ensure!(got == want[k % w.ops.len()], "store {} answers {} but alone it answers {}", k, got, want[k % w.ops.len()]);
                    }
                    Ok(if keep == 1 { "one after the other" } else { "two stores used" })
                });
            }
        }
    }
}

fn id_of(kind: u8, i: usize) -> [u8; 20] {
    let mut t = [kind; 20];
    t[0] = i as u8;
    t[1] = (i >> 8) as u8;
    t
}
