//! The storage of the dht crate under exhaustive operation histories: worlds
//! (limits and an operation alphabet), the reference model and the driver.

use crate::small::{compact, Id};
use bencode::Value;
use common::sha1::Sha1Hash;
use common::types::{PublicKey, Signature};
use dht::settings::DhtSettings;
use dht::storage::{DefaultDhtStorage, DhtStorage};
use engine::{combine, hash, hash_dbg, sha1, Run, Verdict};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::net::{IpAddr, SocketAddr, SocketAddrV6};
use std::sync::atomic::{AtomicU64, Ordering};

// ------------------------------------------------- hash map iteration order

static MAP_SEED: AtomicU64 = AtomicU64::new(1);

/// The standard library seeds its hash maps from here, so the order in which a
/// map is walked is decided by `seeded`.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, _flags: u32) -> isize {
    let mut x = MAP_SEED.load(Ordering::Relaxed);
    for i in 0..n {
        x = engine::mix(x.wrapping_add(0x9e37_79b9_7f4a_7c15));
        *buf.add(i) = x as u8;
    }
    n as isize
}

/// Runs `f` on a thread of its own, whose hash maps are all seeded from `seed`.
pub fn seeded<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    MAP_SEED.store(seed, Ordering::Relaxed);
    let r = std::thread::scope(|s| s.spawn(f).join());
    match r {
        Ok(t) => t,
        Err(e) => std::panic::resume_unwind(e),
    }
}

// --------------------------------------------------------------------- time

static LATER: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}

/// The standard library reads its clocks here; `Op::Wait` moves them on.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clock: i32, t: *mut [i64; 2]) -> i32 {
    let r = syscall(228, clock as i64, t);
    if r == 0 && clock < 2 {
        (*t)[0] += LATER.load(Ordering::Relaxed) as i64;
    }
    r as i32
}

// ------------------------------------------------------------------- worlds

/// An operation on the store; numbers index the tables of the world.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Ann { t: usize, e: usize, name: usize, seed: bool },
    /// put value `v` at target `t` from `n` addresses starting at `a`
    PutI { t: usize, v: usize, a: usize, n: usize },
    PutM { t: usize, v: usize, seq: i64, a: usize, n: usize },
    Ids(usize),
    /// query number `q` about torrent or target `t`, the answer ignored
    Ask { q: usize, t: usize },
    /// seconds go by
    Wait(u64),
}

pub const ASK_PEERS: std::ops::Range<usize> = 0..14;
pub const ASK_ITEMS: std::ops::Range<usize> = 14..19;

pub struct World {
    pub max_torrents: usize,
    pub max_peers: usize,
    pub max_reply: usize,
    pub max_items: usize,
    pub torrents: Vec<Id>,
    pub eps: Vec<SocketAddr>,
    pub names: Vec<String>,
    pub targets: Vec<Id>,
    pub values: Vec<Value>,
    /// the salt of a mutable item goes by its value
    pub salts: Vec<Vec<u8>>,
    pub ids: Vec<Vec<Id>>,
    /// requesters besides the usual ones
    pub askers: Vec<SocketAddr>,
    /// what public keys and signatures are made from
    pub style: (usize, usize),
    /// settings other than the limits, which the store must not care about
    pub other: Other,
    pub ops: Vec<Op>,
}

/// Settings by number: integers from 0, switches from 13.
pub type Other = Vec<(usize, usize)>;

impl World {
    pub fn new() -> World {
        World {
            max_torrents: 1000,
            max_peers: 1000,
            max_reply: 1000,
            max_items: 1000,
            torrents: (0..6).map(|i| [0x11 * (i + 1) as u8; 20]).collect(),
            eps: endpoints(),
            names: vec!["".into()],
            targets: (0..6).map(|i| [0x21 + i as u8; 20]).collect(),
            values: values(),
            salts: vec![b"salt".to_vec(), vec![], vec![0; 64]],
            ids: vec![vec![[0; 20]]],
            askers: vec![],
            style: (0, 0),
            other: vec![],
            ops: vec![],
        }
    }
    pub fn limits(&self) -> String {
        let f = |n: usize| if n >= 1000 { "many".to_string() } else { n.to_string() };
        format!(
            "{}room for {} torrents, {} peers, {} replies, {} items",
            if self.other.is_empty() { String::new() } else { format!("other settings {:?}, ", self.other) },
            f(self.max_torrents),
            f(self.max_peers),
            f(self.max_reply),
            f(self.max_items)
        )
    }
    pub fn settings(&self) -> DhtSettings {
        let mut s = DhtSettings::default();
        crate::small::set(&mut s, &self.other);
        s.max_torrents = self.max_torrents;
        s.max_peers = self.max_peers;
        s.max_peers_reply = self.max_reply;
        s.max_dht_items = self.max_items;
        s
    }
    fn show_op(&self, op: &Op) -> String {
        match op {
            Op::Ann { t, e, name, seed } => {
                format!("announce({}, {}, {:?}, {})", self.torrents[*t][0], show_ep(&self.eps[*e]), clip(&self.names[*name]), if *seed { "seed" } else { "peer" })
            }
            Op::PutI { t, v, a, n } => format!("put_immutable({}, value {}, {} addresses from {})", self.hex(*t), v, n, a),
            Op::PutM { t, v, seq, a, n } => format!("put_mutable({}, value {}, seq {}, {} addresses from {})", self.hex(*t), v, seq, n, a),
            Op::Ask { q, t } => format!("query {} about {} or {}", q, hex(&self.torrents[*t]), hex(&self.targets[*t])),
            Op::Wait(s) => format!("{} s go by", s),
            Op::Ids(i) => format!("own ids {:?}", self.ids[*i].iter().map(|x| hex(x)).collect::<Vec<_>>()),
        }
    }
    fn hex(&self, t: usize) -> String {
        hex(&self.targets[t])
    }
    pub fn salt(&self, v: usize) -> &[u8] {
        &self.salts[v % self.salts.len()]
    }
    pub fn key(&self, t: usize, v: usize) -> PublicKey {
        let mut k = key_of(&self.targets[t]);
        self.fill(&mut k[..], self.style.0, t, v);
        k
    }
    pub fn sig(&self, t: usize, v: usize, seq: i64) -> Signature {
        let mut s = sig_of(v, seq);
        self.fill(&mut s[..], self.style.1, t, v);
        s
    }
    /// Repeats other arguments of the put in `to`.
    fn fill(&self, to: &mut [u8], style: usize, t: usize, v: usize) {
        let from = match style {
            1 => self.targets[t].to_vec(),
            2 => key_of(&self.targets[t]).to_vec(),
            3 => self.values[v].to_vec(),
            4 => self.salt(v).to_vec(),
            5 => vec![0],
            6 => vec![255],
            _ => return,
        };
        for (i, b) in to.iter_mut().enumerate() {
            *b = if from.is_empty() { 0 } else { from[i % from.len()] };
        }
    }
    pub fn show(&self, h: &[Op]) -> String {
        format!("{}: {}", self.limits(), h.iter().map(|o| self.show_op(o)).collect::<Vec<_>>().join("; "))
    }
}

fn clip(s: &str) -> String {
    if s.chars().count() > 12 {
        format!("{}.. ({} chars)", s.chars().take(8).collect::<String>(), s.chars().count())
    } else {
        s.to_string()
    }
}
fn hex(i: &Id) -> String {
    if i.iter().all(|b| *b == i[0]) {
        format!("{:02x}*", i[0])
    } else {
        i.iter().map(|b| format!("{:02x}", b)).collect()
    }
}
fn show_ep(e: &SocketAddr) -> String {
    match e {
        SocketAddr::V6(a) if a.scope_id() != 0 => format!("{} scope {}", a, a.scope_id()),
        _ => e.to_string(),
    }
}

pub fn ep4(a: [u8; 4], p: u16) -> SocketAddr {
    SocketAddr::new(IpAddr::V4(a.into()), p)
}
pub fn ep6(a: [u8; 16], p: u16, scope: u32) -> SocketAddr {
    SocketAddr::V6(SocketAddrV6::new(a.into(), p, 0, scope))
}

/// IPv4 endpoints at 0..6, IPv6 endpoints at 6..12. 10 and 11 are the same
/// endpoint reached through two interfaces.
pub fn endpoints() -> Vec<SocketAddr> {
    let mut low = [0; 16];
    low[..2].copy_from_slice(&[0x20, 1]);
    low[15] = 1;
    let mut high = low;
    high[15] = 2;
    let mut link = [0; 16];
    link[..2].copy_from_slice(&[0xfe, 0x80]);
    link[15] = 3;
    vec![
        ep4([9, 0, 0, 2], 7),
        ep4([9, 0, 0, 2], 6),
        ep4([9, 0, 0, 1], 8),
        ep4([10, 0, 0, 1], 6),
        ep4([8, 255, 1, 1], 9),
        ep4([9, 0, 0, 2], 0x0701),
        ep6(low, 7, 0),
        ep6(low, 6, 0),
        ep6(high, 5, 0),
        ep6(link, 5, 0),
        ep6(link, 4, 1),
        ep6(link, 4, 2),
    ]
}

pub fn values() -> Vec<Value> {
    let d = [("a".to_string(), Value::Int(1)), ("b".to_string(), Value::Bytes(vec![0, 255]))];
    vec![
        Value::Bytes(b"one".to_vec()),
        Value::Bytes(b"two".to_vec()),
        Value::Int(-7),
        Value::List(vec![Value::Int(1), Value::List(vec![]), Value::Bytes(b"longer value".to_vec())]),
        Value::Dict(d.into_iter().collect()),
        Value::Bytes(vec![]),
    ]
}

pub fn key_of(t: &Id) -> PublicKey {
    let mut k = PublicKey::default();
    for (i, b) in k.iter_mut().enumerate() {
        *b = t[i % 20] ^ i as u8;
    }
    k
}
pub fn sig_of(v: usize, seq: i64) -> Signature {
    let mut s = Signature::default();
    let q = seq.to_be_bytes();
    for (i, b) in s.iter_mut().enumerate() {
        *b = if i < 32 { v as u8 + 1 } else { q[i % 8] };
    }
    s
}

/// Addresses which a 1024-bit filter counts exactly: the bits of the first 64
/// are all different, and each later one has a bit that none before it has.
pub fn announcers() -> &'static Vec<IpAddr> {
    static A: std::sync::OnceLock<Vec<IpAddr>> = std::sync::OnceLock::new();
    A.get_or_init(|| {
        let mut used = BTreeSet::new();
        let mut v = vec![];
        for i in 0u32.. {
            let ip = if i % 3 == 2 {
                let mut o = [7; 16];
                o[12..].copy_from_slice(&i.to_be_bytes());
                IpAddr::V6(o.into())
            } else {
                IpAddr::V4([20, (i >> 16) as u8, (i >> 8) as u8, i as u8].into())
            };
            let b = bits(&ip, 1024);
            let new = b.iter().filter(|x| !used.contains(*x)).count();
            if new == 2 && b[0] != b[1] || new > 0 && v.len() >= 64 {
                used.extend(b);
                v.push(ip);
            }
            if v.len() == 700 {
                break;
            }
        }
        v
    })
}

pub fn bits(ip: &IpAddr, m: usize) -> [usize; 2] {
    let h = match ip {
        IpAddr::V4(a) => sha1::reference(&a.octets()),
        IpAddr::V6(a) => sha1::reference(&a.octets()),
    };
    let n = |i: usize| (h[i] as usize + 256 * h[i + 1] as usize) % m;
    [n(0), n(2)]
}

// -------------------------------------------------------------------- model

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Torrent {
    pub name: String,
    /// seed state by compact endpoint
    pub v4: BTreeMap<Vec<u8>, bool>,
    pub v6: BTreeMap<Vec<u8>, bool>,
}
impl Torrent {
    pub fn family(&self, six: bool) -> &BTreeMap<Vec<u8>, bool> {
        if six {
            &self.v6
        } else {
            &self.v4
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item {
    pub v: usize,
    pub seq: i64,
    pub by: BTreeSet<usize>,
}
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Model {
    pub torrents: BTreeMap<usize, Torrent>,
    pub imm: BTreeMap<usize, Item>,
    pub mt: BTreeMap<usize, Item>,
    pub ids: usize,
}

fn exp(a: &Id, b: &Id) -> isize {
    for i in 0..160 {
        if (a[i / 8] ^ b[i / 8]) >> (7 - i % 8) & 1 == 1 {
            return 159 - i as isize;
        }
    }
    0
}

/// The targets that may be evicted: those of least importance.
pub fn victims(w: &World, ids: usize, table: &BTreeMap<usize, Item>) -> Vec<usize> {
    let imp = |t: &usize, i: &Item| {
        let near = w.ids[ids].iter().map(|o| exp(o, &w.targets[*t])).min().unwrap();
        (i.by.len() / 5) as isize - near
    };
    let least = table.iter().map(|(t, i)| imp(t, i)).min();
    table.iter().filter(|(t, i)| Some(imp(t, i)) == least).map(|(t, _)| *t).collect()
}

/// What a put does to its table, given the target evicted to make room.
fn put(max: usize, table: &mut BTreeMap<usize, Item>, t: usize, new: Item, victim: Option<usize>) {
    match table.get_mut(&t) {
        Some(i) => {
            if new.seq > i.seq {
                i.v = new.v;
                i.seq = new.seq;
            }
            i.by.extend(new.by);
        }
        None => {
            if max == 0 {
                return;
            }
            if table.len() >= max {
                table.remove(&victim.expect("a victim"));
            }
            table.insert(t, new);
        }
    }
}

impl Model {
    /// The possible successors.
    pub fn step(&self, w: &World, op: &Op) -> Vec<Model> {
        let mut m = self.clone();
        match op {
            Op::Ids(i) => m.ids = *i,
            Op::Ask { .. } | Op::Wait(_) => {}
            Op::Ann { t, e, name, seed } => {
                if !m.torrents.contains_key(t) && m.torrents.len() >= w.max_torrents {
                    return vec![m];
                }
                let tor = m.torrents.entry(*t).or_default();
                if tor.name.is_empty() {
                    tor.name = w.names[*name].chars().take(100).collect();
                }
                let ep = &w.eps[*e];
                let list = if ep.is_ipv6() { &mut tor.v6 } else { &mut tor.v4 };
                let k = compact(ep);
                if list.contains_key(&k) || list.len() < w.max_peers {
                    list.insert(k, *seed);
                }
            }
            Op::PutI { t, v, a, n } => {
                return self.puts(w, *t, Item { v: *v, seq: 0, by: (*a..*a + *n).collect() }, false);
            }
            Op::PutM { t, v, seq, a, n } => {
                return self.puts(w, *t, Item { v: *v, seq: *seq, by: (*a..*a + *n).collect() }, true);
            }
        }
        vec![m]
    }
    pub fn table(&self, mutable: bool) -> &BTreeMap<usize, Item> {
        if mutable {
            &self.mt
        } else {
            &self.imm
        }
    }
    pub fn table_mut(&mut self, mutable: bool) -> &mut BTreeMap<usize, Item> {
        if mutable {
            &mut self.mt
        } else {
            &mut self.imm
        }
    }
    fn puts(&self, w: &World, t: usize, new: Item, mutable: bool) -> Vec<Model> {
        let table = self.table(mutable);
        let vs: Vec<Option<usize>> = if !table.contains_key(&t) && w.max_items > 0 && table.len() >= w.max_items {
            victims(w, self.ids, table).into_iter().map(Some).collect()
        } else {
            vec![None]
        };
        vs.into_iter()
            .map(|victim| {
                let mut m = self.clone();
                put(w.max_items, m.table_mut(mutable), t, new.clone(), victim);
                m
            })
            .collect()
    }
}

// --------------------------------------------------------------------- real

pub struct Real<'a> {
    pub w: &'a World,
    pub s: DefaultDhtStorage<'a>,
}

impl Drop for Real<'_> {
    fn drop(&mut self) {
        LATER.store(0, Ordering::Relaxed);
    }
}

pub fn hash_id(i: &Id) -> Sha1Hash {
    Sha1Hash::from(*i)
}

impl<'a> Real<'a> {
    pub fn new(w: &'a World, settings: &'a DhtSettings) -> Real<'a> {
        LATER.store(0, Ordering::Relaxed);
        let mut r = Real { w, s: DefaultDhtStorage::new(settings) };
        r.apply(&Op::Ids(0));
        r
    }
    pub fn apply(&mut self, op: &Op) {
        let w = self.w;
        match op {
            Op::Ask { q, t } => self.ask(*q, *t),
            Op::Wait(s) => {
                LATER.fetch_add(*s, Ordering::Relaxed);
            }
            Op::Ids(i) => {
                let ids: Vec<Sha1Hash> = w.ids[*i].iter().map(hash_id).collect();
                self.s.update_node_ids(&ids);
            }
            Op::Ann { t, e, name, seed } => self.s.announce_peer(&hash_id(&w.torrents[*t]), &w.eps[*e], &w.names[*name], *seed),
            Op::PutI { t, v, a, n } => {
                let val = w.values[*v].to_vec();
                for i in *a..*a + *n {
                    self.s.put_immutable_item(&hash_id(&w.targets[*t]), &val, &announcers()[i]);
                }
            }
            Op::PutM { t, v, seq, a, n } => {
                let val = w.values[*v].to_vec();
                let target = &w.targets[*t];
                for i in *a..*a + *n {
                    self.s.put_mutable_item(&hash_id(target), &val, &w.sig(*t, *v, *seq), *seq, &w.key(*t, *v), w.salt(*v), &announcers()[i]);
                }
            }
        }
    }
    fn ask(&self, q: usize, t: usize) {
        let w = self.w;
        let mut v = Value::Dict(BTreeMap::new());
        let item = hash_id(&w.targets[t]);
        match q {
            // a list or a scrape, with or without seeds, of either family
            0..=7 => {
                let from = &w.eps[if q & 4 == 0 { 2 } else { 8 }];
                let _ = self.s.get_peers(&hash_id(&w.torrents[t]), q & 1 != 0, q & 2 != 0, from, &mut v);
            }
            // from a peer of the torrent
            8 | 9 => {
                let _ = self.s.get_peers(&hash_id(&w.torrents[t]), false, q == 9, &w.eps[0], &mut v);
            }
            // into values that cannot take the reply
            10 | 11 => {
                let _ = self.s.get_peers(&hash_id(&w.torrents[t]), false, q == 11, &w.eps[2], &mut Value::Int(1));
            }
            12 => {
                v = Value::Dict(vec![("values".to_string(), Value::Int(1))].into_iter().collect());
                let _ = self.s.get_peers(&hash_id(&w.torrents[t]), false, false, &w.eps[2], &mut v);
            }
            13 | 18 => {
                self.s.counters();
            }
            14 => {
                self.s.get_immutable_item(&item, &mut v);
            }
            15 => {
                self.s.get_mutable_item_seq(&item, &mut 0);
            }
            16 | 17 => {
                self.s.get_mutable_item(&item, 0, q == 16, &mut v);
            }
            _ => unreachable!(),
        }
    }
    /// Which targets the store reports as present.
    pub fn present(&self, mutable: bool) -> BTreeSet<usize> {
        (0..self.w.targets.len())
            .filter(|t| {
                let id = hash_id(&self.w.targets[*t]);
                if mutable {
                    let mut seq = 0;
                    self.s.get_mutable_item_seq(&id, &mut seq)
                } else {
                    self.s.get_immutable_item(&id, &mut Value::Dict(BTreeMap::new()))
                }
            })
            .collect()
    }
}

/// Applies the operation to both; where the model has several successors the
/// one that matches what is present is taken.
pub fn follow(real: &mut Real, m: &mut Model, op: &Op) -> Result<(), String> {
    real.apply(op);
    let mut next = m.step(real.w, op);
    if next.len() > 1 {
        let mutable = matches!(op, Op::PutM { .. });
        let have = real.present(mutable);
        match next.iter().position(|n| n.table(mutable).keys().cloned().collect::<BTreeSet<_>>() == have) {
            Some(i) => *m = next.swap_remove(i),
            None => return Err(mismatch(real, m, op, &next, &have)),
        }
    } else {
        *m = next.pop().unwrap();
    }
    Ok(())
}

pub fn mismatch(real: &Real, m: &Model, op: &Op, next: &[Model], have: &BTreeSet<usize>) -> String {
    let mutable = matches!(op, Op::PutM { .. });
    let names = |s: &mut dyn Iterator<Item = usize>| s.map(|t| hex(&real.w.targets[t])).collect::<Vec<_>>();
    format!(
        "with {:?} stored, {} leaves {:?} stored, which should be one of {:?}",
        names(&mut m.table(mutable).keys().cloned()),
        real.w.show_op(op),
        names(&mut have.iter().cloned()),
        next.iter().map(|n| names(&mut n.table(mutable).keys().cloned())).collect::<Vec<_>>()
    )
}

// ------------------------------------------------------------------- driver

/// Runs one history on a fresh store. `step` applies the operation to both
/// sides, `check` judges the final state.
pub struct Judge<'j> {
    pub step: &'j (dyn Fn(&mut Real, &mut Model, &Op) -> Result<(), String> + Sync),
    pub check: &'j (dyn Fn(&Real, &Model) -> Verdict + Sync),
    /// hash map seeds to run the history under; empty: this thread's
    pub seeds: &'j [u64],
}

pub fn history(w: &World, ops: &[Op], j: &Judge) -> Verdict {
    let go = || -> Verdict {
        let settings = w.settings();
        let mut real = Real::new(w, &settings);
        let mut m = Model::default();
        for op in ops {
            (j.step)(&mut real, &mut m, op)?;
        }
        (j.check)(&real, &m)
    };
    if j.seeds.is_empty() {
        return go();
    }
    let mut v = Ok("");
    for s in j.seeds {
        v = Ok(seeded(*s, || go().map_err(|e| format!("{} (hash maps seeded with {})", e, s)))?);
    }
    v
}

/// A key that tells worlds apart.
fn world_key(w: &World) -> u64 {
    let lim = (w.max_torrents, w.max_peers, w.max_reply, w.max_items);
    hash_dbg(&(lim, &w.torrents, &w.eps, &w.names, &w.targets, &w.ids, &w.salts, (&w.askers, w.style, w.values.iter().map(|v| v.to_vec()).collect::<Vec<_>>(), &w.other)))
}
fn ops_key(k: u64, ops: &[Op]) -> u64 {
    combine(k, hash_dbg(&ops))
}

/// Every history of up to `depth` operations, none merged.
pub fn unmerged(r: &mut Run, w: &World, depth: usize, j: &Judge) {
    let k = world_key(w);
    engine::words::sequences(w.ops.len(), 0, depth, |ix| {
        if r.stop() {
            return;
        }
        let ops: Vec<Op> = ix.iter().map(|&i| w.ops[i].clone()).collect();
        r.case(ops_key(k, &ops), || w.show(&ops), || history(w, &ops, j));
    });
}

/// Breadth-first over the states of the model: every transition of every state
/// within `depth` operations is replayed on the implementation.
pub fn merged(r: &mut Run, w: &World, depth: usize, most: usize, j: &Judge) {
    let k = world_key(w);
    let mut seen: HashSet<Model> = HashSet::new();
    let first = Model::default();
    r.state(combine(k, hash_dbg(&first)));
    seen.insert(first.clone());
    let mut layer: Vec<(Model, Vec<usize>)> = vec![(first, vec![])];
    r.tracing(true);
    for _ in 0..depth {
        let mut next = vec![];
        for (m, path) in &layer {
            if r.stop() {
                return;
            }
            let mk = combine(k, hash_dbg(m));
            for (o, op) in w.ops.iter().enumerate() {
                let mut p = path.clone();
                p.push(o);
                let ops: Vec<Op> = p.iter().map(|&i| w.ops[i].clone()).collect();
                r.transition(combine(mk, o as u64));
                r.case(ops_key(k, &ops), || w.show(&ops), || history(w, &ops, j));
                for n in m.step(w, op) {
                    if !seen.contains(&n) {
                        if seen.len() >= most {
                            r.cap("the bound on merged states");
                            continue;
                        }
                        r.state(combine(k, hash_dbg(&n)));
                        seen.insert(n.clone());
                        next.push((n, p.clone()));
                    }
                }
            }
        }
        layer = next;
    }
    r.tracing(false);
}

/// One particular history.
pub fn single(r: &mut Run, w: &World, ops: &[Op], what: &str, j: &Judge) {
    let k = combine(world_key(w), hash(what.as_bytes()));
    r.case(ops_key(k, ops), || format!("{}: {}", w.limits(), what), || history(w, ops, j));
}

/// Longer than any lifetime of the settings.
const WEEKS: u64 = 3_000_000;

/// Values for the settings which are no limits of the store.
pub fn others(thorough: bool) -> Vec<Other> {
    let mut v: Vec<Other> = vec![];
    for i in 0..21 {
        if crate::small::is_limit(i) {
            continue;
        }
        if i < 13 {
            for x in if thorough { &[0, 1, 2, 1000, usize::MAX][..] } else { &[0, 1][..] } {
                v.push(vec![(i, *x)]);
            }
        } else {
            v.push(vec![(i, !crate::small::switch(i) as usize)]);
        }
    }
    for x in [0, 1, usize::MAX] {
        v.push((0..13).map(|i| (i, x)).collect());
        v.push((0..21).map(|i| (i, x.min(if i < 13 { x } else { 1 }))).collect());
    }
    v.push((13..21).map(|i| (i, !crate::small::switch(i) as usize)).collect());
    v
}

/// Every query there is, answers ignored: a store that is only read must not
/// change its answers.
fn stir(real: &Real) {
    let w = real.w;
    let empty = || Value::Dict(BTreeMap::new());
    for t in w.torrents.iter().chain(&w.targets) {
        let id = hash_id(t);
        for (no_seed, scrape) in [(false, true), (true, false), (false, false)] {
            for e in [0, 6] {
                let _ = real.s.get_peers(&id, no_seed, scrape, &w.eps[e], &mut empty());
                let _ = real.s.get_peers(&id, no_seed, scrape, &w.eps[e], &mut Value::Int(1));
            }
        }
        let mut seq = 0;
        real.s.get_mutable_item_seq(&id, &mut seq);
        for ask in [-1, 0, seq - 1, seq] {
            real.s.get_mutable_item(&id, ask, ask == -1, &mut empty());
        }
        real.s.get_immutable_item(&id, &mut empty());
    }
    real.s.counters();
}

/// Histories of operations of every kind on ids that name a torrent, an
/// immutable and a mutable item at the same time, with every query before and
/// after each operation and judged after each; once for every setting that
/// should make no difference.
pub fn everything(r: &mut Run, j: &Judge, peers: bool, items: bool) {
    require_clock(r);
    r.family("queries among the operations");
    let asks = |w: &mut World, qs: std::ops::Range<usize>, ts: usize| w.ops.extend(qs.flat_map(|q| (0..ts).map(move |t| Op::Ask { q, t })));
    let depth = r.pick(3, 4);
    for tight in [false, true] {
        let limited = || {
            let mut w = World::new();
            if tight {
                w.max_torrents = 1;
                w.max_peers = 2;
                w.max_reply = 4;
            }
            w
        };
        if peers {
            let a = |t, e, name, seed| Op::Ann { t, e, name, seed };
            let mut w = limited();
            w.names = vec!["".into(), "nm".into()];
            w.ops = vec![a(0, 0, 0, false), a(0, 0, 1, true), a(0, 1, 0, true), a(0, 6, 0, false)];
            asks(&mut w, ASK_PEERS, 1);
            unmerged(r, &w, depth + 1, j);
            w.ops.extend([a(1, 0, 0, true), a(1, 1, 1, false), Op::Ask { q: 0, t: 1 }, Op::Ask { q: 3, t: 1 }]);
            unmerged(r, &w, depth, j);
        }
        if items {
            for mutable in [false, true] {
                for max in if tight { vec![1, 2, 3] } else { vec![1000] } {
                    let mut w = limited();
                    w.max_items = max;
                    w.targets = (0..5).map(|i| [1 << i; 20]).collect();
                    w.torrents = w.targets.clone();
                    w.ops = (0..5).map(|t| if mutable { Op::PutM { t, v: 0, seq: 1, a: 0, n: 1 } } else { Op::PutI { t, v: 0, a: 0, n: 1 } }).collect();
                    let q = if mutable { 15 } else { 14 };
                    asks(&mut w, q..q + 1, 4);
                    unmerged(r, &w, if max == 3 { depth + 2 } else { depth + 1 }, j);
                    // a put of each target, all orders, every query before the last
                    for ix in engine::words::permutations(5) {
                        for q in ASK_ITEMS {
                            for t in 0..5 {
                                let mut ops: Vec<Op> = ix.iter().map(|&i| w.ops[i].clone()).collect();
                                let n = ops.len();
                                ops.insert(n - 1, Op::Ask { q, t });
                                single(r, &w, &ops, "a query before the last put", j);
                                let n = ops.len();
                                ops.swap(n - 3, n - 2);
                                single(r, &w, &ops, "a query before the last put but one", j);
                            }
                        }
                    }
                    if mutable {
                        w.ops = vec![];
                        for t in 0..2 {
                            w.ops.extend([0, 2, 1].iter().map(|s| Op::PutM { t, v: *s as usize, seq: *s, a: 0, n: 1 }));
                        }
                        asks(&mut w, 15..18, 2);
                        unmerged(r, &w, depth, j);
                    }
                }
            }
        }
    }
    r.family("operations of every kind on the same ids, judged at each step");
    let step = |real: &mut Real, m: &mut Model, op: &Op| -> Result<(), String> {
        stir(real);
        (j.step)(real, m, op)?;
        stir(real);
        (j.check)(real, m).map(|_| ())
    };
    let watched = Judge { step: &step, check: j.check, seeds: j.seeds };
    let mut bit = [0x42; 20];
    bit[19] ^= 1;
    let same = vec![[0x42; 20], bit, [0xee; 20]];
    let depth = r.pick(2, 3);
    let world = |tight: bool, other: &Other| {
        let mut w = World::new();
        w.torrents = same.clone();
        w.targets = same.clone();
        w.names = vec!["".into(), "nm".into()];
        w.ids = vec![vec![[0; 20]], vec![bit, [0xee; 20]]];
        w.other = other.clone();
        if tight {
            w.max_torrents = 1;
            w.max_peers = 1;
            w.max_reply = 4;
            w.max_items = 1;
        }
        let a = |t, e, name, seed| Op::Ann { t, e, name, seed };
        w.ops = vec![
            a(0, 0, 0, false),
            a(0, 0, 1, true),
            a(0, 6, 0, true),
            a(1, 1, 1, false),
            Op::PutI { t: 0, v: 0, a: 0, n: 1 },
            Op::PutI { t: 1, v: 1, a: 0, n: 1 },
            Op::PutI { t: 0, v: 1, a: 1, n: 5 },
            Op::PutM { t: 0, v: 2, seq: 1, a: 0, n: 1 },
            Op::PutM { t: 0, v: 0, seq: 2, a: 1, n: 6 },
            Op::PutM { t: 0, v: 1, seq: 3, a: 0, n: 1 },
            Op::PutM { t: 1, v: 1, seq: 0, a: 0, n: 1 },
            Op::Ids(1),
            Op::Wait(WEEKS),
        ];
        w
    };
    for tight in [false, true] {
        unmerged(r, &world(tight, &vec![]), depth + 1, &watched);
    }
    r.family("long histories");
    let lengths: &[usize] = match (j.seeds.is_empty(), r.thorough()) {
        (true, true) => &[255, 256, 257, 1000, 5000, 65535, 65536, 66000],
        (true, false) => &[255, 256, 257, 1000, 66000],
        // each history is run once for every seed
        (false, true) => &[255, 256, 257, 1000, 5000],
        (false, false) => &[257],
    };
    for (max, count) in [(1000, 1), (1, 1), (2, 1), (1000, 5), (3, 5)] {
        let mut w = world(max < 1000, &vec![]);
        w.max_torrents = max;
        w.max_peers = max;
        w.max_items = max;
        let n = w.ops.len();
        // later rounds bring newer versions and seeds turned peers
        let op = |i: usize| match w.ops[i % n].clone() {
            Op::PutM { t, v, seq, a, n: m } => Op::PutM { t, v: (v + i / n) % 3, seq: seq + 3 * (i / n) as i64, a, n: m },
            Op::Ann { t, e, name, seed } => Op::Ann { t, e, name, seed: seed ^ (i / n % 2 == 1) },
            o => o,
        };
        if count == 1 {
            // two operations in turn
            for len in if j.seeds.is_empty() || r.thorough() { vec![257, 520] } else { vec![257] } {
                for a in 0..n {
                    for b in (0..n).filter(|b| *b != a) {
                        let mut ops: Vec<Op> = vec![];
                        ops.extend((0..2 * len).map(|i| w.ops[if i % 2 == 0 { a } else { b }].clone()));
                        ops.extend(w.ops.iter().cloned());
                        single(r, &w, &ops, &format!("operations number {} and {} in turn, {} times, then all", a, b, len), j);
                    }
                }
            }
        }
        for &len in lengths {
            if count == 1 {
                for i in 0..n {
                    let mut ops: Vec<Op> = w.ops.clone();
                    ops.extend(vec![w.ops[i].clone(); len]);
                    ops.extend((n..2 * n).map(op));
                    single(r, &w, &ops, &format!("all operations, then number {} {} times, then all", i, len), j);
                }
            } else if len < 20000 {
                for s in 1..n {
                    let ops: Vec<Op> = (0..len).map(|i| op(i * s + i / n)).collect();
                    single(r, &w, &ops, &format!("all operations in steps of {}, {} altogether", s, len), j);
                }
            }
        }
    }
    r.family("settings that should not matter");
    let all = others(r.thorough());
    r.note("values of settings that should not matter", all.len() as u64);
    for o in &all {
        for tight in [false, true] {
            let w = world(tight, o);
            unmerged(r, &w, depth, &watched);
            let n = w.ops.len();
            for s in [1, 3, 7] {
                let ops: Vec<Op> = (0..3 * n)
                    .map(|i| match w.ops[(i * s + i / n) % n].clone() {
                        Op::PutM { t, v, seq, a, n: m } => Op::PutM { t, v: (v + i / n) % 3, seq: seq + 3 * (i / n) as i64, a, n: m },
                        Op::Ann { t, e, name, seed } => Op::Ann { t, e, name, seed: seed ^ (i / n == 1) },
                        o => o,
                    })
                    .collect();
                single(r, &w, &ops, &format!("all operations three times in steps of {}", s), &watched);
            }
        }
    }
    relations(r, j, peers, items);
}

/// Arguments which are related to each other: own ids that are torrents or
/// targets, names that spell the torrent, peers and requesters on one host,
/// keys, signatures, values and salts made of each other.
fn relations(r: &mut Run, j: &Judge, peers: bool, items: bool) {
    r.family("arguments related to each other");
    let t0 = *b"abcdefghijklmnopqrst";
    let with = |f: &dyn Fn(&mut Id)| {
        let mut t = t0;
        f(&mut t);
        t
    };
    let t1 = with(&|t| t.reverse());
    let pool: Vec<Id> = vec![[0; 20], t0, t1, with(&|t| t[19] ^= 1), with(&|t| t.iter_mut().for_each(|b| *b = !*b))];
    // own ids: one, two or three of the pool
    let mut lists: Vec<Vec<Id>> = vec![];
    engine::words::sequences(pool.len(), 1, r.pick(2, 3), |ix| lists.push(ix.iter().map(|&i| pool[i]).collect()));
    for ix in engine::words::permutations(4) {
        lists.push(ix[..3].iter().map(|&i| pool[i]).collect());
    }
    if items {
        for mutable in [false, true] {
            let put = |t, n| if mutable { Op::PutM { t, v: t % 3, seq: t as i64, a: t, n } } else { Op::PutI { t, v: t % 3, a: t, n } };
            for ids in &lists {
                for max in [1, 2, 1000] {
                    let mut w = World::new();
                    w.ids = vec![ids.clone()];
                    w.max_items = max;
                    w.targets = pool.clone();
                    w.torrents = pool.clone();
                    w.ops = (0..4).map(|t| put(t, 1)).collect();
                    unmerged(r, &w, if max == 1000 { 2 } else { 3 }, j);
                }
                if ids.len() == 2 {
                    // an own id and targets near it, of few or many announcers
                    for max in [2, 3] {
                        let mut w = World::new();
                        w.ids = vec![ids.clone()];
                        w.max_items = max;
                        w.targets = vec![t0, with(&|t| t[19] ^= 2), with(&|t| t[19] ^= 4), t1, [0x55; 20]];
                        w.torrents = w.targets.clone();
                        for ix in engine::words::permutations(3) {
                            for many in 0..8 {
                                let mut ops: Vec<Op> = ix.iter().map(|&t| put(t, if many >> t & 1 == 1 { 40 } else { 1 })).collect();
                                ops.push(put(3, 1));
                                single(r, &w, &ops, "targets near an own id", j);
                                ops.push(put(4, 1));
                                single(r, &w, &ops, "targets near an own id, then two others", j);
                            }
                        }
                    }
                }
            }
            // values, salts, keys and signatures made of each other
            let parts: Vec<Vec<u8>> = vec![vec![], b"x".to_vec(), t0.to_vec(), key_of(&t0).to_vec(), b"salt".to_vec(), b"4:salt".to_vec(), vec![0; 64], b"i5e".to_vec(), t0.iter().map(|b| format!("{:02x}", b)).collect::<String>().into_bytes()];
            let mut w = World::new();
            w.targets = vec![t0, t1];
            w.torrents = w.targets.clone();
            w.ids = vec![vec![t0]];
            w.values = vec![];
            w.salts = vec![];
            let mut vals: Vec<Value> = parts.iter().map(|p| Value::Bytes(p.clone())).collect();
            vals.push(Value::Int(5));
            vals.push(Value::List(vec![Value::Bytes(b"salt".to_vec())]));
            for v in &vals {
                for s in if mutable { &parts[..] } else { &parts[..1] } {
                    w.values.push(v.clone());
                    w.salts.push(s.clone());
                }
            }
            let n = w.values.len();
            if mutable {
                for style in 0..49 {
                    w.style = (style / 7, style % 7);
                    for v in 0..n {
                        for seq in [-1, 0, 1, 2] {
                            single(r, &w, &[Op::PutM { t: 0, v, seq, a: 0, n: 1 }], &format!("value and salt {} at {}", v, seq), j);
                        }
                    }
                }
                for style in [(0, 0), (0, 2), (0, 3), (0, 4)] {
                    w.style = style;
                    for a in 0..n {
                        for b in 0..n {
                            if !r.thorough() && b % parts.len() != a % parts.len() && b / parts.len() != a / parts.len() {
                                continue;
                            }
                            for seq in [0, 1, 2] {
                                let ops = [Op::PutM { t: 0, v: a, seq: 1, a: 0, n: 1 }, Op::PutM { t: (a ^ b) & 1, v: b, seq, a: 0, n: 1 }];
                                single(r, &w, &ops, &format!("value and salt {}, then {} at {}", a, b, seq), j);
                            }
                        }
                    }
                }
            } else {
                w.ops = (0..n).flat_map(|v| (0..2).map(move |t| Op::PutI { t, v, a: 0, n: 1 })).collect();
                unmerged(r, &w, 2, j);
            }
        }
    }
    if peers {
        // torrents that are own ids, names that spell torrents and peers
        let hex = |t: &Id| t.iter().map(|b| format!("{:02x}", b)).collect::<String>();
        let ann = |t, e, name, seed| Op::Ann { t, e, name, seed };
        for ids in &lists {
            let mut w = World::new();
            w.ids = vec![ids.clone()];
            w.torrents = pool.clone();
            w.names = vec!["".into(), "nm".into()];
            w.ops = (0..4).flat_map(|t| vec![ann(t, 0, t % 2, false), ann(t, 6, 1, true)]).collect();
            for max in [1, 2, 1000] {
                w.max_torrents = max;
                unmerged(r, &w, 2, j);
            }
        }
        let mut w = World::new();
        w.torrents = vec![t0, t1, pool[3]];
        w.ids = vec![vec![t0]];
        w.names = vec!["".into(), hex(&t0), hex(&t0).to_uppercase(), hex(&t1), hex(&pool[3]), "abcdefghijklmnopqrst".into(), "tsrqponmlkjihgfedcba".into(), format!("urn:btih:{}", hex(&t0))];
        w.names.extend(w.eps[..1].iter().chain(&w.eps[6..7]).flat_map(|e| vec![e.to_string(), e.ip().to_string(), e.port().to_string()]).collect::<Vec<_>>());
        let n = w.names.len();
        w.ops = (0..n).flat_map(|k| vec![ann(0, 0, k, false), ann(0, 6, k, true), ann(1, 0, k, true)]).collect();
        unmerged(r, &w, 2, j);
        one_host(r, j, &[1000]);
    }
}

/// Peers and requesters on one host, or on hosts that look alike.
pub fn one_host(r: &mut Run, j: &Judge, replies: &[usize]) {
    let t0 = *b"abcdefghijklmnopqrst";
    let ann = |t, e, name, seed| Op::Ann { t, e, name, seed };
    let v6 = |o: [u8; 4], p| ep6([0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255, o[0], o[1], o[2], o[3]], p, 0);
    let mut low = [0; 16];
    low[..2].copy_from_slice(&[0x20, 1]);
    low[15] = 1;
    let mut w = World::new();
    w.eps = vec![
        ep4([9, 0, 0, 2], 5),
        ep4([9, 0, 0, 2], 6),
        ep4([9, 0, 0, 3], 6),
        ep4([2, 0, 0, 9], 0x0500),
        ep4([0, 5, 9, 0], 2),
        ep4([9, 0, 0, 2], 0x0500),
        v6([9, 0, 0, 2], 5),
        v6([9, 0, 0, 2], 6),
        ep6(low, 5, 0),
        ep6(low, 6, 0),
    ];
    w.askers = w.eps.clone();
    w.askers.extend([0, 4, 7, 65535].iter().map(|p| ep4([9, 0, 0, 2], *p)));
    w.askers.extend([0, 4, 7, 65535].iter().map(|p| ep6(low, *p, 0)));
    w.askers.extend([ep4([9, 0, 0, 1], 5), v6([9, 0, 0, 2], 7), v6([9, 0, 0, 3], 6)]);
    w.torrents = vec![t0];
    w.names = vec!["nm".into()];
    let here: Vec<usize> = if r.thorough() { (0..10).collect() } else { vec![0, 1, 2, 3, 6, 7, 8] };
    for code in 0..3usize.pow(here.len() as u32) {
        let mut ops = vec![];
        let mut c = code;
        for &e in &here {
            if c % 3 > 0 {
                ops.push(ann(0, e, 0, c % 3 == 2));
            }
            c /= 3;
        }
        for &most in replies {
            w.max_reply = most;
            single(r, &w, &ops, "peers of one host", j);
        }
    }
}

/// A harness check: the order of hash maps must be decided by `seeded`.
pub fn require_seeding(r: &Run) {
    let order = |s| {
        seeded(s, || {
            let m: HashMap<u32, ()> = (0..40).map(|i| (i, ())).collect();
            m.keys().cloned().collect::<Vec<u32>>()
        })
    };
    r.require(order(5) == order(5) && order(5) != order(6), "hash map order is not under control");
}

/// A harness check: time must pass as `Op::Wait` says.
fn require_clock(r: &Run) {
    let (a, b) = (std::time::Instant::now(), std::time::SystemTime::now());
    LATER.store(WEEKS, Ordering::Relaxed);
    let gone = (a.elapsed().as_secs(), b.elapsed().map(|t| t.as_secs()).unwrap_or(0));
    LATER.store(0, Ordering::Relaxed);
    r.require(gone.0 >= WEEKS && gone.1 >= WEEKS, "the clock is not under control");
}
