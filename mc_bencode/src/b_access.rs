use crate::gen;
use crate::model::*;
use bencode::{Value, ValueRef};
use engine::{ensure, show, Run, Verdict};
use std::collections::{BTreeMap, HashSet, VecDeque};

/// Indices and keys from the literals of the sources.
fn indices() -> &'static [usize] {
    static V: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    V.get_or_init(|| gen::lits().around(1 << 40).into_iter().filter(|n| *n > 40).take(100).map(|n| n as usize).collect())
}
fn texts() -> &'static [String] {
    static V: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    V.get_or_init(|| gen::lits().strs().into_iter().filter(|s| s.len() < 30).take(40).collect())
}

fn text(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

macro_rules! accessors {
    ($name:ident, $value:ty, $same:ident, $mk:path, $as_bytes:expr) => {
        fn $name(t: &T, v: &$value, who: &str) -> Result<(), String> {
            macro_rules! eq {
                ($got:expr, $want:expr, $what:expr) => {
                    let (g, w) = ($got, $want);
                    ensure!(g == w, "{}: {} is {:?}, not {:?}", who, $what, g, w);
                };
            }
            let (int, by, list, dict) = match t {
                T::I(n) => (Some(*n), None, None, None),
                T::B(b) => (None, Some(&b[..]), None, None),
                T::L(l) => (None, None, Some(l), None),
                T::D(d) => (None, None, None, Some(d)),
            };
            eq!(v.as_int(), int, "as_int");
            eq!(v.as_bytes(), by, "as_bytes");
            eq!(v.as_str(), by.and_then(text), "as_str");
            eq!(v.is_int(), int.is_some(), "is_int");
            eq!(v.is_string(), by.is_some(), "is_string");
            eq!(v.is_list(), list.is_some(), "is_list");
            eq!(v.is_dict(), dict.is_some(), "is_dict");
            eq!(v.list_len(), list.map(|l| l.len()), "list_len");
            eq!(v.dict_len(), dict.map(|d| d.len()), "dict_len");
            eq!(v.as_list().map(|l| l.len()), list.map(|l| l.len()), "as_list length");
            eq!(v.as_dict().map(|l| l.len()), dict.map(|l| l.len()), "as_dict length");
            let n = list.map_or(0, |l| l.len());
            for i in (0..n.min(40) + 2).chain([n, n + 1, usize::MAX, 1 << 32, 256]).chain(indices().iter().copied()) {
                let want = list.and_then(|l| l.get(i));
                let got = v.list_at(i);
                ensure!(
                    match (want, got) {
                        (None, None) => true,
                        (Some(a), Some(b)) => $same(a, b),
                        _ => false,
                    },
                    "{}: list_at({}) is {:?}", who, i, got
                );
                eq!(v.list_int_value_at(i), match want { Some(T::I(n)) => Some(*n), _ => None }, format!("list_int_value_at({})", i));
                eq!(v.list_string_value_at(i), match want { Some(T::B(b)) => text(b), _ => None }, format!("list_string_value_at({})", i));
            }
            let mut keys: Vec<String> = gen::keys();
            keys.extend(texts().iter().cloned());
            if let Some(d) = dict {
                for (k, _) in d.iter().take(40) {
                    keys.push(k.clone());
                    keys.push(format!("{}x", k));
                    let mut c = k.clone();
                    c.pop();
                    keys.push(c);
                    keys.push(k.to_uppercase());
                }
            }
            for k in &keys {
                let want = dict.and_then(|d| d.iter().find(|e| e.0 == *k)).map(|e| &e.1);
                let is = |w: Option<&T>, g: Option<&$value>| match (w, g) {
                    (None, None) => true,
                    (Some(a), Some(b)) => $same(a, b),
                    _ => false,
                };
                let of = |f: fn(&T) -> bool| want.filter(|w| f(w));
                ensure!(is(want, v.dict_find(k)), "{}: dict_find({:?}) is {:?}", who, k, v.dict_find(k));
                ensure!(is(of(|t| matches!(t, T::I(_))), v.dict_find_int(k)), "{}: dict_find_int({:?}) is {:?}", who, k, v.dict_find_int(k));
                ensure!(is(of(|t| matches!(t, T::B(_))), v.dict_find_str(k)), "{}: dict_find_str({:?}) is {:?}", who, k, v.dict_find_str(k));
                ensure!(is(of(|t| matches!(t, T::L(_))), v.dict_find_list(k)), "{}: dict_find_list({:?}) is {:?}", who, k, v.dict_find_list(k));
                ensure!(is(of(|t| matches!(t, T::D(_))), v.dict_find_dict(k)), "{}: dict_find_dict({:?}) is {:?}", who, k, v.dict_find_dict(k));
                eq!(v.dict_find_int_value(k), match want { Some(T::I(n)) => Some(*n), _ => None }, format!("dict_find_int_value({:?})", k));
                eq!(v.dict_find_str_value(k), match want { Some(T::B(b)) => text(b), _ => None }, format!("dict_find_str_value({:?})", k));
                let l = v.dict_find_list_value(k);
                ensure!(
                    match (want, l) {
                        (Some(T::L(a)), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| $same(x, y)),
                        (Some(T::L(_)), None) | (_, Some(_)) => false,
                        _ => true,
                    },
                    "{}: dict_find_list_value({:?}) is {:?}", who, k, l
                );
            }
            // conversions that consume
            let l = v.clone().into_list();
            ensure!(
                match (list, &l) {
                    (Some(a), Some(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| $same(x, y)),
                    (None, None) => true,
                    _ => false,
                },
                "{}: into_list is {:?}", who, l
            );
            let d = v.clone().into_dict();
            ensure!(
                match (dict, d) {
                    (Some(_), Some(b)) => $same(t, &$mk(b)),
                    (None, None) => true,
                    _ => false,
                },
                "{}: into_dict differs", who
            );
            ensure!($same(t, v), "{}: looking changed the value", who);
            let mut c = v.clone();
            eq!(c.as_list_mut().map(|l| l.len()), list.map(|l| l.len()), "as_list_mut length");
            eq!(c.as_dict_mut().map(|l| l.len()), dict.map(|l| l.len()), "as_dict_mut length");
            Ok(())
        }
    };
}

accessors!(look_value, Value, same, Value::with_dict, ());
accessors!(look_ref, ValueRef<'_>, same_ref, ValueRef::with_dict, ());

fn look(t: &T) -> Verdict {
    look_value(t, &to_value(t), "owning")?;
    look_ref(t, &to_ref(t), "borrowing")?;
    // constructors
    match t {
        T::I(n) => ensure!(same(t, &Value::with_int(*n)) && same_ref(t, &ValueRef::with_int(*n)), "with_int differs"),
        T::B(b) => {
            ensure!(same(t, &Value::from(&b[..])) && same(t, &Value::from(b.clone())) && same_ref(t, &ValueRef::from(&b[..])), "from bytes differs");
            if let Some(s) = text(b) {
                ensure!(
                    same(t, &Value::with_str(s)) && same(t, &Value::with_string(s.to_string())) && same_ref(t, &ValueRef::with_str(s)),
                    "with_str differs"
                );
            }
        }
        T::L(l) => ensure!(
            same(t, &Value::with_list(l.iter().map(to_value).collect())) && same_ref(t, &ValueRef::with_list(l.iter().map(to_ref).collect())),
            "with_list differs"
        ),
        T::D(d) => {
            let m: BTreeMap<String, Value> = d.iter().map(|(k, v)| (k.clone(), to_value(v))).collect();
            let n: BTreeMap<&str, ValueRef> = d.iter().map(|(k, v)| (&k[..], to_ref(v))).collect();
            ensure!(same(t, &Value::with_dict(m)) && same_ref(t, &ValueRef::with_dict(n)), "with_dict differs");
        }
    }
    Ok(match t {
        T::I(_) | T::B(_) => "trivial scalar",
        T::L(_) => "list",
        T::D(_) => "dictionary",
    })
}

// ------------------------------------------------------------------ mutation

/// Where a mutation applies: the value itself or an element of it.
#[derive(Clone, Copy, Debug)]
enum At {
    Root,
    Index(usize),
    Key(&'static str),
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Push(usize),
    Pop,
    Set0(usize),
    Insert0(usize),
    Remove0,
    Swap,
    Clear,
    Put(&'static str, usize),
    Del(&'static str),
    Retain,
}

fn stock() -> Vec<T> {
    vec![T::I(5), bytes(b"\xff"), T::L(vec![]), dict(vec![("a".into(), T::I(1))])]
}

fn ops() -> Vec<(At, Op)> {
    let mut v = vec![];
    let places = [At::Root, At::Index(0), At::Key("a")];
    for at in places {
        let few = if matches!(at, At::Root) { 4 } else { 1 };
        for i in 0..few {
            v.push((at, Op::Push(i)));
        }
        v.push((at, Op::Pop));
        v.push((at, Op::Set0(0)));
        v.push((at, Op::Insert0(1)));
        v.push((at, Op::Remove0));
        v.push((at, Op::Swap));
        v.push((at, Op::Clear));
        for i in 0..few {
            v.push((at, Op::Put("a", i)));
        }
        v.push((at, Op::Put("b", 0)));
        v.push((at, Op::Put("", 1)));
        v.push((at, Op::Del("a")));
        v.push((at, Op::Del("b")));
        v.push((at, Op::Retain));
    }
    v
}

fn apply_model(t: &mut T, op: &(At, Op)) -> bool {
    let target = match (op.0, t) {
        (At::Root, t) => t,
        (At::Index(i), T::L(l)) if i < l.len() => &mut l[i],
        (At::Key(k), T::D(d)) => match d.iter_mut().find(|e| e.0 == k) {
            Some(e) => &mut e.1,
            None => return false,
        },
        _ => return false,
    };
    let st = stock();
    match (target, op.1) {
        (T::L(l), Op::Push(i)) => l.push(st[i].clone()),
        (T::L(l), Op::Pop) if !l.is_empty() => {
            l.pop();
        }
        (T::L(l), Op::Set0(i)) if !l.is_empty() => l[0] = st[i].clone(),
        (T::L(l), Op::Insert0(i)) => l.insert(0, st[i].clone()),
        (T::L(l), Op::Remove0) if !l.is_empty() => {
            l.remove(0);
        }
        (T::L(l), Op::Swap) if l.len() > 1 => l.swap(0, 1),
        (T::L(l), Op::Clear) => l.clear(),
        (T::D(d), Op::Clear) => d.clear(),
        (T::D(d), Op::Put(k, i)) => {
            d.retain(|e| e.0 != k);
            d.push((k.to_string(), st[i].clone()));
            d.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
        }
        (T::D(d), Op::Del(k)) if d.iter().any(|e| e.0 == k) => d.retain(|e| e.0 != k),
        (T::D(d), Op::Retain) => d.retain(|e| e.0 == "b"),
        _ => return false,
    }
    true
}

macro_rules! apply_real {
    ($name:ident, ($($lt:lifetime)?), $value:ty, $key:ident, $keyexpr:expr, $mk:expr, $st:ty) => {
        /// Through the mutable views of the real code; false if it gives none.
        fn $name<$($lt)?>(v: &mut $value, op: &(At, Op), st: $st) -> bool {
            let target = match op.0 {
                At::Root => v,
                At::Index(i) => match v.as_list_mut().and_then(|l| l.get_mut(i)) {
                    Some(x) => x,
                    None => return false,
                },
                At::Key(k) => match v.as_dict_mut().and_then(|d| d.get_mut(k)) {
                    Some(x) => x,
                    None => return false,
                },
            };
            let is_list = target.as_list_mut().is_some();
            if is_list {
                let l = target.as_list_mut().unwrap();
                match op.1 {
                    Op::Push(i) => l.push($mk(&st[i])),
                    Op::Pop if !l.is_empty() => {
                        l.pop();
                    }
                    Op::Set0(i) if !l.is_empty() => l[0] = $mk(&st[i]),
                    Op::Insert0(i) => l.insert(0, $mk(&st[i])),
                    Op::Remove0 if !l.is_empty() => {
                        l.remove(0);
                    }
                    Op::Swap if l.len() > 1 => l.swap(0, 1),
                    Op::Clear => l.clear(),
                    _ => return false,
                }
                return true;
            }
            match (target.as_dict_mut(), op.1) {
                (Some(d), Op::Clear) => d.clear(),
                (Some(d), Op::Put($key, i)) => {
                    d.insert($keyexpr, $mk(&st[i]));
                }
                (Some(d), Op::Del(k)) if d.contains_key(k) => {
                    d.remove(k);
                }
                (Some(d), Op::Retain) => {
                    let gone: Vec<_> = d.keys().filter(|k| &k[..] != "b").cloned().collect();
                    for k in gone {
                        d.remove(&k[..]);
                    }
                }
                _ => return false,
            }
            true
        }
    };
}

apply_real!(apply_value, (), Value, k, k.to_string(), to_value, &[T]);
apply_real!(apply_ref, ('a), ValueRef<'a>, k, k, to_ref, &'a [T]);

fn history(start: &T, hist: &[(At, Op)]) -> Verdict {
    let st = stock();
    let mut t = start.clone();
    let mut v = to_value(start);
    let mut q = to_ref(start);
    let v0 = v.clone();
    let q0 = q.clone();
    for (i, op) in hist.iter().enumerate() {
        let before = t.clone();
        let (cv, cq) = (v.clone(), q.clone());
        let m = apply_model(&mut t, op);
        ensure!(apply_value(&mut v, op, &st) == m, "owning: step {} is possible in one of model and code only", i);
        ensure!(apply_ref(&mut q, op, &st) == m, "borrowing: step {} is possible in one of model and code only", i);
        ensure!(same(&t, &v), "owning: after step {} the value is {:?}", i, v);
        ensure!(same_ref(&t, &q), "borrowing: after step {} the value is {:?}", i, q);
        ensure!(same(&before, &cv) && same_ref(&before, &cq), "a copy changed in step {}", i);
        ensure!(v.to_vec() == enc(&t), "owning: after step {} encodes as {}", i, show(&v.to_vec()));
        ensure!(q.to_vec() == enc(&t), "borrowing: after step {} encodes as {}", i, show(&q.to_vec()));
    }
    ensure!(same(start, &v0) && same_ref(start, &q0), "a copy of the first value changed");
    look_value(&t, &v, "owning")?;
    look_ref(&t, &q, "borrowing")?;
    Ok("history of mutations")
}

pub fn b07(r: &mut Run) {
    let (n, depth, unmerged) = r.pick((4, 4, 2), (5, 6, 3));
    r.note("most nodes of a small tree", n);
    r.note("mutations in a row, histories merged by model state", depth);
    r.note("mutations in a row, every history", unmerged);
    r.family("all trees by node count");
    for ts in gen::by_nodes(n) {
        for t in ts {
            let d = enc(&t);
            r.case(engine::hash(&d), || show(&d), || look(&t));
        }
    }
    r.family("wide: pairs and triples of edge leaves and keys");
    gen::wide(&mut |t| {
        let d = enc(&t);
        r.case(engine::hash(&d), || show(&d), || look(&t));
    });
    r.family("large: one dimension at a time");
    gen::large(false, &mut |t| {
        let d = enc(&t);
        r.case(engine::hash(&d), || format!("{} bytes: {}", d.len(), show(&d[..d.len().min(60)])), || look(&t));
    });

    r.family("literals of the sources");
    gen::literal(false, &mut |t| {
        let d = enc(&t);
        if d.len() < 300_000 {
            r.case(engine::hash(&d), || format!("{} bytes: {}", d.len(), show(&d[..d.len().min(60)])), || look(&t));
        }
    });

    r.family("every character at every place of a text");
    let every = r.thorough();
    for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
        // beyond the first planes in steps
        if !every && c as u32 >= 0x3000 && !(0xd700..0x10400).contains(&(c as u32)) && c as u32 % 61 != 0 && !(0xe0000..0xe0200).contains(&(c as u32)) && c as u32 & 0xffff < 0xfff0 {
            continue;
        }
        for s in [format!("{}", c), format!("{}a", c), format!("a{}", c), format!("a{}b", c), format!("{}{}", c, c)] {
            let t = T::L(vec![bytes(s.as_bytes()), dict(vec![(s.clone(), bytes(s.as_bytes()))])]);
            let d = enc(&t);
            r.case(engine::hash(&d), || show(&d), || look(&t));
        }
    }

    let starts = [
        T::L(vec![]),
        T::D(vec![]),
        T::L(vec![T::L(vec![T::I(1)]), T::I(2)]),
        T::L(vec![dict(vec![("a".into(), T::I(1)), ("b".into(), T::I(2))])]),
        dict(vec![("a".into(), T::L(vec![T::I(1), T::I(2)])), ("b".into(), bytes(b"x"))]),
        dict(vec![("a".into(), dict(vec![("b".into(), T::I(9))]))]),
        T::I(1),
        bytes(b"l"),
    ];
    let all = ops();
    r.tracing(true);
    r.family("mutation histories, merged by model state");
    for s in &starts {
        let mut seen: HashSet<u64> = HashSet::new();
        let mut queue: VecDeque<(T, Vec<(At, Op)>)> = VecDeque::new();
        seen.insert(engine::hash(&enc(s)));
        queue.push_back((s.clone(), vec![]));
        while let Some((t, h)) = queue.pop_front() {
            if r.stop() {
                return;
            }
            let th = engine::hash(&enc(&t));
            r.state(th);
            if h.len() == depth {
                continue;
            }
            for (i, op) in all.iter().enumerate() {
                let mut u = t.clone();
                let m = apply_model(&mut u, op);
                r.transition(engine::combine(th, i as u64));
                let mut hh = h.clone();
                hh.push(*op);
                let key = engine::combine(engine::hash(&enc(s)), engine::hash_dbg(&hh));
                r.case(key, || format!("{} then {:?}", show(&enc(s)), hh), || history(s, &hh));
                if m && enc(&u).len() < 60 && seen.insert(engine::hash(&enc(&u))) {
                    queue.push_back((u, hh));
                }
            }
        }
    }
    r.family("mutation histories, every sequence");
    for s in &starts {
        engine::words::sequences(all.len(), 2, unmerged, |ix| {
            let key = engine::combine(engine::hash(&enc(s)), engine::hash_dbg(&ix));
            r.case(
                key,
                || format!("{} then {:?}", show(&enc(s)), ix.iter().map(|&i| all[i]).collect::<Vec<_>>()),
                || history(s, &ix.iter().map(|&i| all[i]).collect::<Vec<_>>()),
            );
        });
    }
}
