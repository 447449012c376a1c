use crate::gen;
use crate::model::*;
use bencode::{Value, ValueRef};
use engine::{choice, ensure, show, Run, Verdict};
use std::io;

fn trivial(t: &T) -> bool {
    match t {
        T::I(n) => *n == 0,
        T::B(b) => b.is_empty(),
        T::L(v) => v.is_empty(),
        T::D(d) => d.is_empty(),
    }
}

fn class(t: &T) -> &'static str {
    if trivial(t) {
        return "trivial empty or zero";
    }
    match t {
        T::I(_) => "integer",
        T::B(_) => "byte string",
        T::L(_) => "list",
        T::D(_) => "dictionary",
    }
}

fn each_tree(r: &mut Run, nodes: usize, chain: usize, mut f: impl FnMut(&T) -> Verdict) {
    r.note("most nodes of a small tree", nodes);
    r.note("longest chain of containers (four kinds per level)", chain);
    r.family("all trees by node count");
    let by = gen::by_nodes(nodes);
    for ts in &by {
        for t in ts {
            one(r, t, &mut f);
        }
    }
    drop(by);
    r.family("wide: pairs and triples of edge leaves and keys");
    gen::wide(&mut |t| one(r, &t, &mut f));
    r.family("chains of containers");
    gen::chains(chain, &mut |t| one(r, &t, &mut f));
    r.family("large: one dimension at a time");
    let th = r.thorough();
    gen::large(th, &mut |t| one(r, &t, &mut f));
    r.family("literals of the sources");
    gen::literal(th, &mut |t| one(r, &t, &mut f));
}

fn one(r: &mut Run, t: &T, f: &mut impl FnMut(&T) -> Verdict) {
    if r.stop() {
        return;
    }
    let doc = enc(t);
    r.case(engine::hash(&doc), || show(&doc), || f(t));
}

pub fn b01(r: &mut Run) {
    let (n, c) = r.pick((6, 7), (7, 9));
    each_tree(r, n, c, |t| {
        let v = to_value(t);
        let w = to_ref(t);
        ensure!(agree(&v, &w), "harness: representations differ");
        let a = v.to_vec();
        match Value::decode(&a) {
            Ok(x) => {
                ensure!(same(t, &x) && x == v, "owning: decodes to {:?}", x);
            }
            Err(e) => return Err(format!("owning: encoded as {} which does not decode: {:?}", show(&a), e)),
        }
        match a_str(&a).map(|s| s.parse::<Value>()) {
            Some(Ok(x)) => ensure!(same(t, &x), "owning: parses from text to {:?}", x),
            Some(Err(e)) => return Err(format!("owning: does not parse from text: {:?}", e)),
            None => {}
        }
        let b = w.to_vec();
        match ValueRef::decode(&b) {
            Ok(x) => {
                ensure!(same_ref(t, &x) && x == w, "borrowing: decodes to {:?}", x);
                ensure!(same(t, &x.to_owned()), "borrowing: decoded value converts to {:?}", x.to_owned());
            }
            Err(e) => return Err(format!("borrowing: encoded as {} which does not decode: {:?}", show(&b), e)),
        }
        let o = w.to_owned();
        ensure!(same(t, &o) && o == v, "to_owned gives {:?}", o);
        let q = v.as_ref();
        ensure!(same_ref(t, &q) && q == w, "as_ref gives {:?}", q);
        ensure!(same(t, &v) && same_ref(t, &w), "encoding or converting changed the value");
        Ok(class(t))
    });
}

fn a_str(b: &[u8]) -> Option<&str> {
    std::str::from_utf8(b).ok()
}

pub fn b02(r: &mut Run) {
    let (n, c) = r.pick((6, 7), (7, 9));
    each_tree(r, n, c, |t| {
        let doc = enc(t);
        let a = to_value(t).to_vec();
        ensure!(a == doc, "owning: encoded as {}", show(&a));
        let b = to_ref(t).to_vec();
        ensure!(b == doc, "borrowing: encoded as {}", show(&b));
        let mut s = b"prefix".to_vec();
        to_value(t).encode(&mut s).map_err(|e| format!("owning: encode failed: {}", e))?;
        ensure!(s.starts_with(b"prefix") && s[6..] == doc[..], "owning: encode wrote {}", show(&s));
        let mut s = vec![];
        to_ref(t).encode(&mut s).map_err(|e| format!("borrowing: encode failed: {}", e))?;
        ensure!(s == doc, "borrowing: encode wrote {}", show(&s));
        // the canonical document survives decode and re-encode
        let x = Value::decode(&doc).map_err(|e| format!("owning: canonical document refused: {:?}", e))?;
        ensure!(x.to_vec() == doc, "owning: re-encoded as {}", show(&x.to_vec()));
        let y = ValueRef::decode(&doc).map_err(|e| format!("borrowing: canonical document refused: {:?}", e))?;
        ensure!(y.to_vec() == doc, "borrowing: re-encoded as {}", show(&y.to_vec()));
        Ok(class(t))
    });
    // values from documents with unordered keys encode canonically too
    r.family("dictionaries written in every order");
    gen::orders(&mut |w| {
        r.case(
            engine::hash(w),
            || show(w),
            || {
                let v = Value::decode(w).map_err(|e| format!("owning: refused: {:?}", e))?;
                let q = ValueRef::decode(w).map_err(|e| format!("borrowing: refused: {:?}", e))?;
                let a = v.to_vec();
                ensure!(a == q.to_vec(), "representations encode differently: {} and {}", show(&a), show(&q.to_vec()));
                let p = parse(&a).ok_or_else(|| format!("encoded as {}, which is malformed", show(&a)))?;
                let P::D(d) = &p.value else { return Err("not a dictionary".into()) };
                ensure!(d.windows(2).all(|x| x[0].0.as_bytes() < x[1].0.as_bytes()), "keys out of order in {}", show(&a));
                ensure!(spells(&p.value, &v), "encoded as {}", show(&a));
                Ok("reordered dictionary")
            },
        )
    });
}

// ------------------------------------------------------------------------ B08

struct Sink<'a, 'b> {
    got: Vec<u8>,
    ch: &'a mut choice::Chooser,
    hard: bool,
    faults: &'b mut u64,
    /// forced answer of the first faulty call: (call, answer)
    first: (usize, u64),
    calls: usize,
}

const ANSWERS: [&str; 7] = ["accepted", "1 byte", "half", "interrupted", "zero", "error", "would block"];

impl io::Write for Sink<'_, '_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let i = self.calls;
        self.calls += 1;
        let c = if i < self.first.0 {
            0
        } else if i == self.first.0 {
            self.first.1
        } else {
            self.ch.choose(ANSWERS.len() as u64)
        };
        if c != 0 {
            *self.faults += 1;
        }
        let n = match c {
            0 => buf.len(),
            1 => 1,
            2 => (buf.len() + 1) / 2,
            3 => return Err(io::ErrorKind::Interrupted.into()),
            4 => {
                self.hard = true;
                return Ok(0);
            }
            5 => {
                self.hard = true;
                return Err(io::Error::new(io::ErrorKind::Other, "sink failed"));
            }
            _ => {
                self.hard = true;
                return Err(io::ErrorKind::WouldBlock.into());
            }
        };
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn b08(r: &mut Run) {
    let s = |x: &str| T::B(x.as_bytes().to_vec());
    let small = vec![
        T::I(0),
        T::I(-123456),
        s(""),
        s("spam and eggs"),
        T::L(vec![]),
        T::D(vec![]),
        T::L(vec![T::I(12), s("abc")]),
        dict(vec![("key".into(), s("value"))]),
        T::L(vec![T::L(vec![s("0123456789")])]),
    ];
    let large = vec![
        dict(vec![("a".into(), T::L(vec![T::I(7), s("xy")])), ("bb".into(), T::I(-1)), ("c".into(), dict(vec![("d".into(), s("efgh"))]))]),
        T::L(vec![s("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"), T::L(vec![T::L(vec![T::I(i64::MIN)]), s("")]), T::D(vec![("\u{e9}".into(), T::L(vec![]))])]),
        s(&"z".repeat(5000)),
        s(&"y".repeat(70000)),
        T::L((0..40).map(|i| T::I(i * 1001)).collect()),
        T::L((0..5000).map(|i| T::I(i)).collect()),
    ];
    let (ds, dl) = r.pick((2u32, 1u32), (3, 2));
    r.note("faults per execution, small values", ds as u64);
    r.note("faults per execution, large values", dl as u64);
    r.note("answers of the sink", ANSWERS.join(", "));
    for (group, dev, name) in [(&small, ds, "small values"), (&large, dl, "large values")] {
        r.family(name);
        for t in group.iter() {
            let doc = enc(t);
            let dev = if doc.len() > 10000 { 1 } else { dev };
            for rep in 0..2 {
                let v = to_value(t);
                // number of writes without faults
                let mut probe = Probe { calls: 0 };
                let _ = v.encode(&mut probe);
                let calls = probe.calls;
                let step = if calls > 3000 { calls / 300 } else { 1 };
                // first fault: none, or answer a at call i
                let mut firsts = vec![(usize::MAX, 0u64)];
                for i in 0..calls.max(doc.len().min(24)) + 2 {
                    if i % step == 0 || i < 40 {
                        for a in 1..ANSWERS.len() as u64 {
                            firsts.push((i, a));
                        }
                    }
                }
                for first in firsts {
                    let mut runs = 0;
                    let mut faults = 0;
                    let key = engine::hash(format!("{} {:?} {}", rep, first, show(&doc)).as_bytes());
                    r.case(
                        key,
                        || {
                            format!(
                                "{} to a sink whose first fault is {} at write {}, and up to {} more faults",
                                short(&doc),
                                ANSWERS[first.1 as usize],
                                first.0,
                                dev - 1
                            )
                        },
                        || {
                            let mut bad = None;
                            choice::explore(Some(dev - 1), |ch| {
                                runs += 1;
                                let mut sink = Sink { got: vec![], ch, hard: false, faults: &mut faults, first, calls: 0 };
                                let res = if rep == 0 { to_value(t).encode(&mut sink) } else { to_ref(t).encode(&mut sink) };
                                let (got, hard) = (sink.got, sink.hard);
                                let answers: Vec<u64> = ch.taken.iter().map(|x| x.0).collect();
                                if !doc.starts_with(&got) {
                                    bad = Some(format!("the sink received {}, which is no prefix of the encoding (later answers {:?})", short(&got), answers));
                                } else if res.is_ok() && got != doc {
                                    bad = Some(format!("success was reported after {} of {} bytes (later answers {:?})", got.len(), doc.len(), answers));
                                } else if hard && res.is_ok() {
                                    bad = Some(format!("a failed write was not reported (later answers {:?})", answers));
                                } else if !hard && res.is_err() {
                                    bad = Some(format!("an error was reported though the sink only delayed: {:?} (later answers {:?})", res, answers));
                                }
                                bad.is_none()
                            });
                            if let Some(b) = bad {
                                return Err(format!("{}: {}", ["owning", "borrowing"][rep], b));
                            }
                            Ok(if first.1 == 0 { "trivial no fault" } else if first.1 < 4 { "starts with a short or interrupted write" } else { "starts with a failed write" })
                        },
                    );
                    r.count("executions of encode", runs);
                    r.count("faults injected", faults);
                }
            }
        }
    }
}

fn short(b: &[u8]) -> String {
    if b.len() <= 80 {
        show(b)
    } else {
        format!("{}.. ({} bytes)", show(&b[..80]), b.len())
    }
}

struct Probe {
    calls: usize,
}
impl io::Write for Probe {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
