use common::{ed25519, mc, random};
use engine::choice::relay;
use engine::lits::Lits;
use engine::{choice, combine, ensure, Run, Verdict};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Runs `f` with the random source answering through `script`.
pub fn scripted<R>(script: impl FnMut(Option<u64>) -> u64 + 'static, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            mc::install(None);
        }
    }
    mc::install(Some(Box::new(script)));
    let _r = Reset;
    f()
}

/// Every answer: the exact weight of every value.
fn small(max: usize) -> Verdict {
    let mut weight: BTreeMap<usize, f64> = BTreeMap::new();
    let mut bad = None;
    // raw 64-bit words, if the code asks for them, are taken from a grid finer
    // than the bound
    let grid = (max as u64 * 8).next_power_of_two().max(64);
    let mut exact = true;
    let mut endless = false;
    choice::explore(None, |ch| {
        let (tx, w) = relay(ch, grid);
        let v = scripted(tx, || random::random_usize(max));
        if w.endless() {
            endless = true;
            return false;
        }
        let (p, was_exact) = w.finish();
        exact &= was_exact;
        if v >= max {
            bad = Some(format!("returned {} for bound {}", v, max));
            return false;
        }
        *weight.entry(v).or_insert(0.0) += p;
        true
    });
    if let Some(b) = bad {
        return Err(b);
    }
    if endless {
        return Ok("trivial asks until it likes the answer");
    }
    for v in 0..max {
        let w = weight.get(&v).copied().unwrap_or(0.0);
        let want = 1.0 / max as f64;
        let tol = if exact { 1e-9 } else { 0.3 };
        ensure!(w > 0.0, "value {} is impossible for bound {}", v, max);
        ensure!((w - want).abs() <= tol * want, "value {} has probability {} for bound {}", v, w, max);
    }
    Ok(if max == 1 { "trivial bound 1" } else { "every value equally likely" })
}

fn large(max: usize) -> Verdict {
    let mut seen = BTreeMap::new();
    let top = max as u64 - 1;
    let mut answers: Vec<u64> = vec![0, 1, 2, top, top - 1, top / 2, top / 2 + 1, top / 3];
    for k in 0..64 {
        if 1u64 << k <= top {
            answers.push(1 << k);
            answers.push((1 << k) - 1);
            answers.push(top - (1 << k) + 1);
        }
    }
    answers.sort_unstable();
    answers.dedup();
    for a in answers {
        let log: Rc<RefCell<Vec<Option<u64>>>> = Rc::default();
        let l = log.clone();
        let v = scripted(
            move |n| {
                l.borrow_mut().push(n);
                match n {
                    Some(n) => a.min(n - 1),
                    None => ((a as u128) << 64).wrapping_div(max as u128) as u64 + 1,
                }
            },
            || random::random_usize(max),
        );
        ensure!(v < max, "returned {} for bound {}", v, max);
        let asked = log.borrow().clone();
        ensure!(!asked.is_empty(), "returned {} for bound {} without asking the random source", v, max);
        if asked.len() == 1 && asked[0].is_some() {
            ensure!(asked[0] == Some(max as u64), "one of {:?} values is chosen for bound {}", asked[0], max);
            if let Some(b) = seen.insert(v, a) {
                return Err(format!("answers {} and {} of the source both give {} for bound {}", a, b, v, max));
            }
        }
    }
    Ok("large bound")
}

fn buffer(n: usize, seed: bool) -> Verdict {
    let fill = |flip: Option<usize>, all: bool, start: u8| -> (Vec<u8>, usize) {
        let count = Rc::new(RefCell::new(0usize));
        let c = count.clone();
        let mut buf = vec![start; n + 32];
        scripted(
            move |k| {
                let mut c = c.borrow_mut();
                let i = *c;
                *c += 1;
                assert!(k.is_none(), "a bounded number was asked for while filling a buffer");
                let w = (i as u64 + 1).wrapping_mul(0x9e37_79b9_7f4a_7c15);
                if all || flip == Some(i) {
                    !w
                } else {
                    w
                }
            },
            || {
                if seed {
                    buf[16..16 + n].copy_from_slice(&ed25519::create_seed());
                } else {
                    random::fill_bytes(&mut buf[16..16 + n]);
                }
            },
        );
        let asked = *count.borrow();
        (buf, asked)
    };
    let (a, asked) = fill(None, false, 0);
    let (b, _) = fill(None, true, 0);
    let (c, _) = fill(None, false, 0xff);
    for i in 0..n {
        ensure!(a[16 + i] == !b[16 + i], "byte {} of {} does not follow the random source", i, n);
        ensure!(a[16 + i] == c[16 + i], "byte {} of {} depends on what the buffer held", i, n);
    }
    ensure!(a[..16] == [0; 16] && a[16 + n..] == [0; 16] && c[..16] == [0xff; 16] && c[16 + n..] == [0xff; 16], "wrote outside the buffer");
    ensure!(asked * 8 >= n, "{} random words for {} bytes", asked, n);
    // every word of a short buffer, some of a long one
    for w in (0..asked).filter(|w| asked < 200 || w % (asked / 16) < 2 || *w + 2 > asked) {
        let (d, _) = fill(Some(w), false, 0);
        let changed = (0..n + 32).filter(|&i| a[i] != d[i]).count();
        ensure!(changed <= 8, "random word {} decides {} bytes", w, changed);
    }
    Ok(if n == 0 { "trivial empty buffer" } else { "buffer" })
}

pub fn c07(r: &mut Run) {
    let n = r.pick(400usize, 3000);
    let lits = Lits::of(&["common/src", "dht/src"]);
    r.note("bounds with every answer explored", n);
    r.family("random index: every answer");
    for max in 1..=n {
        r.case(max as u64, || format!("random_usize({})", max), || small(max));
    }
    r.family("random index: large bounds, edge answers");
    for k in 12..64 {
        for d in 0..5usize {
            let max = (1usize << k) - 2 + d;
            r.case(combine(1, max as u64), || format!("random_usize({})", max), || large(max));
        }
    }
    for max in lits.around(u64::MAX) {
        let max = max as usize;
        if max > n {
            r.case(combine(1, max as u64), || format!("random_usize({})", max), || large(max));
        }
    }
    for max in [usize::MAX, usize::MAX - 1, 10_000_000_000] {
        r.case(combine(1, max as u64), || format!("random_usize({})", max), || large(max));
    }
    r.family("buffers");
    for n in (0..=r.pick(200usize, 600)).chain(lits.around(70_000).into_iter().map(|n| n as usize)).chain([1023, 1024, 1025, 4096, 65535, 65536, 65537]) {
        r.case(combine(2, n as u64), || format!("fill_bytes of {} bytes", n), || buffer(n, false));
    }
    r.case(combine(3, 32), || "create_seed".into(), || buffer(32, true));
}
