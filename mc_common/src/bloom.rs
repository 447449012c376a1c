use crate::ids::hex;
use common::bloom_filter::{BloomFilter128, BloomFilter256};
use common::sha1::Sha1Hash;
use engine::{combine, ensure, hash, hash_dbg, Run, Verdict};
use std::collections::{BTreeSet, HashSet, VecDeque};

type Key = [u8; 20];

fn key(i: u16, j: u16) -> Key {
    let mut k = [0xEE; 20];
    k[..2].copy_from_slice(&i.to_le_bytes());
    k[2..4].copy_from_slice(&j.to_le_bytes());
    k
}

fn bits_of(k: &Key, m: usize) -> [usize; 2] {
    [
        u16::from_le_bytes([k[0], k[1]]) as usize % m,
        u16::from_le_bytes([k[2], k[3]]) as usize % m,
    ]
}

type Bits = BTreeSet<usize>;

fn bytes_of(b: &Bits, m: usize) -> Vec<u8> {
    let mut v = vec![0; m / 8];
    for &i in b {
        v[i / 8] |= 1 << (i % 8);
    }
    v
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Set(usize),
    Clear,
    /// rebuild from the exported bytes, through conversion i
    Rebuild(usize),
    Fresh,
}

macro_rules! filter {
    ($ty:ident, $m:expr, $check:ident, $hist:ident, $from:ident) => {
        fn $check(f: &$ty, b: &Bits, probes: &[Key]) -> Result<(), String> {
            let want = bytes_of(b, $m);
            ensure!(f.as_bytes() == &want[..], "holds bits {:?}, not {:?}", list(f.as_bytes()), b);
            for k in probes {
                let is = bits_of(k, $m).iter().all(|i| b.contains(i));
                ensure!(f.find(&Sha1Hash::from(*k)) == is, "find({}) is {} with bits {:?}", hex(k), !is, b);
            }
            ensure!(f.as_bytes() == &want[..], "looking changed the filter");
            Ok(())
        }

        fn $from(bytes: &[u8], how: usize) -> $ty {
            let text = std::str::from_utf8(bytes).ok();
            match (how, text) {
                (0, _) => $ty::from(bytes.to_vec()),
                (1, _) => $ty::from(bytes),
                (3, Some(s)) => $ty::from(s),
                (4, Some(s)) => $ty::from(s.to_string()),
                _ => {
                    let mut a = [0; $m / 8];
                    a.copy_from_slice(bytes);
                    $ty::from(a)
                }
            }
        }

        fn $hist(hist: &[Op], keys: &[Key], probes: &[Key]) -> Verdict {
            let mut f = $ty::new();
            let mut b = Bits::new();
            $check(&f, &b, probes).map_err(|e| format!("new: {}", e))?;
            $check(&$ty::default(), &b, probes).map_err(|e| format!("default: {}", e))?;
            for (n, op) in hist.iter().enumerate() {
                match *op {
                    Op::Set(i) => {
                        f.set(&Sha1Hash::from(keys[i]));
                        b.extend(bits_of(&keys[i], $m));
                    }
                    Op::Clear => {
                        f.clear();
                        b.clear();
                    }
                    Op::Rebuild(how) => f = $from(&f.as_bytes().to_vec(), how),
                    Op::Fresh => {
                        f = $ty::new();
                        b.clear();
                    }
                }
                $check(&f, &b, probes).map_err(|e| format!("after step {}: {}", n, e))?;
            }
            Ok(if b.is_empty() { "trivial empty at the end" } else { "history" })
        }
    };
}

filter!(BloomFilter128, 1024, check128, hist128, from128);
filter!(BloomFilter256, 2048, check256, hist256, from256);

fn list(b: &[u8]) -> Vec<usize> {
    (0..b.len() * 8).filter(|i| b[i / 8] & (1 << (i % 8)) != 0).collect()
}

/// Model successor.
fn step(b: &Bits, op: Op, keys: &[Key], m: usize) -> Bits {
    let mut n = b.clone();
    match op {
        Op::Set(i) => n.extend(bits_of(&keys[i], m)),
        Op::Clear | Op::Fresh => n.clear(),
        Op::Rebuild(_) => {}
    }
    n
}

pub fn c03(r: &mut Run) {
    let keys: Vec<Key> = vec![
        key(0, 0),
        key(0, 1),
        key(1, 0),
        key(7, 8),
        key(255, 256),
        key(256, 1023),
        key(1023, 1024),
        key(1024, 2047),
        key(2047, 2048),
        key(2048, 65535),
        key(4096 + 7, 4096 + 1024 + 8),
        key(300, 301),
    ];
    let mut probes = keys.clone();
    for i in [0u16, 1, 7, 8, 9, 255, 256, 300, 301, 1023, 1024, 1031, 2047, 2048, 65535] {
        for j in [0u16, 1, 7, 8, 256, 1023, 1024, 2047, 65535, 302] {
            probes.push(key(i, j));
        }
    }
    let mut other = key(0, 1);
    other[4..].iter_mut().for_each(|b| *b = 0);
    probes.push(other);
    let mut ops: Vec<Op> = (0..keys.len()).map(Op::Set).collect();
    ops.push(Op::Clear);
    ops.push(Op::Fresh);
    for h in 0..5 {
        ops.push(Op::Rebuild(h));
    }
    let (merged, every) = r.pick((12, 4), (12, 5));
    r.note("operations in a row, histories merged by model state", merged);
    r.note("operations in a row, every history", every);
    r.note("keys inserted", keys.len());
    r.note("keys looked up after every step", probes.len());
    r.tracing(true);
    for m in [1024usize, 2048] {
        r.family(&format!("{} bits: histories merged by model state", m));
        let mut seen: HashSet<u64> = HashSet::new();
        let mut queue = VecDeque::from([(Bits::new(), vec![])]);
        seen.insert(hash_dbg(&Bits::new()));
        while let Some((b, h)) = queue.pop_front() {
            let bh = combine(m as u64, hash_dbg(&b));
            r.state(bh);
            if r.stop() || h.len() == merged {
                continue;
            }
            for (i, &op) in ops.iter().enumerate() {
                r.transition(combine(bh, i as u64));
                let mut hh: Vec<Op> = h.clone();
                hh.push(op);
                let k = combine(m as u64, hash_dbg(&hh));
                r.case(k, || format!("{} bits: {:?}", m, hh), || if m == 1024 { hist128(&hh, &keys, &probes) } else { hist256(&hh, &keys, &probes) });
                let n = step(&b, op, &keys, m);
                if seen.insert(hash_dbg(&n)) {
                    queue.push_back((n, hh));
                }
            }
        }
        r.family(&format!("{} bits: every history", m));
        engine::words::sequences(ops.len(), 2, every, |ix| {
            let hh: Vec<Op> = ix.iter().map(|&i| ops[i]).collect();
            let k = combine(m as u64, hash_dbg(&hh));
            r.case(k, || format!("{} bits: {:?}", m, hh), || if m == 1024 { hist128(&hh, &keys, &probes) } else { hist256(&hh, &keys, &probes) });
        });
    }
    r.tracing(false);
    r.family("every 16-bit number in each half of the key, and in both");
    for m in [1024usize, 2048] {
        for half in 0..4 {
            for i in 0..=65535u16 {
                let k = match half {
                    0 => key(i, 1000),
                    1 => key(1000, i),
                    2 => key(i, i),
                    _ => key(i, !i),
                };
                let hk = combine(m as u64, hash(&k));
                r.case(hk, || format!("{} bits: insert {}", m, hex(&k)), || {
                    let b: Bits = bits_of(&k, m).into_iter().collect();
                    let near = [k, key(i, i), key(i ^ 1, 1000), key(i, 1001), key(i.swap_bytes(), 1000), key(1000, i.swap_bytes()), key(1000, 1000)];
                    if m == 1024 {
                        let mut f = BloomFilter128::new();
                        f.set(&Sha1Hash::from(k));
                        check128(&f, &b, &near)?;
                    } else {
                        let mut f = BloomFilter256::new();
                        f.set(&Sha1Hash::from(k));
                        check256(&f, &b, &near)?;
                    }
                    Ok("one key")
                });
            }
        }
    }
    r.family("the rest of the key does not matter");
    for m in [1024usize, 2048] {
        for p in 4..20 {
            for x in 0..=255u8 {
                for rest in [0u8, 0xff, 0x42] {
                    let mut k = [rest; 20];
                    k[..4].copy_from_slice(&[0x2c, 1, 0x2d, 1]);
                    k[p] = x;
                    r.case(combine(m as u64, hash(&k)), || format!("{} bits: insert {}", m, hex(&k)), || {
                        let b: Bits = bits_of(&k, m).into_iter().collect();
                        let near = [k, key(300, 301), key(301, 300), key(0, 300)];
                        if m == 1024 {
                            let mut f = BloomFilter128::new();
                            f.set(&Sha1Hash::from(k));
                            check128(&f, &b, &near)?;
                        } else {
                            let mut f = BloomFilter256::new();
                            f.set(&Sha1Hash::from(k));
                            check256(&f, &b, &near)?;
                        }
                        Ok("one key")
                    });
                }
            }
        }
    }
    r.family("filters with one bit, and with all bits but one");
    for m in [1024usize, 2048] {
        for i in 0..m {
            for full in [false, true] {
                r.case(combine(m as u64, (i * 2) as u64 + full as u64 + (1 << 40)), || format!("{} bits: {} {}", m, if full { "all but" } else { "only" }, i), || {
                    let b: Bits = if full { (0..m).filter(|j| *j != i).collect() } else { [i].into_iter().collect() };
                    let mut near = vec![key(i as u16, i as u16)];
                    for j in [0usize, 1, 7, 8, i ^ 1, (i + 8) % m, (i + m / 2) % m, m - 1] {
                        near.extend([key(i as u16, j as u16), key(j as u16, i as u16), key(j as u16, j as u16), key((i + m) as u16, j as u16)]);
                    }
                    let bytes = bytes_of(&b, m);
                    for how in 0..5 {
                        if m == 1024 {
                            check128(&from128(&bytes, how), &b, &near)?;
                        } else {
                            check256(&from256(&bytes, how), &b, &near)?;
                        }
                    }
                    Ok("rebuilt filter")
                });
            }
        }
    }
}

// ------------------------------------------------------------------------ C04

fn formula(zeros: usize, m: usize) -> f64 {
    let c = zeros.min(m - 1) as f64;
    let m = m as f64;
    (c / m).ln() / (2.0 * (1.0 - 1.0 / m).ln())
}

fn estimate(bytes: &[u8]) -> f64 {
    if bytes.len() == 128 {
        BloomFilter128::from(bytes).size()
    } else {
        BloomFilter256::from(bytes).size()
    }
}

fn sized(bytes: &[u8]) -> Verdict {
    let m = bytes.len() * 8;
    let ones = list(bytes).len();
    let want = formula(m - ones, m);
    let got = estimate(bytes);
    if ones == m {
        ensure!(got == want, "full filter: estimate {}", got);
        return Ok("full");
    }
    ensure!(got.is_finite(), "estimate {} with {} bits set", got, ones);
    ensure!((got - want).abs() <= 1e-9 * want.abs().max(1.0), "estimate {} with {} bits set, not {}", got, ones, want);
    Ok(if ones == 0 { "trivial empty" } else { "estimate" })
}

/// i-th element of a fixed permutation of 0..m
fn spread(i: usize, m: usize, how: usize) -> usize {
    match how {
        0 => i,
        1 => m - 1 - i,
        2 => (i * 257 + 13) % m,
        3 => (i % 8) * (m / 8) + i / 8,
        _ => (i * 1021 + 7) % m,
    }
}

pub fn c04(r: &mut Run) {
    for m in [1024usize, 2048] {
        r.family(&format!("{} bits: every number of set bits in five arrangements, inserted one by one", m));
        for how in 0..5 {
            for n in 0..=m {
                r.case(combine(m as u64, (how * 10000 + n) as u64), || format!("{} bits: {} set in arrangement {}", m, n, how), || {
                    let b: Bits = (0..n).map(|i| spread(i, m, how)).collect();
                    let bytes = bytes_of(&b, m);
                    let v = sized(&bytes)?;
                    let e = estimate(&bytes);
                    // inserting any key never lowers it
                    for i in [0, 1, n, n + 1, m / 2, m - 1] {
                        for j in [i, i + 1, n * 7 + 3] {
                            let k = key((spread(i % m, m, how)) as u16, (spread(j % m, m, how)) as u16);
                            let s = if m == 1024 {
                                let mut f = BloomFilter128::from(&bytes[..]);
                                f.set(&Sha1Hash::from(k));
                                f.size()
                            } else {
                                let mut f = BloomFilter256::from(&bytes[..]);
                                f.set(&Sha1Hash::from(k));
                                f.size()
                            };
                            ensure!(s >= e, "inserting {} lowers the estimate from {} to {}", hex(&k), e, s);
                        }
                    }
                    Ok(v)
                });
            }
        }
        r.family(&format!("{} bits: every byte value in every position", m));
        for p in 0..m / 8 {
            for v in 0..=255u8 {
                for rest in [0u8, 0xff, 0x5a] {
                    let mut bytes = vec![rest; m / 8];
                    bytes[p] = v;
                    r.case(hash(&bytes), || format!("{} bits: bytes {:02x} but byte {} is {:02x}", m, rest, p, v), || sized(&bytes));
                }
            }
        }
    }
}
