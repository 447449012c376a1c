use crate::ids::hex;
use common::sha1::Sha1Hash;
use engine::lits::Lits;
use engine::sha1::reference;
use engine::{combine, ensure, hash, show, Run, Verdict};
use std::net::IpAddr;

fn message(m: &[u8]) -> Verdict {
    let want = reference(m);
    let got = Sha1Hash::update(m);
    ensure!(got[..] == want, "digest {}, not {}", hex(&got), hex(&want));
    ensure!(got.to_string() == hex(&want), "text form {}", got);
    Ok(if m.is_empty() { "trivial empty" } else { "message" })
}

fn slice(b: &[u8]) -> Verdict {
    let r = Sha1Hash::from_bytes(b);
    if b.len() != 20 {
        ensure!(r.is_none(), "accepted {} bytes", b.len());
        return Ok(if b.is_empty() { "trivial empty" } else { "refused slice" });
    }
    let r = r.ok_or("refused 20 bytes")?;
    ensure!(r[..] == *b && r.len() == 20, "holds {}", hex(&r));
    ensure!(r.to_string() == hex(b), "text form {}", r);
    let mut a = [0; 20];
    a.copy_from_slice(b);
    ensure!(Sha1Hash::from(a)[..] == *b && Sha1Hash::from(&a)[..] == *b, "From differs");
    Ok("id")
}

fn address(a: IpAddr) -> Verdict {
    let want = match a {
        IpAddr::V4(a) => reference(&a.octets()),
        IpAddr::V6(a) => reference(&a.octets()),
    };
    let got = Sha1Hash::from_address(&a);
    ensure!(got[..] == want, "digest {}, not {}", hex(&got), hex(&want));
    Ok("address")
}

pub fn c06(r: &mut Run) {
    r.require(hex(&reference(b"abc")) == "a9993e364706816aba3e25717850c26c9cd0d89d", "the reference SHA-1 is wrong");
    r.require(hex(&reference(b"")) == "da39a3ee5e6b4b0d3255bfef95601890afd80709", "the reference SHA-1 is wrong");
    let all: Vec<u8> = (0..=255).collect();
    r.family("every message of up to two bytes");
    engine::words::words(&all, 0, 2, |w| r.case(combine(1, hash(w)), || show(w), || message(w)));
    let n = r.pick(1100usize, 5000);
    let most = r.pick(4_200_000, 70_000_000);
    let lits = Lits::of(&["common/src"]);
    r.note("message lengths", format!("0 to {}, some up to 1000000, and up to {} around every number in the sources", n, most));
    r.family("message lengths");
    let mut lens: Vec<usize> = (0..=n).collect();
    lens.extend([8191, 8192, 65535, 65536, 65537, 100_000, 1_000_000, 1 << 20, (1 << 20) + 1]);
    lens.extend(lits.around(most).into_iter().map(|n| n as usize));
    lens.sort_unstable();
    lens.dedup();
    for n in lens {
        for k in 0..3usize {
            let m: Vec<u8> = (0..n).map(|i| [0, 0xff, (i * 31 + i / 64) as u8][k]).collect();
            r.case(combine(1, hash(&m)), || format!("{} bytes: {}", n, show(&m[..n.min(50)])), || message(&m));
        }
    }
    r.family("every byte in every position of a message of 70");
    for p in 0..70 {
        for v in 0..=255u8 {
            let mut m = [0x61; 70];
            m[p] = v;
            r.case(combine(1, hash(&m)), || show(&m), || message(&m));
        }
    }
    r.family("ids from slices");
    for n in (0..=300usize).chain(lits.around(100_000).into_iter().map(|n| n as usize)) {
        for f in [0u8, 1, 0xff] {
            let b = vec![f; n];
            r.case(combine(2, hash(&b)), || show(&b), || slice(&b));
        }
    }
    for p in 0..20 {
        for v in 0..=255u8 {
            let mut b: Vec<u8> = (100..120).collect();
            b[p] = v;
            r.case(combine(2, hash(&b)), || show(&b), || slice(&b));
        }
    }
    r.family("addresses");
    for p in 0..4 {
        for v in 0..=255u8 {
            for base in [[0u8; 4], [10, 0, 0, 1], [255; 4], [127, 0, 0, 1]] {
                let mut o = base;
                o[p] = v;
                let a = IpAddr::from(o);
                r.case(combine(3, hash(&o)), || a.to_string(), || address(a));
            }
        }
    }
    for n in lits.around(u32::MAX as u64) {
        let a = IpAddr::from((n as u32).to_be_bytes());
        r.case(combine(3, hash(&(n as u32).to_be_bytes())), || a.to_string(), || address(a));
        let mut o = [0; 16];
        o[12..].copy_from_slice(&(n as u32).to_be_bytes());
        for (hi, lo) in [(0, 0), (0, 0xffff), (0x2002, 0), (0x64ff, 0x9b)] {
            o[..2].copy_from_slice(&(hi as u16).to_be_bytes());
            o[10..12].copy_from_slice(&(lo as u16).to_be_bytes());
            let a = IpAddr::from(o);
            r.case(combine(3, hash(&o)), || a.to_string(), || address(a));
        }
    }
    // every pair of leading octets, and addresses that carry an IPv4 address
    for hi in 0..=65535u16 {
        let [x, y] = hi.to_be_bytes();
        for (tail, mid) in [([1u8, 2], 0u8), ([0, 1], 0xff), ([0xa0, 7], 0)] {
            let a = IpAddr::from([x, y, tail[0], tail[1]]);
            r.case(combine(3, hash(&[x, y, tail[0], tail[1]])), || a.to_string(), || address(a));
            let o = [x, y, 10, 1, 2, 3, 0, 0, 0, 0, mid, mid, 10, 0, tail[0], tail[1]];
            let a = IpAddr::from(o);
            r.case(combine(3, hash(&o)), || a.to_string(), || address(a));
        }
    }
    r.family("addresses that carry another");
    let groups: [u16; 12] = [0, 1, 0xffff, 0x64, 0xff9b, 0x2001, 0x2002, 0xfe80, 0x5efe, 0x200, 0x00ff, 0xfe00];
    for v4 in [[10u8, 0, 0, 1], [0; 4], [255; 4], [127, 0, 0, 1], [192, 168, 1, 2]] {
        engine::words::sequences(groups.len(), 0, 4, |ix| {
            // up to four groups of two bytes: in front, and in front of the last four bytes
            for (at, v4at) in [(0, 12), (0, 2), (0, 4), (12 - 2 * ix.len(), 12), (4, 12), (8, 12)] {
                for fill in [0u8, 0xff] {
                    let mut o = [fill; 16];
                    o[v4at..v4at + 4].copy_from_slice(&v4);
                    for (k, g) in ix.iter().enumerate() {
                        let p = at + 2 * k;
                        if p + 2 <= 16 && (p + 2 <= v4at || p >= v4at + 4) {
                            o[p..p + 2].copy_from_slice(&groups[*g].to_be_bytes());
                        }
                    }
                    let a = IpAddr::from(o);
                    r.case(combine(3, hash(&o)), || a.to_string(), || address(a));
                }
            }
        });
    }
    let mapped = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1u8];
    for p in 0..16 {
        for v in 0..=255u8 {
            for base in [[0u8; 16], [0xff; 16], mapped, [0x20, 1, 0xd, 0xb8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]] {
                let mut o = base;
                o[p] = v;
                let a = IpAddr::from(o);
                r.case(combine(3, hash(&o)), || a.to_string(), || address(a));
            }
        }
    }
}
