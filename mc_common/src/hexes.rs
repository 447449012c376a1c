use common::hex::{from_hex, hex_to_int, is_hex, to_hex};
use common::sha1::Sha1Hash;
use engine::lits::Lits;
use engine::{combine, ensure, hash, show, words, Run, Verdict};

fn digit(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}

fn encode(b: &[u8]) -> Verdict {
    let mut want = String::new();
    for x in b {
        want.push_str(&format!("{:02x}", x));
    }
    let got = to_hex(b);
    ensure!(got == want, "to_hex gives {:?}", got);
    let mut out = vec![0xcc; b.len() + 5];
    ensure!(from_hex(got.as_bytes(), &mut out).is_some(), "from_hex refuses {:?}", got);
    ensure!(out[..b.len()] == *b, "{:?} decodes to {}", got, show(&out[..b.len()]));
    ensure!(out[b.len()..] == [0xcc; 5], "wrote beyond the decoded bytes");
    if b.len() == 20 {
        let h = Sha1Hash::from_bytes(b).ok_or("from_bytes refuses 20 bytes")?;
        ensure!(h.to_string() == want, "text form {:?}", h.to_string());
    }
    Ok(if b.is_empty() { "trivial empty" } else { "encoded" })
}

fn decode(s: &[u8]) -> Verdict {
    let ds: Option<Vec<u8>> = s.iter().map(|c| digit(*c)).collect();
    ensure!(is_hex(s) == ds.is_some(), "is_hex is {}", is_hex(s));
    let want = match &ds {
        Some(d) if d.len() % 2 == 0 => Some(d.chunks(2).map(|p| p[0] * 16 + p[1]).collect::<Vec<u8>>()),
        _ => None,
    };
    let mut class = "decoded";
    for fill in [0x00u8, 0xff, 0x5a] {
        // exactly the room needed, and more
        for extra in [0, 7] {
            let n = (s.len() + 1) / 2;
            let mut out = vec![fill; n + extra];
            let r = from_hex(s, &mut out);
            ensure!(out[n..].iter().all(|b| *b == fill), "wrote beyond the decoded bytes");
            match &want {
                Some(w) => {
                    ensure!(r.is_some(), "refused");
                    ensure!(out[..n] == w[..], "decodes to {}, not {}", show(&out[..n]), show(w));
                }
                None => {
                    ensure!(r.is_none(), "accepted, decoding to {}", show(&out));
                    class = "refused";
                }
            }
        }
    }
    Ok(if s.is_empty() { "trivial empty" } else { class })
}

pub fn c05(r: &mut Run) {
    let all: Vec<u8> = (0..=255).collect();
    r.family("every character");
    for c in 0..=255u8 {
        r.case(c as u64, || show(&[c]), || {
            ensure!(hex_to_int(c) == digit(c), "hex_to_int is {:?}", hex_to_int(c));
            Ok(if digit(c).is_some() { "digit" } else { "no digit" })
        });
    }
    r.family("encode: every string of up to two bytes");
    words::words(&all, 0, 2, |w| r.case(combine(1, hash(w)), || show(w), || encode(w)));
    r.family("decode: every string of up to two bytes");
    words::words(&all, 0, 2, |w| r.case(combine(2, hash(w)), || show(w), || decode(w)));
    let n = r.pick(6, 7);
    r.note("longest string over the alphabet 0 1 9 a f A F g : G @ ` / \\xff", n);
    r.family("decode: longer strings over the alphabet");
    words::words(b"019afAFg:G@`/\xff", 3, n, |w| r.case(combine(2, hash(w)), || show(w), || decode(w)));
    if r.thorough() {
        r.family("decode: every string of three bytes");
        words::words(&all, 3, 3, |w| r.case(combine(2, hash(w)), || show(w), || decode(w)));
    }
    r.family("lengths");
    let most = r.pick(70_000, 1_100_000);
    let lits = Lits::of(&["common/src"]).around(most);
    r.note("lengths", format!("0 to 300, and up to {} around every number in the sources and power of two", most));
    for n in (0..=300usize).chain(lits.into_iter().map(|n| n as usize)).chain([511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 65537]) {
        let b: Vec<u8> = (0..n).map(|i| (i * 89 + n) as u8).collect();
        r.case(combine(1, hash(&b)), || show(&b), || encode(&b));
        let s: Vec<u8> = (0..n).map(|i| b"0123456789abcdefABCDEF"[(i * 5 + n) % 22]).collect();
        r.case(combine(2, hash(&s)), || show(&s), || decode(&s));
    }
    r.family("every byte in every position of 20");
    for p in 0..20 {
        for v in 0..=255u8 {
            let mut b = [0x4b; 20];
            b[p] = v;
            r.case(combine(1, hash(&b)), || show(&b), || encode(&b));
        }
    }
    r.family("every character in every position of 40");
    for p in 0..40 {
        for v in 0..=255u8 {
            let mut s = *b"0123456789abcdefABCDEF0123456789abcdef00";
            s[p] = v;
            r.case(combine(2, hash(&s)), || show(&s), || decode(&s));
        }
    }
}
