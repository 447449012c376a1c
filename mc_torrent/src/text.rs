//! U01 to U03: base32, percent-decoding, splitting, trimming, numbers.

use engine::lits::Lits;
use engine::{combine, ensure, hash, show, words, Run};
use real::TorrentFlags;
use torrent_rs::mc as real;

// ------------------------------------------------------------------------ U01

const ALPHABET: &[u8; 32] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";

pub fn base32(b: &[u8]) -> Vec<u8> {
    let bit = |i: usize| if i / 8 < b.len() { b[i / 8] >> (7 - i % 8) & 1 } else { 0 };
    (0..(b.len() * 8 + 4) / 5)
        .map(|g| ALPHABET[(0..5).fold(0, |a, k| a * 2 + bit(g * 5 + k) as usize)])
        .collect()
}

fn spellings(b: &[u8]) -> Vec<Vec<u8>> {
    let bare = base32(b);
    let mut v = vec![];
    for pad in [false, true] {
        let mut t = bare.clone();
        if pad {
            while t.len() % 8 != 0 {
                t.push(b'=');
            }
        }
        let one = |t: &[u8]| t.iter().map(|c| if c.eq_ignore_ascii_case(&b'I') { b'1' } else { *c }).collect::<Vec<u8>>();
        let lower = t.to_ascii_lowercase();
        let mixed: Vec<u8> = t.iter().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { *c }).collect();
        v.push(one(&t));
        v.push(one(&lower));
        v.push(lower);
        v.push(mixed);
        v.push(t);
    }
    v
}

pub fn u01(r: &mut Run) {
    let mut one = |r: &mut Run, b: &[u8]| {
        r.case(hash(b), || format!("the base32 spellings of {}", show(b)), || {
            for s in spellings(b) {
                let got = real::base32_decode(&s);
                ensure!(got == b, "{} decodes to {}, not {}", show(&s), show(&got), show(b));
            }
            Ok(if b.is_empty() { "trivial empty" } else { "decoded" })
        });
    };
    r.family("every byte string of up to two bytes");
    for n in 0..=2 {
        words::words(&(0..=255).collect::<Vec<u8>>(), n, n, |w| one(r, w));
    }
    r.family("words over edge bytes");
    let n = r.pick(10, 11);
    words::words(&[0x00, 0xff, 0x5a, 0x84], 3, n, |w| one(r, w));
    r.family("every byte in every position of longer strings");
    for len in 3..=41usize {
        for i in 0..len {
            for x in 0..=255u8 {
                let mut b: Vec<u8> = (0..len).map(|k| (k * 37 + len) as u8).collect();
                b[i] = x;
                one(r, &b);
            }
        }
    }
    r.family("every pair of digits in a group");
    for i in 0..8 {
        for j in 0..i {
            for x in 0..32u64 {
                for y in 0..32u64 {
                    let v = x << (5 * (7 - i)) | y << (5 * (7 - j));
                    let mut b = v.to_be_bytes()[3..].to_vec();
                    one(r, &b);
                    b.extend([1, 2, 3, 4, 5, 6]);
                    one(r, &b);
                }
            }
        }
    }
    r.family("long strings");
    for len in [100usize, 255, 256, 1000, 4096, 65537] {
        one(r, &(0..len).map(|k| (k * 31 + k / 256) as u8).collect::<Vec<_>>());
    }
    let lits = Lits::of(&["src"]);
    for n in lits.around(r.pick(3000, 100_000)).into_iter().chain(0..300) {
        for x in [0u8, 0x5a, 0xff] {
            one(r, &(0..n).map(|k| (k as u8).wrapping_mul(37) ^ x).collect::<Vec<_>>());
            one(r, &vec![x; n as usize]);
        }
    }
    for t in &lits.texts {
        one(r, t);
        one(r, &[&b"abc"[..], t, t].concat());
    }
    r.family("foreign characters");
    let foreign: Vec<u8> = (0..=255u8).filter(|c| !c.is_ascii_alphabetic() && !(b'1'..=b'7').contains(c) && *c != b'=').collect();
    let mut bad = |r: &mut Run, s: &[u8]| {
        r.case(combine(7, hash(s)), || format!("the text {}", show(s)), || {
            let got = real::base32_decode(s);
            ensure!(got.is_empty(), "decodes to {}", show(&got));
            Ok("rejected")
        });
    };
    for len in 1..=33usize {
        for i in 0..len {
            for &x in &foreign {
                let mut s: Vec<u8> = (0..len).map(|k| ALPHABET[(k * 7 + 3) % 32]).collect();
                s[i] = x;
                bad(r, &s);
                // padding before and behind does not excuse it
                if len % 8 == 7 {
                    s.push(b'=');
                    bad(r, &s);
                }
            }
        }
    }
    // one foreign character, far from the end and behind padding
    for n in lits.around(3000) {
        for x in [b'0', b'8', b'9', b' ', 0, 0x80, 0xff, b'-', b'\n', b'@', b'[', b'`', b'{'] {
            for c in [b'A', b'z', b'5', b'='] {
                let mut s = vec![c; n as usize];
                s.push(x);
                bad(r, &s);
                s.extend(vec![c; n as usize]);
                bad(r, &s);
            }
        }
    }
    let n = r.pick(8, 9);
    words::words(b"A7=18", 1, n, |w| {
        if w.contains(&b'8') {
            bad(r, w);
        }
    });
}

// ------------------------------------------------------------------------ U02

fn hexd(c: u8) -> Option<u8> {
    (c as char).to_digit(16).map(|d| d as u8)
}
fn unescaped(s: &[u8]) -> Option<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while i < s.len() {
        match s[i] {
            b'+' => v.push(b' '),
            b'%' => {
                if i + 2 >= s.len() {
                    return None;
                }
                v.push(hexd(s[i + 1])? * 16 + hexd(s[i + 2])?);
                i += 2;
            }
            c => v.push(c),
        }
        i += 1;
    }
    Some(v)
}

pub fn u02(r: &mut Run) {
    let mut one = |r: &mut Run, s: &[u8]| {
        r.case(hash(s), || show(s), || {
            let want = unescaped(s);
            let got = real::unescape_bytes(s).ok();
            ensure!(got == want, "as bytes it is {:?}, not {:?}", got.map(|g| show(&g)), want.as_ref().map(|g| show(g)));
            let text = want.clone().and_then(|w| String::from_utf8(w).ok());
            let got = real::unescape_string(s).ok();
            ensure!(got == text, "as text it is {:?}, not {:?}", got, text);
            Ok(match (&want, &text) {
                _ if s.is_empty() => "trivial empty",
                (None, _) => "rejected",
                (_, None) => "bytes but no text",
                _ => "unescaped",
            })
        });
    };
    let all: Vec<u8> = (0..=255).collect();
    r.family("every byte string of up to two bytes");
    words::words(&all, 0, 2, |w| one(r, w));
    r.family("every two bytes after a percent sign");
    words::words(&all, 2, 2, |w| {
        one(r, &[b'%', w[0], w[1]]);
        one(r, &[b'a', b'%', w[0], w[1], b'+']);
    });
    let n = r.pick(7, 8);
    r.note("longest word over the alphabet %+09afAFgG and others", n);
    r.family("words over the interesting bytes");
    words::words(b"%+09aFgz\xc3", 3, n, |w| one(r, w));
    r.family("every byte escaped, in pairs and threes");
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            one(r, format!("%{:02x}%{:02X}", a, b).as_bytes());
        }
    }
    for a in 0..=255u8 {
        for b in [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff] {
            for c in [0x20, 0x80, 0xbf, 0xff] {
                one(r, format!("%{:02x}%{:02x}%{:02x}", a, b, c).as_bytes());
                one(r, format!("%{:02x}%{:02x}%{:02x}%80", a, b, c).as_bytes());
            }
        }
    }
    r.family("every character, escaped and plain, behind texts of every kind");
    for c in '\0'..=char::MAX {
        let mut buf = [0; 4];
        let plain = c.encode_utf8(&mut buf);
        let escaped: String = plain.bytes().map(|b| format!("%{:02X}", b)).collect();
        for (before, after) in [("", ""), ("%41", "x"), (&"a".repeat(70), ""), (&"%e2+".repeat(90), "+%41")] {
            if !(before.is_empty() || c < '\u{3000}' || ('\u{f000}'..'\u{10010}').contains(&c) || r.thorough()) {
                continue;
            }
            one(r, [before, &escaped, after].concat().as_bytes());
            one(r, [before, plain, after].concat().as_bytes());
            one(r, [before, &escaped, &escaped, after].concat().as_bytes());
        }
    }
    r.family("the numbers and texts of the sources");
    let lits = Lits::of(&["src"]);
    for n in lits.around(20_000) {
        for c in ["a", "+", "%41", "%C3%a9", "\u{e9}", "%ff"] {
            for tail in ["", "%", "%4", "%4G", "%G4", "+", "%41", "%c3", "x"] {
                one(r, (c.repeat(n as usize) + tail).as_bytes());
                one(r, (tail.to_string() + &c.repeat(n as usize)).as_bytes());
            }
        }
    }
    for a in &lits.texts {
        for b in [&b""[..], b"+", b"%", b"%4", b"%41", b"%4g", b"\xff"] {
            one(r, &[a, b].concat());
            one(r, &[b, a].concat());
            one(r, &[a, b, a].concat());
        }
        let mut e = vec![];
        for c in a {
            e.extend(format!("%{:02x}", c).bytes());
        }
        one(r, &e);
    }
    r.family("long texts");
    for n in [20usize, 100, 1000, 5000] {
        for tail in ["", "%", "%4", "%4G", "+", "%41"] {
            one(r, ("x%41+".repeat(n) + tail).as_bytes());
        }
    }
}

// ------------------------------------------------------------------------ U03

fn split(s: &[u8], sep: u8) -> Result<(), String> {
    let (a, b) = real::split_string(s, sep);
    let what = || format!("{} at {} splits into {} and {}", show(s), show(&[sep]), show(a), show(b));
    let cut = a.len() < s.len();
    // nothing lost
    if cut {
        ensure!(s[..a.len()] == *a && s[a.len()] == sep && s[a.len() + 1..] == *b, "{}", what());
    } else {
        ensure!(a == s && b.is_empty(), "{}", what());
    }
    ensure!(s.is_empty() || b.len() < s.len(), "{}: no progress", what());
    let mut from = 0;
    if s.first() == Some(&b'"') && sep != b'"' {
        match s[1..].iter().position(|c| *c == b'"') {
            Some(p) => from = p + 2,
            // where an unterminated quote ends is unspecified
            None => return Ok(()),
        }
    }
    let at = s[from..].iter().position(|c| *c == sep).map_or(s.len(), |p| p + from);
    ensure!(a.len() == at, "{}, the separator is at {}", what(), at);
    Ok(())
}

pub fn u03(r: &mut Run) {
    let trim = |s: &[u8]| -> Result<(), String> {
        let ws = |c: &u8| [32, 9, 13, 10].contains(c);
        let mut want = s;
        while want.first().map_or(false, ws) {
            want = &want[1..];
        }
        while want.last().map_or(false, ws) {
            want = &want[..want.len() - 1];
        }
        let got = real::trim(s);
        ensure!(got == want, "{} trims to {}", show(s), show(got));
        Ok(())
    };
    r.family("splitting");
    let n = r.pick(11, 12);
    r.note("longest text split", n);
    words::words(b"a,\" ", 0, n, |s| {
        r.case(hash(s), || format!("split {}", show(s)), || {
            for sep in [b',', b' ', b'"', b'a', b'z', 0, 255] {
                split(s, sep)?;
            }
            Ok(if s.is_empty() { "trivial empty" } else { "split" })
        });
    });
    for (k, alpha) in [&b"a,\"\\"[..], b",\"'\\", b"\"\"&=,"].iter().enumerate() {
        words::words(alpha, 0, r.pick(8, 9), |s| {
            r.case(combine(20 + k as u64, hash(s)), || format!("split {}", show(s)), || {
                for sep in [b',', b'&', b'"', b'\\', b'\''] {
                    split(s, sep)?;
                }
                Ok(if s.is_empty() { "trivial empty" } else { "split" })
            });
        });
    }
    for c in 0..=255u8 {
        for d in 0..=255u8 {
            r.case(combine(1, (c as u64) << 8 | d as u64), || format!("split texts of {} and {}", show(&[c]), show(&[d])), || {
                for sep in [c, d, b',', b'"'] {
                    for t in [vec![c, d], vec![c, d, c], vec![b'"', c, b'"', d, c], vec![b'"', d, d, b'"', c], vec![b'"', c, b'"', d], vec![b'"', b'x', c, b'x', b'"', d], vec![b'"', c, b'x', b'"', b'x', d]] {
                        split(&t, sep)?;
                    }
                }
                Ok("split")
            });
        }
    }
    for n in [50usize, 500, 5000] {
        for at in [0, 1, n / 2, n - 1, n] {
            r.case(combine(2, (n * 10000 + at) as u64), || format!("split {} bytes at {}", n, at), || {
                let mut t = vec![b'x'; n];
                t.insert(at, b',');
                split(&t, b',')?;
                let mut q = b"\"a,b\"".to_vec();
                q.extend(&t);
                split(&q, b',')?;
                Ok("split")
            });
        }
    }
    let lits = Lits::of(&["src"]);
    for n in lits.around(3000) {
        for c in [b'x', b'"', b',', b' '] {
            r.case(combine(8, n << 8 | c as u64), || format!("split around {} of {}", n, show(&[c])), || {
                let run = vec![c; n as usize];
                for (a, b) in [(&b""[..], &b""[..]), (b"", b",b"), (b"a,", b""), (b"\"", b"\",b,c"), (b"\"a\"", b",b"), (b"\"a,\"", b""), (b"", b"\",\""), (b",", b",")] {
                    for sep in [b',', b'"', b'x', b' '] {
                        split(&[a, &run, b].concat(), sep)?;
                    }
                }
                Ok("split")
            });
        }
    }
    for a in &lits.texts {
        r.case(combine(9, hash(a)), || format!("split and trim {}", show(a)), || {
            for (x, y) in [(&b""[..], &b""[..]), (b"", b",b"), (b"a,", b""), (b"\"", b"\",b,c"), (b" ", b"\t"), (b"\"a,", b"\""), (b"x", b"x")] {
                let s = [x, a, y].concat();
                for sep in [b',', b'"', b'x', b' ', b'&', b'-'] {
                    split(&s, sep)?;
                }
                trim(&s)?;
            }
            Ok("split")
        });
    }
    r.family("trimming");
    let n = r.pick(8, 9);
    r.note("longest text trimmed", n);
    for n in lits.around(3000) {
        for c in b" \t\r\nx\x0b\x0c\0" {
            r.case(combine(10, n << 8 | *c as u64), || format!("trim {} of {}", n, show(&[*c])), || {
                let run = vec![*c; n as usize];
                for (a, b) in [(&b""[..], &b""[..]), (b" ", b"\t"), (b"a", b"a"), (b"a", b"\n"), (b"\r", b"a"), (b"  a ", b" a  ")] {
                    trim(&[a, &run, b].concat())?;
                    trim(&[&run, a, b, &run].concat())?;
                }
                Ok("trimmed")
            });
        }
    }
    words::words(b" \t\r\nab\x0b", 0, n, |s| {
        r.case(combine(3, hash(s)), || format!("trim {}", show(s)), || {
            trim(s)?;
            Ok(if s.is_empty() { "trivial empty" } else { "trimmed" })
        });
    });
    for c in 0..=255u8 {
        for d in 0..=255u8 {
            r.case(combine(4, (c as u64) << 8 | d as u64), || format!("trim texts of {} and {}", show(&[c]), show(&[d])), || {
                for t in [vec![c, d], vec![c, b'x', d], vec![b' ', c, b' ', d, b' '], vec![c, d, b'x', c, d]] {
                    trim(&t)?;
                }
                Ok("trimmed")
            });
        }
    }
    r.family("numbers");
    let n = r.pick(7, 8);
    r.note("longest number text over -+019 and others", n);
    let num = |s: &[u8]| -> Result<&'static str, String> {
        let got = real::parse_int(s).ok();
        let text = std::str::from_utf8(s).ok();
        let digits = |t: &str| !t.is_empty() && t.bytes().all(|c| c.is_ascii_digit());
        let (neg, body) = match text {
            Some(t) if t.starts_with('-') => (true, &t[1..]),
            Some(t) => (false, t),
            None => (false, ""),
        };
        if let Some(t) = text {
            // whether a plus sign is allowed is unspecified, its value is not
            if t.starts_with('+') && digits(&t[1..]) {
                if let Some(g) = got {
                    ensure!(t[1..].trim_start_matches('0').parse().unwrap_or(0) == g, "{} reads as {}", t, g);
                }
                return Ok("plus sign");
            }
        }
        let want: Option<isize> = if digits(body) {
            let mut v: Option<i128> = Some(0);
            for c in body.bytes() {
                v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((c - b'0') as i128));
            }
            v.map(|v| if neg { -v } else { v }).filter(|v| *v >= isize::MIN as i128 && *v <= isize::MAX as i128).map(|v| v as isize)
        } else {
            None
        };
        ensure!(got == want, "{} reads as {:?}, not {:?}", show(s), got, want);
        Ok(if want.is_some() { "number" } else { "no number" })
    };
    words::words(b"-+0195 a\xff", 0, n, |s| {
        r.case(combine(5, hash(s)), || format!("number {}", show(s)), || num(s));
    });
    let mut edges: Vec<i128> = (-300..12000).collect();
    edges.extend(lits.around(u64::MAX).into_iter().flat_map(|n| [n as i128, -(n as i128)]));
    for k in 0..70 {
        for d in -2..=2 {
            edges.push((1i128 << k) + d);
            edges.push(-(1i128 << k) + d);
        }
    }
    for e in edges {
        for z in ["", "0", "00000000000000000000"] {
            let s = if e < 0 { format!("-{}{}", z, -e) } else { format!("{}{}", z, e) };
            r.case(combine(6, hash(s.as_bytes())), || format!("number {}", s), || num(s.as_bytes()));
        }
    }
}

// ------------------------------------------------------------------------ U04

/// The fault that keeps the text from being an endpoint in brackets or at all;
/// `None` where it may be one, which is not implemented.
fn no_endpoint(s: &[u8]) -> Option<&'static str> {
    let white = |c: &u8| b" \t\r\n".contains(c);
    let from = match s.iter().position(|c| !white(c)) {
        Some(p) => p,
        None => return Some("InvalidPort"),
    };
    let s = &s[from..=s.iter().rposition(|c| !white(c)).unwrap()];
    if s[0] != b'[' {
        return None;
    }
    match s.iter().position(|c| *c == b']') {
        None => Some("ExpectedCloseBracketInAddr"),
        // nothing behind the bracket, something else than a colon, no digits
        Some(p) if s.len() <= p + 2 || s[p + 1] != b':' => Some("InvalidPort"),
        _ => None,
    }
}

pub fn u04(r: &mut Run) {
    let one = |r: &mut Run, s: &[u8]| {
        let want = match no_endpoint(s) {
            Some(w) => w,
            None => return,
        };
        r.case(hash(s), || show(s), || {
            let got = real::parse_endpoint(s);
            let e = got.err().ok_or("accepted")?;
            ensure!(format!("{:?}", e) == want, "refused as {:?}, not {}", e, want);
            Ok(want)
        });
    };
    let n = r.pick(7, 8);
    r.note("longest text", n as u64);
    r.family("every text over brackets, colons, white space and digits");
    words::words(b"[]: 1a\t", 0, n, |s| one(r, s));
    r.family("every byte before, in, and behind an endpoint");
    for base in ["[]", "[::1]", "[::1]:", "[::1", "[::1]80", "[", "[1.2.3.4]:", " [::1] ", "[a]]", "[[]"] {
        let b = base.as_bytes();
        for at in 0..=b.len() {
            for c in 0..=255u8 {
                for k in [1, 2, 30] {
                    one(r, &[&b[..at], &vec![c; k][..], &b[at..]].concat());
                }
            }
        }
    }
    r.family("long texts");
    for n in lits_sizes(r) {
        for (a, c, z) in [("[", "1", ""), ("[", "1", "]"), ("[", ":", "]:"), ("", " ", ""), (" ", "\t", " ["), ("[]", "x", ""), ("[", "[", "")] {
            one(r, format!("{}{}{}", a, c.repeat(n), z).as_bytes());
        }
    }
}

fn lits_sizes(r: &Run) -> Vec<usize> {
    let mut v: Vec<usize> = Lits::of(&["src"]).around(r.pick(5000, 100_000)).into_iter().map(|n| n as usize).collect();
    v.extend(0..70);
    v.sort_unstable();
    v.dedup();
    v
}

// ------------------------------------------------------------------------ U05

/// The flags by number of the bit.
fn flags() -> Vec<(TorrentFlags, u32)> {
    use TorrentFlags as F;
    let low = [
        F::SEED_MODE,
        F::UPLOAD_MODE,
        F::SHARE_MODE,
        F::APPLY_IP_FILTER,
        F::PAUSED,
        F::AUTO_MANAGED,
        F::DUPLICATE_IS_ERROR,
        F::UPDATE_SUBSCRIBE,
        F::SUPER_SEEDING,
        F::SEQUENTIAL_DOWNLOAD,
        F::STOP_WHEN_READY,
        F::OVERRIDE_TRACKERS,
        F::OVERRIDE_WEB_SEEDS,
        F::NEED_SAVE_RESUME,
    ];
    let high = [F::DISABLE_DHT, F::DISABLE_LSD, F::DISABLE_PEX];
    low.iter().cloned().zip(0..).chain(high.iter().cloned().zip(19..)).collect()
}

pub fn u05(r: &mut Run) {
    use TorrentFlags as F;
    let all = flags();
    let every = all.iter().fold(0u64, |m, f| m | 1 << f.1);
    r.family("flags of new torrents");
    r.case(1, || "the default".into(), || {
        let want = [3, 4, 5, 7, 13].iter().fold(0u64, |m, b| m | 1 << b);
        ensure!(F::default().bits() == want, "the default flags are {:b}, not {:b}", F::default().bits(), want);
        ensure!(F::all().bits() == every, "all flags are {:b}, not {:b}", F::all().bits(), every);
        Ok("flags")
    });
    r.family("every number of one or two bits");
    for a in 0..64 {
        for b in 0..64 {
            let n = 1u64 << a | 1u64 << b;
            r.case(combine(2, n), || format!("{:b}", n), || {
                ensure!(F::from_bits(n).map(|f| f.bits()) == Some(n).filter(|n| n & !every == 0), "the number gives {:?}", F::from_bits(n));
                ensure!(F::from_bits_truncate(n).bits() == n & every, "the number gives {:?}", F::from_bits_truncate(n));
                Ok("flags")
            });
        }
    }
    r.family("every set of flags");
    for m in 0..1u32 << all.len() {
        r.case(combine(3, m as u64), || format!("set {:b}", m), || {
            let bits = all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).fold(0u64, |n, (_, f)| n | 1 << f.1);
            let mut f = F::empty();
            for (i, x) in all.iter().enumerate() {
                if m >> i & 1 == 1 {
                    f |= x.0.clone();
                }
            }
            ensure!(f.bits() == bits, "the set is {:b}, not {:b}", f.bits(), bits);
            ensure!(F::from_bits(bits) == Some(f), "read from its number the set is {:?}", F::from_bits(bits));
            ensure!((!f).bits() == every & !bits, "the other flags are {:b}", (!f).bits());
            for (i, (x, b)) in all.iter().enumerate() {
                let has = m >> i & 1 == 1;
                ensure!(f.contains(*x) == has, "flag {} is {}", b, !has);
                let (mut add, mut less, mut turn) = (f, f, f);
                add.insert(*x);
                less.remove(*x);
                turn.toggle(*x);
                let want = [bits | 1 << b, bits & !(1 << b), bits ^ 1 << b];
                ensure!([add.bits(), less.bits(), turn.bits()] == want, "flag {} added, removed, toggled: {:b} {:b} {:b}", b, add.bits(), less.bits(), turn.bits());
            }
            Ok(if m == 0 { "trivial none" } else { "flags" })
        });
    }
}
