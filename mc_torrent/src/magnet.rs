//! M01 to M04: magnet links.

use crate::mem;
use crate::text::base32;
use engine::lits::Lits;
use engine::{combine, ensure, hash, hash_dbg, words, Run, Verdict};
use std::net::SocketAddr;
use torrent_rs::mc::{DownloadPriority, TorrentParams};

fn parse(link: &str) -> Option<TorrentParams> {
    link.parse::<TorrentParams>().ok()
}

/// How the value of a parameter is written into the link.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Spell {
    /// only what must be is escaped
    Plain,
    /// every byte is escaped
    Full,
    /// lower-case escapes, blanks as plus signs
    Lower,
}
pub const SPELLS: [Spell; 3] = [Spell::Plain, Spell::Full, Spell::Lower];

fn spell(v: &str, s: Spell) -> String {
    let mut o = String::new();
    for &b in v.as_bytes() {
        let safe = b.is_ascii_alphanumeric() || b"-._:/[]@,;!*()$".contains(&b);
        match s {
            Spell::Plain if safe => o.push(b as char),
            Spell::Lower if b == b' ' => o.push('+'),
            Spell::Lower if b.is_ascii_alphanumeric() || b == b'.' => o.push(b as char),
            Spell::Lower => o += &format!("%{:02x}", b),
            _ => o += &format!("%{:02X}", b),
        }
    }
    o
}

pub fn link(ps: &[(&str, &str)], s: Spell) -> String {
    let q: Vec<String> = ps.iter().map(|(k, v)| format!("{}={}", k, spell(v, s))).collect();
    format!("magnet:?{}", q.join("&"))
}

pub const IH: &str = "urn:btih:00112233445566778899aabbccddeeff01234567";
const IHB: [u8; 20] = [0, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88, 0x99, 0xaa, 0xbb, 0xcc, 0xdd, 0xee, 0xff, 1, 0x23, 0x45, 0x67];

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ------------------------------------------------------------------------ M01

/// The 20 bytes a topic spells, by the two accepted spellings.
pub fn spelled(v: &str) -> Option<[u8; 20]> {
    let b = v.as_bytes();
    let mut out = [0u8; 20];
    if b.len() == 40 {
        for (i, c) in b.iter().enumerate() {
            out[i / 2] = out[i / 2] << 4 | (*c as char).to_digit(16)? as u8;
        }
        return Some(out);
    }
    if b.len() == 32 {
        let mut bits = 0;
        for (i, c) in b.iter().enumerate() {
            let d = match c.to_ascii_uppercase() {
                c @ b'A'..=b'Z' => c - b'A',
                c @ b'2'..=b'7' => c - b'2' + 26,
                _ => return None,
            };
            for k in 0..5 {
                out[bits / 8] |= (d >> (4 - k) & 1) << (7 - bits % 8);
                bits += 1;
            }
            let _ = i;
        }
        return Some(out);
    }
    None
}

fn judge_topic(l: &str, want: Option<[u8; 20]>) -> Result<(), String> {
    let got = parse(l);
    match (&got, want) {
        (None, None) => Ok(()),
        (Some(p), Some(w)) => {
            let h: Vec<u8> = p.info_hash.to_vec();
            ensure!(h == w, "{} gives {}, not {}", l, hex(&h), hex(&w));
            let printed = p.to_string();
            let again = parse(&printed).ok_or_else(|| format!("{} prints as {}, which does not parse", l, printed))?;
            ensure!(again.info_hash.to_vec() == w, "{} prints as {}, which gives {}", l, printed, hex(&again.info_hash));
            Ok(())
        }
        (Some(p), None) => Err(format!("{} is accepted with info-hash {}", l, hex(&p.info_hash))),
        (None, Some(w)) => Err(format!("{} is refused, but spells {}", l, hex(&w))),
    }
}

fn topic(v: &str) -> Verdict {
    let want = spelled(v);
    let t = format!("urn:btih:{}", v);
    for s in SPELLS {
        judge_topic(&link(&[("xt", &t)], s), want)?;
    }
    judge_topic(&link(&[("dn", "a name"), ("xt", "urn:sha1:ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"), ("xt", &t), ("tr", "http://t/")], Spell::Plain), want)?;
    Ok(if want.is_some() { "info-hash" } else { "refused" })
}

pub fn m01(r: &mut Run) {
    let mut one = |r: &mut Run, v: String| r.case(hash(v.as_bytes()), || format!("topic {:?}", v), || topic(&v));
    let base: [u8; 20] = [0xd7, 0x01, 0xfe, 0x10, 0x9a, 0xbc, 0xde, 0xf0, 0x55, 0xaa, 0x00, 0xff, 0x7f, 0x80, 0x33, 0xcc, 0x01, 0x02, 0x03, 0x04];
    r.family("every byte of the info-hash in both spellings");
    for i in 0..20 {
        for x in 0..=255u8 {
            let mut h = base;
            h[i] = x;
            let b = String::from_utf8(base32(&h)).unwrap();
            for v in [hex(&h), b] {
                let mixed: String = v.chars().enumerate().map(|(i, c)| if i % 3 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect();
                one(r, v.to_uppercase());
                one(r, v.to_lowercase());
                one(r, mixed);
            }
        }
    }
    r.family("every length");
    for n in 0..=90 {
        for c in ["0", "a", "A", "7", "z", "=", "g", "\u{e9}"] {
            one(r, c.repeat(n));
        }
        for v in [hex(&[0x3c; 45]), String::from_utf8(base32(&[0x3c; 60])).unwrap()] {
            one(r, v[..n].to_string());
        }
    }
    r.family("every character replaced");
    let mut chars: Vec<String> = (0..128u8).map(|c| (c as char).to_string()).collect();
    chars.extend(["\u{80}", "\u{e9}", "\u{20ac}", "\u{1f980}", "\u{ff21}", "\u{131}", "\u{212a}"].iter().map(|s| s.to_string()));
    // the digit 1 in base32 is read as I by some, refused by others
    for v in [hex(&base), String::from_utf8(base32(&base)).unwrap()] {
        for i in 0..v.len() {
            for c in &chars {
                if v.len() == 32 && c == "1" {
                    continue;
                }
                // one character for another, and as many bytes as it needs
                one(r, format!("{}{}{}", &v[..i], c, &v[i + 1..]));
                if i + c.len() <= v.len() && c.len() > 1 {
                    one(r, format!("{}{}{}", &v[..i], c, &v[i + c.len()..]));
                }
                one(r, format!("{}{}{}", &v[..i], c, &v[i..]));
            }
        }
    }
    r.family("padding in every pattern of positions");
    let b = String::from_utf8(base32(&base)).unwrap();
    let most = r.pick(3, 4);
    for i in 0..32 {
        for j in i..32 {
            for k in j..if most > 2 { 32 } else { j + 1 } {
                let mut v: Vec<u8> = b.bytes().collect();
                for p in [i, j, k] {
                    v[p] = b'=';
                }
                one(r, String::from_utf8(v).unwrap());
                // everything from i on
                let mut v: Vec<u8> = b.bytes().collect();
                v[i..=j].fill(b'=');
                one(r, String::from_utf8(v).unwrap());
            }
        }
    }
    for m in 0..256u32 {
        // whole groups, group starts and group ends padded
        let mut v: Vec<u8> = b.bytes().collect();
        for g in 0..4 {
            if m >> g & 1 == 1 {
                v[8 * g] = b'=';
            }
            if m >> (4 + g) & 1 == 1 {
                v[8 * g + 7] = b'=';
            }
        }
        one(r, String::from_utf8(v).unwrap());
    }
    r.family("other topics and other schemes");
    let mut plain = |r: &mut Run, l: String, want: Option<[u8; 20]>| {
        r.case(combine(3, hash(l.as_bytes())), || l.clone(), || {
            judge_topic(&l, want)?;
            Ok(if want.is_some() { "info-hash" } else { "refused" })
        });
    };
    let others = ["urn:btmh:1220caf1", "urn:sha1:ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", "", "btih", "urn:", "x", "urn:btih", "urn:tree:tiger:7N5OAMRNGMSSEUE3ORHOKWN4WWIQ5X4EBOOTLJY", "\u{e9}\u{e9}\u{e9}\u{e9}\u{e9}"];
    for a in others {
        plain(r, link(&[("xt", a)], Spell::Plain), None);
        for b in others {
            plain(r, link(&[("xt", a), ("xt", b)], Spell::Full), None);
            plain(r, link(&[("xt", a), ("xt", IH), ("xt", b)], Spell::Plain), Some(IHB));
            plain(r, link(&[("xt", a), ("xt", b), ("xt", IH)], Spell::Lower), Some(IHB));
            plain(r, link(&[("xt", IH), ("xt", a), ("xt", b)], Spell::Full), Some(IHB));
        }
    }
    for k in ["dn", "tr", "ws", "so", "foo", "XT", "x", "t", "xtt"] {
        plain(r, link(&[(k, IH)], Spell::Plain), None);
        plain(r, link(&[(k, "urn:btih:"), ("xt", IH)], Spell::Plain), if k == "so" || k != "x.pe" { Some(IHB) } else { None });
    }
    for scheme in ["http:", "magnets:", "magne:", "ftp://h/", "urn:", "", "file:///", "magnet", "magnet;", "data:"] {
        plain(r, format!("{}?xt={}", scheme, IH), None);
    }
    plain(r, format!("MAGNET:?xt={}", IH), Some(IHB));
    r.family("two places of a topic replaced");
    for v in [hex(&base), String::from_utf8(base32(&base)).unwrap()] {
        for i in 0..v.len() {
            for j in 0..i {
                for x in ["a", "F", "g", "=", "8", "\u{e9}", "7"] {
                    for y in ["0", "Z", "=", "\u{212a}", "b"] {
                        one(r, format!("{}{}{}{}{}", &v[..j], y, &v[j + 1..i], x, &v[i + 1..]));
                    }
                }
            }
        }
    }
    r.family("several BitTorrent topics");
    let b32 = String::from_utf8(base32(&base)).unwrap();
    let topics = [hex(&IHB), hex(&base).to_uppercase(), b32.clone(), b32.to_lowercase(), "abc".into(), "".into(), "g".repeat(40), "8".repeat(32), format!("{}=", &b32[..31]), "0".repeat(39), "0".repeat(64), "=".repeat(32), "\u{e9}".repeat(20), "\u{e9}".repeat(16)];
    words::sequences(topics.len(), 2, r.pick(3, 4), |ix| {
        let ts: Vec<String> = ix.iter().map(|&k| format!("urn:btih:{}", topics[k])).collect();
        let ps: Vec<(&str, &str)> = ts.iter().map(|t| ("xt", t.as_str())).collect();
        let l = link(&ps, if ix.iter().sum::<usize>() % 2 == 0 { Spell::Plain } else { Spell::Full });
        r.case(combine(5, hash(l.as_bytes())), || l.clone(), || {
            let read: Option<Vec<[u8; 20]>> = ix.iter().map(|&k| spelled(&topics[k])).collect();
            let got = parse(&l).map(|p| p.info_hash.to_vec());
            match (read, got) {
                (None, None) => Ok("refused"),
                // which of several good topics counts is unspecified
                (Some(r), Some(g)) if r.iter().any(|h| *h == g[..]) => Ok("info-hash"),
                (_, g) => Err(format!("gives {:?}", g.map(|g| hex(&g)))),
            }
        });
    });
    r.family("other parameters like the topic");
    for v in [hex(&IHB), hex(&IHB).to_uppercase(), String::from_utf8(base32(&IHB)).unwrap(), String::from_utf8(base32(&IHB)).unwrap().to_lowercase()] {
        let topic = format!("urn:btih:{}", v);
        alike(r.pick(2, 3), &topic, |ps| {
            if listed(ps).is_none() {
                return;
            }
            for at in 0..=ps.len() {
                let mut ps = ps.to_vec();
                ps.insert(at, ("xt", &topic));
                for s in [Spell::Plain, Spell::Full] {
                    plain(r, link(&ps, s), Some(IHB));
                }
            }
        });
    }
    r.family("the texts of the sources as parameters");
    let lits = Lits::of(&["src"]).strs();
    for k in &lits {
        let k = k.as_str();
        if k != "xt" {
            plain(r, link(&[(&spell(k, Spell::Full), IH)], Spell::Plain), None);
        }
        for v in &lits {
            let ps = [(k, v.as_str())];
            if k == "so" || listed(&ps).is_none() || v.starts_with("urn:btih:") {
                continue;
            }
            let k = spell(k, Spell::Full);
            plain(r, link(&[(&k, v), ("xt", IH)], Spell::Full), Some(IHB));
            plain(r, link(&[("xt", IH), (&k, v)], Spell::Full), Some(IHB));
        }
    }
    for l in ["", "magnet:", "magnet:?", "magnet:?xt", "magnet:?xt=", "magnet:?=x", "magnet:?&&", "magnet:?dn=a"] {
        plain(r, l.to_string(), None);
    }
}

// ------------------------------------------------------------------------ M02

const MENU: [(&str, &str); 26] = [
    ("tr", "http://a.example/announce"),
    ("tr", "udp://b.example:80"),
    ("tr", ""),
    ("tr", "a b&c=d%41+\u{e9}"),
    ("ws", "http://seed/x"),
    ("ws", "two words"),
    ("x.pe", "1.2.3.4:5"),
    ("x.pe", "255.0.255.0:65535"),
    ("x.pe", "[2001:db8::1]:0"),
    ("x.pe", "1.2.3.4"),
    ("x.pe", "1.2.3.4:65536"),
    ("x.pe", ""),
    ("dht", "node.example:6881"),
    ("dht", "[::1]:1"),
    ("dht", "1.1.1.1:65535"),
    ("dht", "nodewithoutport"),
    ("dht", ""),
    ("dht", "node:99999"),
    ("dht", "node:"),
    ("dht", "no:de:80"),
    ("dn", "first name"),
    ("dn", "\u{1f980}\u{e9}"),
    ("dn", ""),
    ("kt", "key+words"),
    ("xl", "123"),
    ("as", "http://other/"),
];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Seen {
    pub trackers: Vec<String>,
    pub tiers: Vec<isize>,
    pub seeds: Vec<String>,
    pub peers: Vec<SocketAddr>,
    pub nodes: Vec<(String, u16)>,
    pub name: String,
    pub hash: Vec<u8>,
    pub priorities: usize,
}

pub fn seen(p: &TorrentParams) -> Seen {
    Seen {
        trackers: p.trackers.clone(),
        tiers: p.tracker_tiers.clone(),
        seeds: p.url_seeds.clone(),
        peers: p.peers.clone(),
        nodes: p.dht_nodes.clone(),
        name: p.name.clone(),
        hash: p.info_hash.to_vec(),
        priorities: p.file_priorities.len(),
    }
}

/// A port as written: decimal digits within 16 bits.
pub fn port(s: &str) -> Option<u16> {
    if s.is_empty() || !s.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    s.parse().ok()
}
pub fn endpoint(s: &str) -> Option<SocketAddr> {
    let (host, p) = s.rsplit_once(':')?;
    let p = port(p)?;
    if let Some(six) = host.strip_prefix('[').and_then(|h| h.strip_suffix(']')) {
        return Some(SocketAddr::new(six.parse::<std::net::Ipv6Addr>().ok()?.into(), p));
    }
    Some(SocketAddr::new(host.parse::<std::net::Ipv4Addr>().ok()?.into(), p))
}

fn listed(ps: &[(&str, &str)]) -> Option<Seen> {
    let mut s = Seen { hash: IHB.to_vec(), ..Seen::default() };
    for (k, v) in ps {
        match *k {
            "tr" => s.trackers.push(v.to_string()),
            "ws" => s.seeds.push(v.to_string()),
            "dn" => s.name = v.to_string(),
            "x.pe" => s.peers.push(endpoint(v)?),
            "dht" => {
                if let Some((h, p)) = v.rsplit_once(':') {
                    s.nodes.push((h.to_string(), port(p)?));
                }
            }
            _ => {}
        }
    }
    s.tiers = (0..s.trackers.len() as isize).collect();
    Some(s)
}

/// Sequences of parameters that share their values, with the topic too.
fn alike(most: usize, topic: &str, mut f: impl FnMut(&[(&str, &str)])) {
    let keys = ["dn", "tr", "ws", "x.pe", "dht", "kt"];
    let short = topic.rsplit(':').next().unwrap();
    let (up, low) = (short.to_uppercase(), short.to_lowercase());
    let mut values = vec![topic, &up, &low, "1.2.3.4:5", "[2001:db8::1]:7", "host:80", "http://a/", "a", "dn", "xt=1"];
    values.dedup();
    words::sequences(keys.len() * values.len(), 1, 2, |ix| {
        let ps: Vec<(&str, &str)> = ix.iter().map(|k| (keys[k % keys.len()], values[k / keys.len()])).collect();
        f(&ps);
    });
    words::sequences(keys.len(), 3, most, |ix| {
        for a in &values {
            for b in &values {
                for mask in 0..1 << (ix.len() - 1) {
                    if a == b && mask > 0 {
                        continue;
                    }
                    let ps: Vec<(&str, &str)> = ix.iter().enumerate().map(|(i, k)| (keys[*k], if mask >> i & 1 == 1 { *b } else { *a })).collect();
                    f(&ps);
                }
            }
        }
    });
}

fn judge_lists(ps: &[(&str, &str)], spells: &[Spell]) -> Verdict {
    let want = listed(ps);
    let mut before = vec![("xt", IH)];
    before.extend_from_slice(ps);
    let mut after = ps.to_vec();
    after.push(("xt", IH));
    for s in spells {
        for q in [&before, &after] {
            let l = link(q, *s);
            let got = parse(&l).as_ref().map(seen);
            ensure!(got == want, "{} gives {:?}, not {:?}", l, got, want);
        }
    }
    Ok(match want {
        None => "refused",
        Some(_) if ps.is_empty() => "trivial nothing listed",
        Some(_) => "listed",
    })
}

pub fn m02(r: &mut Run) {
    let n = r.pick(4, 5);
    r.note("most parameters besides the topic, whole menu", n);
    r.family("every sequence of parameters");
    words::sequences(MENU.len(), 0, n, |ix| {
        let ps: Vec<(&str, &str)> = ix.iter().map(|&i| MENU[i]).collect();
        r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &SPELLS));
    });
    let few: Vec<(&str, &str)> = [0, 1, 4, 6, 8, 12, 15, 20, 23].iter().map(|&i| MENU[i]).collect();
    let n = r.pick(6, 7);
    r.note("most parameters, without those that are refused", n);
    words::sequences(few.len(), 0, n, |ix| {
        let ps: Vec<(&str, &str)> = ix.iter().map(|&i| few[i]).collect();
        r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &[Spell::Plain]));
    });
    r.family("parameters that share their values");
    alike(r.pick(3, 4), IH, |ps| r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(ps, &[Spell::Plain, Spell::Full])));
    r.family("every character in every text parameter");
    let mut chars: Vec<char> = (0..0x180u32).filter_map(char::from_u32).collect();
    chars.extend(['\u{7ff}', '\u{800}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}']);
    for c in &chars {
        for k in ["tr", "ws", "dn", "kt"] {
            for v in [c.to_string(), format!("a{}b", c), format!("{}{}", c, c)] {
                let ps = [(k, v.as_str()), ("tr", "http://z/")];
                r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &SPELLS));
            }
        }
        let v = format!("h{}st:80", c);
        let ps = [("dht", v.as_str()), ("ws", "w")];
        r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &SPELLS));
    }
    r.family("every port");
    // and numbers that come back into range when cut to a width
    let cut = [17u32, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127].into_iter().flat_map(|e| (0..6).map(move |d| (1u128 << e) + d).chain([(1u128 << e) - 1, (1u128 << e) + 6881]));
    for p in (0..=65535u128).chain([65536, 65537, 99999, 100000, 131072, 4294967295]).chain(cut) {
        let (a, b, c) = (format!("9.8.7.6:{}", p), format!("[fe80::7]:{}", p), format!("host:{}", p));
        for ps in [[("x.pe", a.as_str())], [("x.pe", &b)], [("dht", &c)]] {
            r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &[Spell::Plain]));
        }
    }
    r.family("damaged endpoints and nodes");
    for base in ["1.2.3.4:567", "[12:34::5]:678", "host:678"] {
        for i in 0..=base.len() {
            for c in ["", ":", ".", "[", "]", "-", "x", "9", "\u{e9}"] {
                for cut in 0..2 {
                    if i + cut > base.len() {
                        continue;
                    }
                    let v = format!("{}{}{}", &base[..i], c, &base[i + cut..]);
                    // scope ids, leading zeros and host forms are for the standard library to judge
                    for k in ["x.pe", "dht"] {
                        if k == "x.pe" && endpoint(&v).is_none() && v.parse::<SocketAddr>().is_ok() {
                            continue;
                        }
                        if k == "dht" && v.starts_with(':') {
                            continue;
                        }
                        let ps = [(k, v.as_str())];
                        r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &[Spell::Full]));
                    }
                }
            }
        }
    }
    r.family("other keys");
    let known = ["tr", "ws", "dn", "x.pe", "dht", "xt", "so"];
    let letters: Vec<u8> = (b'a'..=b'z').collect();
    let mut keys: Vec<String> = vec!["".into()];
    words::words(&letters, 1, 2, |w| keys.push(String::from_utf8(w.to_vec()).unwrap()));
    for k in known {
        for f in ["{}.1", "{}.", "{} ", " {}", "x.{}", "{}\u{0}", "{}{}", "{}1"] {
            keys.push(f.replace("{}", k));
        }
        keys.push(k.to_uppercase());
        let mut c = k.chars();
        let f = c.next().unwrap();
        keys.push(format!("{}{}", f.to_uppercase(), c.as_str()));
        keys.push(k[..k.len() - 1].to_string());
    }
    for k in ["x.tm", "kt", "mt", "xs", "as", "xl", "name", "tracker", "peer", "x.pe.1"] {
        keys.push(k.into());
    }
    let lits = Lits::of(&["src"]);
    keys.extend(lits.strs());
    keys.retain(|k| !known.contains(&k.as_str()));
    let values = ["1", "http://x/", "1.2.3.4:5", "urn:btih:00"];
    for k in &keys {
        for v in values {
            let k = spell(k, Spell::Full);
            let ps = [("tr", "http://a/"), (k.as_str(), v), ("tr", "http://b/"), ("ws", "s")];
            r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &[Spell::Full]));
        }
    }
    r.family("the texts of the sources as values");
    let texts = lits.strs();
    for k in known.iter().filter(|k| **k != "xt" && **k != "so") {
        for v in &texts {
            for v in [v.clone(), format!("{}:80", v), format!("a{}b", v), format!("{}{}", v, v)] {
                if *k == "x.pe" && endpoint(&v).is_none() && v.parse::<SocketAddr>().is_ok() || *k == "dht" && v.starts_with(':') {
                    continue;
                }
                let ps = [("tr", "http://a/"), (*k, v.as_str()), (*k, v.as_str()), ("tr", "http://b/"), ("dn", "z"), ("ws", "w")];
                r.case(hash_dbg(&ps), || format!("{:?}", ps), || judge_lists(&ps, &[Spell::Full]));
            }
        }
    }
    r.family("as many of each as the sources name numbers");
    for n in lits.around(r.pick(300, 3000)) {
        for f in [("tr", "http://a/"), ("ws", "s"), ("x.pe", "1.2.3.4:5"), ("dht", "h:1"), ("dn", "n"), ("q", "")] {
            let mut ps = vec![("tr", "http://first/")];
            ps.extend(vec![f; n as usize]);
            ps.push(("ws", "last"));
            r.case(hash_dbg(&ps), || format!("{} times {:?}", n, f), || judge_lists(&ps, &[Spell::Plain]));
        }
        for k in ["tr", "ws", "dn", "dht"] {
            for c in ["a", "\u{e9}", " ", ":"] {
                if k == "dht" && c == ":" && n == 0 {
                    continue;
                }
                let v = format!("{}{}", c.repeat(n as usize), if k == "dht" { "h:9" } else { "" });
                let ps = [("tr", "http://first/"), (k, v.as_str()), ("ws", "last")];
                r.case(hash_dbg(&ps), || format!("{} of {} characters {:?}", k, n, c), || judge_lists(&ps, &[Spell::Full]));
            }
        }
    }
    r.family("unusual writing");
    let at = |s: &str| format!("magnet:?xt={}&{}", IH, s);
    for (l, want) in [
        (at("tr"), vec![("tr", "")]),
        (at("tr&ws=a"), vec![("tr", ""), ("ws", "a")]),
        (at("&&tr=a&&&tr=b&"), vec![("tr", "a"), ("tr", "b")]),
        (at("tr=a=b"), vec![("tr", "a=b")]),
        (at("tr=a#&tr=b"), vec![("tr", "a")]),
        (at("%74r=a&t%72=b&%77%73=c"), vec![("tr", "a"), ("tr", "b"), ("ws", "c")]),
        (at("tr=a?b"), vec![("tr", "a?b")]),
        (at("tr=a/../b;c,d"), vec![("tr", "a/../b;c,d")]),
        (at("ws=%252e&tr=%25"), vec![("ws", "%2e"), ("tr", "%")]),
        (at("dn=%26tr=x&tr=%23"), vec![("dn", "&tr=x"), ("tr", "#")]),
    ] {
        r.case(hash(l.as_bytes()), || l.clone(), || {
            let (got, want) = (parse(&l).as_ref().map(seen), listed(&want));
            ensure!(got == want, "gives {:?}, not {:?}", got, want);
            Ok("listed")
        });
    }
    r.family("many parameters");
    for n in [10usize, 100, 1000] {
        for step in 1..few.len() {
            let ps: Vec<(&str, &str)> = (0..n).map(|i| few[i * step % few.len()]).collect();
            r.case(hash_dbg(&ps), || format!("{} parameters in steps of {}", n, step), || judge_lists(&ps, &[Spell::Lower]));
        }
    }
}

// ------------------------------------------------------------------------ M03

enum Token {
    Files(u64, u64),
    Ignored,
    /// unspecified: ignored, or the whole link is an error
    Unclear,
    /// as before, or it selects the first file
    MaybeZero,
}

fn token(t: &str) -> Token {
    let num = |s: &str| s.bytes().try_fold(0u64, |a, c| a.checked_mul(10)?.checked_add((c - b'0') as u64)).unwrap_or(u64::MAX);
    if t.is_empty() {
        return Token::Ignored;
    }
    let parts: Vec<&str> = t.split('-').collect();
    let huge = parts.iter().any(|p| num(p) > 1 << 62);
    match parts.len() {
        1 if huge => Token::Unclear,
        1 => {
            if num(t) <= 10000 {
                Token::Files(num(t), num(t))
            } else {
                Token::Ignored
            }
        }
        2 if parts[0].is_empty() || parts[1].is_empty() => Token::Ignored,
        2 if huge => Token::Unclear,
        2 => {
            let (a, b) = (num(parts[0]), num(parts[1]));
            if a > b || b > 10000 {
                Token::Ignored
            } else {
                Token::Files(a, b)
            }
        }
        // several dashes: without a start or an end it is a range without one
        _ if parts[0].is_empty() => Token::Ignored,
        // the end is minus zero: a reader of numbers may take it for zero
        3 if parts[1].is_empty() && !parts[2].is_empty() && parts[2].bytes().all(|c| c == b'0') && parts[0].bytes().all(|c| c == b'0') => Token::MaybeZero,
        _ => Token::Unclear,
    }
}

fn selection(lists: &[&str], s: Spell) -> Verdict {
    let mut on = std::collections::BTreeSet::new();
    let mut unclear = false;
    let mut maybe_zero = false;
    for l in lists {
        if !l.chars().all(|c| c.is_ascii_digit() || c == '-' || c == ',') {
            continue;
        }
        for t in l.split(',') {
            match token(t) {
                Token::Files(a, b) => on.extend(a..=b),
                Token::Ignored => {}
                Token::Unclear => unclear = true,
                Token::MaybeZero => maybe_zero = true,
            }
        }
    }
    let mut ps = vec![("xt", IH)];
    ps.extend(lists.iter().map(|l| ("so", *l)));
    ps.push(("dn", "x"));
    let l = link(&ps, s);
    let p = match parse(&l) {
        Some(p) => p,
        None if unclear || maybe_zero => return Ok("unclear entry refused"),
        None => return Err(format!("{} is refused", l)),
    };
    if maybe_zero && matches!(p.file_priorities.first(), Some(DownloadPriority::DefaultPriority)) {
        on.insert(0);
    }
    let want: Vec<bool> = match on.iter().next_back() {
        Some(n) => (0..=*n).map(|i| on.contains(&i)).collect(),
        None => vec![],
    };
    let got = &p.file_priorities;
    ensure!(got.len() == want.len(), "{}: the priority list has {} entries, not {}", l, got.len(), want.len());
    for (i, g) in got.iter().enumerate() {
        let ok = match g {
            DownloadPriority::DefaultPriority => want[i],
            DownloadPriority::DontDownload => !want[i],
            _ => false,
        };
        ensure!(ok, "{}: file {} has priority {:?}", l, i, g);
    }
    ensure!(p.info_hash.to_vec() == IHB && p.name == "x", "{}: the rest of the link is lost", l);
    Ok(if unclear {
        "unclear entry ignored"
    } else if want.is_empty() {
        "nothing selected"
    } else {
        "selected"
    })
}

pub fn m03(r: &mut Run) {
    let mut one = |r: &mut Run, lists: &[&str]| {
        r.case(hash_dbg(&lists), || format!("{:?}", lists), || selection(lists, Spell::Plain));
    };
    let n = r.pick(7, 8);
    r.note("longest list over 0 3 - , and a letter", n);
    r.family("every list over a small alphabet");
    words::words(b"03-,x", 0, n, |w| one(r, &[std::str::from_utf8(w).unwrap()]));
    r.family("every sequence of entries");
    let toks = ["0", "1", "3", "2-4", "4-2", "7-7", "0-9", "10000", "10001", "9998-10000", "9999-10001", "", "-", "-5", "5-", "1-2-3", "99999999999999999999", "2-99999999999999999999", "007"];
    let n = r.pick(4, 5);
    r.note("most entries", n);
    words::sequences(toks.len(), 0, n, |ix| {
        let l = ix.iter().map(|&i| toks[i]).collect::<Vec<_>>().join(",");
        one(r, &[&l]);
    });
    r.family("several lists in one link");
    let lists = ["", "0", "5", "2-3", "1-8", "4,6", "9-", "1,a", "\u{e9}", "3 4", "+1", "6,,6", ",", "10001", "1000-1002"];
    let n = r.pick(4, 5);
    words::sequences(lists.len(), 0, n, |ix| {
        let l: Vec<&str> = ix.iter().map(|&i| lists[i]).collect();
        one(r, &l);
    });
    r.family("every index");
    for i in 0..=10100u32 {
        one(r, &[&i.to_string()]);
    }
    for k in [14, 16, 20, 31, 32, 33, 62] {
        for d in 0..3u64 {
            one(r, &[&((1u64 << k) + d).to_string()]);
            one(r, &[&format!("5,{},7", (1u64 << k) - 1 - d)]);
            one(r, &[&format!("5-{},7", (1u64 << k) + d)]);
        }
    }
    r.family("every number of the sources");
    let lits = Lits::of(&["src"]);
    for n in lits.around(u64::MAX / 4) {
        one(r, &[&n.to_string()]);
        one(r, &["12-15", &format!("3,{},7", n)]);
        for m in [0, 1, 9, n / 2, n.saturating_sub(1), n, n + 1, 10000] {
            one(r, &[&format!("{}-{}", m, n)]);
            one(r, &["3", &format!("{}-{},1", n, m)]);
        }
        if n <= 3000 {
            // that many entries, that many digits, that many separators
            let n = n as usize;
            one(r, &[&(0..n).map(|i| (i * 2 + 1).to_string()).collect::<Vec<_>>().join(",")]);
            one(r, &[&format!("2,{}{},4", "0".repeat(n), 6)]);
            one(r, &[&format!("2{}4-5", ",".repeat(n))]);
            let lists = vec!["4-6"; n];
            one(r, &lists);
            let texts: Vec<String> = (0..n).map(|i| (n - i).to_string()).collect();
            one(r, &texts.iter().map(|s| s.as_str()).collect::<Vec<_>>());
        }
    }
    r.family("every range");
    let mut ends: Vec<u32> = (0..r.pick(24, 60)).collect();
    ends.extend([254, 255, 256, 257, 4095, 4096, 9998, 9999, 10000, 10001, 10002, 70000]);
    for &a in &ends {
        for &b in &ends {
            one(r, &[&format!("{}-{}", a, b)]);
            one(r, &[&format!("1,{}-{},2", a, b)]);
        }
    }
    r.family("every pair of ranges");
    let n = r.pick(9, 10);
    for a in 0..n {
        for b in 0..n {
            for c in 0..n {
                for d in 0..n {
                    one(r, &[&format!("{}-{},{}-{}", a, b, c, d)]);
                }
            }
        }
    }
    r.family("every foreign character");
    for c in (0..0x250u32).filter_map(char::from_u32).chain(['\u{660}', '\u{ff11}', '\u{20ac}', '\u{1f980}']) {
        let (a, b, d) = (format!("{}", c), format!("1,{}", c), format!("1,{}2,4", c));
        r.case(hash_dbg(&a), || format!("lists with {:?}", c), || {
            for s in SPELLS {
                selection(&[&a, "2"], s)?;
                selection(&["0-3", &b], s)?;
                selection(&[&d], s)?;
            }
            Ok("foreign character")
        });
    }
    r.family("long lists");
    for n in [50usize, 500, 3000] {
        for step in [1, 3, 7] {
            let l = (0..n).map(|i| (i * step % 9973).to_string()).collect::<Vec<_>>().join(",");
            let rev = (0..n).rev().map(|i| (i * step % 9973).to_string()).collect::<Vec<_>>().join(",,");
            for l in [l, rev] {
                r.case(hash(l.as_bytes()), || format!("{} entries in steps of {}", n, step), || selection(&[&l], Spell::Plain));
            }
        }
    }
}

// ------------------------------------------------------------------------ M04

fn survives(l: &str) -> Verdict {
    let (p, peak) = mem::peak(|| l.parse::<TorrentParams>());
    // the file selection may take 10001 entries; everything else is bounded by the text
    let most = 200_000 + 200 * l.len();
    ensure!(peak <= most, "{} bytes of memory for {} bytes of text", peak, l.len());
    Ok(match p {
        Ok(p) => {
            let _ = p.to_string();
            "parsed"
        }
        Err(e) => {
            let _ = format!("{:?}", e);
            "refused"
        }
    })
}

fn clip(s: &str) -> String {
    if s.len() < 300 {
        s.to_string()
    } else {
        format!("{}... ({} bytes)", s.chars().take(200).collect::<String>(), s.len())
    }
}

pub fn m04(r: &mut Run) {
    let mut one = |r: &mut Run, l: String| r.case(hash(l.as_bytes()), || format!("{:?}", clip(&l)), || survives(&l));
    let pre = format!("magnet:?xt={}", IH);
    r.family("every short text");
    let ascii: Vec<u8> = (0..128).collect();
    words::words(&ascii, 0, 2, |w| one(r, String::from_utf8(w.to_vec()).unwrap()));
    words::words(b"magnet:?&=%#x", 3, r.pick(5, 6), |w| one(r, String::from_utf8(w.to_vec()).unwrap()));
    for c in (0..0x300u32).filter_map(char::from_u32).chain(['\u{20ac}', '\u{1f980}', '\u{10ffff}']) {
        for f in ["{}", "magnet:{}", "magnet:?{}", "magnet:?xt={}", "magnet:?xt=urn:btih:{}", "{}magnet:?xt=urn:btih:", "magnet{}:?xt=", "magnet:?{}=1", "magnet://{}/?xt=a"] {
            one(r, f.replace("{}", &c.to_string()));
        }
    }
    r.family("every value over small alphabets in every parameter");
    let alph: [(&str, &[&str]); 8] = [
        ("so", &["0", "9", "-", ",", "a", "\u{e9}", "%2d", "%22"]),
        ("x.pe", &["0", ":", ".", "[", "]", "f", "%", "\u{e9}"]),
        ("dht", &["0", ":", "a", "[", "\u{e9}", "%3a", "%ff", "-"]),
        ("xt", &["urn:btih:", "0", "g", "=", "\u{e9}", "%ff", "%00", "urn:"]),
        ("dn", &["a", "%", "+", "\u{1f980}", "%c3", "%28", "&", "="]),
        ("tr", &["a", "%", "+", ":", "/", "&tr=", "&", "#"]),
        ("ws", &["a", "%", "%4", "%41", "&ws=", ";", "\\", "\u{0}"]),
        ("?", &["so", "xt", "=", "&", "-", ",", "1", "urn:btih:"]),
    ];
    let n = r.pick(6, 7);
    r.note("most pieces of a value", n);
    for (k, a) in alph {
        words::sequences(a.len(), 0, n, |ix| {
            let v: String = ix.iter().map(|&i| a[i]).collect();
            one(r, if k == "?" { format!("magnet:?{}", v) } else { format!("{}&{}={}", pre, k, v) });
        });
    }
    r.family("a wide character at every place of a value");
    let m = r.pick(36usize, 64);
    for c in ["\u{e9}", "\u{20ac}", "\u{1f980}", "%c3%a9", "%e2%82%ac", "%e9", "%"] {
        for a in 0..=m {
            for b in 0..=m {
                let t = format!("{}{}{}", "1".repeat(a), c, "2".repeat(b));
                for k in ["so", "x.pe", "dht", "xt", "dn", "tr", "ws"] {
                    one(r, format!("{}&{}={}", pre, k, t));
                }
                one(r, format!("{}&{}=1", pre, t));
                one(r, format!("{}&tr=http://{}/a", pre, t));
                one(r, format!("{}&ws=http://a/{}", pre, t));
                one(r, format!("{}&dht={}:1", pre, t));
                one(r, format!("{}&x.pe=1.2.3.4:{}", pre, t));
                one(r, format!("magnet:?xt=urn:btih:{}", t));
                one(r, format!("magnet:?xt=urn:{}", t));
            }
        }
    }
    r.family("every number of every size");
    for d in 0..45usize {
        for c in ["0", "1", "9"] {
            let n = c.repeat(d);
            for f in ["so={}", "so={}-", "so=-{}", "so={}-{}", "so=1-{}", "so={}-1", "so=1,{},2", "x.pe=1.2.3.4:{}", "x.pe={}:1", "x.pe=[{}::]:1", "dht=a:{}", "dht={}:{}", "so={},,{}-{}-{}"] {
                one(r, format!("{}&{}", pre, f.replace("{}", &n)));
            }
        }
    }
    r.family("the numbers and texts of the sources");
    let lits = Lits::of(&["src"]);
    for n in lits.around(20_000) {
        for k in ["so", "x.pe", "dht", "xt", "dn", "tr", "ws"] {
            for c in ["0", "9", "a", ",", "-", ":", "%c3%a9", "%41", "+", "\u{1f980}", "%"] {
                one(r, format!("{}&{}={}", pre, k, c.repeat(n as usize)));
                one(r, format!("{}&{}={}1", pre, k, c.repeat(n as usize)));
            }
            one(r, format!("{}&{}={}", pre, k, n));
            one(r, format!("{}&{}={}-{}", pre, k, n, n * 2));
            one(r, format!("{}&{}=[{}]:{}", pre, k, n, n));
        }
    }
    for t in lits.strs() {
        let t = spell(&t, Spell::Full);
        for k in ["so", "x.pe", "dht", "xt", "dn", "tr", "ws", &t] {
            for v in [t.clone(), format!("{}1", t), format!("1{}", t), format!("{}:1", t), format!("{}\u{e9}\u{e9}\u{e9}\u{e9}", t), format!("\u{e9}{}", t)] {
                one(r, format!("{}&{}={}", pre, k, v));
            }
        }
    }
    r.family("links of a hundred thousand parts");
    for n in r.pick(vec![100_000usize], vec![10_000, 100_000, 1_000_000]) {
        for part in [
            "&", "=", "&=", "&so", "&so=", "&so=1", "&so=1-3", "&xt=", "&xt=urn:btih:", "&dn=a", "&tr=http://a/b", "&tr.1=http://a/b", "&ws=http://a/b", "&x.pe=1.2.3.4:5", "&x.pe=[::1]:5", "&x.pe=a", "&dht=a:1", "&dht=",
            "&zz=1", "%", "%41", "%c3%a9", "+", ",", "-", ":", "/", "#", "?", "\u{1f980}", "[", "]",
        ] {
            one(r, format!("{}{}", pre, part.repeat(n)));
            one(r, format!("magnet:?{}", part.repeat(n)));
        }
        for key in ["so", "tr", "ws", "dn", "x.pe", "dht", "xt", "zz"] {
            for part in ["1,", "1-2,", "7-", "a", "%", "%41", "%e9", "+", "[", ":", "\u{e9}", "http://", "/", ".", " "] {
                one(r, format!("{}&{}={}", pre, key, part.repeat(n)));
            }
        }
        let so: Vec<String> = (0..n).map(|k| (k % 1000).to_string()).collect();
        one(r, format!("{}&so={}", pre, so.join(",")));
        let so: Vec<String> = (0..n).rev().map(|k| format!("{}-{}", k % 1000, k % 1000 + 1)).collect();
        one(r, format!("{}&so={}", pre, so.join(",")));
    }
    r.family("topics of every length over every kind of character");
    for n in 0..=60 {
        for c in ["0", "f", "g", "=", "A", "1", "8", "\u{e9}", "\u{20ac}", "\u{1f980}", "%ff", "%e9", "%", "-"] {
            one(r, format!("magnet:?xt=urn:btih:{}", c.repeat(n)));
        }
    }
    r.family("damaged topics of the right length");
    for len in [32usize, 40] {
        for i in 0..len {
            for c in ["g", "=", "\u{e9}", "\u{20ac}", "\u{1f980}", "%00", "%80", "z", "1", "-", "/", ":", "@", "`", "G", "{", "[", " ", "+"] {
                for j in [0, len / 2, len - 1] {
                    let width = c.chars().map(|c| c.len_utf8()).sum::<usize>();
                    let width = if c.starts_with('%') { 1 } else { width };
                    let mut v = "a".repeat(i);
                    v += c;
                    while v.len() < len + c.len() - width {
                        v.push(if v.len() == j { '=' } else { '2' });
                    }
                    one(r, format!("magnet:?xt=urn:btih:{}", v));
                }
            }
        }
    }
    r.family("every single escape and pairs of edge bytes");
    for k in ["so", "x.pe", "dht", "xt", "dn", "tr", "ws"] {
        for a in 0..=255u8 {
            one(r, format!("{}&{}=%{:02x}", pre, k, a));
            one(r, format!("{}&{}=a%{:02x}:1", pre, k, a));
            one(r, format!("{}&{}=%{:02x}%80:%{:02x}", pre, k, a, a));
        }
    }
    r.family("long texts");
    for n in [1000usize, 20_000, 200_000] {
        for (k, piece) in [("so", ","), ("so", "-"), ("so", "1,"), ("so", "0-10000,"), ("so", "10001,"), ("so", "3-1,"), ("so", "9"), ("x.pe", "1"), ("dht", ":"), ("dht", "a:"), ("dn", "%41"), ("tr", "a&tr="), ("x.pe", "1.2.3.4:5&x.pe="), ("dht", "a:1&dht="), ("xt", "x&xt="), ("kt", "+"), ("dn", "\u{1f980}")] {
            let m = if piece.starts_with("0-1") { n / 50 } else { n / piece.len() };
            one(r, format!("{}&{}={}", pre, k, piece.repeat(m)));
        }
        one(r, "magnet:?".to_string() + &"&".repeat(n));
        one(r, "m".repeat(n));
        one(r, format!("{}:?xt={}", "magnet".repeat(n / 6), IH));
    }
}
