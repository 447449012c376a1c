//! M05 and M06: refused links, links read into existing parameters.

use crate::magnet::{endpoint, link, port, seen, spelled, Seen, Spell, IH, SPELLS};
use engine::lits::Lits;
use engine::{combine, ensure, hash, hash_dbg, words, Run, Verdict};
use torrent_rs::mc::{parse_magnet_uri, DownloadPriority, Error, TorrentParams};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Fault {
    Url,
    Scheme,
    Topic,
    NoTopic,
    Peer,
    Port,
    Other,
}

fn fault(e: &Error) -> Fault {
    match e {
        Error::InvalidUrl => Fault::Url,
        Error::UnsupportedUrlProtocol => Fault::Scheme,
        Error::InvalidInfoHash => Fault::Topic,
        Error::MissingInfoHash => Fault::NoTopic,
        Error::ParseEndpoint => Fault::Peer,
        Error::ParseInt => Fault::Port,
        _ => Fault::Other,
    }
}

/// The faults of parameters, in their order.
fn faults(ps: &[(&str, &str)]) -> Vec<Fault> {
    let mut v = vec![];
    let mut topic = false;
    for (k, t) in ps {
        match *k {
            "xt" => {
                if let Some(h) = t.strip_prefix("urn:btih:") {
                    topic = true;
                    if spelled(h).is_none() {
                        v.push(Fault::Topic);
                    }
                }
            }
            "x.pe" => {
                if endpoint(t).is_none() {
                    v.push(Fault::Peer);
                }
            }
            "dht" => {
                if let Some((_, p)) = t.rsplit_once(':') {
                    if port(p).is_none() {
                        v.push(Fault::Port);
                    }
                }
            }
            _ => {}
        }
    }
    if !topic {
        v.push(Fault::NoTopic);
    }
    v
}

fn named(l: &str, fs: &[Fault]) -> Result<(), String> {
    match l.parse::<TorrentParams>() {
        Ok(_) => ensure!(fs.is_empty(), "{} is accepted in spite of {:?}", l, fs),
        Err(e) => {
            ensure!(!fs.is_empty(), "{} is refused as {:?}", l, e);
            ensure!(fs.contains(&fault(&e)), "{} has {:?}, but is refused as {:?}", l, fs, e);
        }
    }
    Ok(())
}

const TOPICS: [&str; 6] = [
    IH,
    "urn:btih:AEBAGBAFAYDQQCIKBMGA2DQPCAIREEYU",
    "urn:btih:00112233445566778899aabbccddeeff0123456",
    "urn:btih:00112233445566778899aabbccddeeff0123456g",
    "urn:btih:",
    "urn:sha1:00112233445566778899aabbccddeeff01234567",
];

pub fn m05(r: &mut Run) {
    let n = r.pick(5, 6);
    r.note("most parameters", n);
    let mut menu: Vec<(&str, &str)> = TOPICS.iter().map(|t| ("xt", *t)).collect();
    menu.extend([
        ("x.pe", "1.2.3.4:5"),
        ("x.pe", "1.2.3.4"),
        ("x.pe", "1.2.3.4:70000"),
        ("x.pe", "host:5"),
        ("dht", "host:5"),
        ("dht", "host"),
        ("dht", "host:"),
        ("dht", "host:65536"),
        ("so", "1,x"),
        ("dn", "urn:btih:zz"),
    ]);
    r.family("every sequence of parameters");
    words::sequences(menu.len(), 0, n, |ix| {
        let ps: Vec<(&str, &str)> = ix.iter().map(|&i| menu[i]).collect();
        let fs = faults(&ps);
        r.case(
            hash_dbg(&ps),
            || format!("{:?}", ps),
            || {
                for s in SPELLS {
                    named(&link(&ps, s), &fs)?;
                }
                Ok(if fs.is_empty() { "trivial no fault" } else if fs.len() == 1 { "one fault" } else { "several faults" })
            },
        );
    });
    let th = r.thorough();
    r.family("every value of a parameter");
    let mut vals: Vec<String> = vec![];
    // numbers that come back into range when cut to a width
    let cut = [8u32, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 127].into_iter().flat_map(|e| (0..6).map(move |d| (1u128 << e) + d).chain([(1u128 << e) - 1, (1u128 << e) + 6881, 3 * (1u128 << (e - 1)) + 80]));
    for p in (0..=70u128).chain([80, 443, 6881, 9999, 10000, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 655350]).chain(cut) {
        for h in ["1.2.3.4", "[::1]", "::1", "[1.2.3.4]", "h", "", "1.2.3", "256.1.1.1", "[::g]", "[::1"] {
            vals.push(format!("{}:{}", h, p));
            vals.push(format!("{}:0{}", h, p));
        }
    }
    let alpha: Vec<u8> = b"1:.[]a-".to_vec();
    words::words(&alpha, 0, if th { 6 } else { 5 }, |w| vals.push(String::from_utf8(w.to_vec()).unwrap()));
    for t in Lits::of(&["src"]).strs() {
        vals.push(t.clone());
        vals.push(format!("{}:1", t));
        vals.push(format!("h:{}", t));
    }
    for v in &vals {
        for k in ["x.pe", "dht"] {
            // numbers with a sign are left to the reader of numbers
            if v.contains(":+") {
                continue;
            }
            // leading zeros of an octet are left to the reader of addresses
            let ps = [(k, v.as_str()), ("xt", IH)];
            let fs = faults(&ps);
            r.case(
                hash_dbg(&ps),
                || format!("{:?}", ps),
                || {
                    named(&link(&ps, Spell::Plain), &fs)?;
                    Ok(if fs.is_empty() { "trivial no fault" } else { "one fault" })
                },
            );
        }
    }
    r.family("topics of every length");
    for n in 0..=70usize {
        for c in ["0", "a", "Z", "7", "9", "g", "=", "\u{e9}"] {
            let v = format!("urn:btih:{}", c.repeat(n));
            // the digit 1 and padding in base32 are for another property
            if n == 32 && (c == "=" || c == "9") {
                continue;
            }
            let ps = [("xt", v.as_str())];
            let fs = faults(&ps);
            r.case(hash_dbg(&ps), || v.clone(), || named(&link(&ps, Spell::Plain), &fs).map(|_| if fs.is_empty() { "trivial no fault" } else { "one fault" }));
        }
    }
    r.family("other schemes");
    for s in ["http", "https", "magnet2", "magne", "agnet", "x", "urn", "file", "ftp", "ws", "mailto", "magnet-", "magnet.x", "xmagnet"] {
        for rest in [format!(":?xt={}", IH), "://h/p".to_string(), format!("://h/?xt={}", IH), ":x".to_string(), ":?xt=urn:btih:zz".to_string()] {
            let l = format!("{}{}", s, rest);
            if url::Url::parse(&l).is_err() {
                continue;
            }
            r.case(hash(l.as_bytes()), || l.clone(), || named(&l, &[Fault::Scheme]).map(|_| "other scheme"));
        }
    }
    for l in ["MAGNET", "Magnet", "mAgNeT"] {
        let l = format!("{}:?xt={}", l, IH);
        r.case(hash(l.as_bytes()), || l.clone(), || named(&l, &[]).map(|_| "scheme in capitals"));
    }
    r.family("no link at all");
    let k = if th { 4 } else { 3 };
    let alpha: Vec<u8> = b"am:?/=%.[ 1".to_vec();
    let mut some = vec![];
    words::words(&alpha, 0, k, |w| some.push(String::from_utf8(w.to_vec()).unwrap()));
    let whole = format!("magnet:?xt={}", IH);
    for i in 0..8 {
        some.push(whole[..i].to_string());
        some.push(whole[i..].to_string());
        some.push(format!("{}{}", &whole[..i], &whole[i + 1..]));
        for c in [" ", ":", "/", "%", "\u{e9}", "#", "?", "-"] {
            some.push(format!("{}{}{}", &whole[..i], c, &whole[i..]));
        }
    }
    for l in &some {
        let want = match url::Url::parse(l) {
            Err(_) => vec![Fault::Url],
            Ok(u) if u.scheme() != "magnet" => vec![Fault::Scheme],
            Ok(u) => {
                let ps: Vec<(String, String)> = u.query_pairs().map(|(k, v)| (k.into_owned(), v.into_owned())).collect();
                faults(&ps.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect::<Vec<_>>())
            }
        };
        r.case(hash(l.as_bytes()), || format!("{:?}", l), || named(l, &want).map(|_| if want.is_empty() { "trivial no fault" } else { "one fault" }));
    }
}

// ------------------------------------------------------------------------ M06

/// A link of the menu: parameters, and the bytes of its topic.
type Link = Vec<(&'static str, &'static str)>;

fn add(s: &mut (Seen, Vec<bool>), ps: &[(&str, &str)]) {
    let mut tier = 0;
    for (k, v) in ps {
        match *k {
            "tr" => {
                s.0.trackers.push(v.to_string());
                s.0.tiers.push(tier);
                tier += 1;
            }
            "ws" => s.0.seeds.push(v.to_string()),
            "dn" => s.0.name = v.to_string(),
            "x.pe" => s.0.peers.push(endpoint(v).unwrap()),
            "dht" => {
                let (h, p) = v.rsplit_once(':').unwrap();
                s.0.nodes.push((h.to_string(), port(p).unwrap()));
            }
            "so" => {
                for t in v.split(',') {
                    let (a, b): (usize, usize) = match t.split_once('-') {
                        Some((a, b)) => (a.parse().unwrap(), b.parse().unwrap()),
                        None => (t.parse().unwrap(), t.parse().unwrap()),
                    };
                    if s.1.len() <= b {
                        s.1.resize(b + 1, false);
                    }
                    s.1[a..=b].iter_mut().for_each(|x| *x = true);
                }
            }
            "xt" => s.0.hash = spelled(v.strip_prefix("urn:btih:").unwrap()).unwrap().to_vec(),
            _ => {}
        }
    }
    s.0.priorities = s.1.len();
}

fn holds(p: &TorrentParams, want: &(Seen, Vec<bool>), after: &str) -> Result<(), String> {
    let got = seen(p);
    ensure!(got == want.0, "after {} there are {:?}, not {:?}", after, got, want.0);
    for (i, (g, w)) in p.file_priorities.iter().zip(&want.1).enumerate() {
        let on = matches!(g, DownloadPriority::DefaultPriority);
        let off = matches!(g, DownloadPriority::DontDownload);
        ensure!(if *w { on } else { off }, "after {} file {} has priority {:?}", after, i, g);
    }
    Ok(())
}

fn accumulated(links: &[&Link], s: Spell) -> Verdict {
    let mut p = TorrentParams::default();
    let mut want = (Seen { hash: vec![0; 20], ..Seen::default() }, vec![]);
    for (i, ps) in links.iter().enumerate() {
        let l = link(ps, s);
        parse_magnet_uri(&l, &mut p).map_err(|e| format!("{} is refused as {:?}", l, e))?;
        add(&mut want, ps);
        holds(&p, &want, &format!("{} links, the last {},", i + 1, l))?;
    }
    Ok(if links.len() < 2 { "trivial one link" } else { "several links" })
}

fn on(p: &TorrentParams) -> Result<Vec<bool>, String> {
    p.file_priorities
        .iter()
        .map(|f| match f {
            DownloadPriority::DefaultPriority => Ok(true),
            DownloadPriority::DontDownload => Ok(false),
            o => Err(format!("a file has priority {:?}", o)),
        })
        .collect()
}

/// What a refused link leaves: all that was there, and behind it a beginning of
/// what the link lists.
fn refused_among(links: &[(&Link, bool)]) -> Verdict {
    let mut p = TorrentParams::default();
    let mut want = (Seen { hash: vec![0; 20], ..Seen::default() }, vec![]);
    let mut any = false;
    for (i, (ps, good)) in links.iter().enumerate() {
        let l = link(ps, Spell::Plain);
        let after = format!("{} links, the last {},", i + 1, l);
        let got = parse_magnet_uri(&l, &mut p);
        ensure!(got.is_ok() == *good, "after {} the answer is {:?}", after, got.err());
        if *good {
            add(&mut want, ps);
            holds(&p, &want, &after)?;
            continue;
        }
        any = true;
        let (s, f) = (seen(&p), on(&p)?);
        // everything the link lists, up to whatever is wrong with it
        let mut all = (want.0.clone(), want.1.clone());
        let fine: Vec<(&str, &str)> = ps
            .iter()
            .filter(|(k, v)| match *k {
                "x.pe" => endpoint(v).is_some(),
                "dht" => v.rsplit_once(':').map_or(false, |(_, q)| port(q).is_some()),
                "xt" => v.strip_prefix("urn:btih:").map_or(false, |v| spelled(v).is_some()),
                "so" => v.len() < 8,
                _ => true,
            })
            .cloned()
            .collect();
        add(&mut all, &fine);
        fn between<T: PartialEq + std::fmt::Debug>(what: &str, got: &[T], old: &[T], all: &[T], after: &str) -> Result<(), String> {
            ensure!(got.len() >= old.len() && got[..old.len()] == *old, "after {} the {} are {:?}; before, they were {:?}", after, what, got, old);
            ensure!(got.len() <= all.len() && *got == all[..got.len()], "after {} the {} are {:?}; the links have {:?}", after, what, got, all);
            Ok(())
        }
        between("trackers", &s.trackers, &want.0.trackers, &all.0.trackers, &after)?;
        between("tiers", &s.tiers, &want.0.tiers, &all.0.tiers, &after)?;
        ensure!(s.tiers.len() == s.trackers.len(), "after {} there are {} trackers and {} tiers", after, s.trackers.len(), s.tiers.len());
        between("web seeds", &s.seeds, &want.0.seeds, &all.0.seeds, &after)?;
        between("peers", &s.peers, &want.0.peers, &all.0.peers, &after)?;
        between("nodes", &s.nodes, &want.0.nodes, &all.0.nodes, &after)?;
        let named = |k: &str, v: &str| ps.iter().any(|x| *x == (k, v));
        ensure!(s.name == want.0.name || named("dn", &s.name), "after {} the name is {:?}", after, s.name);
        let topic = |(k, v): &(&str, &str)| *k == "xt" && v.strip_prefix("urn:btih:").and_then(spelled).map_or(false, |h| h[..] == s.hash[..]);
        ensure!(s.hash == want.0.hash || ps.iter().any(topic), "after {} the info-hash is {:?}", after, s.hash);
        let at = |l: &Vec<bool>, i: usize| l.get(i).copied().unwrap_or(false);
        ensure!(f.len() >= want.1.len() && f.len() <= all.1.len(), "after {} there are {} files, not {} to {}", after, f.len(), want.1.len(), all.1.len());
        for i in 0..f.len() {
            ensure!(at(&want.1, i) <= f[i] && f[i] <= at(&all.1, i), "after {} file {} is {}", after, i, if f[i] { "selected" } else { "not selected" });
        }
        want = (s, f);
    }
    Ok(if any { "a refused link among others" } else { "trivial no refused link" })
}

/// A list of trackers without tiers gets tiers when a link adds to it.
fn prefilled(trackers: usize, tiers: usize, ps: &Link) -> Verdict {
    let mut p = TorrentParams::default();
    p.trackers = (0..trackers).map(|i| format!("http://old{}/", i)).collect();
    p.tracker_tiers = (0..tiers).map(|i| i as isize * 2 + 1).collect();
    let old = (p.trackers.clone(), p.tracker_tiers.clone());
    let l = link(ps, Spell::Plain);
    parse_magnet_uri(&l, &mut p).map_err(|e| format!("{} is refused as {:?}", l, e))?;
    let new: Vec<String> = ps.iter().filter(|(k, _)| *k == "tr").map(|(_, v)| v.to_string()).collect();
    let want: Vec<String> = old.0.iter().cloned().chain(new.iter().cloned()).collect();
    ensure!(p.trackers == want, "trackers {:?}, not {:?}", p.trackers, want);
    if new.is_empty() {
        ensure!(p.tracker_tiers == old.1, "no tracker was added, but the tiers became {:?}", p.tracker_tiers);
        return Ok("trivial no tracker in the link");
    }
    ensure!(p.tracker_tiers.len() == p.trackers.len(), "{} tiers for {} trackers", p.tracker_tiers.len(), p.trackers.len());
    let keep = trackers.min(tiers);
    ensure!(p.tracker_tiers[..keep] == old.1[..keep], "the tiers of earlier trackers became {:?}", &p.tracker_tiers[..keep]);
    ensure!(p.tracker_tiers[keep..trackers].iter().all(|t| *t == 0), "earlier trackers without a tier got {:?}", &p.tracker_tiers[keep..trackers]);
    let t: Vec<isize> = (0..new.len() as isize).collect();
    ensure!(p.tracker_tiers[trackers..] == t[..], "the trackers of the link got tiers {:?}", &p.tracker_tiers[trackers..]);
    Ok("trackers added")
}

pub fn m06(r: &mut Run) {
    let n = r.pick(5, 6);
    r.note("most links", n);
    let other = TOPICS[1];
    let menu: Vec<Link> = vec![
        vec![("xt", IH)],
        vec![("xt", other), ("tr", "http://a/")],
        vec![("tr", "http://b/"), ("xt", IH), ("tr", "http://c/")],
        vec![("xt", other), ("dn", "name")],
        vec![("dn", ""), ("xt", IH), ("ws", "http://w/")],
        vec![("so", "0,2"), ("xt", IH)],
        vec![("xt", other), ("so", "1-3")],
        vec![("xt", IH), ("x.pe", "1.2.3.4:5"), ("dht", "h:6"), ("so", "7")],
        vec![("dht", "g:7"), ("x.pe", "[::1]:9"), ("tr", "http://a/"), ("xt", other), ("ws", "x"), ("dn", "n2")],
    ];
    r.family("every sequence of links");
    words::sequences(menu.len(), 0, n, |ix| {
        let ls: Vec<&Link> = ix.iter().map(|&i| &menu[i]).collect();
        r.case(hash_dbg(&ls), || format!("{:?}", ls), || accumulated(&ls, Spell::Plain));
    });
    words::sequences(menu.len(), 1, 2, |ix| {
        let ls: Vec<&Link> = ix.iter().map(|&i| &menu[i]).collect();
        for s in [Spell::Full, Spell::Lower] {
            r.case(combine(s as u64 + 9, hash_dbg(&ls)), || format!("{:?} in spelling {:?}", ls, s), || accumulated(&ls, s));
        }
    });
    r.family("the same link many times");
    for l in &menu {
        for k in [6, 17, 40, 100] {
            let ls = vec![l; k];
            r.case(combine(k as u64, hash_dbg(l)), || format!("{} times {:?}", k, l), || accumulated(&ls, Spell::Plain));
        }
    }
    r.family("refused links in between");
    let bad: Vec<Link> = vec![
        vec![("tr", "http://r/"), ("tr", "http://s/"), ("ws", "v")],
        vec![("so", "1,3"), ("dn", "bad"), ("x.pe", "9.9.9.9:9"), ("dht", "r:1")],
        vec![("xt", other), ("tr", "http://r/"), ("xt", "urn:btih:x"), ("tr", "http://s/"), ("ws", "v")],
        vec![("xt", "urn:btih:x"), ("xt", IH), ("dn", "bad"), ("so", "12")],
        vec![("dn", "bad"), ("tr", "http://r/"), ("xt", other), ("x.pe", "9.9.9.9:9"), ("x.pe", "y"), ("dht", "r:1")],
        vec![("xt", other), ("dht", "r:1"), ("ws", "v"), ("dht", "r:"), ("tr", "http://r/"), ("x.pe", "9.9.9.9:9")],
        vec![("ws", "v"), ("so", "4"), ("so", "99999999999999999999"), ("xt", other), ("tr", "http://r/")],
        vec![],
    ];
    let all: Vec<(&Link, bool)> = menu.iter().map(|l| (l, true)).chain(bad.iter().map(|l| (l, false))).collect();
    words::sequences(all.len(), 1, r.pick(4, 5), |ix| {
        if ix.iter().all(|i| all[*i].1) {
            return;
        }
        let ls: Vec<(&Link, bool)> = ix.iter().map(|&i| all[i]).collect();
        r.case(combine(77, hash_dbg(&ls)), || format!("{:?}", ls), || refused_among(&ls));
    });
    r.family("selections side by side");
    let sel = ["0", "1", "5", "0-1", "2-4", "3-3", "0,4", "2,0", "9", "8-10"];
    for a in sel {
        for b in sel {
            for c in sel {
                let ls: Vec<Link> = [a, b, c].iter().map(|x| vec![("xt", IH), ("so", *x)]).collect();
                let refs: Vec<&Link> = ls.iter().collect();
                r.case(hash_dbg(&ls), || format!("{:?}", ls), || accumulated(&refs, Spell::Plain));
            }
        }
    }
    r.family("trackers with and without tiers beforehand");
    for trackers in 0..=r.pick(6, 12) {
        for tiers in 0..=trackers {
            for l in &menu {
                r.case(
                    combine(combine(trackers as u64 + 1, tiers as u64 + 1), hash_dbg(l)),
                    || format!("{} trackers and {} tiers, then {:?}", trackers, tiers, l),
                    || prefilled(trackers, tiers, l),
                );
            }
        }
    }
}
