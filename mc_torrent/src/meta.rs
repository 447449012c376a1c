//! T01 to T04: torrent files.

use crate::mem;
use engine::lits::Lits;
use engine::{combine, ensure, hash, hash_dbg, show, words, Run, Verdict};
use std::path::{Component, Path};
use torrent_rs::mc::Torrent;

// ------------------------------------------------------------ building files

fn s(b: &[u8]) -> Vec<u8> {
    let mut v = format!("{}:", b.len()).into_bytes();
    v.extend_from_slice(b);
    v
}
fn i(n: i64) -> Vec<u8> {
    format!("i{}e", n).into_bytes()
}
fn l(es: &[Vec<u8>]) -> Vec<u8> {
    let mut v = b"l".to_vec();
    es.iter().for_each(|e| v.extend_from_slice(e));
    v.push(b'e');
    v
}
fn d(es: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut es = es.to_vec();
    es.sort_by(|a, b| a.0.cmp(b.0));
    unsorted(&es)
}
fn unsorted(es: &[(&str, Vec<u8>)]) -> Vec<u8> {
    let mut v = b"d".to_vec();
    for (k, e) in es {
        v.extend(s(k.as_bytes()));
        v.extend_from_slice(e);
    }
    v.push(b'e');
    v
}

type View = (String, Option<String>, usize, Vec<u8>, bool, Vec<(std::path::PathBuf, usize)>);

fn clip(b: &[u8]) -> String {
    if b.len() < 600 {
        show(b)
    } else {
        format!("{}... ({} bytes)", show(&b[..300]), b.len())
    }
}

// ------------------------------------------------------------------------ T01

/// A field of the document: how it is written (nothing: absent) and what it
/// means (nothing: makes the document invalid).
#[derive(Clone, Debug)]
struct Field<T> {
    text: Option<Vec<u8>>,
    means: Option<T>,
}
fn good<T>(text: Vec<u8>, t: T) -> Field<T> {
    Field { text: Some(text), means: Some(t) }
}
fn wrong<T>(text: Vec<u8>) -> Field<T> {
    Field { text: Some(text), means: None }
}
fn absent<T>() -> Field<T> {
    Field { text: None, means: None }
}

fn announces() -> Vec<Field<String>> {
    let mut v: Vec<Field<String>> = ["http://t.example/announce", "udp://tracker.example:6969/announce", "https://a.b/c?d=e&f=g%20h"]
        .iter()
        .map(|u| good(s(u.as_bytes()), u.to_string()))
        .collect();
    v.push(absent());
    for w in [&b""[..], b"not a url", b"/relative", b"http://", b"://x", b"http://\xff\xfe/", b"http://a b/"] {
        v.push(wrong(s(w)));
    }
    v.push(wrong(i(3)));
    v.push(wrong(l(&[s(b"http://t.example/announce")])));
    v.push(wrong(d(&[])));
    v
}
fn names() -> Vec<Field<String>> {
    let mut v: Vec<Field<String>> = ["name", "a name.ext", "\u{e9}\u{1f980}", "x"].iter().map(|u| good(s(u.as_bytes()), u.to_string())).collect();
    v.push(absent());
    v.push(wrong(s(b"\xff\xc3")));
    v.push(wrong(i(1)));
    v.push(wrong(l(&[s(b"name")])));
    v
}
fn sizes() -> Vec<Field<usize>> {
    let mut v: Vec<Field<usize>> = [1i64, 16384, 1 << 31, 1 << 32, i64::MAX].iter().map(|n| good(i(*n), *n as usize)).collect();
    v.push(absent());
    for n in [-1, -2, i64::MIN, -(1 << 32)] {
        v.push(wrong(i(n)));
    }
    v.push(wrong(s(b"16384")));
    v.push(wrong(l(&[i(1)])));
    v
}
fn lengths() -> Vec<Field<usize>> {
    let mut v = sizes();
    v.push(good(i(0), 0));
    v
}
fn hashes() -> Vec<Field<Vec<u8>>> {
    let mut v: Vec<Field<Vec<u8>>> = vec![];
    for n in [0usize, 1, 10, 19, 20, 21, 39, 40, 41, 60, 100, 2000] {
        let b: Vec<u8> = (0..n).map(|k| (k * 13 + n) as u8).collect();
        if n % 20 == 0 {
            v.push(good(s(&b), b));
        } else {
            v.push(wrong(s(&b)));
        }
    }
    v.push(absent());
    v.push(wrong(i(20)));
    v.push(wrong(l(&[s(&[1; 20])])));
    v
}

type File = (String, usize);

/// Entries of the file list.
fn files() -> Vec<Field<File>> {
    let f = |len: Option<Vec<u8>>, path: Option<Vec<u8>>| {
        let mut e = vec![("md5sum", s(b"x"))];
        if let Some(x) = len {
            e.push(("length", x));
        }
        if let Some(x) = path {
            e.push(("path", x));
        }
        d(&e)
    };
    let p = |ps: &[&str]| Some(l(&ps.iter().map(|x| s(x.as_bytes())).collect::<Vec<_>>()));
    vec![
        good(f(Some(i(7)), p(&["a"])), ("a".into(), 7)),
        good(f(Some(i(0)), p(&["dir", "b.txt"])), ("dir/b.txt".into(), 0)),
        good(f(Some(i(i64::MAX)), p(&["x", "y", "z z"])), ("x/y/z z".into(), i64::MAX as usize)),
        good(f(Some(i(7)), p(&["a"])), ("a".into(), 7)),
        wrong(f(Some(i(-1)), p(&["a"]))),
        wrong(f(Some(i(i64::MIN)), p(&["a"]))),
        wrong(f(Some(s(b"7")), p(&["a"]))),
        wrong(f(None, p(&["a"]))),
        wrong(f(Some(i(7)), None)),
        wrong(f(Some(i(7)), Some(s(b"a")))),
        wrong(f(Some(i(7)), Some(i(1)))),
        wrong(f(Some(i(7)), Some(l(&[i(1)])))),
        wrong(f(Some(i(7)), Some(l(&[s(b"a"), l(&[])])))),
        wrong(f(Some(i(7)), Some(l(&[s(b"a"), s(b"\xff")])))),
        wrong(i(7)),
        wrong(s(b"a")),
        wrong(l(&[s(b"a")])),
    ]
}

#[derive(Clone)]
struct Kind {
    length: Option<Vec<u8>>,
    files: Option<Vec<u8>>,
    /// single, files
    means: Option<(bool, Vec<File>)>,
}

fn kinds(max: usize) -> Vec<Kind> {
    let mut v = vec![];
    for x in lengths() {
        v.push(Kind { length: x.text, files: None, means: x.means.map(|n| (true, vec![(String::new(), n)])) });
    }
    let fs = files();
    words::sequences(fs.len(), 1, max, |ix| {
        let text = l(&ix.iter().map(|&k| fs[k].text.clone().unwrap()).collect::<Vec<_>>());
        let means: Option<Vec<File>> = ix.iter().map(|&k| fs[k].means.clone()).collect();
        v.push(Kind { length: None, files: Some(text), means: means.map(|m| (false, m)) });
    });
    let one = l(&[fs[0].text.clone().unwrap()]);
    for t in [one.clone(), l(&[]), i(1), s(b"")] {
        v.push(Kind { length: Some(i(5)), files: Some(t), means: None });
    }
    for t in [i(1), s(b"x"), d(&[]), fs[0].text.clone().unwrap()] {
        v.push(Kind { length: None, files: Some(t), means: None });
    }
    v.push(Kind { length: Some(s(b"5")), files: Some(one), means: None });
    v
}

struct Doc<'a> {
    announce: &'a Field<String>,
    name: &'a Field<String>,
    size: &'a Field<usize>,
    hashes: &'a Field<Vec<u8>>,
    kind: &'a Kind,
}

/// Extra entries that must not matter.
fn noise() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("", i(1)),
        ("announce-list", l(&[l(&[s(b"http://other/")])])),
        ("comment", s(b"\xff")),
        ("creation date", i(-1)),
        ("nodes", d(&[("name", s(b".."))])),
        ("zz", l(&[])),
    ]
}

impl Doc<'_> {
    fn bytes(&self, extra: bool, order: u32) -> Vec<u8> {
        let mut info = if extra { noise() } else { vec![] };
        let mut put = |k, t: &Option<Vec<u8>>| {
            if let Some(t) = t {
                info.push((k, t.clone()));
            }
        };
        put("name", &self.name.text);
        put("piece length", &self.size.text);
        put("pieces", &self.hashes.text);
        put("length", &self.kind.length);
        put("files", &self.kind.files);
        let mut top = if extra { noise() } else { vec![] };
        if let Some(t) = &self.announce.text {
            top.push(("announce", t.clone()));
        }
        match order {
            0 => {
                top.push(("info", d(&info)));
                d(&top)
            }
            _ => {
                info.reverse();
                let k = order as usize % info.len().max(1);
                info.rotate_left(k);
                top.insert(0, ("info", unsorted(&info)));
                unsorted(&top)
            }
        }
    }
    fn means(&self) -> Option<View> {
        let name = self.name.means.clone()?;
        let (single, files) = self.kind.means.clone()?;
        let files = files.into_iter().map(|(p, n)| (if single { name.clone().into() } else { p.into() }, n)).collect();
        Some((self.announce.means.clone()?, Some(name), self.size.means?, self.hashes.means.clone()?, single, files))
    }
}

fn extracted(bytes: &[u8], want: &Option<View>) -> Verdict {
    let got = Torrent::mc_parse(bytes).map(|t| t.mc_view());
    ensure!(got == *want, "read as {:?}, not {:?}", got, want);
    Ok(if want.is_some() { "accepted" } else { "refused" })
}

pub fn t01(r: &mut Run) {
    let (an, na, si, ha) = (announces(), names(), sizes(), hashes());
    let max = r.pick(4, 5);
    r.note("most files", max);
    let small = kinds(1);
    let big = kinds(max);
    let mut one = |r: &mut Run, doc: &Doc, extra: bool, order: u32| {
        let b = doc.bytes(extra, order);
        r.case(hash(&b), || clip(&b), || extracted(&b, &doc.means()));
    };
    r.family("every combination of fields");
    for announce in &an {
        for name in &na {
            for size in &si {
                for hashes in &ha {
                    for kind in &small {
                        if !r.thorough() && [announce.means.is_none(), name.means.is_none(), size.means.is_none(), hashes.means.is_none(), kind.means.is_none()].iter().filter(|b| **b).count() > 2 {
                            continue;
                        }
                        one(r, &Doc { announce, name, size, hashes, kind }, false, 0);
                    }
                }
            }
        }
    }
    r.family("every list of files");
    for kind in &big {
        for extra in [false, true] {
            one(r, &Doc { announce: &an[0], name: &na[0], size: &si[1], hashes: &ha[4], kind }, extra, 0);
        }
    }
    r.family("names, paths and sizes that are alike");
    alike(|what, b, view| r.case(hash(&b), || what, || extracted(&b, &Some(view))));
    r.family("any order of entries, unknown entries");
    for kind in &small {
        for order in 0..12 {
            for extra in [false, true] {
                for (a, n, z, h) in [(0, 0, 0, 0), (1, 2, 1, 4), (0, 5, 1, 4), (4, 0, 0, 4), (0, 0, 6, 4), (0, 0, 0, 3)] {
                    one(r, &Doc { announce: &an[a], name: &na[n], size: &si[z], hashes: &ha[h], kind }, extra, order);
                }
            }
        }
    }
    r.family("piece hashes of every size, every length of one byte");
    for n in 0..=700usize {
        let b: Vec<u8> = (0..n).map(|k| (k * 7) as u8).collect();
        let f = if n % 20 == 0 { good(s(&b), b) } else { wrong(s(&b)) };
        one(r, &Doc { announce: &an[0], name: &na[0], size: &si[0], hashes: &f, kind: &small[0] }, false, 0);
        let k = Kind { length: Some(i(n as i64)), files: None, means: Some((true, vec![(String::new(), n)])) };
        one(r, &Doc { announce: &an[0], name: &na[0], size: &good(i(n as i64 + 1), n + 1), hashes: &ha[0], kind: &k }, false, 0);
    }
    r.family("entries with other keys");
    with_other(|what, b, view| r.case(hash(&b), || format!("{}: {}", what, clip(&b)), || extracted(&b, &Some(view))));
    r.family("two entries with other keys");
    with_two_others(r.thorough(), |what, b, view| r.case(hash(&b), || format!("{}: {}", what, clip(&b)), || extracted(&b, &Some(view))));
    r.family("as much as the sources name numbers");
    for n in Lits::of(&["src"]).around(i64::MAX as u64).into_iter().chain(0..r.pick(70, 700)).chain([1000, 1025, 5001, 10_001, 50_001, 65_537, 100_001, 250_000]) {
        sized(n as usize, |what, b, view| r.case(hash(&b), || format!("{} {}: {}", n, what, clip(&b)), || extracted(&b, &view)));
    }
    r.family("pairs of lengths");
    let vals = [0usize, 1, 2, 5, 16383, 16384, 16385, u32::MAX as usize, 1 << 32, i64::MAX as usize - 1, i64::MAX as usize];
    for a in vals {
        for b in vals {
            for c in vals {
                for n in 0..3usize {
                    let h: Vec<u8> = (0..20 * n).map(|k| k as u8).collect();
                    if c > 0 {
                        let k = Kind { length: None, files: Some(l(&[a, b].iter().map(|n| d(&[("length", i(*n as i64)), ("path", l(&[s(b"f")]))])).collect::<Vec<_>>())), means: Some((false, vec![("f".into(), a), ("f".into(), b)])) };
                        let mut doc = Doc { announce: &an[0], name: &na[0], size: &good(i(c as i64), c), hashes: &good(s(&h), h.clone()), kind: &k };
                        one(r, &doc, false, 0);
                        let k = Kind { length: Some(i(a as i64)), files: None, means: Some((true, vec![(String::new(), a)])) };
                        doc.kind = &k;
                        if b == 0 {
                            one(r, &doc, false, 0);
                        }
                    }
                }
            }
        }
    }
    r.family("documents that are not torrents");
    let whole = Doc { announce: &an[0], name: &na[0], size: &si[1], hashes: &ha[4], kind: &small[0] }.bytes(false, 0);
    let mut plain = |r: &mut Run, b: Vec<u8>| r.case(hash(&b), || clip(&b), || extracted(&b, &None));
    for n in 0..whole.len() {
        plain(r, whole[..n].to_vec());
        let mut b = whole.clone();
        b.remove(n);
        if n > 0 && !b.starts_with(b"d8:announce") {
            plain(r, b);
        }
    }
    for c in 0..=255u8 {
        let mut b = whole.clone();
        b.push(c);
        plain(r, b);
    }
    for b in [i(1), s(b"x"), l(&[whole.clone()]), d(&[]), d(&[("announce", s(b"http://a/"))]), vec![]] {
        plain(r, b);
    }
    for t in [i(1), s(b"name"), l(&[]), d(&[])] {
        plain(r, d(&[("announce", s(b"http://t.example/a")), ("info", t)]));
    }
    // fields in the wrong place do not count
    let fields = [("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&[1; 20])), ("length", i(9))];
    for out in 0..4 {
        let info: Vec<(&str, Vec<u8>)> = fields.iter().enumerate().filter(|(k, _)| *k != out).map(|(_, f)| f.clone()).collect();
        plain(r, d(&[("announce", s(b"http://t.example/a")), ("info", d(&info)), fields[out].clone()]));
    }
    let mut info = fields.to_vec();
    info.push(("announce", s(b"http://t.example/a")));
    plain(r, d(&[("info", d(&info))]));
}

// ------------------------------------------------- torrents with other entries

/// Keys that torrents carry or the sources name, other than those that count.
fn other_keys() -> Vec<String> {
    let mut v: Vec<String> = [
        "name.utf-8", "path.utf-8", "symlink path", "attr", "md5sum", "sha1", "root", "base", "dir", "directory", "parent", "prefix", "publisher", "publisher.utf-8", "private", "source", "meta version", "file tree",
        "piece layers", "pieces root", "announce-list", "comment", "comment.utf-8", "created by", "creation date", "encoding", "codepage", "url-list", "httpseeds", "nodes", "info-hash", "file-duration", "file-media", "profiles",
        "collections", "similar", "update-url", "ed2k", "filehash", "title", "save path", "path-prefix", "mtime", "x_cross_seed", "Name", "NAME", "Path", "name ", "", "0", "files ", "lengths", "path2",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    v.extend(Lits::of(&["src"]).strs());
    v
}
/// Values that would matter if they were used.
fn other_values() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [&b""[..], b"..", b"../x", b"/", b"/etc", b"a/../..", b"x", b"http://other.example/", b"\xff\xfe", b"UTF-8"].iter().map(|t| s(t)).collect();
    v.extend([0i64, 1, 20, -1, i64::MAX, i64::MIN].iter().map(|n| i(*n)));
    for e in [&b""[..], b"..", b"/", b"x"] {
        v.push(l(&[s(e)]));
        v.push(l(&[s(b"d"), s(e), s(b"f")]));
        v.push(d(&[("path", l(&[s(e)])), ("name", s(e)), ("length", i(3))]));
        v.push(l(&[d(&[("path", l(&[s(e)])), ("length", i(-3))])]));
    }
    v.push(l(&[]));
    v.push(d(&[]));
    // trackers in every shape, nodes
    for u in ["http://other.example/", "https://other.example:443/a", "udp://other.example:80", "udp:", "wss://other.example", "http://t.example/b", "http://t.example/a"] {
        let u = s(u.as_bytes());
        v.push(u.clone());
        v.push(l(&[u.clone()]));
        v.push(l(&[l(&[u.clone()])]));
        v.push(l(&[l(&[s(b"http://t.example/a"), u.clone()])]));
        v.push(l(&[l(&[u.clone(), s(b"http://t.example/a")]), l(&[u.clone()])]));
        v.push(d(&[("announce", u.clone()), ("url", u)]));
    }
    v.push(l(&[l(&[s(b"127.0.0.1"), i(6881)])]));
    // flags and texts of the sources
    v.extend((b'a'..=b'z').chain(*b"AZ01.-+ \0").map(|c| s(&[c])));
    v.extend(["true", "false", "yes", "no", "px", "hidden", "sparse", "n", "p", "q0"].iter().map(|t| s(t.as_bytes())));
    v.extend(Lits::of(&["src"]).texts.iter().map(|t| s(t)));
    v.extend(Lits::of(&["src"]).ints.iter().filter(|n| **n <= i64::MAX as u128).map(|n| i(*n as i64)));
    v.push(s(&[7; 20]));
    v.push(s(&[1; 40]));
    v.sort();
    v.dedup();
    v
}
/// Calls back with every torrent that has one of those entries: where it is,
/// the key and the document, and what the document says.
fn with_other(mut f: impl FnMut(String, Vec<u8>, View)) {
    let counts: [&[&str]; 4] = [&["announce", "info"], &["name", "piece length", "pieces", "length", "files"], &["name", "piece length", "pieces", "length", "files"], &["length", "path"]];
    for key in other_keys() {
        for value in other_values() {
            for place in 0..6 {
                // 0: top, 1: info of one file, 2: info of several, 3..: the files
                if counts[place.min(3)].contains(&key.as_str()) {
                    continue;
                }
                let mut top = vec![("announce", s(b"http://t.example/a"))];
                let mut info = vec![("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&[1; 40]))];
                let mut dicts = vec![];
                for k in 0..3 {
                    let mut e = vec![("length", i(7 + k)), ("path", l(&[s(b"p"), s(format!("q{}", k).as_bytes())]))];
                    if place as i64 == 3 + k {
                        e.push((&key, value.clone()));
                    }
                    dicts.push(d(&e));
                }
                let single = place == 1;
                if single {
                    info.push(("length", i(9)));
                } else {
                    info.push(("files", l(&dicts)));
                }
                match place {
                    0 => top.push((&key, value.clone())),
                    1 | 2 => info.push((&key, value.clone())),
                    _ => {}
                }
                top.push(("info", d(&info)));
                let list = if single { vec![("n".into(), 9)] } else { (0..3).map(|k| (format!("p/q{}", k).into(), 7 + k)).collect() };
                let view = ("http://t.example/a".to_string(), Some("n".to_string()), 5, vec![1; 40], single, list);
                f(format!("{:?} = {} in place {}", key, show(&value), place), d(&top), view);
            }
        }
    }
}
/// Calls back with every torrent that has two of those keys, with values that
/// would matter if one told how to take the other.
fn with_two_others(all: bool, mut f: impl FnMut(String, Vec<u8>, View)) {
    let u = s(b"http://other.example/");
    let firsts = vec![u.clone(), l(&[u.clone()]), l(&[l(&[u.clone()])]), s(b"x"), l(&[s(b"d"), s(b"f")]), i(3), d(&[("name", s(b"x")), ("path", l(&[s(b"x")])), ("length", i(3)), ("announce", u.clone())]), l(&[d(&[("path", l(&[s(b"x")])), ("length", i(3))])])];
    let mut seconds = vec![i(1), s(b"UTF-8")];
    if all {
        seconds.extend([i(0), i(2), s(b"1"), s(b""), l(&[]), d(&[])]);
    }
    let counts = [["announce", "info"].to_vec(), ["name", "piece length", "pieces", "length", "files"].to_vec()];
    let keys: Vec<String> = other_keys().into_iter().filter(|k| k.len() < 20).collect();
    for a in &keys {
        for b in &keys {
            if a == b {
                continue;
            }
            for places in 0..4usize {
                let (x, y) = (places / 2, places % 2);
                if counts[x].contains(&a.as_str()) || counts[y].contains(&b.as_str()) {
                    continue;
                }
                for first in &firsts {
                    for second in &seconds {
                        let mut at = [vec![("announce", s(b"http://t.example/a"))], vec![("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&[1; 40])), ("files", l(&[d(&[("length", i(7)), ("path", l(&[s(b"p"), s(b"q")]))])]))]];
                        at[x].push((a, first.clone()));
                        at[y].push((b, second.clone()));
                        let info = d(&at[1]);
                        at[0].push(("info", info));
                        let view = ("http://t.example/a".to_string(), Some("n".to_string()), 5, vec![1; 40], false, vec![("p/q".into(), 7)]);
                        f(format!("{:?} = {} in place {}, {:?} = {} in place {}", a, show(first), x, b, show(second), y), d(&at[0]), view);
                    }
                }
            }
        }
    }
}
/// Torrents whose name, paths, lengths and sizes are the same or nearly so.
fn alike(mut f: impl FnMut(String, Vec<u8>, View)) {
    let texts = ["n", "n.txt", "N", "n/n", "abcdefghijklmnopqrst", "http://t.example/a", "path", "5"];
    let numbers = [0usize, 1, 5, 20, 40];
    let mut paths: Vec<Vec<&str>> = vec![];
    for a in texts {
        paths.push(vec![a]);
        for b in texts {
            paths.push(vec![a, b]);
        }
    }
    let ten: Vec<Vec<&str>> = paths.iter().filter(|p| p[0] == "n").cloned().collect();
    let mut lists: Vec<Vec<Vec<&str>>> = paths.iter().map(|p| vec![p.clone()]).collect();
    for a in &ten {
        for b in &ten {
            lists.push(vec![a.clone(), b.clone()]);
        }
    }
    lists.push(vec![vec!["n"]; 3]);
    let pieces: Vec<Vec<u8>> = vec![vec![], b"abcdefghijklmnopqrst".to_vec(), b"abcdefghijklmnopqrstabcdefghijklmnopqrst".to_vec()];
    for name in texts.iter().filter(|n| !n.contains('/')) {
        for list in &lists {
            for size in [1, 5, 20] {
                for length in numbers {
                    for url in ["http://t.example/a", "http://n/"] {
                        let p = &pieces[(length + list.len()) % 3];
                        let fs: Vec<Vec<u8>> = list.iter().map(|p| d(&[("length", i(length as i64)), ("path", l(&p.iter().map(|e| s(e.as_bytes())).collect::<Vec<_>>()))])).collect();
                        let info = d(&[("name", s(name.as_bytes())), ("piece length", i(size as i64)), ("pieces", s(p)), ("files", l(&fs))]);
                        if list.iter().flatten().any(|e| e.contains('/')) {
                            continue;
                        }
                        let view = (url.to_string(), Some(name.to_string()), size, p.clone(), false, list.iter().map(|p| (p.join("/").into(), length)).collect());
                        f(format!("name {:?}, paths {:?}, length {}, piece length {}, {}", name, list, length, size, url), d(&[("announce", s(url.as_bytes())), ("info", info)]), view);
                    }
                }
            }
        }
        for size in [1, 5, 20] {
            for length in numbers {
                for p in &pieces {
                    let info = d(&[("name", s(name.as_bytes())), ("piece length", i(size as i64)), ("pieces", s(p)), ("length", i(length as i64))]);
                    let url = "http://t.example/a";
                    let view = (url.to_string(), Some(name.to_string()), size, p.clone(), true, vec![((*name).into(), length)]);
                    f(format!("name {:?}, length {}, piece length {}", name, length, size), d(&[("announce", s(url.as_bytes())), ("info", info)]), view);
                }
            }
        }
    }
}

/// Torrents with as many of everything as a number says.
fn sized(n: usize, mut f: impl FnMut(&str, Vec<u8>, Option<View>)) {
    let url = "http://t.example/a";
    let doc = |announce: &str, name: &str, size: usize, hashes: &[u8], length: Option<usize>, list: &[(Vec<String>, usize)]| {
        let mut info = vec![("name", s(name.as_bytes())), ("piece length", i(size as i64)), ("pieces", s(hashes))];
        match length {
            Some(n) => info.push(("length", i(n as i64))),
            None => {
                let fs: Vec<Vec<u8>> = list.iter().map(|(p, n)| d(&[("length", i(*n as i64)), ("path", l(&p.iter().map(|e| s(e.as_bytes())).collect::<Vec<_>>()))])).collect();
                info.push(("files", l(&fs)));
            }
        }
        let b = d(&[("announce", s(announce.as_bytes())), ("info", d(&info))]);
        let list = match length {
            Some(n) => vec![(name.into(), n)],
            None => list.iter().map(|(p, n)| (p.join("/").into(), *n)).collect(),
        };
        (b, (announce.to_string(), Some(name.to_string()), size, hashes.to_vec(), length.is_some(), list))
    };
    let one = vec![(vec!["a".to_string()], 3)];
    let h20: Vec<u8> = (0..20).collect();
    let mut put = |what: &str, (b, v): (Vec<u8>, View), ok: bool| f(what, b, Some(v).filter(|_| ok));
    put("length", doc(url, "n", 16384, &h20, Some(n), &[]), true);
    put("lengths", doc(url, "n", 16384, &h20, None, &[(vec!["a".into()], n), (vec!["b".into()], 1), (vec!["c".into()], n)]), true);
    if n > 0 {
        put("piece length", doc(url, "n", n, &h20, Some(77), &[]), true);
        put("piece length of files", doc(url, "n", n, &[&h20[..], &h20[..]].concat(), None, &one), true);
        put("length and piece length", doc(url, "n", n, &h20, Some(n), &[]), true);
        put("twice the piece length", doc(url, "n", n, &[&h20[..], &h20[..]].concat(), Some(n.min(1 << 40) * 2), &[]), true);
    }
    if n > 20_000 && n <= 250_000 {
        let hashes: Vec<u8> = (0..20 * n).map(|k| (k * 31 + k / 256) as u8).collect();
        put("hashes", doc(url, "n", 5, &hashes, Some(1), &[]), true);
        put("hashes of files", doc(url, "n", 5, &hashes, None, &one), true);
        put("bytes of hashes", doc(url, "n", 5, &hashes[..n], Some(1), &[]), n % 20 == 0);
        put("long name", doc(url, &"n".repeat(n), 5, &h20, Some(1), &[]), true);
        let many: Vec<(Vec<String>, usize)> = (0..n.min(70_000)).map(|k| (vec![format!("d{}", k % 3), format!("f{}", n - k)], k % 5)).collect();
        put("files", doc(url, "n", 5, &h20, None, &many), true);
    }
    if n <= 20_000 {
        let hashes: Vec<u8> = (0..20 * n).map(|k| (k * 31 + k / 256) as u8).collect();
        put("hashes", doc(url, "n", 5, &hashes, Some(1), &[]), true);
        put("hashes of files", doc(url, "n", 5, &hashes, None, &one), true);
        put("bytes of hashes", doc(url, "n", 5, &hashes[..n], Some(1), &[]), n % 20 == 0);
        if n > 0 {
            put("long name", doc(url, &"n".repeat(n), 5, &h20, Some(1), &[]), true);
            put("long name of a directory", doc(url, &"\u{e9}".repeat(n), 5, &h20, None, &one), true);
            put("long path element", doc(url, "n", 5, &h20, None, &[(vec!["x".into(), "e".repeat(n), "y".into()], 4), (vec!["b".into()], 6)]), true);
            let deep: Vec<String> = (0..n).map(|k| k.to_string()).collect();
            put("path elements", doc(url, "n", 5, &h20, None, &[(vec!["x".into()], 1), (deep, 4), (vec!["b".into()], 6)]), true);
            put("long announce", doc(&format!("{}{}", url, "a".repeat(n)), "n", 5, &h20, None, &one), true);
        }
        let many: Vec<(Vec<String>, usize)> = (0..n).map(|k| (vec![format!("d{}", k % 3), format!("f{}", n - k)], k % 5)).collect();
        put("files", doc(url, "n", 5, &h20, None, &many), true);
        let same: Vec<(Vec<String>, usize)> = (0..n).map(|_| (vec!["same".into()], n)).collect();
        put("equal files", doc(url, "n", 5, &h20, None, &same), true);
    }
}

// ------------------------------------------------------------------------ T02

fn plain_name(n: &str) -> bool {
    !n.is_empty() && n != "." && n != ".." && !n.contains('/')
}

fn torrent(name: &str, files: Option<&[Vec<String>]>) -> Vec<u8> {
    let mut info = vec![("name", s(name.as_bytes())), ("piece length", i(5)), ("pieces", s(&[1; 20]))];
    match files {
        None => info.push(("length", i(9))),
        Some(fs) => {
            let fs: Vec<Vec<u8>> = fs
                .iter()
                .map(|f| d(&[("length", i(3)), ("path", l(&f.iter().map(|e| s(e.as_bytes())).collect::<Vec<_>>()))]))
                .collect();
            info.push(("files", l(&fs)));
        }
    }
    d(&[("announce", s(b"http://t.example/a")), ("info", d(&info))])
}

fn contained(name: &str, files: Option<&[Vec<String>]>) -> Verdict {
    let want = plain_name(name) && files.map_or(true, |fs| fs.iter().all(|f| !f.is_empty() && f.iter().all(|e| plain_name(e))));
    let got = Torrent::mc_parse(&torrent(name, files)).map(|t| t.mc_view());
    let (single, list) = match &got {
        None => {
            ensure!(!want, "refused, but every element is a plain name");
            return Ok("refused");
        }
        Some(v) => (v.4, &v.5),
    };
    ensure!(got.as_ref().unwrap().1.as_deref() == Some(name), "named {:?}", got.as_ref().unwrap().1);
    let root = Path::new("/downloads/here");
    for (k, (p, _)) in list.iter().enumerate() {
        let inside = p.is_relative() && !p.as_os_str().is_empty() && p.components().all(|c| matches!(c, Component::Normal(_)));
        ensure!(inside, "accepted with the path {:?}", p);
        ensure!(root.join(p).starts_with(root) && root.join(p) != root, "accepted with the path {:?}", p);
        let es: Vec<&str> = if single { vec![name] } else { files.unwrap()[k].iter().map(|e| &e[..]).collect() };
        let have: Vec<&str> = p.components().map(|c| c.as_os_str().to_str().unwrap()).collect();
        ensure!(have == es, "path {:?} for the elements {:?}", p, es);
    }
    ensure!(want, "accepted with the paths {:?} and the name {:?}", list, name);
    Ok("accepted")
}

pub fn t02(r: &mut Run) {
    let fs = |f: &[&[&str]]| -> Vec<Vec<String>> { f.iter().map(|p| p.iter().map(|e| e.to_string()).collect()).collect() };
    let mut one = |r: &mut Run, name: &str, files: Option<Vec<Vec<String>>>| {
        r.case(combine(hash(name.as_bytes()), hash_dbg(&files)), || format!("name {:?}, files {:?}", name, files), || contained(name, files.as_deref()));
    };
    r.family("entries with other keys");
    with_other(|what, b, view| {
        r.case(hash(&b), || format!("{}: {}", what, clip(&b)), || {
            // whether such a torrent is accepted is another property
            for (p, _) in Torrent::mc_parse(&b).map_or(vec![], |t| t.mc_view().5) {
                let inside = p.is_relative() && !p.as_os_str().is_empty() && p.components().all(|c| matches!(c, Component::Normal(_)));
                ensure!(inside, "accepted with the path {:?}, not {:?}", p, view.5);
            }
            Ok("accepted")
        })
    });
    r.family("bad elements behind as many good ones as the sources name numbers");
    for n in Lits::of(&["src"]).around(2000) {
        let n = n as usize;
        for bad in ["..", ".", "", "/", "x/y", "/x", "x/", "../x"] {
            let path = |k: usize| -> Vec<String> { (0..k).map(|k| format!("e{}", k)).collect() };
            let with = |v: &mut Vec<String>| v.push(bad.to_string());
            let (mut a, mut b) = (path(n), path(n));
            with(&mut a);
            with(&mut b);
            b.push("z".into());
            r.case(combine(hash(bad.as_bytes()), n as u64), || format!("{:?} behind {} elements or files", bad, n), || {
                contained("dir", Some(&[a]))?;
                contained("dir", Some(&[vec!["ok".into()], b]))?;
                let mut fs = vec![vec!["ok".to_string()]; n];
                fs.push(vec!["d".into(), bad.to_string()]);
                contained("dir", Some(&fs))?;
                fs.push(vec!["ok".into()]);
                contained("dir", Some(&fs))?;
                contained(bad, Some(&fs[..n]))?;
                contained(bad, Some(&fs[..0]))?;
                let long = "x".repeat(n) + bad;
                contained(&long, None)?;
                contained("dir", Some(&[vec![long.clone(), "a".into()]]))?;
                let long = bad.to_string() + &"x".repeat(n);
                contained(&long, None)?;
                contained("dir", Some(&[vec![long.clone(), "a".into()]]))
            });
        }
    }
    let n = r.pick(7, 8);
    r.note("longest name over . / a blank and é", n);
    r.family("every name over a small alphabet");
    let chars = ["a", ".", "/", " ", "\u{e9}"];
    words::sequences(chars.len(), 0, n, |ix| {
        let w: String = ix.iter().map(|&k| chars[k]).collect();
        one(r, &w, None);
        one(r, &w, Some(fs(&[&["f"]])));
        one(r, "dir", Some(fs(&[&[&w]])));
        one(r, "dir", Some(fs(&[&["f"], &["a", &w], &["g"]])));
        one(r, "dir", Some(fs(&[&["f"], &[&w, "b"]])));
    });
    r.family("every sequence of path elements");
    let es = ["a", "b.c", "..", ".", "", "/", "/etc", "a/b", "../x", "...", " ", "a/", "..a", ".a", "a.."];
    let n = r.pick(4, 5);
    r.note("most path elements", n);
    words::sequences(es.len(), 0, n, |ix| {
        let p: Vec<String> = ix.iter().map(|&k| es[k].to_string()).collect();
        one(r, "dir", Some(vec![p.clone()]));
        one(r, "dir", Some(vec![vec!["ok".into()], p]));
    });
    r.family("which of many elements is bad");
    for len in 1..=12usize {
        for at in 0..=len {
            for bad in ["..", ".", "", "/", "x/y"] {
                let mut p: Vec<String> = (0..len).map(|k| format!("e{}", k)).collect();
                if at < len {
                    p[at] = bad.into();
                }
                one(r, "dir", Some(vec![p.clone()]));
                let mut many: Vec<Vec<String>> = (0..len).map(|k| vec![format!("f{}", k)]).collect();
                if at < len {
                    many[at] = vec!["x".into(), bad.into()];
                }
                one(r, "dir", Some(many));
                one(r, bad, Some(vec![vec!["f".into()]]));
            }
        }
    }
    r.family("every character in a name");
    for c in (1..0x250u32).filter_map(char::from_u32).chain(['\u{2024}', '\u{2044}', '\u{ff0f}', '\u{1f980}']) {
        if c == '\\' {
            continue;
        }
        for w in [c.to_string(), format!("..{}", c), format!("{}..", c), format!(".{}.", c), format!("a{}b", c)] {
            one(r, &w, None);
            one(r, "dir", Some(fs(&[&["a", &w]])));
        }
    }
    r.family("long names");
    for n in [100, 255, 256, 1000, 5000] {
        for c in ["a", ".", "../", "a/", "./", "/"] {
            one(r, &c.repeat(n), None);
            one(r, "dir", Some(fs(&[&[&c.repeat(n)]])));
        }
    }
}

// ------------------------------------------------------------------------ T03

fn survives(b: &[u8]) -> Verdict {
    let (t, peak) = mem::peak(|| Torrent::mc_parse(b));
    let most = 4_000_000 + 400 * b.len();
    ensure!(peak <= most, "{} bytes of memory for {} bytes of input", peak, b.len());
    Ok(match t {
        Some(t) => {
            let _ = format!("{:?}", t);
            "accepted"
        }
        None => "refused",
    })
}

fn bases() -> Vec<Vec<u8>> {
    let f = |s: &[&[&str]]| -> Vec<Vec<String>> { s.iter().map(|p| p.iter().map(|e| e.to_string()).collect()).collect() };
    vec![torrent("name", None), torrent("dir", Some(&f(&[&["a"], &["b", "c"]])))]
}

pub fn t03(r: &mut Run) {
    let mut one = |r: &mut Run, b: Vec<u8>| r.case(hash(&b), || clip(&b), || survives(&b));
    r.family("every short input");
    let all: Vec<u8> = (0..=255).collect();
    words::words(&all, 0, 2, |w| one(r, w.to_vec()));
    let n = r.pick(7, 8);
    words::words(b"dlei0:1a", 3, n, |w| one(r, w.to_vec()));
    r.family("every truncation and every single-byte damage");
    for b in bases() {
        for k in 0..=b.len() {
            one(r, b[..k].to_vec());
        }
        for k in 0..b.len() {
            for x in 0..=255u8 {
                let mut c = b.clone();
                c[k] = x;
                one(r, c);
            }
            for x in [b'd', b'l', b'e', b'i', b'0', b'9', b':', b'-'] {
                let mut c = b.clone();
                c.insert(k, x);
                one(r, c);
                for k2 in 0..b.len() {
                    if r.thorough() {
                        let mut c = b.clone();
                        c[k] = x;
                        c[k2] = b'e';
                        one(r, c);
                    }
                }
            }
        }
    }
    r.family("a wide character at every place of a text");
    {
        let url = s(b"http://t.example/a");
        let whole = |name: &[u8], kind: (&'static str, Vec<u8>)| d(&[("name", s(name)), ("piece length", i(16384)), ("pieces", s(&[1; 20])), kind]);
        let top = |u: Vec<u8>, info: Vec<u8>| d(&[("announce", u), ("info", info)]);
        let path = |p: Vec<Vec<u8>>| ("files", l(&[d(&[("length", i(3)), ("path", l(&p))])]));
        let m = r.pick(36usize, 70);
        for c in ["\u{e9}", "\u{20ac}", "\u{1f980}", "\u{80}", "\u{10ffff}"] {
            for a in 0..=m {
                for b in 0..=m {
                    let t = format!("{}{}{}", "a".repeat(a), c, "b".repeat(b));
                    let v = s(t.as_bytes());
                    one(r, top(url.clone(), whole(t.as_bytes(), ("length", i(9)))));
                    one(r, top(url.clone(), whole(b"n", path(vec![v.clone()]))));
                    one(r, top(url.clone(), whole(b"n", path(vec![s(b"d"), v.clone()]))));
                    one(r, top(url.clone(), whole(b"n", path(vec![v.clone(), s(b"f")]))));
                    one(r, top(v.clone(), whole(b"n", ("length", i(9)))));
                    one(r, top(s(format!("http://{}/a", t).as_bytes()), whole(b"n", ("length", i(9)))));
                    one(r, top(s(format!("http://t.example/{}", t).as_bytes()), whole(b"n", ("length", i(9)))));
                    one(r, unsorted(&[("announce", url.clone()), ("announce-list", l(&[l(&[v.clone()])])), ("info", whole(b"n", ("length", i(9)))), ("nodes", l(&[l(&[v.clone(), i(1)])])), ("url-list", v.clone()), (&t, v.clone())]));
                }
            }
        }
    }
    r.family("numbers of every size in every numeric place");
    for digits in 1..45 {
        for c in ["1", "9", "0"] {
            for sign in ["", "-"] {
                let num = format!("i{}{}e", sign, c.repeat(digits)).into_bytes();
                for place in 0..3 {
                    let (pl, len, fl) = (if place == 0 { num.clone() } else { b"i5e".to_vec() }, if place == 1 { Some(num.clone()) } else { None }, if place == 2 { Some(num.clone()) } else { None });
                    let mut info = vec![("name", s(b"n")), ("piece length", pl), ("pieces", s(&[1; 20]))];
                    match fl {
                        Some(x) => info.push(("files", l(&[d(&[("length", x), ("path", l(&[s(b"a")]))])]))),
                        None => info.push(("length", len.unwrap_or(i(9)))),
                    }
                    one(r, d(&[("announce", s(b"http://t.example/a")), ("info", d(&info))]));
                }
                let mut b = b"d8:announce".to_vec();
                b.extend(c.repeat(digits).bytes());
                b.extend(b":http://x/");
                one(r, b);
            }
        }
    }
    r.family("every combination of numbers, hashes and files");
    let vals = [0i64, 1, 2, 20, 21, 16384, 1 << 31, 1 << 32, 1 << 62, i64::MAX - 1, i64::MAX, -1, i64::MIN];
    let few = [0i64, 1, 1 << 62, i64::MAX, -1];
    let entry = |n: i64| d(&[("length", i(n)), ("path", l(&[s(b"a")]))]);
    let mut whole = |r: &mut Run, size: i64, hashes: usize, kind: (&'static str, Vec<u8>)| {
        let info = [("name", s(b"n")), ("piece length", i(size)), ("pieces", s(&vec![1; hashes])), kind];
        one(r, d(&[("announce", s(b"http://t.example/a")), ("info", d(&info))]));
    };
    for size in vals {
        for hashes in [0usize, 1, 19, 20, 21, 40, 60, 100, 1000] {
            for len in vals {
                whole(r, size, hashes, ("length", i(len)));
                whole(r, size, hashes, ("files", l(&[entry(len)])));
                for len2 in few {
                    whole(r, size, hashes, ("files", l(&[entry(len), entry(len2)])));
                    for len3 in few {
                        whole(r, size, hashes, ("files", l(&[entry(len), entry(len2), entry(len3)])));
                    }
                }
            }
        }
    }
    for n in [4usize, 5, 9, 17, 33, 100, 1000] {
        for len in few {
            whole(r, 16384, 40, ("files", l(&vec![entry(len); n])));
        }
    }
    r.family("entries with other keys");
    with_other(|what, b, _| r.case(hash(&b), || format!("{}: {}", what, clip(&b)), || survives(&b)));
    r.family("as much as the sources name numbers");
    for n in Lits::of(&["src", "bencode/src"]).around(i64::MAX as u64) {
        sized(n as usize, |what, b, _| r.case(hash(&b), || format!("{} {}: {}", n, what, clip(&b)), || survives(&b)));
    }
    r.family("wide documents");
    for n in r.pick(vec![200_000usize], vec![50_000, 200_000, 1_000_000]) {
        let entry = |k: usize| d(&[("length", i(3)), ("path", l(&[s(format!("f{}", k).as_bytes())]))]);
        let many = |f: &dyn Fn(usize) -> Vec<u8>| -> Vec<u8> { l(&(0..n).map(f).collect::<Vec<_>>()) };
        let url = s(b"http://t.example/a");
        let info = |k: &'static str, v: Vec<u8>| d(&[("name", s(b"n")), ("piece length", i(16384)), ("pieces", s(&[1; 20])), (k, v)]);
        let docs = vec![
            ("files", d(&[("announce", url.clone()), ("info", info("files", many(&entry)))])),
            ("equal files", d(&[("announce", url.clone()), ("info", info("files", many(&|_| entry(1))))])),
            ("path elements", d(&[("announce", url.clone()), ("info", info("files", l(&[d(&[("length", i(3)), ("path", many(&|_| s(b"e")))])])))])),
            ("tiers", d(&[("announce", url.clone()), ("announce-list", many(&|_| l(&[url.clone()]))), ("info", info("length", i(9)))])),
            ("trackers", d(&[("announce", url.clone()), ("announce-list", l(&[many(&|_| url.clone())])), ("info", info("length", i(9)))])),
            ("seeds", d(&[("announce", url.clone()), ("url-list", many(&|_| url.clone())), ("info", info("length", i(9)))])),
            ("nodes", d(&[("announce", url.clone()), ("nodes", many(&|k| l(&[s(b"a"), i(k as i64)]))), ("info", info("length", i(9)))])),
            ("hashes", d(&[("announce", url.clone()), ("info", d(&[("name", s(b"n")), ("piece length", i(16384)), ("pieces", s(&vec![1; 20 * n])), ("length", i(9))]))])),
            ("entries", unsorted(&[("announce", url.clone()), ("info", unsorted(&(0..n).map(|_| ("k", i(1))).collect::<Vec<_>>()))])),
            ("name", d(&[("announce", url.clone()), ("info", d(&[("name", s(&vec![b'n'; 10 * n])), ("piece length", i(16384)), ("pieces", s(&[1; 20])), ("length", i(9))]))])),
            ("announce", d(&[("announce", s(&[&b"http://t.example/"[..], &vec![b'n'; 10 * n]].concat())), ("info", info("length", i(9)))])),
        ];
        for (what, b) in docs {
            r.case(hash(&b), || format!("{} {}", n, what), || survives(&b));
        }
    }
    r.family("deep documents, on a stack of 8 MB");
    for n in [10usize, 99, 101, 1000, 100_000, 1_000_000, 2_900_000] {
        for shape in 0..6 {
            for place in 0..4 {
                if !r.thorough() && place > 1 && n < 1000 {
                    continue;
                }
                let inner = match shape {
                    0 => [b"l".repeat(n), b"e".repeat(n)].concat(),
                    1 => b"l".repeat(n),
                    2 => [b"d0:".repeat(n), b"0:".to_vec(), b"e".repeat(n)].concat(),
                    3 => [b"d1:a".repeat(n / 2), b"i0e".to_vec(), b"e".repeat(n / 2)].concat(),
                    4 => [b"ld1:k".repeat(n / 3), b"0:".to_vec(), b"ee".repeat(n / 3)].concat(),
                    _ => b"d1:al".repeat(n / 3),
                };
                let b = match place {
                    0 => inner,
                    1 => d(&[("announce", s(b"http://t.example/a")), ("comment", inner), ("info", d(&[]))]),
                    2 => d(&[("announce", s(b"http://t.example/a")), ("info", d(&[("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&[1; 20])), ("zz", inner)]))]),
                    _ => d(&[("announce", s(b"http://t.example/a")), ("info", d(&[("files", l(&[inner]))]))]),
                };
                let what = format!("{} levels of shape {} in place {}", n, shape, place);
                let b = &b;
                r.case_forked(hash(what.as_bytes()), 8 << 20, 20, || what.clone(), move || {
                    let ok = Torrent::mc_parse(b).is_some();
                    Ok(if ok { "accepted" } else { "rejected" })
                });
            }
        }
    }
    r.family("wide documents");
    for n in [1000usize, 100_000, 600_000] {
        for shape in 0..5 {
            let mut inner = match shape {
                0 => [b"l".to_vec(), b"0:".repeat(n), b"e".to_vec()].concat(),
                1 => [b"l".to_vec(), b"le".repeat(n), b"e".to_vec()].concat(),
                2 => [b"l".to_vec(), b"de".repeat(n), b"e".to_vec()].concat(),
                3 => s(&vec![b'x'; n * 5]),
                _ => {
                    let mut v = b"d".to_vec();
                    for k in 0..n / 2 {
                        v.extend(s(format!("{:06}", k).as_bytes()));
                        v.extend(b"0:");
                    }
                    v.push(b'e');
                    v
                }
            };
            for cut in [false, true] {
                if cut {
                    inner.pop();
                }
                let b = d(&[("announce", s(b"http://t.example/a")), ("comment", inner.clone()), ("info", d(&[]))]);
                let what = format!("{} entries of shape {}, cut short {}", n, shape, cut);
                let b = &b;
                r.case_forked(hash(what.as_bytes()), 8 << 20, 20, || what.clone(), move || {
                    survives(b)?;
                    Ok("large")
                });
            }
        }
    }
    r.family("many files and pieces");
    for n in [100usize, 5000, 50_000] {
        let fs: Vec<Vec<String>> = (0..n).map(|k| vec![format!("d{}", k % 7), k.to_string()]).collect();
        let b = torrent("dir", Some(&fs));
        let what = format!("{} files", n);
        r.case(hash(what.as_bytes()), || what.clone(), || survives(&b));
        let deep: Vec<String> = (0..n).map(|k| k.to_string()).collect();
        let b = torrent("dir", Some(&[deep]));
        let what = format!("{} path elements", n);
        r.case(hash(what.as_bytes()), || what.clone(), || survives(&b));
    }
}

// ------------------------------------------------------------------------ T04

/// A valid torrent with something added in one of several places.
fn with(place: usize, add: Vec<u8>) -> Vec<u8> {
    let mut top = vec![("announce", s(b"http://t.example/a"))];
    let mut info = vec![("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&[1; 40]))];
    let mut file = vec![("length", i(3)), ("path", l(&[s(b"a")]))];
    match place {
        0 => top.push(("aa", add)),
        1 => top.push(("zz", add)),
        2 => info.push(("aa", add)),
        3 => info.push(("zz", add)),
        4 => file.push(("aa", add)),
        _ => file.push(("zz", add)),
    }
    info.push(("files", l(&[d(&[("length", i(4)), ("path", l(&[s(b"b")]))]), d(&file)])));
    top.push(("info", d(&info)));
    d(&top)
}
const PLACES: usize = 6;

/// (containers around the innermost value, number of values) of a document.
fn measure(b: &[u8]) -> (usize, usize) {
    let (mut deep, mut depth, mut values, mut k) = (0usize, 0usize, 0usize, 0usize);
    while k < b.len() {
        if b[k] == b'e' {
            depth -= 1;
            k += 1;
            continue;
        }
        values += 1;
        deep = deep.max(depth);
        match b[k] {
            b'd' | b'l' => {
                depth += 1;
                k += 1;
            }
            b'i' => {
                while b[k] != b'e' {
                    k += 1;
                }
                k += 1;
            }
            _ => {
                let mut n = 0;
                while b[k] != b':' {
                    n = n * 10 + (b[k] - b'0') as usize;
                    k += 1;
                }
                k += 1 + n;
            }
        }
    }
    (deep, values)
}

const SIZE: usize = 6_000_000;
const DEPTH: usize = 100;
const VALUES: usize = 2_000_000;
const PIECES: usize = 0x100000;

/// Within one unit of a limit either answer will do.
fn limited(b: &[u8], pieces: usize) -> Verdict {
    let (depth, values) = measure(b);
    let m = [(b.len(), SIZE), (depth, DEPTH), (values, VALUES), (pieces, PIECES)];
    let over = m.iter().any(|(n, lim)| *n > lim + 1);
    let within = m.iter().all(|(n, lim)| *n < *lim);
    let got = Torrent::mc_parse(b).is_some();
    let what = || format!("{} bytes, {} levels, {} values, {} pieces", b.len(), depth, values, pieces);
    ensure!(!(over && got), "accepted with {}", what());
    ensure!(!(within && !got), "refused with {}", what());
    Ok(match (over, within) {
        (true, _) => "beyond a limit",
        (_, true) => "within the limits",
        _ => "at a limit",
    })
}

pub fn t04(r: &mut Run) {
    let mut one = |r: &mut Run, what: String, pieces: usize, b: Vec<u8>| r.case(hash(what.as_bytes()), || what.clone(), || limited(&b, pieces));
    r.family("nesting depth in every place");
    let top = r.pick(130, 400);
    for place in 0..PLACES {
        for n in (0..top).chain([1000, 10_000]) {
            for shape in 0..4 {
                let add = match shape {
                    0 => [b"l".repeat(n), b"e".repeat(n)].concat(),
                    1 => [b"d0:".repeat(n), b"0:".to_vec(), b"e".repeat(n)].concat(),
                    2 => [b"ld1:k".repeat(n / 2), b"i1e".to_vec(), b"ee".repeat(n / 2)].concat(),
                    _ => [b"l0:".repeat(n), b"e".repeat(n)].concat(),
                };
                if add.is_empty() {
                    continue;
                }
                one(r, format!("{} levels of shape {} in place {}", n, shape, place), 2, with(place, add));
            }
        }
    }
    r.family("size in every place");
    for place in 0..PLACES {
        let empty = with(place, s(&[])).len() as i64;
        for size in [1_000_000i64, 5_000_000, 5_999_990, 5_999_998, 5_999_999, 6_000_000, 6_000_001, 6_000_002, 6_000_003, 6_000_010, 6_500_000, 8_388_608, 12_000_000, 60_000_000] {
            let mut n = size - empty;
            n -= n.to_string().len() as i64 - 1;
            let b = with(place, s(&vec![b'x'; n as usize]));
            let got = b.len();
            one(r, format!("{} bytes in place {}", got, place), 2, b);
        }
    }
    for size in [5_999_999usize, 6_000_002, 7_000_000] {
        // the excess in the name, in a hash, in a path element
        for place in 0..3 {
            let long = |n: usize| {
                let info = match place {
                    0 => vec![("name", s(&vec![b'x'; n])), ("piece length", i(5)), ("pieces", s(&[1; 20])), ("length", i(1))],
                    1 => vec![("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&vec![7; n - n % 20])), ("length", i(1)), ("pad", s(&vec![b'p'; n % 20]))],
                    _ => vec![("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&[1; 20])), ("files", l(&[d(&[("length", i(1)), ("path", l(&[s(&vec![b'x'; n])]))])]))],
                };
                d(&[("announce", s(b"http://t.example/a")), ("info", d(&info))])
            };
            let mut n = size - 300;
            while long(n).len() < size {
                n += 1;
            }
            let b = long(n);
            let got = b.len();
            one(r, format!("{} bytes, long field {}", got, place), if place == 1 { n / 20 } else { 1 }, b);
        }
    }
    r.family("values in every place");
    for place in 0..PLACES {
        let few = measure(&with(place, l(&[]))).1;
        for total in [1000usize, 1_000_000, 1_999_000, 1_999_998, 1_999_999, 2_000_000, 2_000_001, 2_000_002, 2_000_003, 2_000_100, 2_500_000] {
            for shape in 0..3 {
                if !r.thorough() && (total < 1_999_000 || total > 2_000_003) && shape > 0 {
                    continue;
                }
                let n = total - few;
                let add = match shape {
                    0 => [b"l".to_vec(), b"0:".repeat(n), b"e".to_vec()].concat(),
                    1 => [b"l".to_vec(), b"le".repeat(n), b"e".to_vec()].concat(),
                    // spread over lists
                    _ => {
                        let mut v = b"l".to_vec();
                        let mut left = n;
                        while left > 0 {
                            let m = left.min(1000);
                            v.push(b'l');
                            v.extend(b"0:".repeat(m - 1));
                            v.push(b'e');
                            left -= m;
                        }
                        v.push(b'e');
                        v
                    }
                };
                one(r, format!("{} values of shape {} in place {}", total, shape, place), 2, with(place, add));
            }
        }
    }
    // keys count as values: 1.2 million entries are 2.4 million values
    for n in [300_000usize, 480_000] {
        let mut v = b"d".to_vec();
        for k in 0..n {
            v.extend(s(format!("{:x}", k).as_bytes()));
            v.extend(b"0:");
        }
        v.push(b'e');
        one(r, format!("{} keys", n), 2, with(1, v));
    }
    // empty keys are short enough for the key count to matter
    for n in [999_000usize, 1_000_100] {
        let v = [b"l".to_vec(), b"d0:0:e".repeat(n * 2 / 3), b"e".to_vec()].concat();
        one(r, format!("{} dictionaries of one entry", n * 2 / 3), 2, with(1, v));
    }
    r.family("pieces");
    for n in [1usize, 1000, 0x40000, 0x48000, 0xfffff, 0x100001, 0x100002, 0x200000] {
        let info = [("name", s(b"n")), ("piece length", i(5)), ("pieces", s(&vec![3; n * 20])), ("length", i(1))];
        one(r, format!("{} pieces", n), n, d(&[("announce", s(b"http://t.example/a")), ("info", d(&info))]));
    }
}
