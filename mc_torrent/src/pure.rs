//! X01: answers depend on the arguments alone, never on earlier calls.

use bencode::{Value, ValueRef};
use common::bloom_filter::{BloomFilter128, BloomFilter256};
use common::hex;
use common::sha1::Sha1Hash;
use dht::settings::DhtSettings;
use dht::state::{extract_node_ids, DhtState};
use dht::storage::{DefaultDhtStorage, DhtStorage};
use dht::{detail, node};
use engine::{combine, ensure, hash, words, Run, Verdict};
use std::collections::BTreeMap;
use std::io;
use std::net::{IpAddr, SocketAddr};
use torrent_rs::mc::*;

type Call = (&'static str, Box<dyn Fn() -> String + Sync>, u8);

/// Takes `left` bytes, then fails.
struct Fails {
    left: usize,
    got: Vec<u8>,
}
impl io::Write for Fails {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            return Err(io::ErrorKind::Other.into());
        }
        let n = b.len().min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

const IH: &str = "xt=urn:btih:00112233445566778899aabbccddeeff01234567";

fn id(n: u8) -> Sha1Hash {
    let mut b = [n; 20];
    b[19] = !n;
    Sha1Hash::from(b)
}
fn addr(s: &str) -> SocketAddr {
    s.parse().unwrap()
}
fn ip(s: &str) -> IpAddr {
    s.parse().unwrap()
}
fn sample() -> Value {
    let mut d = BTreeMap::new();
    d.insert("a".to_string(), Value::Int(-7));
    d.insert("b".to_string(), Value::List(vec![Value::with_str("x"), Value::Int(0), Value::List(vec![])]));
    d.insert("".to_string(), Value::Bytes(vec![0xff, 0]));
    Value::Dict(d)
}
fn state() -> DhtState {
    DhtState {
        nids: vec![(ip("1.2.3.4"), id(1)), (ip("::5"), id(2))],
        nodes: vec![addr("1.2.3.4:5")],
        nodes6: vec![addr("[::9]:10")],
    }
}
/// A short life of a store, with everything it answers.
fn store(max: usize, seed: bool) -> String {
    let mut c = DhtSettings::default();
    c.max_torrents = max;
    c.max_peers = max;
    c.max_dht_items = max;
    let mut s = DefaultDhtStorage::new(&c);
    s.update_node_ids(&[id(0)]);
    for i in 1..4u8 {
        s.announce_peer(&id(i), &SocketAddr::from(([i, 2, 3, 4], 5)), "name", seed);
        s.put_immutable_item(&id(i), b"1:v", &ip("1.1.1.1"));
        s.put_mutable_item(&id(i), b"1:w", &Default::default(), i as i64, &Default::default(), b"", &ip("1.1.1.1"));
    }
    let mut out = format!("{:?}", s.counters());
    for i in 0..4 {
        for scrape in [false, true] {
            let mut v = Value::Dict(BTreeMap::new());
            let e = s.get_peers(&id(i), !scrape, scrape, &addr("9.9.9.9:9"), &mut v).map_err(|e| e.kind());
            let mut w = Value::Dict(BTreeMap::new());
            let f = (s.get_immutable_item(&id(i), &mut w), s.get_mutable_item(&id(i), -1, true, &mut w));
            out += &format!("{:?} {:?} {:?} {:?}", e, v, f, w);
        }
    }
    out
}

fn calls() -> Vec<Call> {
    let mut v: Vec<Call> = vec![];
    let mut part = 0;
    macro_rules! call {
        ($name: expr, $f: expr) => {
            v.push(($name, Box::new(move || format!("{:?}", $f)), part));
        };
    }
    // documents good and bad; some a piece of others
    let deep: &'static [u8] = Box::leak([vec![b'l'; 40], vec![b'e'; 40]].concat().into_boxed_slice());
    let docs: [(&'static str, &'static [u8]); 12] = [
        ("decode a dictionary", b"d1:ai1e1:bl1:xi-2eee"),
        ("decode the same dictionary with another value", b"d1:ai2e1:bl1:xi-2eee"),
        ("decode a list", b"l4:spami0ee"),
        ("decode bytes", b"5:\xff\0abc"),
        ("decode nothing", b""),
        ("decode an unfinished list", b"l4:spami0e"),
        ("decode a dictionary with a missing value", b"d1:ai1e1:be"),
        ("decode a dictionary with a number as key", b"di1ei2ee"),
        ("decode a bad number", b"i1-e"),
        ("decode a closing letter", b"e"),
        ("decode two documents", b"i1ei2e"),
        ("decode a deep list", deep),
    ];
    for (n, d) in docs {
        call!(n, (Value::decode(d).map_err(|e| io::Error::from(e).to_string()), ValueRef::decode(d).map_err(|e| io::Error::from(e).to_string())));
    }
    call!("decode within a depth of 2", (Value::decode_with_limits(b"lllleeee", Some(2), None), ValueRef::decode_with_limits(b"lllleeee", Some(2), None)));
    call!("decode with 3 values", (Value::decode_with_limits(b"li1ei2ei3ei4ei5ee", None, Some(3)), ValueRef::decode_with_limits(b"li1ei2ei3ei4ei5ee", None, Some(3))));
    call!("decode within both limits", (Value::decode_with_limits(b"lli1eee", Some(9), Some(9)), ValueRef::decode_with_limits(b"lli1eee", Some(9), Some(9))));
    call!("encode", sample().to_vec());
    call!("display", sample().to_string());
    call!("encode a borrowed value", ValueRef::decode(b"d1:xl1:yi5eee").unwrap().to_vec());
    call!("encode into a sink that fails", {
        let mut f = Fails { left: 5, got: vec![] };
        let r = sample().encode(&mut f).is_err();
        let mut g = Fails { left: 3, got: vec![] };
        let q = ValueRef::Int(-12345).encode(&mut g).is_err();
        (r, f.got, q, g.got)
    });
    call!("read a value from text", "li1e2:abe".parse::<Value>());
    call!("look things up", {
        let s = sample();
        (s.dict_find("a").cloned(), s.dict_find_int_value("b"), s.dict_find_list_value("b").map(|l| l.len()), s.dict_len(), s.list_at(0).cloned())
    });
    // the common crate
    part += 1;
    call!("to hex", hex::to_hex(&[0, 0x9f, 0xff]));
    call!("from hex", {
        let mut o = [7; 3];
        (hex::from_hex(b"00fF9a", &mut o), o)
    });
    call!("from bad hex", {
        let mut o = [7; 3];
        hex::from_hex(b"00fg9a", &mut o)
    });
    call!("digest of nothing", Sha1Hash::update(b"")[..].to_vec());
    call!("digest of 70 bytes", Sha1Hash::update(&[3; 70])[..].to_vec());
    // alike at the start, at the end, in length
    for t in ["abc", "abd", "xbc", "abcabc"] {
        call!("digest of letters", Sha1Hash::update(t.as_bytes())[..].to_vec());
    }
    for a in ["1.2.3.4", "::1.2.3.4", "::ffff:1.2.3.4", "102:304::", "1.2.3.5", "::1"] {
        call!("digest of an address", Sha1Hash::from_address(&ip(a))[..].to_vec());
    }
    for n in [13usize, 45, 160] {
        for (h, left) in [(0x35, true), (0x35, false), (0x36, true)] {
            call!("shift", {
                let mut h = id(h);
                if left {
                    h <<= n;
                } else {
                    h >>= n;
                }
                h[..].to_vec()
            });
        }
    }
    call!("operators", ((&id(3) ^ &id(9))[..].to_vec(), (&id(3) & &id(9)).leading_zeros(), (!id(0)).all_zeroes(), id(3) < id(9), id(77).to_string()));
    call!("bloom filters", {
        let (mut f, mut g) = (BloomFilter128::new(), BloomFilter256::new());
        for i in 0..9 {
            f.set(&id(i));
            g.set(&id(i * 3));
        }
        (f.as_bytes().to_vec(), g.as_bytes().to_vec(), f.find(&id(99)), g.find(&id(3)), f.size().to_bits(), g.size().to_bits())
    });
    call!("clamp", (common::clamp(5, 1, 3), common::clamp(-5i64, 1, 3), common::clamp(2.5, 1.0, 3.0)));
    call!("keys", (&common::types::PublicKey::default()[..], common::types::Signature::default()[..].len()));
    // the dht crate
    part += 1;
    call!("save a state", state().save().to_vec());
    call!("save an empty state", DhtState::default().save().to_vec());
    call!("read a state", {
        let b = state().save().to_vec();
        format!("{:?}", DhtState::read(&ValueRef::decode(&b).unwrap()).unwrap())
    });
    call!("read a damaged state", {
        let v = ValueRef::decode(b"d7:node-idli1e24:aaaaaaaaaaaaaaaaaaaabbbb1:xe5:nodesl6:abcdef3:abce6:nodes6i1ee").unwrap();
        format!("{:?} {:?}", DhtState::read(&v).map_err(|e| e.kind()), extract_node_ids(&v, "nodes").map(|i| i.len()).map_err(|e| e.kind()))
    });
    call!("save and read settings", {
        let mut s = DhtSettings::default();
        s.max_peers = 77;
        s.read_only = !s.read_only;
        let b = s.save().to_vec();
        DhtSettings::read(&ValueRef::decode(&b).unwrap()).save().to_vec()
    });
    call!("default settings", DhtSettings::default().save().to_vec());
    call!("read settings of wrong types", DhtSettings::read(&ValueRef::decode(b"d15:block_ratelimiti12e9:max_peersl1:xe9:read_onlyi0ee").unwrap()).save().to_vec());
    for (a, b) in [(1, 9), (9, 1), (1, 1), (1, 200), (9, 200)] {
        call!("a distance", node::distance_exp(&id(a), &id(b)));
        call!("least distances", (node::min_distance_exp(&id(a), &[id(b), id(3)]), node::min_distance_exp(&id(3), &[id(b), id(a)])));
    }
    call!("write and read addresses", {
        let mut b = vec![];
        detail::write_socket_addr(&mut b, &addr("1.2.3.4:567")).unwrap();
        detail::write_socket_addr(&mut b, &addr("[1::2]:3")).unwrap();
        let mut c = io::Cursor::new(&b);
        (detail::read_v4_socket_address(&mut c).ok(), detail::read_v6_socket_address(&mut c).ok(), detail::read_v4_address(&mut c).map_err(|e| e.kind()))
    });
    call!("read a short address", detail::read_v6_address(&mut &[1u8, 2, 3][..]).map_err(|e| e.kind()));
    call!("lower bound", (detail::lower_bound(&[1, 3, 5], &4), detail::lower_bound(&[1, 3, 5], &9)));
    call!("a roomy store", store(9, true));
    call!("a tight store", store(1, false));
    // the torrent crate
    part += 1;
    // what fails, behind what was read before it
    for before in ["&tr=http://p/&tr=http://q/", "&ws=http://p/&x.pe=1.1.1.1:1", "&dht=q:1&so=7", "&dn=before"] {
        for bad in ["", "&x.pe=y", "&dht=h:70000", "&dht=h", "&so=3,99999999999999999999999", "&xt=urn:btih:zz"] {
            call!("a link of something and then something", {
                let p = format!("magnet:?{}{}{}&tr=http://z/&dn=after", IH, before, bad).parse::<TorrentParams>();
                p.map(|p| (crate::magnet::seen(&p), format!("{:?}", p.file_priorities), p.to_string()))
            });
        }
    }
    let links: [(&'static str, &'static str); 12] = [
        ("a link", ""),
        ("a link with trackers", "&tr=http://a/&tr=http://b/&dn=n%20m"),
        ("a link with seeds, peers and nodes", "&ws=http://w/&x.pe=1.2.3.4:5&dht=h:6"),
        ("a link with a selection", "&so=1,4-6"),
        ("a link with another selection", "&so=0"),
        ("a link with another topic", "&xt=urn:btih:AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA"),
        ("a link with a bad topic", "&tr=http://r/&xt=urn:btih:zz"),
        ("a link with a bad peer", "&x.pe=1.2.3.4:5&x.pe=y"),
        ("a link with a bad node", "&dht=h:70000"),
        ("a link with a bad number", "&so=3,99999999999999999999999"),
        ("a link with escapes", "&dn=%e2%82%ac+%zz%"),
        ("a link with everything twice", "&dn=a&dn=b&tr=x&tr=x&ws=y&ws=y&so=2&so=3"),
    ];
    for (n, l) in links {
        call!(n, {
            let p = format!("magnet:?{}{}", IH, l).parse::<TorrentParams>();
            p.map(|p| (crate::magnet::seen(&p), format!("{:?}", p.file_priorities), p.to_string()))
        });
    }
    call!("a link without a topic", "magnet:?tr=http://a/".parse::<TorrentParams>().err());
    call!("a link of another scheme", "http://a/".parse::<TorrentParams>().err());
    call!("no link", "::".parse::<TorrentParams>().err());
    let file: &'static [u8] = b"d8:announce18:http://t.example/a4:infod6:lengthi5e4:name1:n12:piece lengthi1e6:pieces20:aaaaaaaaaaaaaaaaaaaaee";
    let dir: &'static [u8] = b"d8:announce18:http://t.example/b4:infod5:filesld6:lengthi5e4:pathl1:a1:beed6:lengthi6e4:pathl1:ceee4:name1:d12:piece lengthi2e6:pieces0:ee";
    let escape: &'static [u8] = b"d8:announce18:http://t.example/b4:infod5:filesld6:lengthi5e4:pathl1:a2:..eee4:name1:d12:piece lengthi2e6:pieces0:ee";
    let short: &'static [u8] = b"d8:announce18:http://t.example/a4:infod6:lengthi5e4:name1:n6:pieces0:ee";
    for (n, t) in [("a torrent of a file", file), ("a torrent of a directory", dir), ("a torrent that escapes", escape), ("an incomplete torrent", short)] {
        call!(n, Torrent::mc_parse(t).map(|t| t.mc_view()));
    }
    call!("unescape", (unescape_string(b"a%20b+c%C3%A9"), unescape_bytes(b"%ff")));
    call!("unescape what cannot be", (unescape_string(b"%ff").is_err(), unescape_bytes(b"a%2").is_err()));
    call!("base32", (base32_decode(b"MZXW6YTBOI======"), base32_decode(b"MZXW6YQ"), base32_decode(b"m!")));
    call!("split and trim", (split_string(b"\"a b\" c d", b' ').0.to_vec(), trim(b" \t x \r\n").to_vec(), parse_int(b"-12").ok(), parse_int(b"1x").is_err()));
    v
}

/// Something that is filled or changed in place and asked again: how many
/// contents there are, and the answers for a sequence of them.
type Reused = (&'static str, usize, Box<dyn Fn(&[usize]) -> Vec<String> + Sync>);

/// A text and what becomes of it by changing one byte, cutting or repeating.
fn variants(base: &[u8], others: &[u8]) -> Vec<Vec<u8>> {
    let mut v = vec![base.to_vec()];
    for at in [0, 1, base.len() / 2, base.len() - 2, base.len() - 1] {
        for o in others {
            let mut b = base.to_vec();
            b[at] = *o;
            v.push(b);
        }
    }
    v.push(base[..base.len() - 1].to_vec());
    v.push(base[..base.len() / 2].to_vec());
    v.push([base, base].concat());
    v.push(vec![]);
    v.sort();
    v.dedup();
    v
}

fn reused() -> Vec<Reused> {
    let mut v: Vec<Reused> = vec![];
    macro_rules! buffer {
        ($name: expr, $inputs: expr, $f: expr) => {
            let inputs: Vec<Vec<u8>> = $inputs;
            v.push((
                $name,
                inputs.len(),
                Box::new(move |seq| {
                    let mut buf: Vec<u8> = Vec::with_capacity(1 << 12);
                    seq.iter()
                        .map(|&i| {
                            buf.clear();
                            buf.extend_from_slice(&inputs[i]);
                            caught(|| format!("{:?}", $f(&buf[..])))
                        })
                        .collect()
                }),
            ))
        };
    }
    buffer!("decode", variants(b"d1:ai17e1:bl2:xyi-2ee1:cdee", b"i0e:l"), |b| (Value::decode(b).map_err(|e| e.to_string()), ValueRef::decode(b).map(|v| v.to_owned()).map_err(|e| e.to_string())));
    buffer!("decode with limits", variants(b"li1el4:abcdi2eee", b"le1"), |b| (Value::decode_with_limits(b, Some(2), Some(4)).map_err(|e| e.to_string()), ValueRef::decode_with_limits(b, Some(1), Some(3)).map(|v| v.to_owned()).map_err(|e| e.to_string())));
    buffer!("digest", variants(b"0123456789abcdefghijklmnop", b"zy"), |b| Sha1Hash::update(b).to_string());
    buffer!("an id of bytes", variants(&[9; 20], &[0, 8]), |b| Sha1Hash::from_bytes(b).map(|h| (h.to_string(), h.leading_zeros(), h.all_zeroes())));
    buffer!("hex", variants(b"00112233aabbCCdd", b"f0g"), |b| {
        let mut o = [7; 40];
        (hex::is_hex(b), hex::from_hex(b, &mut o), o, hex::to_hex(b))
    });
    buffer!("base32", variants(b"MZXW6YTBOIMZXW6YTBOIMZXW6YTBOIAB", b"AZ1="), base32_decode);
    buffer!("unescape", variants(b"a%20b+c%C3%A9%41%zz", b"%A+"), |b| (unescape_bytes(b).ok(), unescape_string(b).ok()));
    buffer!("unescape what can be", variants(b"a%20b+c%C3%A9%41de", b"A+"), |b| (unescape_bytes(b).ok(), unescape_string(b).ok()));
    buffer!("split", variants(b"\"a b\" c d e", b"\" x"), |b| {
        let (x, y) = split_string(b, b' ');
        (x.to_vec(), y.to_vec(), trim(b).to_vec())
    });
    buffer!("a number", variants(b"-123456", b"09-x"), |b| parse_int(b).ok());
    buffer!("a link", variants(b"magnet:?xt=urn:btih:00112233445566778899aabbccddeeff01234567&tr=http://a/&so=1-3&dn=name", b"a0%"), |b| {
        std::str::from_utf8(b).ok().map(|s| s.parse::<TorrentParams>().map(|p| (crate::magnet::seen(&p), format!("{:?}", p.file_priorities), p.to_string())))
    });
    buffer!("a torrent", variants(b"d8:announce18:http://t.example/a4:infod6:lengthi5e4:name1:n12:piece lengthi1e6:pieces20:aaaaaaaaaaaaaaaaaaaaee", b"ae7"), |b| Torrent::mc_parse(b).map(|t| t.mc_view()));
    let torrents = |f: &dyn Fn(usize) -> (u8, u8, u8)| -> Vec<Vec<u8>> {
        (0..6)
            .map(|k| {
                let (n, l, h) = f(k);
                format!("d8:announce18:http://t.example/a4:infod5:filesld6:lengthi{}e4:pathl1:{}eee4:name1:n12:piece lengthi1e6:pieces20:{}ee", l as char, n as char, (h as char).to_string().repeat(20)).into_bytes()
            })
            .collect()
    };
    buffer!("torrents that differ inside", [torrents(&|k| (b'a' + k as u8, b'1', b'h')), torrents(&|k| (b'a', b'1' + k as u8, b'h')), torrents(&|k| (b'a', b'1', b'h' + k as u8))].concat(), |b| Torrent::mc_parse(b).map(|t| t.mc_view()));
    buffer!("a state", (0..8u8).map(|k| format!("d7:node-idl24:aaaa{}aaaaaaaaaaaaaaabbb{}e5:nodesl6:abc{}ef3:abce6:nodes6le1:zi{}ee", (b'a' + k % 2) as char, (b'a' + k / 2 % 2) as char, (b'a' + k / 4) as char, k).into_bytes()).collect(), |b| {
        let v = ValueRef::decode(b).unwrap();
        format!("{:?} {:?}", DhtState::read(&v).map_err(|e| e.kind()), extract_node_ids(&v, "node-id").map_err(|e| e.kind()))
    });
    buffer!("settings", (0..8u8).map(|k| format!("d9:max_peersi{}e9:read_onlyi{}e16:search_branchingi{}ee", k % 2, k / 2 % 2, k / 4).into_bytes()).collect(), |b| DhtSettings::read(&ValueRef::decode(b).unwrap()).save().to_vec());
    buffer!("addresses", variants(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18], &[0, 200]), |b: &[u8]| {
        let k = |e: io::Error| e.kind();
        (detail::read_v4_address(&mut &b[..]).map_err(k), detail::read_v6_address(&mut &b[..]).map_err(k), detail::read_v4_socket_address(&mut &b[..]).map_err(k), detail::read_v6_socket_address(&mut &b[..]).map_err(k))
    });
    // an object that stays where it is
    macro_rules! object {
        ($name: expr, $n: expr, $new: expr, $set: expr, $ask: expr) => {
            v.push((
                $name,
                $n,
                Box::new(move |seq| {
                    let mut o = Box::new($new);
                    seq.iter()
                        .map(|&i| {
                            caught(|| {
                                $set(&mut *o, i);
                                format!("{:?}", $ask(&mut *o))
                            })
                        })
                        .collect()
                }),
            ))
        };
    }
    let near = |k: usize| {
        let mut h = [5; 20];
        if k > 0 {
            h[[0, 1, 9, 18, 19][k % 5]] = 3 + k as u8;
        }
        Sha1Hash::from(h)
    };
    object!("ids", 25, (id(1), id(2)), |o: &mut (Sha1Hash, Sha1Hash), i: usize| *o = (near(i % 5), near(i / 5 + 3)), |o: &mut (Sha1Hash, Sha1Hash)| {
        let (a, b) = (&o.0, &o.1);
        let (mut l, mut r) = (a.clone(), a.clone());
        l <<= 13;
        r >>= 13;
        (a.to_string(), a.leading_zeros(), a < b, a == b, (a ^ b).to_string(), (a & b).to_string(), l.to_string(), r.to_string(), node::distance_exp(a, b), node::min_distance_exp(a, std::slice::from_ref(b)))
    });
    object!("own ids", 12, vec![id(1), id(2), id(3)], |o: &mut Vec<Sha1Hash>, i: usize| (0..3).for_each(|k| o[k] = near([i % 2 + 3, i / 2 % 2 + 1, i / 4 + 3][k])), |o: &mut Vec<Sha1Hash>| (node::min_distance_exp(&near(0), o), detail::lower_bound(o, &near(2))));
    object!("a value", 8, Value::Int(0), |o: &mut Value, i: usize| *o = [Value::Int(1), Value::Int(2), Value::with_str("x"), Value::with_str("y"), Value::List(vec![Value::Int(1)]), Value::List(vec![Value::Int(2)]), sample(), Value::Dict(BTreeMap::new())][i].clone(), |o: &mut Value| {
        (o.to_vec(), o.to_string(), o.as_ref().to_vec(), o.as_ref().to_string(), o.as_ref().to_owned(), o.dict_find("a").cloned(), o.list_at(0).cloned(), o.as_int())
    });
    object!("an inner value", 9, sample(), |o: &mut Value, i: usize| {
        let l = o.as_dict_mut().unwrap().get_mut("b").unwrap().as_list_mut().unwrap();
        for k in 0..3 {
            l[k] = Value::Int(if k == i % 3 { i as i64 } else { -1 });
        }
    }, |o: &mut Value| (o.to_vec(), o.as_ref().to_vec(), o.to_string()));
    object!("a state in memory", 8, state(), |o: &mut DhtState, i: usize| {
        *o = state();
        o.nids[1].1 = near(i % 2);
        o.nodes[0].set_port((i / 2 % 2) as u16);
        o.nodes6[0].set_port((i / 4) as u16)
    }, |o: &mut DhtState| (o.save().to_vec()));
    object!("settings in memory", 8, DhtSettings::default(), |o: &mut DhtSettings, i: usize| {
        o.max_peers = i % 2;
        o.read_only = i / 2 % 2 == 1;
        o.block_timeout = i / 4
    }, |o: &mut DhtSettings| o.save().to_vec());
    object!("an address", 8, ip("1.1.1.1"), |o: &mut IpAddr, i: usize| *o = ip(["1.2.3.4", "1.2.3.5", "4.3.2.1", "::1", "::2", "::ffff:1.2.3.4", "102:304::", "::"][i]), |o: &mut IpAddr| {
        let mut b = vec![];
        detail::write_address(&mut b, o).unwrap();
        detail::write_socket_addr(&mut b, &SocketAddr::new(*o, 5)).unwrap();
        (Sha1Hash::from_address(o).to_string(), b)
    });
    object!("a filter", 6, (BloomFilter128::new(), BloomFilter256::new()), |o: &mut (BloomFilter128, BloomFilter256), i: usize| {
        o.0.clear();
        o.1.clear();
        for k in 0..=i as u8 {
            o.0.set(&id(k * 7));
            o.1.set(&id(k * 11));
        }
    }, |o: &mut (BloomFilter128, BloomFilter256)| (o.0.as_bytes().to_vec(), o.1.as_bytes().to_vec(), o.0.size().to_bits(), o.1.size().to_bits(), (0..200).map(|k| o.0.find(&id(k)) as u8 + 2 * o.1.find(&id(k)) as u8).collect::<Vec<_>>()));
    v
}
/// Whether it panics is no matter of this property.
fn caught(f: impl FnOnce() -> String) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| "a panic".into())
}

const STACK: usize = 4 << 20;

/// A call that panics says so; whether it may is no matter of this property.
fn answer(c: &Call) -> String {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (c.1)())).unwrap_or_else(|_| "a panic".into())
}

fn sequence(all: &[Call], alone: &[String], ix: &[usize]) -> Verdict {
    for (n, &i) in ix.iter().enumerate() {
        let got = answer(&all[i]);
        ensure!(
            got == alone[i],
            "as call number {}, {:?} answers {} but in a new process it answers {}",
            n + 1,
            all[i].0,
            clip(&got),
            clip(&alone[i])
        );
    }
    Ok("ok")
}

fn clip(s: &str) -> String {
    if s.len() > 500 {
        format!("{}... ({} bytes, digest {:x})", s.chars().take(400).collect::<String>(), s.len(), engine::hash(s.as_bytes()))
    } else {
        s.to_string()
    }
}

pub fn x01(r: &mut Run) {
    let all = calls();
    let n = all.len();
    // what each call answers as the first of a process
    let alone: Vec<String> = all.iter().map(|c| engine::in_child(STACK, 20, || answer(c))).collect();
    r.note("calls", n as u64);
    r.note("calls that panic", alone.iter().filter(|a| *a == "a panic").count() as u64);
    let show = |ix: &[usize]| ix.iter().map(|&i| all[i].0).collect::<Vec<_>>().join("; ");
    let key = |ix: &[usize]| ix.iter().fold(7, |k, i| combine(k, *i as u64));
    r.family("every call and every two calls, in a new process each");
    words::sequences(n, 1, 2, |ix| {
        r.case_forked(key(ix), STACK, 20, || show(ix), || sequence(&all, &alone, ix));
    });
    r.family("a call again and again");
    for i in 0..n {
        for k in [3usize, 20, 300] {
            let ix = vec![i; k];
            r.case_forked(key(&ix), STACK, 20, || format!("{} times {}", k, all[i].0), || sequence(&all, &alone, &ix));
        }
    }
    r.family("a call thousands of times");
    let most = r.pick(5_000, 70_000);
    r.note("most calls of one kind", most);
    for i in 0..n {
        r.case_forked(combine(i as u64, 5), STACK, 120, || format!("{} times {}", most, all[i].0), || {
            for k in 0..most {
                let got = answer(&all[i]);
                ensure!(got == alone[i], "as call number {}, {:?} answers {} but in a new process it answers {}", k + 1, all[i].0, clip(&got), clip(&alone[i]));
            }
            Ok("ok")
        });
    }
    r.family("one buffer or object for one content after the other");
    for (what, m, run) in reused() {
        let fresh: Vec<String> = (0..m).map(|i| engine::in_child(STACK, 20, || run(&[i])[0].clone())).collect();
        r.count(&format!("contents of {}", what), m as u64);
        let mut go = |r: &mut Run, ix: &[usize]| {
            r.case_forked(combine(hash(what.as_bytes()), key(ix)), STACK, 20, || format!("{} with the contents {:?}", what, ix), || {
                for (k, (got, i)) in run(ix).iter().zip(ix).enumerate() {
                    ensure!(*got == fresh[*i], "{}, content {} as number {}, gives {} but in a new process {}", what, i, k + 1, clip(got), clip(&fresh[*i]));
                }
                Ok("ok")
            });
        };
        words::sequences(m, 2, 2, |ix| go(r, ix));
        words::sequences(m, 2, 2, |ix| {
            if ix[0] != ix[1] {
                go(r, &[ix[0], ix[1], ix[0]]);
            }
        });
        go(r, &(0..m).chain((0..m).rev()).collect::<Vec<_>>());
    }
    r.family("all calls, in many orders");
    for step in 1..n {
        for from in [0, n / 3, n - 1] {
            let ix: Vec<usize> = (0..2 * n).map(|i| (from + i * step) % n).collect();
            r.case_forked(key(&ix), STACK, 20, || format!("calls from {} in steps of {}", from, step), || sequence(&all, &alone, &ix));
        }
    }
    r.family("three calls, the first and the last the same");
    words::sequences(n, 2, 2, |ab| {
        let ix = [ab[0], ab[1], ab[0]];
        r.case_forked(key(&ix), STACK, 20, || show(&ix), || sequence(&all, &alone, &ix));
    });
    r.family(if r.thorough() { "every three calls" } else { "every three calls of a crate" });
    let th = r.thorough();
    words::sequences(n, 3, 3, |ix| {
        if !th && ix.iter().any(|i| all[*i].2 != all[ix[0]].2) {
            return;
        }
        r.case_forked(key(ix), STACK, 20, || show(ix), || sequence(&all, &alone, ix));
    });
}
