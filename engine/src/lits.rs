//! The literals of the code under check, as additional input values.
//!
//! A limit, a key or a magic value can only matter to the code if it is
//! written there (or computed from what is written there), so the numbers and
//! texts of the current sources, and their neighbours, join the fixed value
//! sets of the checks. Test modules and comments do not count.

use std::collections::BTreeSet;
use std::path::Path;

#[derive(Clone, Debug, Default)]
pub struct Lits {
    pub ints: BTreeSet<u128>,
    pub texts: BTreeSet<Vec<u8>>,
    /// the number just read, and the operator that follows it
    last: Option<u128>,
    op: Option<u8>,
}

impl Lits {
    /// Literals of the sources of one crate, such as `src` or `dht/src`.
    pub fn of(dirs: &[&str]) -> Lits {
        let mut l = Lits::default();
        for d in dirs {
            l.dir(&Path::new("/repo").join(d));
        }
        l
    }

    fn dir(&mut self, d: &Path) {
        let mut names: Vec<_> = match std::fs::read_dir(d) {
            Ok(r) => r.filter_map(|e| e.ok()).map(|e| e.path()).collect(),
            Err(_) => return,
        };
        names.sort();
        for p in names {
            if p.is_dir() {
                self.dir(&p);
            } else if p.extension().map_or(false, |e| e == "rs") {
                if let Ok(t) = std::fs::read(&p) {
                    self.source(&t);
                }
            }
        }
    }

    pub fn source(&mut self, src: &[u8]) {
        let mark = b"#[cfg(test)]";
        let end = src.windows(mark.len()).position(|w| w == mark).unwrap_or(src.len());
        let s = &src[..end];
        let at = |k: usize| s.get(k).copied().unwrap_or(0);
        let word = |c: u8| c.is_ascii_alphanumeric() || c == b'_';
        let mut k = 0;
        while k < s.len() {
            let c = s[k];
            if c == b'/' && at(k + 1) == b'/' {
                while k < s.len() && s[k] != b'\n' {
                    k += 1;
                }
            } else if c == b'/' && at(k + 1) == b'*' {
                k += 2;
                while k < s.len() && !(s[k] == b'*' && at(k + 1) == b'/') {
                    k += 1;
                }
                k += 2;
            } else if c == b'\'' {
                // a character, or a lifetime
                if at(k + 1) == b'\\' {
                    k += 3;
                    while k < s.len() && s[k] != b'\'' {
                        k += 1;
                    }
                    k += 1;
                } else {
                    let mut e = k + 2;
                    while e < s.len() && s[e] & 0xc0 == 0x80 {
                        e += 1;
                    }
                    if at(e) == b'\'' {
                        self.texts.insert(s[k + 1..e].to_vec());
                        k = e + 1;
                    } else {
                        k += 1;
                    }
                }
            } else if c == b'"' {
                let mut t = vec![];
                k += 1;
                while k < s.len() && s[k] != b'"' {
                    if s[k] == b'\\' {
                        k += 1;
                        match at(k) {
                            b'n' => t.push(b'\n'),
                            b't' => t.push(b'\t'),
                            b'r' => t.push(b'\r'),
                            b'0' => t.push(0),
                            b'x' => {
                                let h = std::str::from_utf8(&s[(k + 1).min(s.len())..(k + 3).min(s.len())]).unwrap_or("");
                                t.push(u8::from_str_radix(h, 16).unwrap_or(0));
                                k += 2;
                            }
                            b'u' => {
                                let mut n = 0u32;
                                k += 2;
                                while k < s.len() && s[k] != b'}' {
                                    n = n.wrapping_mul(16).wrapping_add((s[k] as char).to_digit(16).unwrap_or(0));
                                    k += 1;
                                }
                                t.extend(char::from_u32(n).unwrap_or('?').to_string().bytes());
                            }
                            b'\n' => {}
                            c => t.push(c),
                        }
                    } else {
                        t.push(s[k]);
                    }
                    k += 1;
                }
                k += 1;
                // a number may be written as a text (`#[def = "100"]`)
                if t.first().map_or(false, |c| c.is_ascii_digit()) {
                    self.number(&t);
                }
                self.texts.insert(t);
            } else if c.is_ascii_digit() && (k == 0 || !word(s[k - 1])) {
                let from = k;
                while k < s.len() && word(s[k]) {
                    k += 1;
                }
                self.number(&s[from..k]);
            } else {
                // `64 * 1024` and `1 << 20` stand for their results too
                match c {
                    b' ' | b'(' | b')' | b'\n' => {}
                    b'*' | b'+' | b'-' | b'^' if self.last.is_some() && self.op.is_none() => self.op = Some(c),
                    b'<' if at(k + 1) == b'<' && self.last.is_some() && self.op.is_none() => {
                        self.op = Some(c);
                        k += 1;
                    }
                    _ => {
                        self.last = None;
                        self.op = None;
                    }
                }
                k += 1;
            }
        }
    }

    fn number(&mut self, t: &[u8]) {
        let t: String = t.iter().filter(|c| **c != b'_').map(|c| *c as char).collect();
        let (radix, body) = match t.get(..2) {
            Some("0x") => (16, &t[2..]),
            Some("0b") => (2, &t[2..]),
            Some("0o") => (8, &t[2..]),
            _ => (10, &t[..]),
        };
        // a suffix such as u8 or usize follows the digits
        let end = body.find(|c: char| !c.is_digit(radix)).unwrap_or(body.len());
        if let Ok(n) = u128::from_str_radix(&body[..end], radix) {
            self.ints.insert(n);
            let both = match (self.last, self.op.take()) {
                (Some(l), Some(b'*')) => l.checked_mul(n),
                (Some(l), Some(b'+')) => l.checked_add(n),
                (Some(l), Some(b'-')) => l.checked_sub(n),
                (Some(l), Some(b'<')) if n < 64 => l.checked_mul(1 << n),
                _ => None,
            };
            self.ints.extend(both);
            self.last = both.or(Some(n));
        }
    }

    /// The numbers up to a bound, with their neighbours, doubles and multiples
    /// by eight, in ascending order.
    pub fn around(&self, most: u64) -> Vec<u64> {
        let mut v = BTreeSet::new();
        for &n in &self.ints {
            for m in [n, n * 2, n * 8, n / 2, n / 4, n / 8] {
                for d in [m.saturating_sub(1), m, m + 1] {
                    if d <= most as u128 {
                        v.insert(d as u64);
                    }
                }
            }
        }
        v.into_iter().collect()
    }

    /// The texts that are UTF-8.
    pub fn strs(&self) -> Vec<String> {
        self.texts.iter().filter_map(|t| String::from_utf8(t.clone()).ok()).collect()
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn reads() {
        let mut l = Lits::default();
        l.source(br##"fn f<'a>(x: &'a [u8]) { let a = 0x1F_u8 + 10_000; if c == b'"' || c == '\'' { "a\"b\x41" } /* 77 */ // 88
        "100" } #[cfg(test)] 99"##);
        assert_eq!(l.ints.iter().copied().collect::<Vec<_>>(), vec![0x1f, 100, 10000, 10031]);
        let mut m = Lits::default();
        m.source(b"a: [u8; 3] = 4 * 16 * 10; (1u64 << 12) - 5, 6 - x");
        assert_eq!(m.ints.iter().copied().collect::<Vec<_>>(), vec![1, 3, 4, 5, 6, 10, 12, 16, 64, 640, 4091, 4096]);
        assert!(l.texts.contains(&b"a\"bA"[..].to_vec()) && l.texts.contains(&b"\""[..].to_vec()));
    }
}
