//! Reference model of bencode: a plain tree, a plain encoder and a plain
//! recursive-descent parser, written from the format's description.

use bencode::{Value, ValueRef};
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T {
    I(i64),
    B(Vec<u8>),
    L(Vec<T>),
    /// ascending by key bytes, keys distinct
    D(Vec<(String, T)>),
}
use T::*;

pub fn bytes(s: &[u8]) -> T {
    B(s.to_vec())
}
pub fn dict(mut v: Vec<(String, T)>) -> T {
    v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
    D(v)
}

pub fn encode(t: &T, out: &mut Vec<u8>) {
    match t {
        I(n) => {
            out.push(b'i');
            let mut digits = vec![];
            let mut m = n.unsigned_abs();
            while m > 0 || digits.is_empty() {
                digits.push(b'0' + (m % 10) as u8);
                m /= 10;
            }
            if *n < 0 {
                out.push(b'-');
            }
            out.extend(digits.iter().rev());
            out.push(b'e');
        }
        B(s) => string(s, out),
        L(v) => {
            out.push(b'l');
            for x in v {
                encode(x, out);
            }
            out.push(b'e');
        }
        D(m) => {
            out.push(b'd');
            for (k, v) in m {
                string(k.as_bytes(), out);
                encode(v, out);
            }
            out.push(b'e');
        }
    }
}

fn string(s: &[u8], out: &mut Vec<u8>) {
    let mut digits = vec![];
    let mut m = s.len();
    while m > 0 || digits.is_empty() {
        digits.push(b'0' + (m % 10) as u8);
        m /= 10;
    }
    out.extend(digits.iter().rev());
    out.push(b':');
    out.extend_from_slice(s);
}

pub fn enc(t: &T) -> Vec<u8> {
    let mut v = vec![];
    encode(t, &mut v);
    v
}

pub fn to_value(t: &T) -> Value {
    match t {
        I(n) => Value::Int(*n),
        B(b) => Value::Bytes(b.clone()),
        L(v) => Value::List(v.iter().map(to_value).collect()),
        // inserted in descending order on purpose
        D(m) => {
            let mut d = BTreeMap::new();
            for (k, v) in m.iter().rev() {
                d.insert(k.clone(), to_value(v));
            }
            Value::Dict(d)
        }
    }
}

pub fn to_ref(t: &T) -> ValueRef<'_> {
    match t {
        I(n) => ValueRef::Int(*n),
        B(b) => ValueRef::Bytes(b),
        L(v) => ValueRef::List(v.iter().map(to_ref).collect()),
        D(m) => {
            let mut d = BTreeMap::new();
            for (k, v) in m.iter().rev() {
                d.insert(&k[..], to_ref(v));
            }
            ValueRef::Dict(d)
        }
    }
}

pub fn same(t: &T, v: &Value) -> bool {
    match (t, v) {
        (I(a), Value::Int(b)) => a == b,
        (B(a), Value::Bytes(b)) => a == b,
        (L(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(x, y)),
        (D(a), Value::Dict(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same(x, y))
        }
        _ => false,
    }
}

pub fn same_ref(t: &T, v: &ValueRef<'_>) -> bool {
    match (t, v) {
        (I(a), ValueRef::Int(b)) => a == b,
        (B(a), ValueRef::Bytes(b)) => &a[..] == *b,
        (L(a), ValueRef::List(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_ref(x, y))
        }
        (D(a), ValueRef::Dict(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && same_ref(x, y))
        }
        _ => false,
    }
}

/// Structural equality of the two representations, without using their own
/// conversions or comparisons.
pub fn agree(v: &Value, r: &ValueRef<'_>) -> bool {
    match (v, r) {
        (Value::Int(a), ValueRef::Int(b)) => a == b,
        (Value::Bytes(a), ValueRef::Bytes(b)) => &a[..] == *b,
        (Value::List(a), ValueRef::List(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| agree(x, y))
        }
        (Value::Dict(a), ValueRef::Dict(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && agree(x, y))
        }
        _ => false,
    }
}

/// What the parser read: like `T`, but dictionaries keep every entry in
/// document order.
#[derive(Clone, Debug)]
pub enum P {
    I(i64),
    B(Vec<u8>),
    L(Vec<P>),
    D(Vec<(String, P)>),
}

pub struct Parsed {
    pub value: P,
    /// a number with a plus sign, leading zeros or negative zero occurs
    pub odd_number: bool,
    /// most containers around a value
    pub depth: usize,
    /// number of values, dictionary keys included
    pub items: usize,
}

struct Parser<'a> {
    b: &'a [u8],
    at: usize,
    odd: bool,
    depth: usize,
    items: usize,
}

/// The one well-formed document spelled by `b`, if any.
pub fn parse(b: &[u8]) -> Option<Parsed> {
    let mut p = Parser { b, at: 0, odd: false, depth: 0, items: 0 };
    let value = p.value(0)?;
    if p.at != b.len() {
        return None;
    }
    Some(Parsed { value, odd_number: p.odd, depth: p.depth, items: p.items })
}

impl Parser<'_> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.at).copied()
    }

    fn digits(&mut self) -> Option<&[u8]> {
        let s = self.at;
        while matches!(self.peek(), Some(b'0'..=b'9')) {
            self.at += 1;
        }
        if s == self.at {
            return None;
        }
        if self.b[s] == b'0' && self.at > s + 1 {
            self.odd = true;
        }
        Some(&self.b[s..self.at])
    }

    fn value(&mut self, depth: usize) -> Option<P> {
        self.items += 1;
        self.depth = self.depth.max(depth);
        match self.peek()? {
            b'i' => {
                self.at += 1;
                let neg = self.peek()? == b'-';
                if neg {
                    self.at += 1;
                } else if self.peek()? == b'+' {
                    self.odd = true;
                    self.at += 1;
                }
                let mut n: i128 = 0;
                for &d in self.digits()? {
                    n = n * 10 + (d - b'0') as i128;
                    if n > u64::MAX as i128 {
                        n = u64::MAX as i128;
                    }
                }
                if neg {
                    if n == 0 {
                        self.odd = true;
                    }
                    n = -n;
                }
                if self.peek()? != b'e' {
                    return None;
                }
                self.at += 1;
                if n < i64::MIN as i128 || n > i64::MAX as i128 {
                    return None;
                }
                Some(P::I(n as i64))
            }
            b'0'..=b'9' => {
                let mut n: u128 = 0;
                for &d in self.digits()? {
                    n = (n * 10 + (d - b'0') as u128).min(u64::MAX as u128);
                }
                if self.peek()? != b':' {
                    return None;
                }
                self.at += 1;
                if n > (self.b.len() - self.at) as u128 {
                    return None;
                }
                let s = self.b[self.at..self.at + n as usize].to_vec();
                self.at += n as usize;
                Some(P::B(s))
            }
            b'l' => {
                self.at += 1;
                let mut v = vec![];
                while self.peek()? != b'e' {
                    v.push(self.value(depth + 1)?);
                }
                self.at += 1;
                Some(P::L(v))
            }
            b'd' => {
                self.at += 1;
                let mut v = vec![];
                while self.peek()? != b'e' {
                    let k = match self.value(depth + 1)? {
                        P::B(k) => String::from_utf8(k).ok()?,
                        _ => return None,
                    };
                    if self.peek()? == b'e' {
                        return None;
                    }
                    v.push((k, self.value(depth + 1)?));
                }
                self.at += 1;
                Some(P::D(v))
            }
            _ => None,
        }
    }
}

fn group(a: &[(String, P)]) -> BTreeMap<&str, Vec<&P>> {
    let mut g: BTreeMap<&str, Vec<&P>> = BTreeMap::new();
    for (k, v) in a {
        g.entry(k).or_default().push(v);
    }
    g
}

/// Does the decoded value say what the document says? Of several entries with
/// one key, any may have won.
pub fn spells(p: &P, v: &Value) -> bool {
    match (p, v) {
        (P::I(a), Value::Int(b)) => a == b,
        (P::B(a), Value::Bytes(b)) => a == b,
        (P::L(a), Value::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| spells(x, y)),
        (P::D(a), Value::Dict(b)) => {
            let g = group(a);
            g.len() == b.len() && b.iter().all(|(k, y)| g.get(&k[..]).map_or(false, |v| v.iter().any(|x| spells(x, y))))
        }
        _ => false,
    }
}

pub fn spells_ref(p: &P, v: &ValueRef<'_>) -> bool {
    match (p, v) {
        (P::I(a), ValueRef::Int(b)) => a == b,
        (P::B(a), ValueRef::Bytes(b)) => &a[..] == *b,
        (P::L(a), ValueRef::List(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| spells_ref(x, y))
        }
        (P::D(a), ValueRef::Dict(b)) => {
            let g = group(a);
            g.len() == b.len() && b.iter().all(|(k, y)| g.get(*k).map_or(false, |v| v.iter().any(|x| spells_ref(x, y))))
        }
        _ => false,
    }
}

// ------------------------------------------------------------ prefix automaton

/// Configuration of the recogniser after reading a prefix of a document: the
/// open containers and the token being read. Used to enumerate all viable
/// prefixes and as the model state of the evidence.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Conf {
    /// 'l' list, 'k' dictionary expecting a key, 'v' dictionary expecting a value
    pub stack: Vec<u8>,
    pub tok: Tok,
    pub done: bool,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Tok {
    None,
    /// after 'i'
    IntStart,
    IntSign,
    IntDigits { zero: bool },
    Len { n: usize },
    Str { left: usize },
}

impl Conf {
    pub fn start() -> Conf {
        Conf { stack: vec![], tok: Tok::None, done: false }
    }

    fn close_value(&mut self) {
        self.tok = Tok::None;
        match self.stack.last_mut() {
            None => self.done = true,
            Some(c) if *c == b'k' => *c = b'v',
            Some(c) if *c == b'v' => *c = b'k',
            _ => {}
        }
    }

    /// Strict successor: None if the prefix cannot be continued to a document
    /// (canonical numbers only; string bytes from the ASCII alphabet).
    pub fn step(&self, c: u8) -> Option<Conf> {
        let mut s = self.clone();
        if s.done {
            return None;
        }
        match s.tok.clone() {
            Tok::Str { left } => {
                if left == 1 {
                    s.close_value();
                } else {
                    s.tok = Tok::Str { left: left - 1 };
                }
                Some(s)
            }
            Tok::Len { n } => match c {
                b'0'..=b'9' if n > 0 => {
                    s.tok = Tok::Len { n: n * 10 + (c - b'0') as usize };
                    Some(s)
                }
                b':' => {
                    if n == 0 {
                        s.close_value();
                    } else {
                        s.tok = Tok::Str { left: n };
                    }
                    Some(s)
                }
                _ => None,
            },
            Tok::IntStart => match c {
                b'-' => {
                    s.tok = Tok::IntSign;
                    Some(s)
                }
                b'0'..=b'9' => {
                    s.tok = Tok::IntDigits { zero: c == b'0' };
                    Some(s)
                }
                _ => None,
            },
            Tok::IntSign => match c {
                b'1'..=b'9' => {
                    s.tok = Tok::IntDigits { zero: false };
                    Some(s)
                }
                _ => None,
            },
            Tok::IntDigits { zero } => match c {
                b'0'..=b'9' if !zero => Some(s),
                b'e' => {
                    s.close_value();
                    Some(s)
                }
                _ => None,
            },
            Tok::None => {
                let key = s.stack.last() == Some(&b'k');
                match c {
                    b'e' => match s.stack.pop() {
                        Some(b'l') | Some(b'k') => {
                            s.close_value();
                            Some(s)
                        }
                        _ => None,
                    },
                    b'0'..=b'9' => {
                        s.tok = Tok::Len { n: (c - b'0') as usize };
                        Some(s)
                    }
                    _ if key => None,
                    b'i' => {
                        s.tok = Tok::IntStart;
                        Some(s)
                    }
                    b'l' => {
                        s.stack.push(b'l');
                        Some(s)
                    }
                    b'd' => {
                        s.stack.push(b'k');
                        Some(s)
                    }
                    _ => None,
                }
            }
        }
    }

    /// Fewest further bytes to complete a document.
    pub fn need(&self) -> usize {
        if self.done {
            return 0;
        }
        let mut n = 0;
        let mut stack = self.stack.clone();
        let mut open = true; // a value is being read or still expected at top
        match self.tok {
            Tok::Str { left } => n += left,
            Tok::Len { n: l } => n += 1 + l,
            Tok::IntStart | Tok::IntSign => n += 2,
            Tok::IntDigits { .. } => n += 1,
            Tok::None => {
                open = false;
                if stack.is_empty() {
                    return 2;
                }
            }
        }
        if open {
            match stack.last_mut() {
                Some(c) if *c == b'k' => *c = b'v',
                Some(c) if *c == b'v' => *c = b'k',
                _ => {}
            }
        }
        // the innermost container may still lack a value; closing it gives the
        // one outside its value
        let mut first = true;
        while let Some(c) = stack.pop() {
            let lacks = if first { c == b'v' } else { false };
            if lacks {
                n += 2;
            }
            if !first && c == b'k' {
                // the container just closed was a key: impossible
                n += 1000;
            }
            n += 1;
            first = false;
        }
        n
    }
}
