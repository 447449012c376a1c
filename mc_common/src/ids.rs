use common::sha1::Sha1Hash;
use engine::lits::Lits;
use engine::{combine, ensure, hash, show, Run, Verdict};

pub type Id = [u8; 20];

pub fn bit(i: usize) -> Id {
    let mut a = [0; 20];
    a[i / 8] = 0x80 >> (i % 8);
    a
}

fn get(a: &Id, i: usize) -> bool {
    a[i / 8] & (0x80 >> (i % 8)) != 0
}

/// Bit i of the result is bit i + by of the argument (0 beyond the ends).
fn moved(a: &Id, by: i128) -> Id {
    let mut r = [0; 20];
    for i in 0..160 {
        let j = i as i128 + by;
        if (0..160).contains(&j) && get(a, j as usize) {
            r[i / 8] |= 0x80 >> (i % 8);
        }
    }
    r
}

pub fn hex(a: &[u8]) -> String {
    a.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn family(pairs: bool) -> Vec<Id> {
    let mut v: Vec<Id> = vec![[0; 20], [0xff; 20], [0x55; 20], [0xaa; 20], [0x0f; 20], [0x80; 20], [0x01; 20]];
    let mut a = [0; 20];
    for i in 0..20 {
        a[i] = i as u8 * 13 + 1;
    }
    v.push(a);
    for i in 0..20 {
        a[i] = 0xf7 ^ (i as u8).wrapping_mul(37);
    }
    v.push(a);
    for i in 0..160 {
        v.push(bit(i));
        let mut n = bit(i);
        n.iter_mut().for_each(|b| *b = !*b);
        v.push(n);
        // runs of ones from either end
        let mut r = [0; 20];
        for j in 0..=i {
            r[j / 8] |= 0x80 >> (j % 8);
        }
        v.push(r);
        r.iter_mut().for_each(|b| *b = !*b);
        v.push(r);
    }
    for p in 0..20 {
        for b in [0x01u8, 0x7f, 0x81, 0xfe, 0xc3, 0x18] {
            let mut r = [0; 20];
            r[p] = b;
            v.push(r);
        }
    }
    // the numbers of the sources as the words of an id
    for n in Lits::of(&["common/src"]).around(u64::MAX) {
        for at in [0, 4, 8, 12] {
            let mut r = [0; 20];
            r[at..at + 8].copy_from_slice(&n.to_be_bytes());
            v.push(r);
        }
    }
    if pairs {
        for i in 0..160 {
            for j in i + 1..160 {
                let mut r = bit(i);
                r[j / 8] |= 0x80 >> (j % 8);
                v.push(r);
            }
        }
    }
    v
}

#[repr(C)]
struct Fenced {
    pre: [u8; 512],
    id: Sha1Hash,
    post: [u8; 512],
}

fn shift(h: &mut Sha1Hash, left: bool, n: usize) {
    if left {
        *h <<= n
    } else {
        *h >>= n
    }
}

/// An id placed against the given end of a page whose neighbour is unmapped.
struct Edge {
    at: *mut Sha1Hash,
}

impl Edge {
    fn new(end: bool) -> Edge {
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                3 * 4096,
                libc::PROT_NONE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED);
            let mid = (p as *mut u8).add(4096);
            assert!(libc::mprotect(mid as *mut _, 4096, libc::PROT_READ | libc::PROT_WRITE) == 0);
            let at = if end { mid.add(4096 - std::mem::size_of::<Sha1Hash>()) } else { mid };
            assert!(std::mem::align_of::<Sha1Hash>() <= 4);
            std::ptr::write(at as *mut Sha1Hash, Sha1Hash::new());
            Edge { at: at as *mut Sha1Hash }
        }
    }
    fn id(&mut self) -> &mut Sha1Hash {
        unsafe { &mut *self.at }
    }
}

fn shifts(a: &Id, left: bool, n: usize, edges: &mut [Edge; 2]) -> Verdict {
    let want = if n >= 160 { [0; 20] } else { moved(a, if left { n as i128 } else { -(n as i128) }) };
    let mut b = Box::new(Fenced { pre: [0x5a; 512], id: Sha1Hash::from(*a), post: [0xa5; 512] });
    shift(&mut b.id, left, n);
    ensure!(b.id[..] == want, "gives {}, not {}", hex(&b.id), hex(&want));
    for (i, x) in b.pre.iter().enumerate() {
        ensure!(*x == 0x5a, "wrote {} bytes before the id", 512 - i);
    }
    for (i, x) in b.post.iter().enumerate() {
        ensure!(*x == 0xa5, "wrote {} bytes after the id", i + 1);
    }
    for e in edges.iter_mut() {
        *e.id() = Sha1Hash::from(*a);
        shift(e.id(), left, n);
        ensure!(e.id()[..] == want, "at the edge of a page gives {}", hex(e.id()));
    }
    Ok(if n == 0 || *a == [0; 20] {
        "trivial"
    } else if n >= 160 {
        "everything shifted out"
    } else if want == [0; 20] {
        "all set bits shifted out"
    } else {
        "shifted"
    })
}

pub fn c01(r: &mut Run) {
    let fam = family(r.thorough());
    let mut amounts: Vec<usize> = (0..=330).collect();
    for k in 8..64 {
        let p = 1usize << k;
        amounts.extend([p - 1, p, p + 1, p + 7, p + 8]);
    }
    amounts.extend([1000, 1279, 1280, 1281, 20000, usize::MAX, usize::MAX - 7, usize::MAX - 8, usize::MAX / 8, usize::MAX / 8 + 1]);
    amounts.extend(Lits::of(&["common/src"]).around(u64::MAX).into_iter().map(|n| n as usize));
    amounts.sort_unstable();
    amounts.dedup();
    if r.thorough() {
        r.note("ids", "zero, ones, patterns, runs, all single and double bits, their complements");
    } else {
        r.note("ids", "zero, ones, patterns, runs, all single bits, their complements");
    }
    r.note("amounts", "0 to 330, values around every power of two up to the largest and around every number in the sources");
    r.family("shifts");
    let mut edges = [Edge::new(false), Edge::new(true)];
    let many = fam.len() > 2000;
    for (k, a) in fam.iter().enumerate() {
        for &n in &amounts {
            if many && k > 1500 && n > 170 {
                continue;
            }
            for left in [true, false] {
                let key = combine(hash(a), combine(n as u64, left as u64));
                r.case(key, || format!("{} {} {}", hex(a), if left { "<<" } else { ">>" }, n), || shifts(a, left, n, &mut edges));
            }
        }
    }
}

// ------------------------------------------------------------------------ C02

fn num(a: &Id) -> (u128, u32) {
    let mut hi = [0; 16];
    hi.copy_from_slice(&a[..16]);
    let mut lo = [0; 4];
    lo.copy_from_slice(&a[16..]);
    (u128::from_be_bytes(hi), u32::from_be_bytes(lo))
}

fn bitwise(a: &Id, b: &Id, f: impl Fn(u8, u8) -> u8) -> Id {
    let mut r = [0; 20];
    for i in 0..20 {
        r[i] = f(a[i], b[i]);
    }
    r
}

fn pair(a: &Id, b: &Id) -> Verdict {
    use std::collections::hash_map::DefaultHasher;
    use std::hash::{Hash, Hasher};
    let x = Sha1Hash::from(*a);
    let y = Sha1Hash::from(b);
    macro_rules! op {
        ($name:expr, $sign:tt, $assign:tt, $f:expr) => {
            let want = bitwise(a, b, $f);
            let mut all: Vec<(&str, Sha1Hash)> = vec![
                ("value, value", x.clone() $sign y.clone()),
                ("value, reference", x.clone() $sign &y),
                ("reference, value", &x $sign y.clone()),
                ("reference, reference", &x $sign &y),
            ];
            let mut z = x.clone();
            z $assign y.clone();
            all.push(("in place, value", z));
            let mut z = x.clone();
            z $assign &y;
            all.push(("in place, reference", z));
            if a == b {
                // one id on both sides
                all.push(("one reference twice", &x $sign &x));
                all.push(("value, reference to its copy", x.clone() $sign &x));
            }
            for (form, got) in all {
                ensure!(got[..] == want, "{} ({}) gives {}, not {}", $name, form, hex(&got), hex(&want));
            }
        };
    }
    op!("and", &, &=, |p, q| p & q);
    op!("or", |, |=, |p, q| p | q);
    op!("xor", ^, ^=, |p, q| p ^ q);
    ensure!(x[..] == a[..] && y[..] == b[..], "an operand changed");
    let want = bitwise(a, a, |p, _| !p);
    ensure!((!x.clone())[..] == want, "complement gives {}", hex(&!x.clone()));
    let order = num(a).cmp(&num(b));
    ensure!(x.cmp(&y) == order, "cmp gives {:?}, not {:?}", x.cmp(&y), order);
    ensure!(x.partial_cmp(&y) == Some(order), "partial_cmp gives {:?}", x.partial_cmp(&y));
    ensure!((x < y) == order.is_lt() && (x > y) == order.is_gt() && (x <= y) == order.is_le() && (x >= y) == order.is_ge(), "comparison operators disagree");
    ensure!((x == y) == (a == b) && (x != y) == (a != b), "equality is {}", x == y);
    if a == b {
        let h = |s: &Sha1Hash| {
            let mut d = DefaultHasher::new();
            s.hash(&mut d);
            d.finish()
        };
        ensure!(h(&x) == h(&y), "equal ids hash differently");
    }
    Ok(if *a == [0; 20] && *b == [0; 20] { "trivial" } else if a == b { "equal ids" } else { "different ids" })
}

fn single(a: &Id) -> Verdict {
    let x = Sha1Hash::from(*a);
    let lz = (0..160).find(|&i| get(a, i)).unwrap_or(160);
    ensure!(x.leading_zeros() == lz, "leading_zeros is {}, not {}", x.leading_zeros(), lz);
    ensure!(x.all_zeroes() == (*a == [0; 20]), "all_zeroes is {}", x.all_zeroes());
    ensure!(x >= Sha1Hash::min() && x <= Sha1Hash::max() && x >= Sha1Hash::new(), "not between min and max");
    ensure!((x == Sha1Hash::min()) == (*a == [0; 20]) && (x == Sha1Hash::max()) == (*a == [0xff; 20]), "min or max");
    ensure!(x.iter().eq(a.iter()), "iter");
    let mut y = x.clone();
    y.clear();
    ensure!(y[..] == [0; 20] && y == Sha1Hash::new() && y == Sha1Hash::default() && y.all_zeroes() && y.leading_zeros() == 160, "clear leaves {}", hex(&y));
    ensure!(x[..] == a[..], "the original changed");
    let mut y = x.clone();
    y.iter_mut().for_each(|b| *b = b.wrapping_add(1));
    ensure!(y.iter().zip(a).all(|(p, q)| *p == q.wrapping_add(1)), "iter_mut");
    Ok(if *a == [0; 20] { "trivial" } else { "one id" })
}

pub fn c02(r: &mut Run) {
    let fam = family(false);
    r.family("one id");
    for a in family(true) {
        r.case(hash(&a), || hex(&a), || single(&a));
    }
    for p in 0..20 {
        for b in 0..=255u8 {
            for rest in [0u8, 0xff] {
                let mut a = [rest; 20];
                a[p] = b;
                r.case(hash(&a), || hex(&a), || single(&a));
            }
        }
    }
    r.family("pairs of the id family");
    for a in &fam {
        for b in &fam {
            r.case(combine(hash(a), hash(b)), || format!("{} and {}", hex(a), hex(b)), || pair(a, b));
        }
    }
    r.family("every pair of byte values in one position");
    let ps: Vec<usize> = (0..20).collect();
    r.note("positions of the byte pairs", ps.len());
    for p in ps {
        for x in 0..=255u8 {
            for y in 0..=255u8 {
                let mut a = [0x3c; 20];
                let mut b = [0x3c; 20];
                a[p] = x;
                b[p] = y;
                r.case(combine(hash(&a), hash(&b)), || format!("{} and {}", hex(&a), hex(&b)), || pair(&a, &b));
            }
        }
    }
    r.family("order decided at one position against a later one");
    for p in 0..20 {
        for q in 0..20 {
            for (x, y, z, w) in [(0u8, 1u8, 255u8, 0u8), (1, 2, 9, 3), (127, 128, 128, 127), (254, 255, 1, 0)] {
                let mut a = [7; 20];
                let mut b = [7; 20];
                a[q] = z;
                b[q] = w;
                a[p] = x;
                b[p] = y;
                r.case(combine(hash(&a), hash(&b)), || format!("{} and {}", hex(&a), hex(&b)), || pair(&a, &b));
            }
        }
    }
    let _ = show;
}
