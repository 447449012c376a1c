//! Enumeration of all words over a small alphabet, shortest first.

/// Calls `f` with every word of length `lo..=hi` over `alphabet`.
pub fn words(alphabet: &[u8], lo: usize, hi: usize, mut f: impl FnMut(&[u8])) {
    for n in lo..=hi {
        let mut ix = vec![0usize; n];
        let mut w: Vec<u8> = vec![alphabet[0]; n];
        loop {
            f(&w);
            let mut k = n;
            loop {
                if k == 0 {
                    break;
                }
                k -= 1;
                ix[k] += 1;
                if ix[k] < alphabet.len() {
                    w[k] = alphabet[ix[k]];
                    break;
                }
                ix[k] = 0;
                w[k] = alphabet[0];
                if k == 0 {
                    k = usize::MAX;
                    break;
                }
            }
            if n == 0 || k == usize::MAX {
                break;
            }
        }
    }
}

/// Calls `f` with every index vector of the product of ranges `0..dims[i]`.
pub fn product(dims: &[usize], mut f: impl FnMut(&[usize])) {
    if dims.iter().any(|&d| d == 0) {
        return;
    }
    let mut ix = vec![0usize; dims.len()];
    loop {
        f(&ix);
        let mut k = dims.len();
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            ix[k] += 1;
            if ix[k] < dims[k] {
                break;
            }
            ix[k] = 0;
            if k == 0 {
                return;
            }
        }
    }
}

/// Calls `f` with every sequence over `0..n` of length `lo..=hi`.
pub fn sequences(n: usize, lo: usize, hi: usize, mut f: impl FnMut(&[usize])) {
    for len in lo..=hi {
        if len == 0 {
            f(&[]);
            continue;
        }
        product(&vec![n; len], &mut f);
    }
}

#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn counts() {
        let mut n = 0;
        words(b"abc", 0, 4, |_| n += 1);
        assert_eq!(n, 1 + 3 + 9 + 27 + 81);
        let mut n = 0;
        sequences(3, 0, 3, |_| n += 1);
        assert_eq!(n, 40);
        let mut n = 0;
        product(&[2, 3, 4], |_| n += 1);
        assert_eq!(n, 24);
    }
    #[test]
    fn explore_all() {
        let mut seen = std::collections::BTreeSet::new();
        let runs = crate::choice::explore(None, |c| {
            let a = c.choose(3);
            let b = if a == 1 { c.choose(2) } else { 9 };
            seen.insert((a, b));
            true
        });
        assert_eq!(runs, 4);
        assert_eq!(seen.len(), 4);
    }
}

/// Every order of the numbers below `n`.
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut all = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            all.push(q);
        }
    }
    all
}
