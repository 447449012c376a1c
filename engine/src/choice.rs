//! Exhaustive exploration of the choices an environment makes during one
//! execution (stateless search with replayed prefixes).

use std::cell::RefCell;
use std::rc::Rc;

/// One execution: asks for choices, replays the prefix, then takes choice 0.
pub struct Chooser {
    prefix: Vec<u64>,
    /// (choice, number of alternatives) of this execution
    pub taken: Vec<(u64, u64)>,
    /// set when a replayed prefix met a different number of alternatives
    pub diverged: bool,
    sizes: Vec<u64>,
}

impl Chooser {
    pub fn choose(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        let i = self.taken.len();
        let c = if i < self.prefix.len() {
            if self.sizes[i] != n || self.prefix[i] >= n {
                self.diverged = true;
                0
            } else {
                self.prefix[i]
            }
        } else {
            0
        };
        self.taken.push((c, n));
        c
    }
}

/// Runs `f` for every sequence of choices. `deviations` bounds the number of
/// non-zero choices (None: unbounded). `f` returns false to stop the search.
/// Returns the number of executions.
pub fn explore<F>(deviations: Option<u32>, mut f: F) -> u64
where
    F: FnMut(&mut Chooser) -> bool,
{
    let mut runs = 0;
    // (prefix of choices, number of alternatives at each)
    let mut stack: Vec<(Vec<u64>, Vec<u64>)> = vec![(vec![], vec![])];
    while let Some((prefix, sizes)) = stack.pop() {
        let keep = prefix.len();
        let mut ch = Chooser { prefix, sizes, taken: vec![], diverged: false };
        let go = f(&mut ch);
        runs += 1;
        assert!(!ch.diverged, "execution diverged while replaying a prefix");
        if !go {
            return runs;
        }
        for i in (keep..ch.taken.len()).rev() {
            let used = ch.taken[..i].iter().filter(|(c, _)| *c != 0).count() as u32;
            if let Some(d) = deviations {
                if used + 1 > d {
                    continue;
                }
            }
            for alt in (1..ch.taken[i].1).rev() {
                let mut p: Vec<u64> = ch.taken[..i].iter().map(|t| t.0).collect();
                p.push(alt);
                let s: Vec<u64> = ch.taken[..=i].iter().map(|t| t.1).collect();
                stack.push((p, s));
            }
        }
    }
    runs
}

const ENOUGH: u32 = 1000;

/// Some number for each number.
pub fn any(n: u64) -> u64 {
    let x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let x = (x ^ (x >> 32)).wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 32)
}

/// CPU time of this thread in seconds.
pub fn cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

struct Shared {
    ch: *mut Chooser,
    p: f64,
    exact: bool,
    asked: u32,
}
/// Probability of the answers given, and whether all were exact choices.
pub struct Weight(Rc<RefCell<Shared>>);

/// A random-source script that takes its answers from the chooser. Raw 64-bit
/// words come from a grid of `grid` values. The chooser must outlive the script.
pub fn relay(ch: &mut Chooser, grid: u64) -> (impl FnMut(Option<u64>) -> u64 + 'static, Weight) {
    let s = Rc::new(RefCell::new(Shared { ch, p: 1.0, exact: true, asked: 0 }));
    let t = s.clone();
    let f = move |n: Option<u64>| {
        let mut s = t.borrow_mut();
        s.asked += 1;
        assert!(s.asked < 100_000, "asks the random source without end");
        let k = n.unwrap_or(grid);
        // who asks until it likes the answer is not explored further
        if s.asked > ENOUGH {
            return any(s.asked as u64) % n.unwrap_or(u64::MAX);
        }
        if n.is_none() {
            s.exact = false;
        }
        s.p /= k as f64;
        let c = unsafe { (*s.ch).choose(k) };
        match n {
            Some(_) => c,
            None => (u64::MAX / k).wrapping_mul(c).wrapping_add(u64::MAX / k / 2),
        }
    };
    (f, Weight(s))
}

impl Weight {
    pub fn finish(self) -> (f64, bool) {
        let s = self.0.borrow();
        (s.p, s.exact)
    }
    /// Whether the source was asked so often that answers were made up.
    pub fn endless(&self) -> bool {
        self.0.borrow().asked > ENOUGH
    }
}
