//! A small bounded-exhaustive explorer.
//!
//! A property is a function that enumerates *cases* in a fixed order
//! (simplest first). Each case runs the real code once and compares it with a
//! reference model. The enumeration is deterministic, so a case is identified
//! by its index, and `--only INDEX` replays exactly that case.
//!
//! The parent process starts N workers; every worker walks the whole
//! enumeration and executes the cases whose key falls into its shard, so the
//! shards are disjoint and together cover everything. The parent watches each
//! worker: a worker that dies, or burns CPU without finishing a case, points
//! at the case it was executing; that case is replayed on its own before
//! anything is reported.

pub mod choice;
pub mod json;
pub mod lits;
pub mod sha1;
pub mod words;

use json::Json;
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub type PropFn = fn(&mut Run);

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    /// how cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: PropFn,
}

// ---------------------------------------------------------------- hashing

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, n: u64) {
        self.0 = n
    }
}
pub type IdSet = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// 64-bit hash of bytes (FNV-style with a final avalanche).
pub fn hash(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ (bytes.len() as u64);
    for &b in bytes {
        h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
        h = h.rotate_left(23);
    }
    mix(h)
}
pub fn mix(mut h: u64) -> u64 {
    h = (h ^ (h >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    h = (h ^ (h >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    h ^ (h >> 31)
}
pub fn hash_dbg<T: std::fmt::Debug>(t: &T) -> u64 {
    hash(format!("{:?}", t).as_bytes())
}
pub fn combine(a: u64, b: u64) -> u64 {
    mix(a.rotate_left(17) ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15))
}

// ---------------------------------------------------------------- shared page

#[repr(C)]
struct Page {
    /// index + 1 of the case being executed, 0 between cases
    current: AtomicU64,
    /// number of cases finished
    done: AtomicU64,
    /// index of the last case seen (executed or skipped)
    cursor: AtomicU64,
}

fn map_page(path: &Path) -> &'static Page {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(false)
        .open(path)
        .expect("progress file");
    f.set_len(4096).expect("progress file");
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap of the progress page");
        &*(p as *const Page)
    }
}

// ---------------------------------------------------------------- worker side

/// Class of a passed case. Classes starting with "trivial" are not counted as
/// non-trivial.
pub type Verdict = Result<&'static str, String>;

#[derive(Clone, Debug)]
pub struct Failure {
    pub idx: u64,
    pub label: String,
    pub message: String,
}

pub struct Run {
    pub tier: Tier,
    pub seed: u64,
    shard: u64,
    nshards: u64,
    only: Option<u64>,
    idx: u64,
    page: &'static Page,
    deadline: Instant,
    // results
    evaluations: u64,
    classes: BTreeMap<&'static str, u64>,
    distinct: IdSet,
    states: IdSet,
    transitions: IdSet,
    traces: u64,
    tracing: bool,
    samples: Vec<String>,
    class_samples: BTreeMap<&'static str, u32>,
    notes: BTreeMap<String, Json>,
    counts: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    family: String,
    failure: Option<Failure>,
    known: Vec<String>,
    known_hits: Vec<Failure>,
    capped: Option<String>,
    out: PathBuf,
    describe: bool,
}

static LAST_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn clip(s: String, n: usize) -> String {
    if s.len() <= n {
        return s;
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    /// True once a violation was found (the enumeration should stop).
    pub fn stop(&self) -> bool {
        self.failure.is_some()
    }
    /// Names the family the following cases belong to (for the evidence).
    pub fn family(&mut self, name: &str) {
        self.family = name.to_string();
        self.families.entry(self.family.clone()).or_insert(0);
    }
    pub fn note(&mut self, key: &str, value: impl Into<Json>) {
        self.notes.insert(key.to_string(), value.into());
    }
    pub fn count(&mut self, key: &str, n: u64) {
        *self.counts.entry(key.to_string()).or_insert(0) += n;
    }
    /// Records that a bound or time cap cut the enumeration short.
    pub fn cap(&mut self, why: &str) {
        self.capped = Some(why.to_string());
    }
    pub fn out_of_time(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// A state / transition of the reference model reached by the enumeration.
    /// To be called by every worker alike.
    pub fn state(&mut self, h: u64) -> bool {
        self.states.insert(h)
    }
    pub fn transition(&mut self, h: u64) -> bool {
        self.transitions.insert(h)
    }

    /// True if the case that comes next belongs to this worker. Advances the
    /// case counter; must be called exactly once per case, by every worker.
    #[inline]
    fn enter(&mut self, key: u64) -> bool {
        let i = self.idx;
        self.idx += 1;
        if self.failure.is_some() {
            return false;
        }
        if i & 0xfff == 0 {
            self.page.cursor.store(i, Ordering::Relaxed);
        }
        match self.only {
            Some(o) => o == i,
            None => key % self.nshards == self.shard,
        }
    }

    /// Runs one case if it belongs to this worker. `key` identifies the input
    /// (equal inputs have equal keys); `label` describes it.
    #[inline]
    pub fn case(&mut self, key: u64, label: impl FnOnce() -> String, f: impl FnOnce() -> Verdict) {
        let key = mix(key);
        if !self.enter(key) {
            return;
        }
        let i = self.idx - 1;
        if self.describe {
            self.failure = Some(Failure { idx: i, label: label(), message: "described".into() });
            self.leave();
        }
        self.page.current.store(i + 1, Ordering::Release);
        let r = catch_unwind(AssertUnwindSafe(f));
        self.page.current.store(0, Ordering::Release);
        self.page.done.fetch_add(1, Ordering::Relaxed);
        let r = match r {
            Ok(v) => v,
            Err(_) => Err(format!("panicked: {}", take_panic())),
        };
        self.finish(key, i, label, r);
    }

    /// As `case`, but the code runs in a forked child on a thread with the
    /// given stack, so that a crash of that child is observed and judged here.
    pub fn case_forked(
        &mut self,
        key: u64,
        stack: usize,
        cpu_s: u64,
        label: impl FnOnce() -> String,
        f: impl FnOnce() -> Verdict + Send,
    ) {
        let key = mix(key);
        if !self.enter(key) {
            return;
        }
        let i = self.idx - 1;
        let r = forked(stack, cpu_s, f);
        self.page.done.fetch_add(1, Ordering::Relaxed);
        self.finish(key, i, label, r);
    }

    fn finish(&mut self, key: u64, i: u64, label: impl FnOnce() -> String, r: Verdict) {
        self.evaluations += 1;
        self.traces += self.tracing as u64;
        if let Some(n) = self.families.get_mut(&self.family) {
            *n += 1;
        }
        match r {
            Ok(class) => {
                *self.classes.entry(class).or_insert(0) += 1;
                if !class.starts_with("trivial") {
                    self.distinct.insert(key);
                }
                let n = self.class_samples.entry(class).or_insert(0);
                let interesting = *n < 2 || (*n < 6 && mix(key ^ self.seed) % 5003 == 0);
                if interesting && self.samples.len() < 12 {
                    *n += 1;
                    let l = label();
                    self.samples.push(clip(format!("#{} [{}] {}", i, class, l), 400));
                }
            }
            Err(message) => {
                let label = label();
                let fail = Failure { idx: i, label: clip(label.clone(), 20000), message };
                if self.known.iter().any(|k| *k == label) {
                    self.known_hits.push(fail);
                } else {
                    self.failure = Some(fail);
                    self.leave();
                }
            }
        }
        if self.only.is_some() {
            self.leave();
        }
    }

    /// Writes what this worker found and ends it.
    fn leave(&mut self) -> ! {
        let run = self;
        let mut out = String::new();
        let mut line = |k: &str, v: String| {
            out.push_str(k);
            out.push('\t');
            out.push_str(&v.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t"));
            out.push('\n');
        };
        line("idx", run.idx.to_string());
        line("evaluations", run.evaluations.to_string());
        line("distinct", run.distinct.len().to_string());
        line("states", run.states.len().to_string());
        line("transitions", run.transitions.len().to_string());
        line("traces", run.traces.to_string());
        for (k, v) in &run.classes {
            line("class", format!("{}={}", k, v));
        }
        for (k, v) in &run.families {
            line("family", format!("{}={}", k, v));
        }
        for (k, v) in &run.counts {
            line("count", format!("{}={}", k, v));
        }
        for (k, v) in &run.notes {
            line("note", format!("{}={}", k, v));
        }
        for s in &run.samples {
            line("sample", s.clone());
        }
        for f in &run.known_hits {
            line("known", format!("{}\u{1}{}\u{1}{}", f.idx, f.label, f.message));
        }
        if let Some(c) = &run.capped {
            line("capped", c.clone());
        }
        if let Some(f) = &run.failure {
            line("failure", format!("{}\u{1}{}\u{1}{}", f.idx, f.label, f.message));
        }
        line("end", String::new());
        std::fs::write(&run.out, out).expect("result file");
        // skips the destructors of the big sets
        std::process::exit(0);
    }

    /// While on, executed cases are paths of the reference model replayed on
    /// the implementation, and are counted as conformance traces too.
    pub fn tracing(&mut self, on: bool) {
        self.tracing = on;
    }

    /// Reports a check on the harness itself; a false condition is an error of
    /// the check, never a verdict.
    pub fn require(&self, cond: bool, what: &str) {
        if !cond && self.only.is_none() && self.failure.is_none() {
            eprintln!("HARNESS ERROR: {}", what);
            std::process::exit(3);
        }
    }
}

fn take_panic() -> String {
    LAST_PANIC
        .lock()
        .map(|mut g| g.take())
        .unwrap_or(None)
        .unwrap_or_else(|| "unknown panic".into())
}

fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = Some(format!("{}{}", msg, loc));
        }
    }));
}

/// What `f` returns in a process of its own, or why it returned nothing.
pub fn in_child(stack: usize, cpu_s: u64, f: impl FnOnce() -> String + Send) -> String {
    match forked(stack, cpu_s, || Err(f())) {
        Err(s) => s,
        Ok(s) => s.into(),
    }
}

fn forked(stack: usize, cpu_s: u64, f: impl FnOnce() -> Verdict + Send) -> Verdict {
    use std::io::{Read, Write};
    use std::os::unix::io::FromRawFd;
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe(fds.as_mut_ptr()) == 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            // "stack overflow" is reported by the Rust runtime on stderr
            let null = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
            libc::dup2(null, 2);
            let out = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, || match catch_unwind(AssertUnwindSafe(f)) {
                        Ok(Ok(c)) => format!("ok {}", c),
                        Ok(Err(m)) => format!("bad {}", m),
                        Err(_) => format!("bad panicked: {}", take_panic()),
                    })
                    .expect("thread")
                    .join()
                    .unwrap_or_else(|_| "bad thread died".into())
            });
            let mut w = std::fs::File::from_raw_fd(fds[1]);
            let _ = w.write_all(out.as_bytes());
            let _ = w.flush();
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut text = String::new();
        let mut r = std::fs::File::from_raw_fd(fds[0]);
        let _ = r.read_to_string(&mut text);
        let mut status = 0;
        loop {
            let w = libc::waitpid(pid, &mut status, 0);
            if w == pid {
                break;
            }
            if w < 0 && *libc::__errno_location() != libc::EINTR {
                break;
            }
        }
        if libc::WIFSIGNALED(status) {
            let sig = libc::WTERMSIG(status);
            return Err(match sig {
                libc::SIGXCPU => format!("did not finish within {} s of CPU time", cpu_s),
                libc::SIGSEGV => "process crashed (SIGSEGV)".into(),
                libc::SIGABRT => "process aborted (SIGABRT; stack overflow or allocation failure)".into(),
                libc::SIGKILL => format!("killed (CPU limit of {} s or memory)", cpu_s),
                s => format!("process killed by signal {}", s),
            });
        }
        if let Some(c) = text.strip_prefix("ok ") {
            // classes of forked cases are a closed set
            for k in ["ok", "accepted", "rejected", "deep", "large"] {
                if k == c {
                    return Ok(k);
                }
            }
            return Ok("finished in a process of its own");
        }
        if let Some(m) = text.strip_prefix("bad ") {
            return Err(m.to_string());
        }
        Err(format!("exited with status {} and no result", libc::WEXITSTATUS(status)))
    }
}

// ---------------------------------------------------------------- main

struct Args {
    prop: String,
    mode: String,
    only: Option<u64>,
    /// replay a failure that needs the cases of this shard before it
    after: Option<(u64, u64)>,
    shard: u64,
    nshards: u64,
    dir: PathBuf,
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn parse_args() -> Args {
    let a: Vec<String> = std::env::args().collect();
    let mut r = Args {
        prop: String::new(),
        mode: "run".into(),
        only: None,
        after: None,
        shard: 0,
        nshards: 1,
        dir: std::env::temp_dir(),
    };
    let mut i = 1;
    while i < a.len() {
        match a[i].as_str() {
            "--worker" => {
                r.mode = "worker".into();
                r.shard = a[i + 1].parse().unwrap();
                r.nshards = a[i + 2].parse().unwrap();
                r.dir = PathBuf::from(&a[i + 3]);
                i += 3;
            }
            "--only" => {
                r.only = Some(a[i + 1].parse().unwrap());
                i += 1;
            }
            "--replay" => {
                let t = std::fs::read_to_string(&a[i + 1]).expect("replay file");
                let number = |key: &str| -> Option<u64> {
                    let k = t.find(&format!("\"{}\":", key))?;
                    let n: String = t[k + key.len() + 3..].chars().skip_while(|c| *c == ' ').take_while(|c| c.is_ascii_digit()).collect();
                    n.parse().ok()
                };
                r.only = Some(number("case").expect("case in replay file"));
                r.after = number("after_shard").zip(number("shards"));
                r.mode = "replay".into();
                if let Some(k) = t.find("\"tier\":") {
                    let q: String = t[k + 7..].chars().take(14).collect();
                    let tier = if q.contains("thorough") { "thorough" } else { "quick" };
                    std::env::set_var("VERIF_TIER", tier);
                }
                i += 1;
            }
            s if s.starts_with('-') => panic!("unknown flag {}", s),
            s => r.prop = s.to_string(),
        }
        i += 1;
    }
    r
}

/// Known findings of this property: lines `KNOWN <property> <exact case label>`.
fn known_for(id: &str) -> Vec<String> {
    let p = verif_dir().join("known_findings.txt");
    let text = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(_) => return vec![],
    };
    let prefix = format!("known: property={} ", id);
    text.lines()
        .filter_map(|l| l.strip_prefix(&prefix))
        .filter_map(|l| l.split(" ## ").next())
        .map(|l| l.trim().to_string())
        .collect()
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}
fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

fn cpu_ticks(pid: u32) -> Option<u64> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let rest = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn main(props: &[Prop]) {
    let args = parse_args();
    let prop = match props.iter().find(|p| p.id == args.prop) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", args.prop);
            std::process::exit(3);
        }
    };
    match args.mode.as_str() {
        "worker" => worker(prop, args),
        _ => parent(prop, args),
    }
}

fn worker(prop: &Prop, args: Args) {
    install_panic_hook();
    unsafe {
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
        let gb: u64 = 1 << 30;
        let lim = libc::rlimit { rlim_cur: 8 * gb, rlim_max: 8 * gb };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let page = map_page(&args.dir.join(format!("page{}", args.shard)));
    let budget = match tier() {
        Tier::Quick => 600,
        Tier::Thorough => 3600,
    };
    let mut run = Run {
        tier: tier(),
        seed: seed(),
        shard: args.shard,
        nshards: args.nshards,
        only: args.only,
        idx: 0,
        page,
        deadline: Instant::now() + Duration::from_secs(budget),
        evaluations: 0,
        classes: BTreeMap::new(),
        distinct: IdSet::default(),
        states: IdSet::default(),
        transitions: IdSet::default(),
        traces: 0,
        tracing: false,
        samples: vec![],
        class_samples: BTreeMap::new(),
        notes: BTreeMap::new(),
        counts: BTreeMap::new(),
        families: BTreeMap::new(),
        family: String::new(),
        failure: None,
        known: known_for(prop.id),
        known_hits: vec![],
        capped: None,
        out: args.dir.join(format!("out{}", args.shard)),
        describe: std::env::var_os("MC_DESCRIBE").is_some(),
    };
    (prop.run)(&mut run);
    run.leave()
}

#[derive(Default)]
struct Result_ {
    idx: u64,
    evaluations: u64,
    distinct: u64,
    states: u64,
    transitions: u64,
    traces: u64,
    classes: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    counts: BTreeMap<String, u64>,
    notes: BTreeMap<String, String>,
    samples: Vec<String>,
    known: Vec<Failure>,
    failure: Option<Failure>,
    capped: Option<String>,
    complete: bool,
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn read_out(path: &Path) -> Option<Result_> {
    let t = std::fs::read_to_string(path).ok()?;
    let mut r = Result_::default();
    let kv = |s: &str| -> (String, u64) {
        let k = s.rfind('=').unwrap();
        (s[..k].to_string(), s[k + 1..].parse().unwrap())
    };
    let fail = |s: &str| -> Failure {
        let mut p = s.split('\u{1}');
        Failure {
            idx: p.next().unwrap().parse().unwrap(),
            label: p.next().unwrap_or("").to_string(),
            message: p.next().unwrap_or("").to_string(),
        }
    };
    for l in t.lines() {
        let (k, v) = l.split_once('\t')?;
        let v = unescape(v);
        match k {
            "idx" => r.idx = v.parse().ok()?,
            "evaluations" => r.evaluations = v.parse().ok()?,
            "distinct" => r.distinct = v.parse().ok()?,
            "states" => r.states = v.parse().ok()?,
            "transitions" => r.transitions = v.parse().ok()?,
            "traces" => r.traces = v.parse().ok()?,
            "class" => {
                let (k, n) = kv(&v);
                *r.classes.entry(k).or_insert(0) += n
            }
            "family" => {
                let (k, n) = kv(&v);
                *r.families.entry(k).or_insert(0) += n
            }
            "count" => {
                let (k, n) = kv(&v);
                *r.counts.entry(k).or_insert(0) += n
            }
            "note" => {
                let (a, b) = v.split_once('=')?;
                r.notes.insert(a.into(), b.into());
            }
            "sample" => r.samples.push(v),
            "known" => r.known.push(fail(&v)),
            "failure" => r.failure = Some(fail(&v)),
            "capped" => r.capped = Some(v),
            "end" => r.complete = true,
            _ => {}
        }
    }
    if r.complete {
        Some(r)
    } else {
        None
    }
}

enum End {
    Done(Result_),
    Crashed { idx: u64, how: String },
    Error(String),
}

struct Worker {
    shard: u64,
    child: Child,
    page: &'static Page,
    seen_case: u64,
    seen_done: u64,
    ticks_then: u64,
    polled: Instant,
    /// Time spent watching the same case; a pause of the watcher counts little.
    idle: Duration,
}

const HANG_CPU_S: u64 = 20;
const HANG_WALL_S: u64 = 240;

fn spawn(prop: &str, dir: &Path, shard: u64, n: u64, only: Option<u64>) -> Worker {
    let page_path = dir.join(format!("page{}", shard));
    let _ = std::fs::remove_file(&page_path);
    let _ = std::fs::remove_file(dir.join(format!("out{}", shard)));
    let page = map_page(&page_path);
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg(prop)
        .arg("--worker")
        .arg(shard.to_string())
        .arg(n.to_string())
        .arg(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null());
    if let Some(o) = only {
        c.arg("--only").arg(o.to_string());
    }
    let err = std::fs::File::create(dir.join(format!("err{}", shard))).expect("log");
    c.stderr(err);
    let child = c.spawn().expect("worker");
    Worker { shard, child, page, seen_case: 0, seen_done: 0, ticks_then: 0, polled: Instant::now(), idle: Duration::ZERO }
}

/// Waits for a worker step; None while it is still running.
fn poll(w: &mut Worker, dir: &Path) -> Option<End> {
    if let Some(st) = w.child.try_wait().expect("wait") {
        if st.success() {
            return Some(match read_out(&dir.join(format!("out{}", w.shard))) {
                Some(r) => End::Done(r),
                None => End::Error("worker left no result".into()),
            });
        }
        let cur = w.page.current.load(Ordering::Acquire);
        let err = std::fs::read_to_string(dir.join(format!("err{}", w.shard))).unwrap_or_default();
        use std::os::unix::process::ExitStatusExt;
        if cur > 0 && st.code() != Some(3) {
            let how = match st.signal() {
                Some(11) => "process crashed (SIGSEGV)".to_string(),
                Some(6) => "process aborted (SIGABRT)".to_string(),
                Some(s) => format!("process killed by signal {}", s),
                None => format!("process exited with {:?}", st.code()),
            };
            let how = format!("{}: {}", how, clip(err.trim().to_string(), 300));
            return Some(End::Crashed { idx: cur - 1, how });
        }
        return Some(End::Error(format!("worker ended with {:?}: {}", st, clip(err, 2000))));
    }
    let cur = w.page.current.load(Ordering::Acquire);
    let done = w.page.done.load(Ordering::Relaxed);
    if cur == 0 || cur != w.seen_case || done != w.seen_done {
        w.seen_case = cur;
        w.seen_done = done;
        w.polled = Instant::now();
        w.idle = Duration::ZERO;
        w.ticks_then = cpu_ticks(w.child.id()).unwrap_or(0);
        return None;
    }
    let used = cpu_ticks(w.child.id()).unwrap_or(0).saturating_sub(w.ticks_then);
    let hz = unsafe { libc::sysconf(libc::_SC_CLK_TCK) } as u64;
    w.idle += w.polled.elapsed().min(Duration::from_secs(1));
    w.polled = Instant::now();
    if used > HANG_CPU_S * hz || w.idle.as_secs() > HANG_WALL_S {
        let _ = w.child.kill();
        let _ = w.child.wait();
        return Some(End::Crashed {
            idx: cur - 1,
            how: format!("did not return within {} s of CPU time", used / hz),
        });
    }
    None
}

fn run_single(prop: &str, dir: &Path, only: u64) -> End {
    let mut w = spawn(prop, dir, 99, 1, Some(only));
    loop {
        if let Some(e) = poll(&mut w, dir) {
            return e;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

/// Replays one case alone; Some(failure) if it fails again. A crash gives no
/// label from the worker; the caller asks for it separately.
fn confirm(prop: &str, dir: &Path, f: &Failure, tries: u32) -> Result<Option<Failure>, String> {
    for _ in 0..tries {
        match run_single(prop, dir, f.idx) {
            End::Done(r) => {
                if let Some(g) = r.failure {
                    return Ok(Some(g));
                }
                if let Some(g) = r.known.into_iter().next() {
                    return Ok(Some(g));
                }
            }
            End::Crashed { idx, how } if idx == f.idx => {
                return Ok(Some(Failure { idx, label: f.label.clone(), message: how }))
            }
            End::Crashed { idx, how } => {
                return Err(format!("replay of case {} crashed in case {}: {}", f.idx, idx, how))
            }
            End::Error(e) => return Err(e),
        }
    }
    Ok(None)
}

/// Runs all cases of one worker again; the failure if it fails at the same case.
fn rerun(prop: &str, dir: &Path, shard: u64, n: u64, idx: u64) -> Option<Failure> {
    let mut w = spawn(prop, dir, shard, n, None);
    loop {
        match poll(&mut w, dir) {
            Some(End::Done(r)) => return r.failure.filter(|g| g.idx == idx),
            Some(End::Crashed { idx: i, how }) => {
                return (i == idx).then(|| Failure { idx, label: String::new(), message: how });
            }
            Some(End::Error(e)) => {
                eprintln!("error while running shard {} again: {}", shard, e);
                return None;
            }
            None => std::thread::sleep(Duration::from_millis(10)),
        }
    }
}

fn parent(prop: &Prop, args: Args) -> ! {
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("mc-{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let code = parent_in(prop, &args, &dir, start);
    let _ = std::fs::remove_dir_all(&dir);
    std::process::exit(code)
}

fn parent_in(prop: &Prop, args: &Args, dir: &Path, start: Instant) -> i32 {
    if let Some(only) = args.only {
        let f = Failure { idx: only, label: String::new(), message: String::new() };
        if let Some((shard, n)) = args.after {
            return match rerun(prop.id, dir, shard, n, only) {
                Some(g) => {
                    println!("case {} of {} fails after the cases of shard {} of {}:\n  {}\n  {}", g.idx, prop.id, shard, n, g.label, g.message);
                    1
                }
                None => {
                    println!("case {} of {} passes after the cases of shard {} of {}", only, prop.id, shard, n);
                    0
                }
            };
        }
        return match confirm(prop.id, dir, &f, 20) {
            Ok(Some(g)) => {
                println!("case {} of {} fails:\n  {}\n  {}", g.idx, prop.id, g.label, g.message);
                1
            }
            Ok(None) => {
                println!("case {} of {} passes", only, prop.id);
                0
            }
            Err(e) => {
                eprintln!("{}", e);
                3
            }
        };
    }

    let n = std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(8)
    });
    let mut workers: Vec<Worker> = (0..n).map(|s| spawn(prop.id, dir, s, n, None)).collect();
    let mut results: Vec<Result_> = vec![];
    let mut failures: Vec<Failure> = vec![];
    let mut found_by: BTreeMap<u64, u64> = BTreeMap::new();
    let mut crashed = false;
    while !workers.is_empty() {
        let mut i = 0;
        while i < workers.len() {
            match poll(&mut workers[i], dir) {
                None => i += 1,
                Some(end) => {
                    let shard = workers.remove(i).shard;
                    match end {
                        End::Done(r) => {
                            if let Some(f) = r.failure.clone() {
                                found_by.insert(f.idx, shard);
                                failures.push(f);
                            }
                            results.push(r);
                        }
                        End::Crashed { idx, how } => {
                            crashed = true;
                            found_by.insert(idx, shard);
                            failures.push(Failure { idx, label: String::new(), message: how });
                        }
                        End::Error(e) => {
                            for w in &mut workers {
                                let _ = w.child.kill();
                                let _ = w.child.wait();
                            }
                            eprintln!("error: {}", e);
                            return 3;
                        }
                    }
                }
            }
        }
        // once something failed, only wait for workers that may still find a
        // simpler case, and not for long
        if let Some(min) = failures.iter().map(|f| f.idx).min() {
            workers.retain_mut(|w| {
                let at = w.page.cursor.load(Ordering::Relaxed);
                if at > min || start.elapsed() > Duration::from_secs(300) {
                    let _ = w.child.kill();
                    let _ = w.child.wait();
                    false
                } else {
                    true
                }
            });
        }
        std::thread::sleep(Duration::from_millis(10));
    }

    // a crash carries no label: describe the case by replaying it dry
    failures.sort_by_key(|f| f.idx);
    let mut verdict: Option<Failure> = None;
    for f in failures.iter().take(4) {
        match confirm(prop.id, dir, f, 30) {
            Ok(Some(mut g)) => {
                if g.message.is_empty() {
                    g.message = f.message.clone();
                }
                if g.label.is_empty() {
                    g.label = describe(prop, dir, g.idx);
                }
                if known_for(prop.id).contains(&g.label) {
                    eprintln!("error: a known finding must be run as a forked case: {}", g.label);
                    return 3;
                }
                verdict = Some(g);
                break;
            }
            Ok(None) => eprintln!("case {} failed once but not when replayed: {}", f.idx, f.message),
            Err(e) => eprintln!("error while replaying case {}: {}", f.idx, e),
        }
    }
    // some failures need what was called before in the same process: the same
    // cases once more, in the same order and a new process
    let mut after = None;
    if verdict.is_none() {
        for f in failures.iter().take(2) {
            let shard = match found_by.get(&f.idx) {
                Some(s) => *s,
                None => continue,
            };
            if let Some(mut g) = rerun(prop.id, dir, shard, n, f.idx) {
                if g.label.is_empty() {
                    g.label = describe(prop, dir, g.idx);
                }
                g.message = format!("{} (after the cases of shard {} of {} in the same process)", g.message, shard, n);
                verdict = Some(g);
                after = Some(shard);
                break;
            }
        }
    }
    if !failures.is_empty() && verdict.is_none() {
        eprintln!("error: failures were seen but none could be reproduced");
        return 3;
    }

    let total: u64 = results.iter().map(|r| r.evaluations).sum();
    let mut merged = Result_::default();
    for r in &results {
        merged.evaluations += r.evaluations;
        merged.distinct += r.distinct;
        merged.traces += r.traces;
        merged.states = merged.states.max(r.states);
        merged.transitions = merged.transitions.max(r.transitions);
        merged.idx = merged.idx.max(r.idx);
        for (k, v) in &r.classes {
            *merged.classes.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.families {
            *merged.families.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.counts {
            *merged.counts.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &r.notes {
            merged.notes.insert(k.clone(), v.clone());
        }
        for k in &r.known {
            merged.known.push(k.clone());
        }
        if r.capped.is_some() {
            merged.capped = r.capped.clone();
        }
    }
    // spread the samples over the workers
    for k in 0..12 {
        for r in &results {
            if let Some(s) = r.samples.get(k) {
                if merged.samples.len() < 16 {
                    merged.samples.push(s.clone());
                }
            }
        }
    }
    if verdict.is_none() && !crashed {
        // every worker walked the same enumeration, and the shards partition it
        if results.iter().any(|r| r.idx != merged.idx) || total != merged.idx {
            eprintln!("error: workers disagree on the enumeration ({} of {})", total, merged.idx);
            return 3;
        }
    }

    let replay = match &verdict {
        Some(f) => {
            let d = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&d);
            let p = d.join(format!("{}-{}.json", prop.id, f.idx));
            let j = Json::obj(vec![
                ("property", prop.id.into()),
                ("case", Json::Int(f.idx as i64)),
                ("tier", if tier() == Tier::Thorough { "thorough" } else { "quick" }.into()),
                ("input", f.label.clone().into()),
                ("violation", f.message.clone().into()),
                ("after_shard", after.map_or(Json::Raw("null".into()), |s| Json::Int(s as i64))),
                ("shards", Json::Int(n as i64)),
                ("rerun", format!("./check.sh {} --replay {}", prop.id, p.display()).into()),
            ]);
            std::fs::write(&p, format!("{}\n", j)).expect("replay file");
            Some(p)
        }
        None => None,
    };
    write_evidence(prop, &merged, start, verdict.is_some());

    for k in &merged.known {
        println!("KNOWN-FINDING: property={} {} ({})", prop.id, k.label, k.message);
    }
    println!(
        "{}: {} cases ({} distinct non-trivial), {} model states, {} transitions, {} traces, {:.1} s{}",
        prop.id,
        merged.evaluations,
        merged.distinct,
        merged.states,
        merged.transitions,
        merged.traces,
        start.elapsed().as_secs_f64(),
        merged.capped.as_ref().map(|c| format!(", CAPPED: {}", c)).unwrap_or_default()
    );
    for (k, v) in &merged.classes {
        println!("  {}: {}", k, v);
    }
    if let (Some(f), Some(p)) = (verdict, replay) {
        println!("input: {}", clip(f.label, 2000));
        println!("found: {}", clip(f.message, 2000));
        println!("VIOLATION property={} replay={}", prop.id, p.display());
        return 1;
    }
    0
}

/// Label of a case that crashes when executed: a worker walks up to it and
/// prints it without running the code under test.
fn describe(prop: &Prop, dir: &Path, idx: u64) -> String {
    std::env::set_var("MC_DESCRIBE", "1");
    let r = run_single(prop.id, dir, idx);
    std::env::remove_var("MC_DESCRIBE");
    match r {
        End::Done(Result_ { failure: Some(f), .. }) => f.label,
        _ => format!("case {} of the enumeration of {}", idx, prop.id),
    }
}

fn write_evidence(prop: &Prop, m: &Result_, start: Instant, violated: bool) {
    let mut cov: Vec<(&str, Json)> = vec![];
    let samples = Json::Arr(m.samples.iter().map(|s| s.clone().into()).collect());
    if prop.level == "model_checking" {
        cov.push(("states", Json::Int(m.states as i64)));
        cov.push(("transitions", Json::Int(m.transitions as i64)));
        cov.push(("traces_validated_against_impl", Json::Int(m.traces as i64)));
    }
    cov.push(("evaluations", Json::Int(m.evaluations as i64)));
    cov.push(("distinct_nontrivial", Json::Int(m.distinct as i64)));
    cov.push(("rule", prop.rule.into()));
    cov.push(("samples", samples));
    cov.push(("exhaustive", Json::Bool(m.capped.is_none() && !violated)));
    let map = |b: &BTreeMap<String, u64>| {
        Json::Obj(b.iter().map(|(k, v)| (k.clone(), Json::Int(*v as i64))).collect())
    };
    cov.push(("outcomes", map(&m.classes)));
    cov.push(("families", map(&m.families)));
    if !m.counts.is_empty() {
        cov.push(("counts", map(&m.counts)));
    }
    cov.push((
        "bounds",
        Json::Obj(m.notes.iter().map(|(k, v)| (k.clone(), Json::Raw(v.clone()))).collect()),
    ));
    if let Some(c) = &m.capped {
        cov.push(("cap_hit", c.clone().into()));
    }
    if !m.known.is_empty() {
        cov.push((
            "known_findings_reproduced",
            Json::Arr(m.known.iter().map(|k| k.label.clone().into()).collect()),
        ));
    }
    let j = Json::obj(vec![
        ("property", prop.id.into()),
        ("tier", if tier() == Tier::Thorough { "thorough" } else { "quick" }.into()),
        ("seed", Json::Int(seed() as i64)),
        ("level", prop.level.into()),
        ("coverage", Json::Obj(cov.into_iter().map(|(k, v)| (k.to_string(), v)).collect())),
        ("assumptions", Json::Arr(prop.assumptions.iter().map(|s| (*s).into()).collect())),
        ("wall_s", Json::Num(start.elapsed().as_secs_f64())),
        ("violations", Json::Int(violated as i64)),
    ]);
    let d = verif_dir().join("evidence");
    std::fs::create_dir_all(&d).expect("evidence directory");
    std::fs::write(d.join(format!("{}.json", prop.id)), format!("{}\n", j)).expect("evidence file");
}

// ---------------------------------------------------------------- helpers

/// Bytes as readable text: printable ASCII as is, the rest as \xNN.
pub fn show(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() + 2);
    s.push('"');
    for &c in b {
        match c {
            b'"' | b'\\' => {
                s.push('\\');
                s.push(c as char)
            }
            0x20..=0x7e => s.push(c as char),
            _ => s.push_str(&format!("\\x{:02x}", c)),
        }
    }
    s.push('"');
    s
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err(format!($($arg)*));
        }
    };
}
