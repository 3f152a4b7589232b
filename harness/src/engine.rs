//! Choice-sequence engine: generation, replay and shrinking.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

/// xoshiro-like small PRNG (splitmix64 stream).
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

/// Source of choices. Every random decision of a case goes through `below`.
pub struct Src {
    replay: Vec<u32>,
    pub record: Vec<u32>,
    rng: Option<Rng>,
    /// set once a replayed sequence has run out: everything is then minimal
    pub exhausted: bool,
    /// labels seen in this case (distribution counters)
    pub labels: Vec<&'static str>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src { replay: vec![], record: vec![], rng: Some(Rng::new(seed)), exhausted: false, labels: vec![] }
    }
    pub fn replay(choices: Vec<u32>) -> Self {
        Src { replay: choices, record: vec![], rng: None, exhausted: false, labels: vec![] }
    }
    /// Uniform choice in 0..n (n >= 1). Small values are "simpler".
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let n = n as u64;
        let v = match self.rng {
            Some(ref mut r) => (r.next() >> 11) % n,
            None => {
                let i = self.record.len();
                if i < self.replay.len() {
                    (self.replay[i] as u64).min(n - 1)
                } else {
                    self.exhausted = true;
                    0
                }
            }
        };
        if crate::crash::tracing() {
            crate::crash::trace(self.record.len(), v as u32);
        }
        self.record.push(v as u32);
        v as usize
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Weighted index; earlier entries are simpler.
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let total: usize = ws.iter().sum();
        let mut x = self.below(total);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
}

/// What a property says about one case.
pub struct Case {
    /// the case, readable
    pub render: String,
    /// counts as non-trivial under the property's rule
    pub nontrivial: bool,
    /// case skipped because of a documented exclusion (counted)
    pub skipped: Option<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Failure {
    /// stable class of the failure; shrinking keeps it
    pub kind: String,
    pub message: String,
    pub render: String,
}

pub type PropResult = Result<Case, Failure>;

pub fn fail<T>(kind: &str, message: impl Into<String>, render: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { kind: kind.to_string(), message: message.into(), render: render.into() })
}

pub fn ok(render: impl Into<String>, nontrivial: bool) -> PropResult {
    Ok(Case { render: render.into(), nontrivial, skipped: None })
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static CURRENT: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Text of the case being examined, so a panic in the code under test can be rendered.
pub fn set_current(s: &str) {
    static OUT: std::sync::OnceLock<Option<std::ffi::OsString>> = std::sync::OnceLock::new();
    if let Some(p) = OUT.get_or_init(|| std::env::var_os("PBT_TEXT")) {
        if !s.is_empty() {
            let _ = std::fs::write(p, s);
        }
    }
    CURRENT.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.push_str(s);
    });
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{} at {}", msg, loc));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Marker: panics of the harness itself must not be reported as violations.
pub const HARNESS_BUG: &str = "HARNESS:";

pub fn run_prop(prop: &dyn Fn(&mut Src) -> PropResult, src: &mut Src) -> PropResult {
    set_current("");
    match catch_unwind(AssertUnwindSafe(|| prop(src))) {
        Ok(r) => r,
        Err(_) => {
            let p = last_panic();
            let in_harness = p.contains(HARNESS_BUG) || p.contains(" at src/");
            let kind = if in_harness { "harness".to_string() } else { "panic".to_string() };
            Err(Failure { kind, message: format!("panic: {}", p), render: CURRENT.with(|c| c.borrow().clone()) })
        }
    }
}

/// Shrink a failing choice sequence, keeping the failure kind.
pub fn shrink(prop: &dyn Fn(&mut Src) -> PropResult, mut best: Vec<u32>, mut failure: Failure, budget: usize) -> (Vec<u32>, Failure) {
    let mut runs = 0usize;
    let started = Instant::now();
    let mut attempt = |cand: Vec<u32>, best: &mut Vec<u32>, failure: &mut Failure| -> bool {
        if runs >= budget || started.elapsed().as_secs() > 60 {
            return false;
        }
        runs += 1;
        let mut s = Src::replay(cand);
        if let Err(f) = run_prop(prop, &mut s) {
            if f.kind == failure.kind {
                // what was actually consumed is the canonical sequence
                let rec = s.record;
                if rec.len() < best.len() || (rec.len() == best.len() && rec < *best) {
                    *best = rec;
                    *failure = f;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i + size <= best.len() {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt(c, &mut best, &mut failure) {
                    i += size.max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero blocks, then lower single choices
        let mut size = 8;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..end] {
                        *x = 0;
                    }
                    attempt(c, &mut best, &mut failure);
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if i >= best.len() {
                break;
            }
            for cand in [best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && cand < best[i] {
                    let mut c = best.clone();
                    c[i] = cand;
                    attempt(c, &mut best, &mut failure);
                }
            }
        }
        if best == before {
            break;
        }
    }
    (best, failure)
}

pub struct Outcome {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub skipped: Vec<(String, u64)>,
    pub labels: Vec<(String, u64)>,
    pub samples: Vec<String>,
    pub failure: Option<(Vec<u32>, Failure, u64)>,
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

pub const STACK: usize = 512 << 20;

/// Run `cases` cases of a property on all cores. Fixed work, deterministic per seed: the reported
/// failure is the one with the smallest case number.
pub fn case_seed(name: &str, seed: u64, n: u64) -> u64 {
    mix(mix(seed, hash_str(name)), n)
}

pub fn run_cases(name: &str, index: u32, seed: u64, cases: u64, prop: &(dyn Fn(&mut Src) -> PropResult + Sync)) -> Outcome {
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8) as u64;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Vec<u32>, Failure)>> = Mutex::new(None);
    let merged: Mutex<(u64, HashSet<u64>, std::collections::BTreeMap<String, u64>, std::collections::BTreeMap<String, u64>, Vec<(u64, String)>)> =
        Mutex::new(Default::default());
    const CHUNK: u64 = 64;
    let slow: u64 = std::env::var("PBT_SLOW").ok().and_then(|v| v.parse().ok()).unwrap_or(0);
    let beat: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(u64::MAX)).collect();
    let beat = &beat;
    let t0 = Instant::now();
    let done = AtomicU64::new(0);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, found, merged, done) = (&next, &stop, &found, &merged, &done);
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, move || {
                    let mut evals = 0u64;
                    let mut hashes = HashSet::new();
                    let mut skipped = std::collections::BTreeMap::new();
                    let mut labels = std::collections::BTreeMap::new();
                    let mut samples = Vec::new();
                    'outer: loop {
                        let start = next.fetch_add(CHUNK, Ordering::Relaxed);
                        if start >= cases {
                            break;
                        }
                        for n in start..(start + CHUNK).min(cases) {
                            if stop.load(Ordering::Relaxed) {
                                // keep going only for smaller case numbers than the failing one
                                let f = found.lock().unwrap();
                                if f.as_ref().is_some_and(|x| x.0 < n) {
                                    break 'outer;
                                }
                            }
                            crate::crash::note(t, index, n);
                            beat[t as usize].store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                            let mut src = Src::random(case_seed(name, seed, n));
                            let began = Instant::now();
                            let r = run_prop(prop, &mut src);
                            evals += 1;
                            if slow > 0 && began.elapsed().as_millis() as u64 > slow {
                                eprintln!("{} {}: {} ms", name, n, began.elapsed().as_millis());
                            }
                            for l in src.labels.drain(..) {
                                *labels.entry(l.to_string()).or_insert(0) += 1;
                            }
                            match r {
                                Ok(c) => {
                                    if let Some(s) = c.skipped {
                                        *skipped.entry(s.to_string()).or_insert(0) += 1;
                                    } else if c.nontrivial {
                                        hashes.insert(hash_str(&c.render));
                                        if samples.len() < 3 || (n % 9973 == 7) {
                                            samples.push((n, c.render));
                                        }
                                    }
                                }
                                Err(f) => {
                                    let mut g = found.lock().unwrap();
                                    if g.as_ref().is_none_or(|x| n < x.0) {
                                        *g = Some((n, src.record.clone(), f));
                                    }
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    beat[t as usize].store(u64::MAX, Ordering::Relaxed);
                    crate::crash::note(t, u32::MAX, 0);
                    let mut m = merged.lock().unwrap();
                    m.0 += evals;
                    m.1.extend(hashes);
                    for (k, v) in skipped {
                        *m.2.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in labels {
                        *m.3.entry(k).or_insert(0) += v;
                    }
                    m.4.extend(samples);
                    done.fetch_add(1, Ordering::SeqCst);
                })
                .unwrap();
        }
        // Watchdog: the parent process finds out which case it is.
        while done.load(Ordering::SeqCst) < threads {
            std::thread::sleep(std::time::Duration::from_millis(5));
            let now = t0.elapsed().as_millis() as u64;
            for b in beat {
                let v = b.load(Ordering::Relaxed);
                if v != u64::MAX && now > v + crate::crash::STUCK_SECS * 1000 {
                    eprintln!("a case of {} has been running for {} s", name, crate::crash::STUCK_SECS);
                    std::process::exit(crate::crash::STUCK);
                }
            }
        }
    });
    let (evals, hashes, skipped, labels, mut samples) = merged.into_inner().unwrap();
    samples.sort();
    let mut picked: Vec<String> = Vec::new();
    let mut seen = HashSet::new();
    // spread the samples, prefer medium-sized ones
    let mut by_len: Vec<&(u64, String)> = samples.iter().collect();
    by_len.sort_by_key(|s| (s.1.len() as i64 - 160).abs());
    for s in by_len {
        if picked.len() >= 8 {
            break;
        }
        if seen.insert(&s.1) {
            let mut t: String = s.1.chars().take(600).collect();
            if t.len() < s.1.len() {
                t.push_str(" …");
            }
            picked.push(t);
        }
    }
    let failure = found.into_inner().unwrap().map(|(n, rec, f)| {
        let (r, f) = if f.kind == "harness" { (rec, f) } else { run_big(|| shrink(prop, rec, f, 6000)) };
        (r, f, n)
    });
    Outcome {
        evaluations: evals,
        nontrivial: hashes.len() as u64,
        skipped: skipped.into_iter().collect(),
        labels: labels.into_iter().collect(),
        samples: picked,
        failure,
    }
}

/// Run on a thread with the stack that every thread has unless it asks for more.
pub fn run_small<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    let run = || catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic());
    match std::thread::scope(|s| std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, run).unwrap().join().unwrap()) {
        Ok(r) => r,
        Err(p) => {
            LAST_PANIC.with(|x| *x.borrow_mut() = p);
            std::panic::resume_unwind(Box::new("a thread panics"))
        }
    }
}

/// Run on a thread with a big stack.
pub fn run_big<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(STACK).spawn_scoped(s, f).unwrap().join().unwrap()
    })
}
