//! Property-based testing engine: deterministic seeded generation from a recorded choice
//! sequence (so shrinking works on the choices of any imperative generator), parallel workers,
//! coverage accounting, integrated shrinking and replay files.
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

/// Source of choices. Generators draw bounded integers; a replay feeds a recorded (possibly
/// shrunk) sequence back: out-of-range choices are clamped, missing ones read as 0 (the simplest).
#[derive(Clone)]
pub struct Src {
    state: u64,
    pub choices: Vec<u64>,
    replay: Option<Vec<u64>>,
    pos: usize,
    /// Tier-dependent size scale (1 = quick).
    pub scale: u64,
}

impl Src {
    pub fn new(seed: u64) -> Self {
        Self {
            state: mix(seed),
            choices: vec![],
            replay: None,
            pos: 0,
            scale: 1,
        }
    }
    pub fn from_choices(c: Vec<u64>) -> Self {
        Self {
            state: 0,
            choices: vec![],
            replay: Some(c),
            pos: 0,
            scale: 1,
        }
    }
    fn raw(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.state)
    }
    /// Uniform in 0..=max.
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(max)
            }
            None => {
                let r = self.raw();
                if max == u64::MAX {
                    r
                } else {
                    ((r as u128 * (max as u128 + 1)) >> 64) as u64
                }
            }
        };
        self.choices.push(v);
        v
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        debug_assert!(lo <= hi);
        lo + self.upto(hi - lo)
    }
    #[track_caller]
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    /// True with probability num/den; 0 (= false) is the simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    pub fn coin(&mut self) -> bool {
        self.upto(1) == 1
    }
    #[track_caller]
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.us(0, xs.len() - 1);
        &xs[i]
    }
    /// Index drawn by weights; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.upto(tot - 1);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
    /// n bytes from one recorded seed choice (0 = all zeros), so blobs cost one choice.
    pub fn blob(&mut self, n: usize) -> Vec<u8> {
        let s = self.upto(u32::MAX as u64);
        expand(s, n)
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] {
        self.blob(N).try_into().unwrap()
    }
    pub fn hash(&mut self) -> [u8; 32] {
        self.arr::<32>()
    }
    pub fn u64_any(&mut self) -> u64 {
        match self.weighted(&[4, 3, 3, 2]) {
            0 => self.upto(255),
            1 => {
                let bits = self.us(0, 63);
                let m = 1u64 << bits;
                let d = self.upto(4);
                m.wrapping_sub(2).wrapping_add(d)
            }
            2 => self.upto(u64::MAX),
            _ => u64::MAX - self.upto(3),
        }
    }
    pub fn u32_any(&mut self) -> u32 {
        match self.weighted(&[4, 3, 3, 1]) {
            0 => self.upto(255) as u32,
            1 => {
                let bits = self.us(0, 31);
                let d = self.upto(4) as u32;
                (1u32 << bits).wrapping_sub(2).wrapping_add(d)
            }
            2 => self.upto(u32::MAX as u64) as u32,
            _ => u32::MAX - self.upto(3) as u32,
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.us(0, i);
            v.swap(i, j);
        }
    }
}

pub fn expand(seed: u64, n: usize) -> Vec<u8> {
    if seed == 0 {
        return vec![0; n];
    }
    let mut out = Vec::with_capacity(n + 8);
    let mut s = mix(seed ^ 0x5bd1_e995);
    while out.len() < n {
        s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
        out.extend_from_slice(&mix(s).to_le_bytes());
    }
    out.truncate(n);
    out
}

/// Per-case coverage record.
#[derive(Default)]
pub struct Cov {
    pub tags: Vec<&'static str>,
    pub nontrivial: Vec<u64>,
    pub sample: Option<String>,
    pub evals: u64,
    pub known: Vec<&'static str>,
}
impl Cov {
    pub fn tag(&mut self, t: &'static str) {
        self.tags.push(t);
    }
    pub fn nt(&mut self, h: u64) {
        self.nontrivial.push(h);
    }
    pub fn eval(&mut self) {
        self.evals += 1;
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn known_finding(&mut self, id: &'static str) {
        self.known.push(id);
    }
}

pub type CaseFn = fn(&mut Src, &mut Cov) -> Result<(), String>;

pub struct Sub {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
    /// Upper bound on worker threads (0 = all).
    pub threads: usize,
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Sub>,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}
/// Panics seen on any thread since the last reset (used by checks of spawned tasks).
pub static PANICS: AtomicU64 = AtomicU64::new(0);
/// (thread name, message) of panics raised in the repository's own code.
pub static CODE_PANICS: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());
pub static QUIET: AtomicBool = AtomicBool::new(true);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        PANICS.fetch_add(1, Ordering::SeqCst);
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let m = format!("panic at {loc}: {msg}");
        if !QUIET.load(Ordering::SeqCst) {
            eprintln!("{m}");
        }
        if loc.contains("/repo/") {
            let th = std::thread::current().name().unwrap_or("").to_string();
            if let Ok(mut g) = CODE_PANICS.lock() {
                if g.len() < 10_000 {
                    g.push((th, m.clone()));
                }
            }
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(m));
    }));
}

/// Runs `f`, turning a panic into Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

pub fn run_case(f: CaseFn, src: &mut Src, cov: &mut Cov) -> Result<(), String> {
    match guard(|| f(src, cov)) {
        Ok(r) => r,
        Err(p) => Err(format!("uncaught {p}")),
    }
}

pub struct Failure {
    pub sub: String,
    pub case: u64,
    pub msg: String,
    pub choices: Vec<u64>,
}

/// Shrinks a failing choice sequence; any failure counts (the message may drift to a simpler one).
pub fn shrink(f: CaseFn, choices: Vec<u64>, msg: String, budget: Duration) -> (Vec<u64>, String) {
    let start = Instant::now();
    let mut best = choices;
    let mut bmsg = msg;
    let try_one = |c: Vec<u64>, best: &mut Vec<u64>, bmsg: &mut String| -> bool {
        if start.elapsed() > budget {
            return false;
        }
        let mut s = Src::from_choices(c);
        let mut cov = Cov::default();
        if let Err(m) = run_case(f, &mut s, &mut cov) {
            let used = s.choices;
            let better = used.len() < best.len() || (used.len() == best.len() && used < *best);
            if better {
                *best = used;
                *bmsg = m;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > budget {
                    return (best, bmsg);
                }
                let mut c = best.clone();
                let end = (i + size).min(c.len());
                c.drain(i..end);
                if !try_one(c, &mut best, &mut bmsg) {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero / halve / decrement single values
        let mut i = 0;
        while i < best.len() {
            if start.elapsed() > budget {
                return (best, bmsg);
            }
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_one(c, &mut best, &mut bmsg) {
                    let mut lo = 0u64;
                    let mut hi = best.get(i).copied().unwrap_or(0);
                    let mut n = 0;
                    while lo + 1 < hi && n < 12 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_one(c, &mut best, &mut bmsg) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                        n += 1;
                    }
                }
            }
            i += 1;
        }
        if best == before || start.elapsed() > budget {
            return (best, bmsg);
        }
    }
}

#[derive(Default)]
pub struct Tally {
    pub evals: u64,
    pub cases: u64,
    pub distinct: HashSet<u64>,
    pub tags: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub known: BTreeMap<&'static str, u64>,
    pub per_sub: BTreeMap<String, u64>,
}

pub struct RunCfg {
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub deadline: Duration,
    pub progress_dir: Option<std::path::PathBuf>,
    pub only_sub: Option<String>,
    pub cases_override: Option<u64>,
}

pub fn case_seed(seed: u64, prop: &str, sub: &str, i: u64) -> u64 {
    mix(mix(seed ^ hash_str(prop)) ^ hash_str(sub)).wrapping_add(mix(i))
}

static CASE_START: Mutex<Vec<Option<(Instant, String)>>> = Mutex::new(Vec::new());

pub fn start_watchdog(limit: Duration) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let g = CASE_START.lock().unwrap();
        for c in g.iter().flatten() {
            if c.0.elapsed() > limit {
                eprintln!("HANG {}", c.1);
                std::process::exit(97);
            }
        }
    });
}

pub fn run_prop(p: &Prop, cfg: &RunCfg, tally: &mut Tally) -> Option<Failure> {
    let t0 = Instant::now();
    let nsubs = p.subs.len() as u32;
    for (si, sub) in p.subs.iter().enumerate() {
        if let Some(o) = &cfg.only_sub {
            if o != sub.name {
                continue;
            }
        }
        let n = cfg.cases_override.unwrap_or(if cfg.thorough {
            sub.thorough
        } else {
            sub.quick
        });
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let fail: Mutex<Option<Failure>> = Mutex::new(None);
        let total: Mutex<&mut Tally> = Mutex::new(tally);
        let nthreads = if sub.threads == 0 {
            cfg.threads
        } else {
            // more than there are cores for cases that mostly wait
            match sub.threads > 8 {
                true => sub.threads,
                false => sub.threads.min(cfg.threads),
            }
        };
        // every sub-check gets its share of the soft deadline
        let sub_deadline = cfg.deadline * (si as u32 + 1) / nsubs;
        {
            let mut g = CASE_START.lock().unwrap();
            g.clear();
            g.resize(nthreads, None);
        }
        std::thread::scope(|sc| {
            for th in 0..nthreads {
                let (next, stop, fail, total) = (&next, &stop, &fail, &total);
                let body = move || {
                    let mut local = Tally::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || t0.elapsed() > sub_deadline {
                            break;
                        }
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            break;
                        }
                        let label = format!("{} {} {}", p.id, sub.name, i);
                        if let Some(d) = &cfg.progress_dir {
                            let _ = std::fs::write(d.join(format!("t{th}")), &label);
                        }
                        CASE_START.lock().unwrap()[th] = Some((Instant::now(), label));
                        let mut src = Src::new(case_seed(cfg.seed, p.id, sub.name, i));
                        src.scale = if cfg.thorough { 3 } else { 1 };
                        let mut cov = Cov::default();
                        let r = run_case(sub.f, &mut src, &mut cov);
                        CASE_START.lock().unwrap()[th] = None;
                        local.cases += 1;
                        local.evals += cov.evals.max(1);
                        for t in cov.tags {
                            *local.tags.entry(format!("{}:{}", sub.name, t)).or_default() += 1;
                        }
                        for h in cov.nontrivial {
                            local.distinct.insert(h ^ hash_str(sub.name));
                        }
                        for k in cov.known {
                            *local.known.entry(k).or_default() += 1;
                        }
                        if let Some(s) = cov.sample {
                            if local.samples.len() < 2 {
                                local.samples.push(format!("{}#{}: {}", sub.name, i, s));
                            }
                        }
                        if let Err(m) = r {
                            stop.store(true, Ordering::SeqCst);
                            let mut g = fail.lock().unwrap();
                            if g.as_ref().map_or(true, |f| f.case > i) {
                                *g = Some(Failure {
                                    sub: sub.name.into(),
                                    case: i,
                                    msg: m,
                                    choices: src.choices,
                                });
                            }
                            break;
                        }
                    }
                    if let Some(d) = &cfg.progress_dir {
                        let _ = std::fs::remove_file(d.join(format!("t{th}")));
                    }
                    let mut g = total.lock().unwrap();
                    g.evals += local.evals;
                    g.cases += local.cases;
                    g.distinct.extend(local.distinct);
                    *g.per_sub.entry(sub.name.into()).or_default() += local.cases;
                    for (k, v) in local.tags {
                        *g.tags.entry(k).or_default() += v;
                    }
                    for (k, v) in local.known {
                        *g.known.entry(k).or_default() += v;
                    }
                    for s in local.samples {
                        if g.samples.len() < 12 {
                            g.samples.push(s);
                        }
                    }
                };
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, body)
                    .unwrap();
            }
        });
        let f = fail.into_inner().unwrap();
        if let Some(mut f) = f {
            start_watchdog(Duration::from_secs(200));
            let (c, m) = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        shrink(
                            sub.f,
                            f.choices.clone(),
                            f.msg.clone(),
                            Duration::from_secs(40),
                        )
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            f.choices = c;
            f.msg = m;
            return Some(f);
        }
    }
    None
}
