//! Choice-sequence property runner.
//!
//! A generator is a function of a [`Src`], from which it draws bounded integers. The draws are
//! recorded; shrinking edits the recorded sequence and regenerates, so it works for every case type.

use serde::de::DeserializeOwned;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------
// random source

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x6a09_e667_f3bc_c909)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xd6e8_feb8_6659_fd93));
    r.next();
    r.next()
}

pub struct Src {
    rng: Rng,
    replay: Option<Vec<u64>>,
    pub log: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Rng::new(seed), replay: None, log: Vec::with_capacity(64) }
    }
    pub fn from_choices(choices: Vec<u64>) -> Src {
        Src { rng: Rng::new(0), replay: Some(choices), log: Vec::new() }
    }
    /// uniform in 0..n
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &self.replay {
            Some(c) => c.get(self.log.len()).copied().unwrap_or(0).min(n - 1),
            None => ((self.rng.next() as u128 * n as u128) >> 64) as u64,
        };
        self.log.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// inclusive
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.draw((hi - lo) as u64 + 1) as i64
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    /// index drawn with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        unreachable!()
    }
    pub fn unit(&mut self) -> f64 {
        self.draw(1 << 53) as f64 / (1u64 << 53) as f64
    }
    pub fn range(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// 10^U(lo, hi)
    pub fn log10(&mut self, lo: f64, hi: f64) -> f64 {
        10f64.powf(self.range(lo, hi))
    }
    /// true with probability num/den; shrinks to false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    pub fn sign(&mut self) -> f64 {
        if self.draw(2) == 0 { 1.0 } else { -1.0 }
    }
}

// ---------------------------------------------------------------------------------------------
// exactly serialised floats

#[derive(Clone, Copy, PartialEq)]
pub struct F(pub f64);

impl std::fmt::Debug for F {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{:?}", self.0))
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<F, D::Error> {
        let s = String::deserialize(d)?;
        s.parse().map(F).map_err(serde::de::Error::custom)
    }
}

// ---------------------------------------------------------------------------------------------
// properties

#[derive(Debug, Clone)]
pub enum Verdict {
    Pass { class: &'static str, nontrivial: bool },
    Fail(String),
    /// a known finding, named
    Known(&'static str),
}

pub fn pass(class: &'static str) -> Verdict {
    Verdict::Pass { class, nontrivial: true }
}
pub fn trivial(class: &'static str) -> Verdict {
    Verdict::Pass { class, nontrivial: false }
}
#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return $crate::engine::Verdict::Fail(format!($($arg)*)) };
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Send + Sync;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<&'static str> {
        vec![]
    }
    fn quick(&self) -> u64;
    fn thorough(&self) -> u64 {
        self.quick() * 20
    }
    fn gen(&self, s: &mut Src) -> Self::Case;
    fn check(&self, c: &Self::Case) -> Verdict;
    /// a check may own more threads per case than one
    fn shards(&self) -> usize {
        8
    }
    /// extra numbers for the evidence file
    fn extra(&self) -> BTreeMap<String, serde_json::Value> {
        BTreeMap::new()
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// runs code under test, turning a panic into Err(message)
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

fn run_check<P: Prop>(p: &P, c: &P::Case) -> Verdict {
    match guard(|| p.check(c)) {
        Ok(v) => v,
        Err(m) => Verdict::Fail(format!("panicked: {m}")),
    }
}

fn case_json<C: Serialize>(c: &C) -> serde_json::Value {
    serde_json::to_value(c).expect("case serialises")
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------------------------------------
// shrinking

fn fails<P: Prop>(p: &P, choices: &[u64], slot: &Slot) -> Option<(Vec<u64>, P::Case, String)> {
    let mut src = Src::from_choices(choices.to_vec());
    let case = guard(|| p.gen(&mut src)).ok()?;
    slot.begin(&src.log);
    match run_check(p, &case) {
        Verdict::Fail(m) => Some((src.log, case, m)),
        _ => None,
    }
}

fn simpler(a: &[u64], b: &[u64]) -> bool {
    (a.len(), a) < (b.len(), b)
}

pub fn shrink<P: Prop>(p: &P, start: Vec<u64>, slot: &Slot) -> Option<(P::Case, String, usize)> {
    let (mut best, mut case, mut msg) = fails(p, &start, slot)?;
    let deadline = Instant::now() + Duration::from_secs(25);
    let mut tries = 0usize;
    let mut improved = true;
    macro_rules! attempt {
        ($cand:expr) => {{
            tries += 1;
            let cand: Vec<u64> = $cand;
            match fails(p, &cand, slot) {
                Some((l, c, m)) if simpler(&l, &best) => {
                    best = l;
                    case = c;
                    msg = m;
                    improved = true;
                    true
                }
                _ => false,
            }
        }};
    }
    while improved && tries < 6000 && Instant::now() < deadline {
        improved = false;
        // remove blocks
        for size in [16usize, 8, 4, 2, 1] {
            let mut i = 0;
            while i + size <= best.len() && tries < 6000 && Instant::now() < deadline {
                let mut c = best.clone();
                c.drain(i..i + size);
                if !attempt!(c) {
                    i += 1;
                }
            }
        }
        // minimise single choices
        let mut i = 0;
        while i < best.len() && tries < 6000 && Instant::now() < deadline {
            if best[i] != 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !attempt!(c) {
                    // binary descent, then clear low bits (short floats)
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && i < best.len() && tries < 6000 {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if attempt!(c) {
                            hi = mid.min(*best.get(i).unwrap_or(&0));
                        } else {
                            lo = mid;
                        }
                        if hi > 1 << 20 && (hi - lo) < hi >> 10 {
                            break;
                        }
                    }
                    for bits in [50u32, 46, 42, 36, 30, 20, 10] {
                        if i < best.len() && best[i] >> bits > 0 {
                            let mut c = best.clone();
                            c[i] = best[i] >> bits << bits;
                            if c[i] != best[i] && attempt!(c) {
                                break;
                            }
                        }
                    }
                }
            }
            i += 1;
        }
    }
    Some((case, msg, tries))
}

// ---------------------------------------------------------------------------------------------
// watchdog

/// what a thread is executing now
pub struct Slot {
    seq: AtomicU64,
    tid: Mutex<String>,
    choices: Mutex<Vec<u64>>,
}

impl Slot {
    pub fn new() -> Slot {
        Slot { seq: AtomicU64::new(0), tid: Mutex::new(String::new()), choices: Mutex::new(vec![]) }
    }
    fn register(&self) {
        if let Ok(p) = std::fs::read_link("/proc/thread-self") {
            *self.tid.lock().unwrap() = p.to_string_lossy().into_owned();
        }
    }
    fn begin(&self, choices: &[u64]) {
        let mut c = self.choices.lock().unwrap();
        c.clear();
        c.extend_from_slice(choices);
        self.seq.fetch_add(1, Ordering::SeqCst);
    }
    fn idle(&self) {
        self.tid.lock().unwrap().clear();
    }
    fn cpu_ns(&self) -> Option<u64> {
        let tid = self.tid.lock().unwrap().clone();
        if tid.is_empty() {
            return None;
        }
        let s = std::fs::read_to_string(format!("/proc/{tid}/schedstat")).ok()?;
        s.split_whitespace().next()?.parse().ok()
    }
}

/// CPU seconds after which a single case, normally far below 0.1 s, counts as non-terminating
const HANG_CPU_S: f64 = 40.0;

// ---------------------------------------------------------------------------------------------
// runner

#[derive(Serialize, Deserialize)]
struct Replay<C> {
    property: String,
    message: String,
    case: C,
}

fn write_replay<C: Serialize>(root: &Path, id: &str, seed: u64, case: &C, msg: &str) -> PathBuf {
    let dir = root.join("replays");
    std::fs::create_dir_all(&dir).ok();
    let path = dir.join(format!("{id}-{seed}.json"));
    let body = serde_json::json!({"property": id, "message": msg, "case": case_json(case)});
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
    path
}

struct Shard {
    evaluations: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    samples: Vec<(&'static str, serde_json::Value)>,
    failure: Option<Vec<u64>>,
}

pub struct Config {
    pub root: PathBuf,
    pub seed: u64,
    pub thorough: bool,
    pub cases: Option<u64>,
}

pub fn replay<P: Prop>(p: &P, text: &str) -> i32 {
    let r: Replay<P::Case> = serde_json::from_str(text).expect("replay file");
    match run_check(p, &r.case) {
        Verdict::Fail(m) => {
            println!("reproduced: {m}");
            1
        }
        v => {
            println!("not reproduced: {v:?}");
            0
        }
    }
}

pub fn run<P: Prop>(p: &P, cfg: &Config) -> i32 {
    let t0 = Instant::now();
    let id = p.id();
    let total = cfg.cases.unwrap_or(if cfg.thorough { p.thorough() } else { p.quick() });
    let nshards = p.shards();
    let budget = Duration::from_secs(if cfg.thorough { 3000 } else { 420 });

    let mut failure: Option<(serde_json::Value, String)> = None;
    let mut corpus_n = 0u64;
    let mut known_total: BTreeMap<&'static str, u64> = BTreeMap::new();

    let slots: Vec<Slot> = (0..nshards + 1).map(|_| Slot::new()).collect();
    let stop = AtomicBool::new(false);
    let done = AtomicBool::new(false);
    let mut shards: Vec<Shard> = vec![];

    std::thread::scope(|scope| {
        // watchdog
        let (slots_ref, done_ref) = (&slots, &done);
        scope.spawn(move || {
            let mut seen: Vec<(u64, Option<u64>)> = vec![(u64::MAX, None); slots_ref.len()];
            while !done_ref.load(Ordering::SeqCst) {
                std::thread::sleep(Duration::from_millis(200));
                for (i, slot) in slots_ref.iter().enumerate() {
                    let seq = slot.seq.load(Ordering::SeqCst);
                    let cpu = slot.cpu_ns();
                    if seen[i].0 != seq || cpu.is_none() || seen[i].1.is_none() {
                        seen[i] = (seq, cpu);
                        continue;
                    }
                    let used = (cpu.unwrap() - seen[i].1.unwrap().min(cpu.unwrap())) as f64 / 1e9;
                    if used > HANG_CPU_S {
                        let choices = slot.choices.lock().unwrap().clone();
                        let msg = format!("a call did not return within {HANG_CPU_S} s of CPU time");
                        let mut src = Src::from_choices(choices);
                        let case = p.gen(&mut src);
                        let path = write_replay(&cfg.root, id, cfg.seed, &case, &msg);
                        let cov = serde_json::json!({"evaluations": seq, "distinct_nontrivial": seq,
                            "rule": p.rule(), "samples": [case_json(&case)], "note": msg});
                        write_evidence(cfg, id, cov, p.assumptions(), t0, 1);
                        println!("{msg}: {}", case_json(&case));
                        println!("VIOLATION property={id} replay={}", path.display());
                        std::process::exit(1);
                    }
                }
            }
        });

        // committed regression cases
        if let Ok(text) = std::fs::read_to_string(cfg.root.join("corpus").join(format!("{id}.jsonl"))) {
            for line in text.lines().filter(|l| !l.trim().is_empty() && !l.starts_with('#')) {
                let case: P::Case = match serde_json::from_str(line) {
                    Ok(c) => c,
                    Err(e) => {
                        eprintln!("bad corpus line for {id}: {e}");
                        std::process::exit(3);
                    }
                };
                corpus_n += 1;
                match guarded_with_thread(p, &case, cfg, t0) {
                    Verdict::Fail(m) if failure.is_none() => failure = Some((case_json(&case), m)),
                    Verdict::Known(k) => *known_total.entry(k).or_default() += 1,
                    _ => {}
                }
            }
        }

        if failure.is_none() {
            let handles: Vec<_> = (0..nshards)
                .map(|k| {
                    let (slot, stop) = (&slots[k], &stop);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || {
                            slot.register();
                            let mut sh = Shard {
                                evaluations: 0,
                                nontrivial: HashSet::new(),
                                classes: BTreeMap::new(),
                                known: BTreeMap::new(),
                                samples: vec![],
                                failure: None,
                            };
                            let n = total / nshards as u64 + u64::from((k as u64) < total % nshards as u64);
                            for i in 0..n {
                                if stop.load(Ordering::Relaxed) || (i % 64 == 0 && t0.elapsed() > budget) {
                                    break;
                                }
                                let mut src = Src::random(mix(mix(cfg.seed, k as u64 + 1), i));
                                let case = p.gen(&mut src);
                                slot.begin(&src.log);
                                sh.evaluations += 1;
                                match run_check(p, &case) {
                                    Verdict::Pass { class, nontrivial } => {
                                        let c = sh.classes.entry(class).or_default();
                                        *c += 1;
                                        if nontrivial {
                                            let json = case_json(&case);
                                            sh.nontrivial.insert(hash_str(&json.to_string()));
                                            if *c <= 1 && sh.samples.len() < 4 {
                                                sh.samples.push((class, json));
                                            }
                                        }
                                    }
                                    Verdict::Known(k) => *sh.known.entry(k).or_default() += 1,
                                    Verdict::Fail(_) => {
                                        sh.failure = Some(src.log);
                                        stop.store(true, Ordering::Relaxed);
                                        break;
                                    }
                                }
                            }
                            slot.idle();
                            sh
                        })
                        .unwrap()
                })
                .collect();
            for h in handles {
                shards.push(h.join().expect("shard thread"));
            }
            if let Some(choices) = shards.iter().find_map(|s| s.failure.clone()) {
                let slot = &slots[nshards];
                slot.register();
                let res = shrink(p, choices.clone(), slot);
                slot.idle();
                failure = Some(match res {
                    Some((case, msg, tries)) => {
                        println!("{id}: shrunk with {tries} attempts");
                        (case_json(&case), msg)
                    }
                    None => {
                        let mut src = Src::from_choices(choices);
                        let case = p.gen(&mut src);
                        (case_json(&case), "failed once, not reproduced when re-run in isolation".into())
                    }
                });
            }
        }
        done.store(true, Ordering::SeqCst);
    });

    let mut distinct: HashSet<u64> = HashSet::new();
    let mut classes: BTreeMap<&str, u64> = BTreeMap::new();
    let mut samples: Vec<serde_json::Value> = vec![];
    let mut seen_class: HashSet<&str> = HashSet::new();
    let mut evaluations = corpus_n;
    for s in shards {
        evaluations += s.evaluations;
        distinct.extend(s.nontrivial);
        for (k, v) in s.classes {
            *classes.entry(k).or_default() += v;
        }
        for (k, v) in s.known {
            *known_total.entry(k).or_default() += v;
        }
        for (c, j) in s.samples {
            if seen_class.insert(c) && samples.len() < 8 {
                samples.push(serde_json::json!({"class": c, "case": j}));
            }
        }
    }
    let mut cov = serde_json::json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct.len(),
        "rule": p.rule(),
        "samples": samples,
        "classes": classes,
        "corpus_cases": corpus_n,
    });
    for (k, v) in p.extra() {
        cov[k] = v;
    }
    if let Some((case, _)) = &failure {
        if cov["samples"].as_array().map(|a| a.is_empty()).unwrap_or(true) {
            cov["samples"] = serde_json::json!([case]);
        }
    }
    write_evidence(cfg, id, cov, p.assumptions(), t0, failure.is_some() as u64);
    for (k, n) in &known_total {
        println!("KNOWN-FINDING: property={id} {k} ({n} cases)");
    }
    println!(
        "{id}: {evaluations} cases, {} distinct non-trivial, {:.1} s, classes {:?}",
        distinct.len(),
        t0.elapsed().as_secs_f64(),
        classes
    );
    match failure {
        None => 0,
        Some((case, msg)) => {
            let path = write_replay(&cfg.root, id, cfg.seed, &case, &msg);
            println!("{id} failed: {msg}\n  case: {case}");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        }
    }
}

/// corpus cases may include former hangs; run them in a thread that can be abandoned
fn guarded_with_thread<P: Prop>(p: &P, case: &P::Case, cfg: &Config, t0: Instant) -> Verdict {
    let finished = AtomicBool::new(false);
    let slot = Slot::new();
    std::thread::scope(|s| {
        let (fin, sl) = (&finished, &slot);
        let h = s.spawn(move || {
            sl.register();
            let v = run_check(p, case);
            fin.store(true, Ordering::SeqCst);
            v
        });
        let mut waited = 0u32;
        while !finished.load(Ordering::SeqCst) && !h.is_finished() {
            std::thread::sleep(Duration::from_millis(if waited < 50 { 1 } else { 100 }));
            waited += 1;
            if slot.cpu_ns().unwrap_or(0) as f64 / 1e9 > HANG_CPU_S {
                let id = p.id();
                let msg = format!("a call did not return within {HANG_CPU_S} s of CPU time");
                let path = write_replay(&cfg.root, id, cfg.seed, case, &msg);
                let cov = serde_json::json!({"evaluations": 1, "distinct_nontrivial": 1,
                    "rule": p.rule(), "samples": [case_json(case)], "note": msg});
                write_evidence(cfg, id, cov, p.assumptions(), t0, 1);
                println!("{msg}: {}", case_json(case));
                println!("VIOLATION property={id} replay={}", path.display());
                std::process::exit(1);
            }
        }
        h.join().unwrap_or_else(|_| Verdict::Fail("panicked".into()))
    })
}

fn write_evidence(
    cfg: &Config, id: &str, coverage: serde_json::Value, assumptions: Vec<&'static str>, t0: Instant,
    violations: u64,
) {
    let dir = cfg.root.join("evidence");
    std::fs::create_dir_all(&dir).ok();
    let body = serde_json::json!({
        "property": id,
        "tier": if cfg.thorough { "thorough" } else { "quick" },
        "seed": cfg.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    std::fs::write(dir.join(format!("{id}.json")), serde_json::to_string_pretty(&body).unwrap())
        .expect("write evidence");
}
