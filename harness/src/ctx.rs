//! Verdicts, evidence, panic capture, watchdog, parallel case runner.
use crate::rng::{hash_str, Rng};
use std::any::Any;
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub only_stream: Option<String>,
    pub only_case: Option<u64>,
    pub start: Instant,
    pub verif: String,
    stats: Mutex<Stats>,
}
#[derive(Default)]
struct Stats {
    evals: u64,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    tags: BTreeMap<String, u64>,
    rule: String,
    exhaustive: bool,
    known_hit: BTreeSet<String>,
    assumptions: Vec<String>,
}

thread_local! {
    static CUR: Cell<(u64, u64)> = const { Cell::new((0, u64::MAX)) };
}
static STREAMS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static DONE: AtomicBool = AtomicBool::new(false);

impl Ctx {
    pub fn new(prop: &str, thorough: bool, seed: u64, only: Option<(String, u64)>) -> Ctx {
        std::panic::set_hook(Box::new(|i| {
            let msg = payload(i.payload());
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
            if p.len() > 64 {
                p.remove(0);
            }
            p.push(format!("{msg} at {loc}"));
            if (loc.contains("harness/src") || loc.starts_with("src/")) && msg != "panic" {
                eprintln!("harness panic: {msg} at {loc}");
            }
        }));
        Ctx {
            prop: prop.into(),
            thorough,
            seed,
            only_stream: only.as_ref().map(|o| o.0.clone()),
            only_case: only.map(|o| o.1),
            start: Instant::now(),
            verif: std::env::var("VH_VERIF").unwrap_or_else(|_| "/verif".into()),
            stats: Mutex::new(Stats::default()),
        }
    }
    /// `quick` in the quick tier, `thorough` in the thorough tier
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let k = match self.prop.as_str() {
            "C11" | "C12" | "C13" | "C15" | "C16" | "C17" | "C20" | "C21" | "C25" | "C26" | "C31" => 6,
            "C03" | "C04" | "C06" | "C07" | "C08" | "C09" | "C10" | "C29" | "C30" | "C23" | "C27" => 4,
            "C22" => 3,
            "C14" | "C24" => 2,
            _ => 1,
        };
        k * if self.thorough { thorough } else { quick }
    }
    fn st(&self) -> std::sync::MutexGuard<'_, Stats> {
        self.stats.lock().unwrap_or_else(|e| e.into_inner())
    }
    pub fn rule(&self, r: &str) {
        self.st().rule = r.into();
    }
    pub fn exhaustive(&self) {
        self.st().exhaustive = true;
    }
    pub fn assume(&self, a: &str) {
        self.st().assumptions.push(a.into());
    }
    /// count events observed
    pub fn tag(&self, k: &str, n: u64) {
        *self.st().tags.entry(k.into()).or_insert(0) += n;
    }
    /// many evaluations counted elsewhere, all distinct
    pub fn bulk(&self, evals: u64, nontrivial: u64) {
        let mut s = self.st();
        s.evals += evals;
        s.nontrivial += nontrivial;
    }
    pub fn sample(&self, s: String) {
        let mut st = self.st();
        if st.samples.len() < 6 {
            st.samples.push(s);
        }
    }
    /// one observed case; `key` identifies it for counting distinct ones
    pub fn case(&self, key: &str, nontrivial: bool) {
        let mut s = self.st();
        s.evals += 1;
        if nontrivial && s.distinct.insert(hash_str(key)) {
            s.nontrivial += 1;
            let n = s.nontrivial;
            if s.samples.len() < 6 && (n.is_power_of_two() || n % 50 == 0) {
                let mut k = key.to_string();
                if k.len() > 600 {
                    let mut e = 600;
                    while !k.is_char_boundary(e) {
                        e -= 1;
                    }
                    k.truncate(e);
                    k.push_str("...");
                }
                s.samples.push(k);
            }
        }
    }
    pub fn violation(&self, what: &str) -> ! {
        if DONE.swap(true, SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        let (s, c) = CUR.with(|c| c.get());
        let stream = STREAMS.lock().unwrap().get((s as usize).wrapping_sub(1)).cloned().unwrap_or_default();
        let dir = format!("{}/replays", self.verif);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.txt", self.prop);
        let case = if c == u64::MAX { String::new() } else { format!(" --stream {stream} --case {c}") };
        let body = format!(
            "property {}\nreplay: ./run.py {} --tier {} --seed {}{}\n\n{}\n",
            self.prop,
            self.prop,
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            case,
            what
        );
        let _ = std::fs::write(&path, &body);
        self.evidence(1);
        println!("{body}");
        println!("VIOLATION property={} replay={}", self.prop, path);
        std::process::exit(1)
    }
    pub fn inconclusive(&self, what: &str) -> ! {
        if DONE.swap(true, SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        println!("INCONCLUSIVE property={} {}", self.prop, what);
        std::process::exit(2)
    }
    /// A failure with an exact signature. Listed ones are reported and passed over, others are violations.
    pub fn finding(&self, signature: &str, what: &str) {
        let known = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", self.verif)).unwrap_or_default();
        let want = format!("property={} signature={} ", self.prop, signature);
        if known.lines().any(|l| !l.starts_with('#') && !l.starts_with("fixed:") && l.contains(&want)) {
            if self.st().known_hit.insert(signature.into()) {
                println!("KNOWN-FINDING: property={} {} ({})", self.prop, what, signature);
            }
        } else {
            self.violation(&format!("{what}\nsignature={signature}"));
        }
    }
    fn evidence(&self, violations: u64) {
        let s = self.st();
        let mut cov = String::new();
        for (k, v) in &s.tags {
            cov.push_str(&format!(",\n    {}: {}", js(k), v));
        }
        let samples: Vec<String> = s.samples.iter().map(|x| js(x)).collect();
        let ass: Vec<String> = s.assumptions.iter().map(|x| js(x)).collect();
        let j = format!(
            "{{\n  \"property\": {},\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"exhaustive\": {},\n    \"samples\": [{}],\n    \"known_findings_seen\": {}{}\n  }},\n  \"assumptions\": [{}],\n  \"wall_s\": {:.3},\n  \"violations\": {}\n}}\n",
            js(&self.prop),
            if self.thorough { "thorough" } else { "quick" },
            self.seed,
            s.evals,
            s.nontrivial,
            js(&s.rule),
            s.exhaustive,
            samples.join(", "),
            s.known_hit.len(),
            cov,
            ass.join(", "),
            self.start.elapsed().as_secs_f64(),
            violations
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.verif));
        let path = match std::env::var("VH_EVIDENCE") {
            Ok(p) if violations == 0 => p,
            _ => format!("{}/evidence/{}.json", self.verif, self.prop),
        };
        let _ = std::fs::write(path, j);
    }
    pub fn finish(&self, min_nontrivial: u64) -> ! {
        let (e, n) = {
            let s = self.st();
            (s.evals, s.nontrivial)
        };
        if self.only_case.is_none() && n < min_nontrivial {
            self.inconclusive(&format!("only {n} non-trivial observations, {min_nontrivial} wanted"));
        }
        if DONE.swap(true, SeqCst) {
            loop {
                std::thread::sleep(Duration::from_secs(1));
            }
        }
        if self.only_case.is_none() {
            self.evidence(0);
        }
        println!("ok property={} evaluations={} distinct_nontrivial={} wall={:.1}s", self.prop, e, n, self.start.elapsed().as_secs_f64());
        std::process::exit(0)
    }

    /// Runs cases 0..n of a named stream on several threads, each with its own generator.
    /// Stops starting new ones after `secs`, so a slow machine observes less instead of timing out.
    pub fn par(&self, stream: &str, n: u64, workers: usize, secs: u64, f: impl Fn(u64, &mut Rng) + Sync) {
        if let Some(s) = &self.only_stream {
            if s != stream {
                return;
            }
        }
        if std::env::var("VH_ONLY").is_ok_and(|v| !v.split(',').any(|x| x == stream)) {
            return;
        }
        let sid = {
            let mut v = STREAMS.lock().unwrap();
            v.push(stream.into());
            v.len() as u64
        };
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let ran = AtomicU64::new(0);
        let work = |c: u64| {
            CUR.with(|x| x.set((sid, c)));
            let mut rng = Rng::new(self.seed, stream, c);
            let t1 = Instant::now();
            f(c, &mut rng);
            if t1.elapsed().as_secs_f64() > 2.0 && std::env::var("VH_TIME").is_ok() {
                eprintln!("    {stream} case {c}: {:.1}s", t1.elapsed().as_secs_f64());
            }
            CUR.with(|x| x.set((0, u64::MAX)));
            ran.fetch_add(1, SeqCst);
        };
        if let Some(c) = self.only_case {
            work(c);
            return;
        }
        let secs = secs * if self.thorough { 3 } else { 1 };
        let out = catch_unwind(AssertUnwindSafe(|| {
            std::thread::scope(|s| {
                for _ in 0..workers.max(1) {
                    s.spawn(|| {
                        loop {
                            let c = next.fetch_add(1, SeqCst);
                            if c >= n || t0.elapsed().as_secs() >= secs {
                                break;
                            }
                            work(c);
                        }
                    });
                }
            })
        }));
        if out.is_err() {
            let p = PANICS.lock().unwrap_or_else(|e| e.into_inner()).join("\n");
            self.inconclusive(&format!("harness error in {stream}: {p}"));
        }
        self.tag(&format!("cases_{stream}"), ran.load(SeqCst));
        if std::env::var("VH_TIME").is_ok() {
            eprintln!("  {stream}: {} cases {:.1}s", ran.load(SeqCst), t0.elapsed().as_secs_f64());
        }
    }

    /// Calls the library. A panic is a violation: the arguments are valid.
    pub fn ok<T>(&self, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
        match self.guard(what, 1, f) {
            Ok(x) => x,
            Err(p) => self.violation(&format!("panic in the library: {p}\nin {}", what())),
        }
    }
    /// The same for calls that take many seconds.
    pub fn ok_long<T>(&self, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> T {
        match self.guard(what, 4, f) {
            Ok(x) => x,
            Err(p) => self.violation(&format!("panic in the library: {p}\nin {}", what())),
        }
    }
    /// Calls the library, returning a panic's payload.
    pub fn catch<T>(&self, what: &dyn Fn() -> String, f: impl FnOnce() -> T) -> Result<T, Box<dyn Any + Send>> {
        let slot = Watch::enter(self, what, 1);
        let r = catch_unwind(AssertUnwindSafe(f));
        drop(slot);
        r
    }
    /// Calls the library, catching panics. `budget` scales the time it may take.
    pub fn guard<T>(&self, what: &dyn Fn() -> String, budget: u64, f: impl FnOnce() -> T) -> Result<T, String> {
        let slot = Watch::enter(self, what, budget);
        let r = catch_unwind(AssertUnwindSafe(f));
        drop(slot);
        r.map_err(|p| {
            let mut m = payload(&*p);
            if m.contains("scoped thread") {
                let l = PANICS.lock().unwrap_or_else(|e| e.into_inner());
                m = format!("{m}; recent panics: {}", l.iter().rev().take(3).cloned().collect::<Vec<_>>().join(" | "));
            } else {
                let l = PANICS.lock().unwrap_or_else(|e| e.into_inner());
                if let Some(x) = l.iter().rev().find(|x| x.starts_with(&m)) {
                    m = x.clone();
                }
            }
            m
        })
    }
}

fn payload(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

// ---- watchdog: calls that never come back ----
struct Slot {
    what: String,
    since: Instant,
    cpu0: f64,
    budget: u64,
}
static SLOTS: Mutex<BTreeMap<u64, Slot>> = Mutex::new(BTreeMap::new());
static SLOT_ID: AtomicU64 = AtomicU64::new(0);
struct Watch(u64);

fn cpu() -> f64 {
    if cfg!(miri) {
        return 0.;
    }
    unsafe {
        let mut t: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut t);
        t.tv_sec as f64 + t.tv_nsec as f64 * 1e-9
    }
}
impl Watch {
    fn enter(_c: &Ctx, what: &dyn Fn() -> String, budget: u64) -> Watch {
        let id = SLOT_ID.fetch_add(1, SeqCst);
        SLOTS.lock().unwrap().insert(id, Slot { what: what(), since: Instant::now(), cpu0: cpu(), budget });
        Watch(id)
    }
}
impl Drop for Watch {
    fn drop(&mut self) {
        let s = SLOTS.lock().unwrap().remove(&self.0);
        if let Some(s) = s.filter(|s| s.since.elapsed().as_secs() >= 4 * s.budget && std::env::var("VH_TIME").is_ok()) {
            let what: String = s.what.chars().take(300).collect();
            eprintln!("    long call: {:.1} s of {}: {what}", s.since.elapsed().as_secs_f64(), 90 * s.budget);
        }
    }
}
/// Reports a call that has used far more processor time than it can need, or that is stuck with every
/// thread idle. A call that is merely slow on a busy machine meets neither condition.
pub fn watchdog(ctx: &'static Ctx) {
    std::thread::spawn(move || {
        let mut idle = 0;
        let mut last = cpu();
        loop {
            std::thread::sleep(Duration::from_secs(5));
            let now = cpu();
            if now - last < 0.05 {
                idle += 1;
            } else {
                idle = 0;
            }
            last = now;
            let stuck = {
                let s = SLOTS.lock().unwrap();
                s.values().find_map(|s| {
                    let wall = s.since.elapsed().as_secs();
                    let used = now - s.cpu0;
                    if wall > 90 * s.budget && used > 80.0 * s.budget as f64 {
                        Some(format!("has not returned after {wall} s ({used:.0} s of processor time)\nin {}", s.what))
                    } else if wall > 60 && idle >= 10 {
                        Some(format!("has not returned after {wall} s and every thread is idle\nin {}", s.what))
                    } else {
                        None
                    }
                })
            };
            if let Some(w) = stuck {
                ctx.violation(&format!("a call of the library {w}"));
            }
        }
    });
}
