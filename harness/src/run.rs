//! Bookkeeping of one monitored run: what was executed, what the oracle saw,
//! violations, known findings, evidence.
use qcd_sme::C;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub struct Run {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub root: String,
    pub evals: AtomicU64,
    pub judged: AtomicU64,
    pub stop: AtomicBool,
    distinct: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<Value>>,
    stats: Mutex<BTreeMap<String, f64>>,
    counts: Mutex<BTreeMap<String, u64>>,
    violations: Mutex<Vec<Value>>,
    known: Vec<Known>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    pub rule: Mutex<String>,
    pub assumptions: Mutex<Vec<String>>,
    pub slots: Vec<Mutex<Option<(Instant, String)>>>,
    pub hang_limit: Mutex<Duration>,
    collect: AtomicBool,
    suspects: Mutex<std::collections::BTreeSet<usize>>,
}

#[derive(Clone)]
pub struct Known { pub prop: String, pub site: String, pub what: String }

pub fn fmt(a: &[C]) -> Vec<String> {
    a.iter().map(|z| if z.im == 0. && z.im.is_sign_positive() { format!("{:?}", z.re) } else { format!("{:?}{:+?}i", z.re, z.im) }).collect()
}
pub fn bits(a: &[C]) -> Vec<String> {
    a.iter().map(|z| format!("{:016x},{:016x}", z.re.to_bits(), z.im.to_bits())).collect()
}

thread_local! { pub static SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
thread_local! { static ITEM: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }

impl Run {
    pub fn new(prop: &str, root: &str) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{root}/known_findings.jsonl")) {
            for l in s.lines().filter(|l| !l.trim().is_empty()) {
                let v: Value = serde_json::from_str(l).expect("known_findings.jsonl");
                if v["status"] == "open" {
                    known.push(Known {
                        prop: v["property"].as_str().unwrap().into(),
                        site: v["site"].as_str().unwrap().into(),
                        what: v["what"].as_str().unwrap().into(),
                    });
                }
            }
        }
        Run {
            prop: prop.into(), seed, thorough, start: Instant::now(), root: root.into(),
            evals: AtomicU64::new(0), judged: AtomicU64::new(0), stop: AtomicBool::new(false),
            distinct: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
            samples: Mutex::new(vec![]), stats: Mutex::new(BTreeMap::new()), counts: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(vec![]), known, known_hit: Mutex::new(BTreeMap::new()),
            rule: Mutex::new(String::new()), assumptions: Mutex::new(vec![]),
            slots: (0..64).map(|_| Mutex::new(None)).collect(),
            hang_limit: Mutex::new(Duration::from_secs(100)),
            collect: AtomicBool::new(false), suspects: Mutex::new(Default::default()),
        }
    }
    pub fn secs(&self) -> f64 { self.start.elapsed().as_secs_f64() }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(32) }

    /// Scale a quick-tier budget.
    pub fn n(&self, quick: usize, thorough: usize) -> usize { if self.thorough { thorough } else { quick } }

    /// Runs `f(i)` for i in 0..n over all threads, in order of a shared counter.
    pub fn par<G: Fn(usize) + Sync>(&self, n: usize, f: G) {
        let next = AtomicU64::new(0);
        std::thread::scope(|sc| {
            for t in 0..Self::threads() {
                let (next, f) = (&next, &f);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || {
                    SLOT.with(|s| s.set(t));
                    loop {
                        let i = next.fetch_add(1, Relaxed) as usize;
                        if i >= n || self.stopped() { break; }
                        f(i);
                    }
                }).unwrap();
            }
        });
    }

    /// `par` over listed items.
    pub fn par_list<G: Fn(usize) + Sync>(&self, items: &[usize], f: G) {
        self.par(items.len(), |j| { ITEM.with(|c| c.set(items[j])); f(items[j]) });
    }
    /// Runs a section over n items twice: first with coarse numerical settings, where
    /// what looks like a violation only marks its item as suspect, then over the
    /// suspects with fine settings, where it is reported.
    pub fn confirm(&self, n: usize, coarse: impl Fn(), fine: impl Fn(), section: impl Fn(&[usize])) {
        self.confirm_levels(n, &[&coarse, &fine], section);
    }
    /// The same with any number of settings; an adaptive rule can be deceived at one.
    pub fn confirm_levels(&self, n: usize, levels: &[&dyn Fn()], section: impl Fn(&[usize])) {
        let mut items: Vec<usize> = (0..n).collect();
        for (j, l) in levels.iter().enumerate() {
            l();
            let last = j + 1 == levels.len();
            self.collect.store(!last, Relaxed);
            if !items.is_empty() { section(&items); }
            if !last {
                self.collect.store(false, Relaxed);
                items = std::mem::take(&mut *self.suspects.lock().unwrap()).into_iter().collect();
                self.count(&format!("items judged again, settings {}", j + 2), items.len() as u64);
            }
        }
        levels[0]();
    }

    /// Executes one call of the code under test, watched for panics and hangs.
    pub fn call<T, G: FnOnce() -> T>(&self, what: impl Fn() -> String, f: G) -> Result<T, String> {
        self.evals.fetch_add(1, Relaxed);
        let slot = SLOT.with(|s| s.get());
        // the description is only built for slow calls by the caller of `call_watched`
        let _ = slot;
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(x) => Ok(x),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Err(format!("panic in {}: {m}", what()))
            }
        }
    }
    /// Same, with the hang watchdog armed.
    pub fn call_watched<T, G: FnOnce() -> T>(&self, what: impl Fn() -> String, f: G) -> Result<T, String> {
        let slot = SLOT.with(|s| s.get());
        *self.slots[slot].lock().unwrap() = Some((Instant::now(), what()));
        let r = self.call(what, f);
        *self.slots[slot].lock().unwrap() = None;
        r
    }

    pub fn distinct(&self, h: impl Hash) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        h.hash(&mut s);
        let h = s.finish();
        self.judged.fetch_add(1, Relaxed);
        self.distinct[(h & 63) as usize].lock().unwrap().insert(h);
    }
    pub fn distinct_args(&self, key: &str, mask: u32, a: &[C]) {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        key.hash(&mut s); mask.hash(&mut s);
        for z in a { z.re.to_bits().hash(&mut s); z.im.to_bits().hash(&mut s); }
        self.distinct(s.finish());
    }
    pub fn sample(&self, v: impl FnOnce() -> Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 24 { let x = v(); s.push(x); }
    }
    pub fn count(&self, k: &str, n: u64) { *self.counts.lock().unwrap().entry(k.into()).or_insert(0) += n; }
    pub fn max(&self, k: &str, x: f64) {
        let mut s = self.stats.lock().unwrap();
        let e = s.entry(k.into()).or_insert(f64::MIN);
        if x > *e { *e = x; }
    }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }

    /// Reports a violation at a named site; sites listed as open known findings
    /// for this property are only counted.
    pub fn violation(&self, site: &str, detail: Value) {
        if self.collect.load(Relaxed) && site != "hang" {
            self.suspects.lock().unwrap().insert(ITEM.with(|c| c.get()));
            return;
        }
        for k in &self.known {
            if k.prop == self.prop && k.site == site {
                *self.known_hit.lock().unwrap().entry(format!("{}\t{}", k.site, k.what)).or_insert(0) += 1;
                return;
            }
        }
        let mut v = self.violations.lock().unwrap();
        if std::env::var("MON_VERBOSE").is_ok() { eprintln!("violation at {site}: {detail}"); }
        v.push(json!({"site": site, "detail": detail}));
        let lim = std::env::var("MON_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(20);
        if v.len() >= lim { self.stop.store(true, Relaxed); }
    }
    pub fn n_violations(&self) -> usize { self.violations.lock().unwrap().len() }

    pub fn watchdog(self: &std::sync::Arc<Self>) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let lim = *me.hang_limit.lock().unwrap();
            for s in &me.slots {
                let hit = match &*s.lock().unwrap() {
                    Some((t, w)) if t.elapsed() > lim => Some(w.clone()),
                    _ => None,
                };
                if let Some(w) = hit {
                    me.violation("hang", json!({"call": w, "no_result_after_s": lim.as_secs_f64()}));
                    let rc = me.finish();
                    std::process::exit(rc);
                }
            }
        });
    }

    /// Writes evidence and replay, prints the verdict; the exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap().clone();
        for (k, n) in self.known_hit.lock().unwrap().iter() {
            let w = k.split('\t').nth(1).unwrap_or("");
            println!("KNOWN-FINDING: property={} {w} ({n} occurrences this run)", self.prop);
        }
        let distinct: usize = self.distinct.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut cov = json!({
            "evaluations": self.evals.load(Relaxed),
            "distinct_nontrivial": distinct,
            "oracle_judgements": self.judged.load(Relaxed),
            "rule": self.rule.lock().unwrap().clone(),
            "samples": self.samples.lock().unwrap().clone(),
            "counters": self.counts.lock().unwrap().clone(),
        });
        if let Some(o) = cov.as_object_mut() {
            o.insert("extremes".into(), json!(self.stats.lock().unwrap().clone()));
        }
        let ev = json!({
            "property": self.prop, "tier": if self.thorough { "thorough" } else { "quick" }, "seed": self.seed,
            "level": "exploration", "coverage": cov,
            "assumptions": self.assumptions.lock().unwrap().clone(),
            "wall_s": self.secs(), "violations": v.len(),
        });
        std::fs::create_dir_all(format!("{}/evidence", self.root)).ok();
        std::fs::write(format!("{}/evidence/{}.json", self.root, self.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        if v.is_empty() {
            println!("{}: held; {} evaluations, {} distinct non-trivial, {:.1} s", self.prop, self.evals.load(Relaxed), distinct, self.secs());
            0
        } else {
            let dir = format!("{}/build/replay", self.root);
            std::fs::create_dir_all(&dir).ok();
            let path = format!("{dir}/{}.json", self.prop);
            let rep = json!({"property": self.prop, "seed": self.seed, "violations": v,
                             "replay": format!("VERIF_SEED={} ./check.sh {}", self.seed, self.prop)});
            std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
            for x in v.iter().take(3) { println!("  {}", serde_json::to_string(x).unwrap()); }
            println!("VIOLATION property={} replay={path}", self.prop);
            1
        }
    }
}
