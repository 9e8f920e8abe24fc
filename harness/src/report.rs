//! Reporting: tiers, evidence file, violations with replay artefacts, known findings.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::time::Instant;

pub const VERIF: &str = match option_env!("MC_ROOT") { Some(s) => s, None => "/verif" };

/// Work items finished, for the watchdog.
pub static PROGRESS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn tick() {
    PROGRESS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// A check of which no work item finishes for a long time hangs in the code under test.
pub fn watch(prop: &str, tier: &str) {
    let (prop, tier) = (prop.to_string(), tier.to_string());
    let limit: u64 = if tier == "thorough" { 1800 } else { 400 };
    std::thread::spawn(move || {
        let (mut seen, mut idle) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(5));
            let now = PROGRESS.load(std::sync::atomic::Ordering::Relaxed);
            idle = if now == seen { idle + 5 } else { 0 };
            seen = now;
            if idle >= limit {
                let mut rep = Report::new(&prop, &tier);
                rep.violation("hang", &format!("nothing finished for {limit} s after {now} work items"), json!({}));
                rep.finish();
            }
        }
    });
}

pub struct Report {
    pub prop: String,
    pub tier: String,
    pub thorough: bool,
    start: Instant,
    known: BTreeMap<String, String>,
    known_hit: BTreeSet<String>,
    violations: Vec<(String, Value)>,
    pub evaluations: u64,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    distinct: BTreeSet<u64>,
    samples: Vec<String>,
    rules: Vec<String>,
    assumptions: Vec<String>,
    extra: BTreeMap<String, Value>,
    skipped_violations: u64,
}

pub fn fnv(s: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

impl Report {
    pub fn new(prop: &str, tier: &str) -> Report {
        let mut known = BTreeMap::new();
        if let Ok(t) = std::fs::read_to_string(format!("{VERIF}/KNOWN_FINDINGS.txt")) {
            for l in t.lines() {
                if let Some(r) = l.strip_prefix(&format!("known: property={prop} key=")) {
                    if let Some((k, d)) = r.split_once(" | ") {
                        known.insert(k.trim().to_string(), d.to_string());
                    }
                }
            }
        }
        Report {
            prop: prop.into(),
            tier: tier.into(),
            thorough: tier == "thorough",
            start: Instant::now(),
            known,
            known_hit: BTreeSet::new(),
            violations: vec![],
            evaluations: 0,
            states: 0,
            transitions: 0,
            traces: 0,
            distinct: BTreeSet::new(),
            samples: vec![],
            rules: vec![],
            assumptions: vec![],
            extra: BTreeMap::new(),
            skipped_violations: 0,
        }
    }
    pub fn rule(&mut self, s: impl Into<String>) {
        self.rules.push(s.into());
    }
    pub fn assume(&mut self, s: impl Into<String>) {
        self.assumptions.push(s.into());
    }
    pub fn extra(&mut self, k: &str, v: Value) {
        self.extra.insert(k.into(), v);
    }
    /// Record one distinct observed outcome (by hash).
    pub fn outcome(&mut self, s: &str) {
        tick();
        self.distinct.insert(fnv(s.as_bytes()));
    }
    pub fn outcome_hash(&mut self, h: u64) {
        tick();
        self.distinct.insert(h);
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        if self.samples.len() < 12 {
            self.samples.push(s.into());
        }
    }
    pub fn violation_count(&self) -> usize {
        self.violations.len() + self.skipped_violations as usize
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.contains_key(key)
    }
    /// Report a violation of the property.  `key` identifies the specific failing
    /// input/history; a key listed in KNOWN_FINDINGS.txt is a known finding.
    pub fn violation(&mut self, key: &str, what: &str, detail: Value) {
        let key = key.replace('\n', "\\n");
        if self.known.contains_key(&key) {
            self.known_hit.insert(key);
            return;
        }
        if self.violations.len() >= std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(25usize) {
            self.skipped_violations += 1;
            return;
        }
        self.violations.push((
            key.clone(),
            json!({"property": self.prop, "key": key, "what": what, "detail": detail}),
        ));
    }
    pub fn finish(mut self) -> ! {
        let dir = PathBuf::from(VERIF).join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        for k in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.prop, self.known[k], k);
        }
        for k in self.known.keys() {
            if !self.known_hit.contains(k) {
                println!("note: listed finding no longer reproduces in this tier: {}", k);
            }
        }
        for (i, (key, v)) in self.violations.iter().enumerate() {
            let p = dir.join("replay").join(format!("{}-{}-{}.json", self.prop, self.tier, i));
            let _ = std::fs::write(&p, serde_json::to_string_pretty(v).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, p.display());
            println!("  key: {}", key.chars().take(300).collect::<String>());
            println!(
                "  what: {}",
                v["what"].as_str().unwrap_or("").chars().take(600).collect::<String>()
            );
        }
        if self.skipped_violations > 0 {
            println!("  (+{} further violations not written)", self.skipped_violations);
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(self.evaluations));
        cov.insert("distinct_nontrivial".into(), json!(self.distinct.len()));
        cov.insert("rule".into(), json!(self.rules.join(" ; ")));
        cov.insert("states".into(), json!(self.states));
        cov.insert("transitions".into(), json!(self.transitions));
        cov.insert("traces_validated_against_impl".into(), json!(self.traces));
        cov.insert("samples".into(), json!(self.samples));
        for (k, v) in std::mem::take(&mut self.extra) {
            cov.insert(k, v);
        }
        let seed: i64 =
            std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let ev = json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": seed,
            "level": "model_checking",
            "coverage": Value::Object(cov),
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len() as u64 + self.skipped_violations,
        });
        let _ = std::fs::write(
            dir.join(format!("{}.json", self.prop)),
            serde_json::to_string_pretty(&ev).unwrap(),
        );
        println!(
            "{} {}: states={} transitions={} evaluations={} distinct={} traces={} violations={} wall={:.1}s",
            self.prop,
            self.tier,
            self.states,
            self.transitions,
            self.evaluations,
            self.distinct.len(),
            self.traces,
            self.violations.len() as u64 + self.skipped_violations,
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if self.violations.is_empty() { 0 } else { 1 });
    }
}

/// A scratch directory removed on drop.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        use std::sync::atomic::{AtomicU64, Ordering};
        static N: AtomicU64 = AtomicU64::new(0);
        let n = N.fetch_add(1, Ordering::Relaxed);
        let p = PathBuf::from(format!("{VERIF}/target/scratch/{tag}-{}-{n}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch dir");
        Scratch(p)
    }
    pub fn path(&self) -> &Path {
        &self.0
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("MC_KEEP").is_err() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}

/// Map `f` over items on all cores, keeping order.
pub fn par_map<T: Sync, R: Send>(items: &[T], f: impl Fn(usize, &T) -> R + Sync) -> Vec<R> {
    use std::sync::atomic::{AtomicUsize, Ordering};
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(items.len().max(1));
    let next = AtomicUsize::new(0);
    let mut out: Vec<Option<R>> = (0..items.len()).map(|_| None).collect();
    let slots: Vec<std::sync::Mutex<&mut Option<R>>> = out.iter_mut().map(std::sync::Mutex::new).collect();
    std::thread::scope(|s| {
        for _ in 0..n {
            let (next, slots, f) = (&next, &slots, &f);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= items.len() {
                        break;
                    }
                    let r = f(i, &items[i]);
                    tick();
                    **slots[i].lock().unwrap() = Some(r);
                })
                .unwrap();
        }
    });
    drop(slots);
    out.into_iter().map(|o| o.unwrap()).collect()
}

/// Run `f`, turning a panic into Err(message).
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        }
    })
}
