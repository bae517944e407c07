//! Run context shared by every check: counters, violations, known findings, evidence, parallel map.
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub struct Violation {
    pub key: u64,
    pub what: String,
    pub replay: Value,
}

pub struct Ctx {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    counters: Mutex<BTreeMap<&'static str, u64>>,
    samples: Mutex<Vec<Value>>,
    violations: Mutex<Vec<Violation>>,
    outcomes: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<Vec<String>>,
    known_hits: Mutex<BTreeMap<String, u64>>,
    stop: AtomicBool,
    key: AtomicU64,
    seen: Vec<Mutex<std::collections::HashSet<u64>>>,
}

pub const MAX_VIOL: usize = 8; // reported

impl Ctx {
    pub fn new(id: &'static str, thorough: bool) -> Self {
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        Ctx {
            id,
            thorough,
            seed,
            start: Instant::now(),
            counters: Default::default(),
            samples: Default::default(),
            violations: Default::default(),
            outcomes: Default::default(),
            notes: Default::default(),
            known_hits: Default::default(),
            stop: AtomicBool::new(false),
            key: AtomicU64::new(0),
            seen: (0..64).map(|_| Default::default()).collect(),
        }
    }
    pub fn add(&self, k: &'static str, n: u64) {
        *self.counters.lock().unwrap().entry(k).or_default() += n;
    }
    pub fn get(&self, k: &'static str) -> u64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }
    /// Records a distinct state of the model (by hash); their number is reported as `states`.
    pub fn state(&self, h: &impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut d = std::hash::DefaultHasher::new();
        h.hash(&mut d);
        let v = d.finish();
        self.seen[(v >> 58) as usize].lock().unwrap().insert(v);
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(v);
        }
    }
    pub fn outcome(&self, k: impl Into<String>) {
        self.outcome_n(k, 1)
    }
    pub fn outcome_n(&self, k: impl Into<String>, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.into()).or_default() += n;
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }
    /// A deviation that the known-findings file lists (counted, never a violation).
    pub fn known(&self, finding: &str) {
        *self.known_hits.lock().unwrap().entry(finding.to_string()).or_default() += 1;
    }
    pub fn known_hit(&self, finding: &str) -> u64 {
        self.known_hits.lock().unwrap().get(finding).copied().unwrap_or(0)
    }
    pub fn violate(&self, what: impl Into<String>, replay: Value) {
        let k = self.key.fetch_add(1, SeqCst);
        let mut v = self.violations.lock().unwrap();
        let what = what.into();
        if v.len() < 64 {
            v.push(Violation { key: k, what, replay });
        }
        if v.len() >= if std::env::var("VPMC_ALL").is_ok() { 64 } else { MAX_VIOL } {
            self.stop.store(true, SeqCst);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    /// Runs `f` over 0..n on all cores. A panic of the code under test is a violation.
    pub fn par<F: Fn(usize) + Sync>(&self, n: usize, f: F) {
        let next = AtomicUsize::new(0);
        let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() {
                            break;
                        }
                        f(i);
                    })
                    .unwrap();
            }
        });
    }

    /// Ends the run: writes evidence, prints findings and violations, returns the exit code.
    pub fn finish(&self, level: &str, cov: Value, assumptions: &[&str]) -> i32 {
        let root = verif_root();
        let mut viol = self.violations.lock().unwrap();
        viol.sort_by_key(|v| (v.what.len() + v.replay.to_string().len(), v.key));
        let known = KNOWN.get().cloned().unwrap_or_default();
        for k in known.iter().filter(|k| k.property == self.id && k.kind == "known") {
            if self.known_hit(&k.id) > 0 {
                println!("KNOWN-FINDING: property={} [{}] {}", self.id, k.id, k.what);
            } else {
                println!("note: listed finding {} of {} was not observed in this run", k.id, self.id);
            }
        }
        let distinct: usize = self.seen.iter().map(|s| s.lock().unwrap().len()).sum();
        if distinct > 0 {
            let k = if self.get("states") > 0 { "distinct_results" } else { "states" };
            self.add(k, distinct as u64);
        }
        let mut coverage = cov;
        let c = coverage.as_object_mut().unwrap();
        for (k, v) in self.counters.lock().unwrap().iter() {
            c.entry(k.to_string()).or_insert(json!(v));
        }
        c.entry("samples").or_insert(Value::Array(self.samples.lock().unwrap().clone()));
        let outs = self.outcomes.lock().unwrap();
        if !outs.is_empty() {
            c.insert("distinct_outcomes".into(), json!(outs.len()));
            let mut top: Vec<_> = outs.iter().collect();
            top.sort_by(|a, b| b.1.cmp(a.1).then(a.0.cmp(b.0)));
            top.truncate(40);
            c.insert("outcomes".into(), json!(top.iter().map(|(k, v)| json!([k, v])).collect::<Vec<_>>()));
        }
        let kh = self.known_hits.lock().unwrap();
        if !kh.is_empty() {
            c.insert("known_finding_hits".into(), json!(*kh));
        }
        let notes = self.notes.lock().unwrap();
        if !notes.is_empty() {
            c.insert("notes".into(), json!(*notes));
        }
        if self.stopped() {
            c.insert("exhaustive".into(), json!(false));
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough {"thorough"} else {"quick"},
            "seed": self.seed,
            "level": level,
            "coverage": coverage,
            "assumptions": assumptions,
            "wall_s": (self.elapsed()*1000.0).round()/1000.0,
            "violations": viol.len(),
        });
        let dir = format!("{root}/evidence");
        std::fs::create_dir_all(&dir).ok();
        std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        let rdir = format!("{root}/replays");
        if !viol.is_empty() {
            std::fs::create_dir_all(&rdir).ok();
        }
        for (i, v) in viol.iter().take(if std::env::var("VPMC_ALL").is_ok() { 64 } else { MAX_VIOL }).enumerate() {
            let p = format!("{rdir}/{}-{}.json", self.id, i + 1);
            let body = json!({"property": self.id, "what": v.what, "case": v.replay});
            std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
            println!("VIOLATION property={} replay={}", self.id, p);
            println!("  {}", v.what.replace('\n', "\n  "));
        }
        println!(
            "{} {} {:.1}s violations={} coverage={}",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.elapsed(),
            viol.len(),
            self.counters.lock().unwrap().iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" ")
        );
        i32::from(!viol.is_empty())
    }
}

pub fn verif_root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into())
}

#[derive(Clone, Debug)]
pub struct Known {
    pub id: String,
    pub property: String,
    pub kind: String,
    pub what: String,
    pub witness: Value,
}
pub static KNOWN: std::sync::OnceLock<Vec<Known>> = std::sync::OnceLock::new();

pub fn load_known() {
    let p = format!("{}/known-findings.jsonl", verif_root());
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(&p) {
        for l in s.lines().filter(|l| l.starts_with('{')) {
            let v: Value = serde_json::from_str(l).expect("known-findings.jsonl");
            out.push(Known {
                id: v["id"].as_str().unwrap().into(),
                property: v["property"].as_str().unwrap().into(),
                kind: v["kind"].as_str().unwrap().into(),
                what: v["what"].as_str().unwrap().into(),
                witness: v["witness"].clone(),
            });
        }
    }
    KNOWN.set(out).ok();
}
/// Is the named deviation listed as a known finding of the property?
pub fn listed(property: &str, id: &str) -> bool {
    KNOWN.get().map(|k| k.iter().any(|k| k.kind == "known" && k.property == property && k.id == id)).unwrap_or(false)
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static CASE_SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}

struct Slot {
    since: AtomicU64,
    text: Mutex<String>,
}
static SLOTS: std::sync::OnceLock<Vec<Slot>> = std::sync::OnceLock::new();
static NSLOT: AtomicUsize = AtomicUsize::new(0);
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();

pub const HANG_S: u64 = 90;

/// Installs the panic hook and the hang watchdog.
pub fn init(id: &'static str) {
    EPOCH.get_or_init(Instant::now);
    SLOTS.get_or_init(|| (0..4096).map(|_| Slot { since: AtomicU64::new(0), text: Mutex::new(String::new()) }).collect());
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var("VPMC_TRACE").is_ok() {
            eprintln!("panic: {msg} at {loc}");
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(2));
        let now = EPOCH.get().unwrap().elapsed().as_millis() as u64 + 1;
        for s in SLOTS.get().unwrap().iter() {
            let t = s.since.load(SeqCst);
            if t != 0 && now.saturating_sub(t) > HANG_S * 1000 {
                let text = s.text.lock().unwrap().clone();
                let root = verif_root();
                std::fs::create_dir_all(format!("{root}/replays")).ok();
                let p = format!("{root}/replays/{id}-hang.json");
                std::fs::write(&p, json!({"property": id, "what": "no answer (hang)", "case": text}).to_string()).ok();
                println!("VIOLATION property={id} replay={p}");
                println!("  the code under test gave no answer within {HANG_S} s on: {text}");
                std::process::exit(1);
            }
        }
    });
}

fn slot() -> &'static Slot {
    let i = CASE_SLOT.with(|c| {
        if c.get() == usize::MAX {
            c.set(NSLOT.fetch_add(1, SeqCst) % 4096);
        }
        c.get()
    });
    &SLOTS.get().unwrap()[i]
}

/// Calls the code under test; a panic comes back as Err(message). Watched for hangs.
pub fn guarded<T>(case: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    let s = slot();
    let nested = s.since.load(SeqCst) != 0;
    if !nested {
        {
            let mut t = s.text.lock().unwrap();
            t.clear();
            t.push_str(case);
        }
        s.since.store(EPOCH.get().unwrap().elapsed().as_millis() as u64 + 1, SeqCst);
    }
    let r = catch_unwind(AssertUnwindSafe(f));
    if !nested {
        s.since.store(0, SeqCst);
    }
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
