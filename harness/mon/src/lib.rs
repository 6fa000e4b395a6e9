//! The monitor runtime shared by every harness: seeded randomness, counters of what was
//! observed, violation and known-finding reporting, panic capture, and the evidence file.
use std::cell::Cell;
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap;
use std::collections::HashSet;
use std::hash::Hash;
use std::hash::Hasher;
use std::panic::AssertUnwindSafe;
use std::path::PathBuf;
use std::time::Duration;
use std::time::Instant;

use serde_json::json;
use serde_json::Value;

// ---------------------------------------------------------------- randomness

#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// uniform in lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.next() as u128 % span) as i128) as i64
    }
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.next() % (den as u64) < num as u64
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// A hostile-leaning string.
    pub fn string(&mut self) -> String {
        const POOL: &[&str] = &[
            "", " ", "a", "A", "b", "ab", "abc", "Abc", "0", "1", "-1", "1.5", "null", "true",
            "%", "_", "a%", "%b", ".*", "^a", "[", "\\", "'", "\"", "é", "日本", "🙂", "\u{0}",
            "/", "a/b", "project", "x y", "\n", "\t", "zz", "name", "{}", "[]",
        ];
        let n = match self.below(6) {
            0 => 0,
            1..=3 => 1,
            4 => 2,
            _ => 3,
        };
        (0..n).map(|_| *self.pick(POOL)).collect()
    }
    pub fn ident(&mut self) -> String {
        let n = 1 + self.below(8);
        (0..n).map(|_| (b'a' + self.below(26) as u8) as char).collect()
    }
    pub fn i64_edge(&mut self) -> i64 {
        match self.below(8) {
            0 => 0,
            1 => 1,
            2 => -1,
            3 => i64::MAX,
            4 => i64::MIN,
            5 => self.range(-10, 10),
            6 => self.range(-100_000, 100_000),
            _ => self.next() as i64,
        }
    }
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

// ---------------------------------------------------------------- panics

thread_local! {
    static CAPTURE: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if CAPTURE.with(|c| c.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = payload_str(info.payload());
            LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
        } else if std::env::var("VERIF_QUIET_PANICS").is_err() {
            default(info)
        }
    }));
}

fn payload_str(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    }
}

/// Runs the code under test; a panic becomes `Err(description)`.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = CAPTURE.with(|c| c.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(AssertUnwindSafe(f));
    CAPTURE.with(|c| c.set(prev));
    r.map_err(|e| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| format!("panic: {}", payload_str(&*e)))
    })
}

// ---------------------------------------------------------------- monitor

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Mon {
    pub property: String,
    pub tier: Tier,
    pub seed: u64,
    pub rng: Rng,
    pub level: String,
    rule: String,
    evaluations: u64,
    sigs: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    required: Vec<(String, u64)>,
    known: Vec<(String, String)>,
    known_hit: BTreeMap<String, String>,
    violations: Vec<(String, String, Value)>,
    violation_count: u64,
    assumptions: Vec<String>,
    t0: Instant,
    root: PathBuf,
    sample_seen: u64,
}

impl Mon {
    /// `property` and tier come from argv: <bin> <property> <tier>.
    pub fn start(property: &str, tier: Tier) -> Mon {
        install_hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(root.join("known-findings.jsonl")) {
            for line in s.lines().filter(|l| l.trim_start().starts_with('{')) {
                match serde_json::from_str::<Value>(line) {
                    Ok(v) => {
                        if v["status"] == "known" && v["property"] == property {
                            known.push((
                                v["key"].as_str().unwrap_or("").to_string(),
                                v["what"].as_str().unwrap_or("").to_string(),
                            ));
                        }
                    }
                    Err(e) => harness_error(&format!("known-findings.jsonl: {e}: {line}")),
                }
            }
        }
        Mon {
            property: property.to_string(),
            tier,
            seed,
            rng: Rng::new(seed.wrapping_mul(0x1000_0001).wrapping_add(hash_of(&property))),
            level: "exploration".into(),
            rule: String::new(),
            evaluations: 0,
            sigs: HashSet::new(),
            samples: vec![],
            counters: BTreeMap::new(),
            required: vec![],
            known,
            known_hit: BTreeMap::new(),
            violations: vec![],
            violation_count: 0,
            assumptions: vec![],
            t0: Instant::now(),
            root,
            sample_seen: 0,
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// n in the quick tier, m in the thorough one.
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough() { thorough } else { quick }
    }
    pub fn elapsed(&self) -> Duration {
        self.t0.elapsed()
    }
    /// True while there is still time budget (seconds) left.
    pub fn within(&self, quick_s: u64, thorough_s: u64) -> bool {
        self.t0.elapsed().as_secs() < if self.thorough() { thorough_s } else { quick_s }
    }
    pub fn rule(&mut self, s: &str) {
        self.rule = s.to_string();
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }
    /// One execution judged by an oracle. `sig` identifies the case; `nontrivial` says whether
    /// the observed execution exercised what the rule names.
    pub fn observed<S: Hash>(&mut self, sig: S, nontrivial: bool) {
        self.evaluations += 1;
        if nontrivial {
            self.sigs.insert(hash_of(&sig));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        self.sample_seen += 1;
        let n = self.sample_seen;
        if self.samples.len() < 4 || (n.is_power_of_two() && self.samples.len() < 14) {
            self.samples.push(f());
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counters.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn counter(&self, name: &str) -> u64 {
        self.counters.get(name).copied().unwrap_or(0)
    }
    /// The run is only a valid one if this counter reached `n` (a workload that exercised
    /// nothing must not be read as a pass).
    pub fn require(&mut self, name: &str, n: u64) {
        self.required.push((name.to_string(), n));
    }
    /// Report a violation. `key` identifies what fails (an exact entry of the known-findings
    /// file silences exactly that key).
    pub fn violation(&mut self, key: &str, msg: String, detail: Value) {
        if let Some((_, what)) = self.known.iter().find(|(k, _)| k == key) {
            self.known_hit.insert(key.to_string(), what.clone());
            self.count("known_finding_observations", 1);
            return;
        }
        self.violation_count += 1;
        if self.violations.len() < 20 && !self.violations.iter().any(|(k, _, _)| k == key) {
            self.violations.push((key.to_string(), msg, detail));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, msg: impl FnOnce() -> String) {
        if !ok {
            let m = msg();
            self.violation(key, m, Value::Null);
        }
    }
    pub fn violated(&self) -> bool {
        self.violation_count > 0
    }
    pub fn is_known(&self, key: &str) -> bool {
        self.known.iter().any(|(k, _)| k == key)
    }

    pub fn finish(mut self) -> ! {
        let wall = self.t0.elapsed().as_secs_f64();
        let mut missing = vec![];
        for (name, n) in &self.required {
            let got = self.counters.get(name).copied().unwrap_or(0);
            if got < *n {
                missing.push(format!("{name}: {got} < {n}"));
            }
        }
        if self.samples.is_empty() {
            self.samples.push(json!("no sample recorded"));
        }
        let ev = json!({
            "property": self.property,
            "tier": if self.thorough() { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": self.sigs.len(),
                "rule": self.rule,
                "samples": self.samples,
                "observed": self.counters,
                "known_findings_seen": self.known_hit.keys().collect::<Vec<_>>(),
            },
            "assumptions": self.assumptions,
            "wall_s": wall,
            "violations": self.violation_count,
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(dir.join("replay"));
        if let Err(e) = std::fs::write(
            dir.join(format!("{}.json", self.property)),
            serde_json::to_string_pretty(&ev).unwrap(),
        ) {
            harness_error(&format!("cannot write evidence: {e}"));
        }
        for (key, what) in &self.known_hit {
            println!("KNOWN-FINDING: property={} {} [{}]", self.property, what, key);
        }
        if self.violation_count > 0 {
            for (i, (key, msg, detail)) in self.violations.iter().enumerate() {
                let path = dir.join("replay").join(format!("{}-{}.json", self.property, i));
                let _ = std::fs::write(
                    &path,
                    serde_json::to_string_pretty(&json!({
                        "property": self.property, "seed": self.seed,
                        "tier": if self.thorough() { "thorough" } else { "quick" },
                        "key": key, "message": msg, "detail": detail,
                        "rerun": format!("VERIF_SEED={} /verif/check {} {}", self.seed, self.property,
                            if self.thorough() { "thorough" } else { "quick" }),
                    }))
                    .unwrap(),
                );
                println!("[{key}] {msg}");
                println!("VIOLATION property={} replay={}", self.property, path.display());
            }
            std::process::exit(1);
        }
        println!(
            "{}: held on {} evaluations ({} distinct non-trivial) in {:.1}s; observed {:?}",
            self.property, self.evaluations, self.sigs.len(), wall, self.counters
        );
        if !missing.is_empty() {
            harness_error(&format!("too little was observed: {}", missing.join(", ")));
        }
        if self.sigs.is_empty() {
            harness_error("nothing non-trivial was observed");
        }
        std::process::exit(0)
    }
}

pub fn harness_error(msg: &str) -> ! {
    eprintln!("HARNESS-ERROR: {msg}");
    std::process::exit(2)
}

/// argv: <property> <tier>; dispatches to the registered check.
pub fn main_with(checks: &[(&str, fn(&mut Mon))]) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        harness_error("usage: <bin> <property> quick|thorough");
    }
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let Some((_, f)) = checks.iter().find(|(p, _)| *p == args[1]) else {
        harness_error(&format!("unknown property {}", args[1]))
    };
    let mut mon = Mon::start(&args[1], tier);
    // a panic that escapes here is an error of the harness or a crash of the code under test
    // outside any guard; the monitor reports it as a violation only where a check says so.
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| f(&mut mon)));
    if let Err(e) = r {
        harness_error(&format!("the harness panicked: {}", payload_str(&*e)));
    }
    mon.finish()
}
