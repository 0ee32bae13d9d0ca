//! Case runner: enumerates, isolates, counts and reports.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
}

/// Run `f`, turning a panic of the code under test into Err("panic: ..").
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST_PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = LAST_PANIC.with(|p| p.borrow().clone());
        let m = if m.is_empty() {
            e.downcast_ref::<String>().cloned().unwrap_or_else(|| "unknown".into())
        } else {
            m
        };
        format!("panic: {m}")
    })
}

/// Run `f`; an error if it writes anything to standard output (the supervisor made that a file).
pub fn silent<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    fn len() -> u64 {
        let _ = std::io::stdout().flush();
        std::fs::metadata("/proc/self/fd/1").map(|m| m.len()).unwrap_or(0)
    }
    let a = len();
    let r = f();
    let b = len();
    if b > a {
        return Err(format!("prints {} bytes on standard output", b - a));
    }
    Ok(r)
}

pub fn h64(s: &str) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    s.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Failure {
    pub case: String,
    pub detail: String,
}

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    pub shard: u64,
    pub shards: u64,
    pub only: Option<String>,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub failures: Vec<Failure>,
    pub failure_count: u64,
    /// > 0: every case is one state, this many transitions and one trace
    pub per_case: u64,
    pub tick: Arc<AtomicU64>,
    cur: std::fs::File,
}

impl Ctx {
    pub fn new(id: &str, thorough: bool, shard: u64, shards: u64, only: Option<String>, curfile: &str) -> Ctx {
        Ctx {
            id: id.into(),
            thorough,
            shard,
            shards,
            only,
            level: "exploration",
            rule: String::new(),
            assumptions: vec![],
            evaluations: 0,
            nontrivial: HashSet::new(),
            states: 0,
            transitions: 0,
            traces: 0,
            outcomes: BTreeMap::new(),
            samples: vec![],
            failures: vec![],
            failure_count: 0,
            per_case: 0,
            tick: Arc::new(AtomicU64::new(0)),
            cur: std::fs::File::create(curfile).expect("cur file"),
        }
    }
    /// Does this worker own the case?
    pub fn mine(&self, name: &str) -> bool {
        if let Some(o) = &self.only {
            return o == name;
        }
        self.shards <= 1 || h64(name) % self.shards == self.shard
    }
    pub fn mark(&mut self, name: &str) {
        self.tick.fetch_add(1, Ordering::Relaxed);
        let _ = self.cur.seek(SeekFrom::Start(0));
        let mut b = format!("{}\n", name.len()).into_bytes();
        b.extend_from_slice(name.as_bytes());
        let _ = self.cur.write_all(&b);
    }
    /// One enumerated case; `name` identifies the input completely. `f` returns Ok(outcome label).
    pub fn case_o(&mut self, name: &str, nontrivial: bool, f: impl FnOnce() -> Result<&'static str, String>) {
        if !self.mine(name) {
            return;
        }
        self.mark(name);
        self.evaluations += 1;
        if self.per_case > 0 {
            self.states += 1;
            self.transitions += self.per_case;
            self.traces += 1;
        }
        if nontrivial {
            self.nontrivial.insert(h64(name));
        }
        if self.samples.len() < 3 || (self.evaluations.is_power_of_two() && self.samples.len() < 12) {
            self.samples.push(name.chars().take(400).collect());
        }
        match guard(f) {
            Ok(Ok(o)) => *self.outcomes.entry(o.to_string()).or_default() += 1,
            Ok(Err(d)) | Err(d) => self.fail(name, d),
        }
    }
    pub fn case(&mut self, name: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), String>) {
        self.case_o(name, nontrivial, || f().map(|_| "ok"))
    }
    pub fn fail(&mut self, name: &str, detail: String) {
        self.failure_count += 1;
        *self.outcomes.entry("FAIL".into()).or_default() += 1;
        if self.failures.len() < 4000 {
            self.failures.push(Failure { case: name.to_string(), detail });
        }
    }
    pub fn note(&mut self, outcome: &str) {
        *self.outcomes.entry(outcome.to_string()).or_default() += 1;
    }
    pub fn to_json(&self) -> J {
        json!({
            "level": self.level, "rule": self.rule, "assumptions": self.assumptions,
            "evaluations": self.evaluations,
            "nontrivial": self.nontrivial.len(),
            "states": self.states, "transitions": self.transitions, "traces": self.traces,
            "outcomes": self.outcomes, "samples": self.samples,
            "failure_count": self.failure_count,
            "failures": self.failures.iter().map(|f| json!({"case": f.case, "detail": f.detail})).collect::<Vec<_>>(),
        })
    }
}
