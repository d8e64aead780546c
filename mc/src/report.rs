//! Counters, evidence and verdicts of one check run.
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub struct Report {
    pub id: String,
    pub level: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub evals: AtomicU64,
    pub nontrivial: AtomicU64,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub validated: AtomicU64,
    /// only cases with this key (a replay)
    pub only: Option<String>,
    seen: Vec<Mutex<HashSet<u64>>>,
    inner: Mutex<Inner>,
}

#[derive(Default)]
struct Inner {
    samples: Vec<Value>,
    violations: Vec<(String, String)>,
    known: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    notes: Vec<String>,
    inflight: BTreeMap<u64, (Instant, String)>,
    incomplete: Option<String>,
}

/// The findings listed for this property: (key, text). A line is `known: property=<id> key=<key> <text>`.
fn load_known(id: &str) -> Vec<(String, String)> {
    let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) else {
        return vec![];
    };
    let pre = format!("known: property={id} key=");
    s.lines()
        .filter_map(|l| l.strip_prefix(&pre))
        .filter_map(|l| l.split_once(' '))
        .map(|(k, t)| (k.to_string(), t.to_string()))
        .collect()
}

pub fn root() -> String {
    std::env::var("VERIF_ROOT").unwrap_or("/verif".into())
}

impl Report {
    pub fn new(id: &str, level: &str, thorough: bool, seed: u64) -> Self {
        Report {
            id: id.into(),
            level: level.into(),
            thorough,
            seed,
            start: Instant::now(),
            evals: 0.into(),
            nontrivial: 0.into(),
            states: 0.into(),
            transitions: 0.into(),
            validated: 0.into(),
            only: None,
            seen: (0..64).map(|_| Default::default()).collect(),
            inner: Default::default(),
        }
    }
    /// One evaluation; `what` identifies it if it is non-trivial, and repetitions count once.
    pub fn eval(&self, what: Option<&dyn Fn(&mut DefaultHasher)>) {
        self.evals.fetch_add(1, Ordering::Relaxed);
        if let Some(f) = what {
            let mut h = DefaultHasher::new();
            f(&mut h);
            let h = h.finish();
            if self.seen[(h % 64) as usize].lock().unwrap().insert(h) {
                self.nontrivial.fetch_add(1, Ordering::Relaxed);
            }
        }
    }
    /// As `eval`, with the identity given as a value.
    pub fn evalv(&self, nontrivial: bool, what: impl Hash) {
        if nontrivial {
            self.eval(Some(&|h: &mut DefaultHasher| what.hash(h)));
        } else {
            self.eval(None);
        }
    }
    pub fn wants(&self, key: &str) -> bool {
        match &self.only {
            None => true,
            Some(k) => k == key,
        }
    }
    pub fn count(&self, what: &str, n: u64) {
        *self
            .inner
            .lock()
            .unwrap()
            .counters
            .entry(what.into())
            .or_default() += n;
    }
    pub fn sample(&self, v: Value) {
        let mut g = self.inner.lock().unwrap();
        if g.samples.len() < 6 {
            g.samples.push(v);
        }
    }
    pub fn note(&self, s: &str) {
        self.inner.lock().unwrap().notes.push(s.into());
    }
    pub fn incomplete(&self, why: &str) {
        self.inner
            .lock()
            .unwrap()
            .incomplete
            .get_or_insert(why.into());
    }
    pub fn known(&self, key: &str) {
        *self
            .inner
            .lock()
            .unwrap()
            .known
            .entry(key.into())
            .or_default() += 1;
    }
    /// `key` identifies the case, for replay.
    pub fn violation(&self, what: impl Into<String>, key: impl Into<String>) {
        let mut g = self.inner.lock().unwrap();
        g.violations.push((what.into(), key.into()));
    }
    pub fn violations(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }
    /// Enough violations collected to stop exploring.
    pub fn stop(&self) -> bool {
        self.violations() >= 20
    }
    pub fn enter(&self, tid: u64, what: String) {
        self.inner
            .lock()
            .unwrap()
            .inflight
            .insert(tid, (Instant::now(), what));
    }
    pub fn leave(&self, tid: u64) {
        self.inner.lock().unwrap().inflight.remove(&tid);
    }
    /// The longest-running piece of work, if it exceeds the limit.
    pub fn hung(&self, limit_s: u64) -> Option<String> {
        self.hung_millis(limit_s * 1000)
    }
    pub fn hung_millis(&self, limit: u64) -> Option<String> {
        let g = self.inner.lock().unwrap();
        g.inflight
            .values()
            .filter(|(t, _)| t.elapsed().as_millis() as u64 > limit)
            .max_by_key(|x| x.0.elapsed())
            .map(|x| x.1.clone())
    }

    /// Write the evidence, print the verdict, and return the exit code.
    pub fn finish(&self, rule: &str, exhaustive: bool, assumptions: &[&str]) -> i32 {
        let level = self.level.as_str();
        let mut g = self.inner.lock().unwrap();
        let listed = load_known(&self.id);
        let mut code = 0;
        // a finding that is not listed is a violation
        let unlisted: Vec<String> = g
            .known
            .keys()
            .filter(|k| !listed.iter().any(|l| &l.0 == *k))
            .cloned()
            .collect();
        for k in unlisted {
            let n = g.known.remove(&k).unwrap();
            g.violations.push((format!("{k} ({n} times)"), "".into()));
        }
        for (k, what) in &listed {
            let n = g.known.get(k).copied().unwrap_or(0);
            if n > 0 {
                println!(
                    "KNOWN-FINDING: property={} {k}: {what} (met {n} times in this run)",
                    self.id
                );
            }
        }
        let dir = format!("{}/replays", root());
        if !g.violations.is_empty() {
            code = 1;
            let _ = std::fs::create_dir_all(&dir);
        }
        g.violations.sort_by_key(|v| v.0.len());
        for (i, (what, key)) in g.violations.iter().enumerate().take(20) {
            let p = format!("{dir}/{}-{i}.json", self.id);
            let v =
                json!({"property": self.id, "what": what, "key": key, "thorough": self.thorough});
            let _ = std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap());
            println!("VIOLATION property={} replay={p}", self.id);
            if i >= 5 {
                continue;
            }
            let mut w = what.clone();
            if w.len() > 3000 {
                let mut cut = 3000;
                while !w.is_char_boundary(cut) {
                    cut -= 1;
                }
                w.truncate(cut);
                w.push_str(" …");
            }
            println!("  {w}");
        }
        let mut cov = json!({
            "evaluations": self.evals.load(Ordering::Relaxed),
            "distinct_nontrivial": self.nontrivial.load(Ordering::Relaxed),
            "rule": rule,
            "samples": g.samples,
            "exhaustive": exhaustive && g.incomplete.is_none() && code == 0,
        });
        if level == "model_checking" {
            cov["states"] = json!(self.states.load(Ordering::Relaxed));
            cov["transitions"] = json!(self.transitions.load(Ordering::Relaxed));
            cov["traces_validated_against_impl"] = json!(self.validated.load(Ordering::Relaxed));
        }
        if let Some(w) = &g.incomplete {
            cov["incomplete"] = json!(w);
        }
        for (k, v) in &g.counters {
            cov[k.as_str()] = json!(v);
        }
        if !g.notes.is_empty() {
            cov["notes"] = json!(g.notes);
        }
        if !g.known.is_empty() {
            cov["known_findings_met"] = json!(g.known);
        }
        let ev = json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": level,
            "coverage": cov,
            "assumptions": assumptions,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": g.violations.len(),
        });
        let dir = format!("{}/evidence", root());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(
            format!("{dir}/{}.json", self.id),
            serde_json::to_string_pretty(&ev).unwrap() + "\n",
        )
        .expect("evidence");
        println!(
            "{} {}: {} evaluations, {} non-trivial, {} states, {} transitions, {:.1} s, {} violations",
            self.id,
            if self.thorough { "thorough" } else { "quick" },
            self.evals.load(Ordering::Relaxed),
            self.nontrivial.load(Ordering::Relaxed),
            self.states.load(Ordering::Relaxed),
            self.transitions.load(Ordering::Relaxed),
            self.start.elapsed().as_secs_f64(),
            g.violations.len()
        );
        code
    }
}
