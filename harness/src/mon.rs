//! Bookkeeping of what a monitor saw, and its verdict.
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Mon {
    pub prop: &'static str,
    pub seed: u64,
    pub thorough: bool,
    rule: &'static str,
    evals: u64,
    distinct: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<String>,
    sample_at: u64,
    sample_calls: u64,
    violations: Vec<(String, String)>,
    exhaustive: Vec<String>,
    required: Vec<String>,
    start: std::time::Instant,
    budget: u64,
}

/// counts up as cases are judged and pieces of code under test are entered
static BEAT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn beat() {
    BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
}

/// Code under test that does not return is an observation, too: without a beat for
/// this long the run ends as a violation.
fn watch(prop: &'static str, seed: u64, rule: &'static str, limit: u64) {
    std::thread::spawn(move || {
        let mut last = (u64::MAX, std::time::Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(std::sync::atomic::Ordering::Relaxed);
            if b != last.0 {
                last = (b, std::time::Instant::now());
            } else if last.1.elapsed().as_secs() >= limit {
                let o = format!(
                    "{{\"property\":{},\"seed\":{seed},\"evaluations\":{b},\"distinct_nontrivial\":0,\"rule\":{},\"counters\":{{}},\"exhaustive_parts\":[],\"samples\":[],\"violations\":[{{\"what\":\"after {b} steps the code under test did not return for {limit} s\",\"case\":\"seed {seed}, step {b}\"}}]}}",
                    json(prop),
                    json(rule)
                );
                match std::env::var("SVH_OUT") {
                    Ok(p) => std::fs::write(p, o).expect("write report"),
                    Err(_) => println!("{o}"),
                }
                std::process::exit(1);
            }
        }
    });
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

impl Mon {
    pub fn new(prop: &'static str, rule: &'static str) -> Self {
        std::panic::set_hook(Box::new(|info| {
            LAST_PANIC.with(|p| *p.borrow_mut() = info.to_string());
        }));
        let env = |k: &str| std::env::var(k).ok();
        if let Some(limit) = env("SVH_WATCH_S").and_then(|s| s.parse().ok()) {
            watch(prop, env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1), rule, limit);
        }
        Mon {
            prop,
            seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
            thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
            rule,
            evals: 0,
            distinct: HashSet::new(),
            counters: BTreeMap::new(),
            samples: Vec::new(),
            sample_at: 1,
            sample_calls: 0,
            violations: Vec::new(),
            exhaustive: Vec::new(),
            required: Vec::new(),
            start: std::time::Instant::now(),
            budget: env("SVH_BUDGET_S").and_then(|s| s.parse().ok()).unwrap_or(
                if env("VERIF_TIER").as_deref() == Some("thorough") { 420 } else { 60 },
            ),
        }
    }
    pub fn rng(&self, stream: u64) -> crate::rng::Rng {
        let h = crate::rng::hash_bytes(0xcbf2_9ce4_8422_2325, self.prop.as_bytes());
        crate::rng::Rng::new(self.seed.wrapping_mul(0x1_0000_0001) ^ h ^ stream.wrapping_mul(0x9e37_79b9))
    }
    /// number of cases by tier
    pub fn n(&self, quick: usize, thorough: usize) -> usize {
        let f = std::env::var("SVH_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
        ((if self.thorough { thorough } else { quick }) as f64 * f) as usize
    }
    pub fn case(&mut self, key: &[u8], nontrivial: bool) {
        beat();
        self.evals += 1;
        if nontrivial && self.distinct.len() < 8_000_000 {
            self.distinct.insert(crate::rng::hash_bytes(0xcbf2_9ce4_8422_2325, key));
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        self.sample_calls += 1;
        if self.sample_calls >= self.sample_at && self.samples.len() < 10 {
            self.sample_at = self.sample_calls * 4 + 1;
            let mut s = f();
            if s.len() > 1500 {
                let cut = (0..=1500).rev().find(|i| s.is_char_boundary(*i)).unwrap();
                s.truncate(cut);
                s.push_str("...");
            }
            self.samples.push(s);
        }
    }
    pub fn count(&mut self, name: &str, n: u64) {
        if let Some(c) = self.counters.get_mut(name) {
            *c += n;
        } else {
            self.counters.insert(name.to_string(), n);
        }
    }
    pub fn max(&mut self, name: &str, n: u64) {
        let c = self.counters.entry(name.to_string()).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn exhaustive(&mut self, what: &str) {
        self.exhaustive.push(what.to_string());
    }
    /// the run is inconclusive unless this counter was reached
    pub fn require(&mut self, counter: &str) {
        self.required.push(counter.to_string());
    }
    pub fn violation(&mut self, what: impl Into<String>, case: impl Into<String>) {
        if self.violations.len() < 20 {
            self.violations.push((what.into(), case.into()));
        }
    }
    /// random exploration stops here; nothing that is claimed as exhaustive does
    pub fn out_of_time(&self) -> bool {
        self.start.elapsed().as_secs() >= self.budget
    }
    /// enough to stop
    pub fn failed(&self) -> bool {
        !self.violations.is_empty()
    }

    pub fn finish(self) -> ! {
        let mut o = String::from("{");
        let mut counters = self.counters.clone();
        counters.insert("violations".into(), self.violations.len() as u64);
        let _ = write!(
            o,
            "\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"rule\":{},\"counters\":{{{}}},\"exhaustive_parts\":[{}],\"samples\":[{}],\"violations\":[{}]}}",
            json(self.prop),
            self.seed,
            self.evals,
            self.distinct.len(),
            json(self.rule),
            counters.iter().map(|(k, v)| format!("{}:{v}", json(k))).collect::<Vec<_>>().join(","),
            self.exhaustive.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
            self.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
            self.violations
                .iter()
                .map(|(w, c)| format!("{{\"what\":{},\"case\":{}}}", json(w), json(c)))
                .collect::<Vec<_>>()
                .join(","),
        );
        match std::env::var("SVH_OUT") {
            Ok(p) => std::fs::write(p, o).expect("write report"),
            Err(_) => println!("{o}"),
        }
        if !self.violations.is_empty() {
            std::process::exit(1);
        }
        if self.evals == 0 {
            eprintln!("inconclusive: nothing was evaluated");
            std::process::exit(3);
        }
        for r in &self.required {
            if self.counters.get(r).copied().unwrap_or(0) == 0 {
                eprintln!("inconclusive: no {r:?} observed");
                std::process::exit(3);
            }
        }
        std::process::exit(0)
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run code under test; a panic in it is an observation, not a crash of the monitor.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    beat();
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

/// `guard` around a check
pub fn checked(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    guard(f).and_then(|r| r)
}

/// Making failing cases smaller must not keep the verdict waiting: 40 s for all of them.
static SHRINKING: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub fn shrinking_is_over() -> bool {
    SHRINKING.load(std::sync::atomic::Ordering::Relaxed) > 40_000_000
}
pub fn while_shrinking<T>(f: impl FnOnce() -> T) -> T {
    let t = std::time::Instant::now();
    let r = f();
    SHRINKING.fetch_add(t.elapsed().as_micros() as u64, std::sync::atomic::Ordering::Relaxed);
    r
}

/// Remove parts of a failing case as long as it keeps failing.
pub fn shrink<T: Clone>(mut v: Vec<T>, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut chunk = (v.len() / 2).max(1);
    let mut budget = 2000;
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < v.len() && budget > 0 {
            if shrinking_is_over() {
                return v;
            }
            let mut w = v.clone();
            w.drain(i..(i + chunk).min(w.len()));
            budget -= 1;
            if while_shrinking(|| fails(&w)) {
                v = w;
                progress = true;
            } else {
                i += chunk;
            }
        }
        if budget == 0 || (chunk == 1 && !progress) {
            return v;
        }
        if !progress {
            chunk = (chunk / 2).max(1);
        }
    }
}

/// Shrink a list of styled texts: fewer of them, then shorter ones.
pub fn shrink_runs(
    runs: Vec<(String, crate::model::S)>,
    mut fails: impl FnMut(&[(String, crate::model::S)]) -> bool,
) -> Vec<(String, crate::model::S)> {
    let mut v = shrink(runs, &mut fails);
    for i in 0..v.len() {
        let cs: Vec<char> = v[i].0.chars().collect();
        if cs.len() > 4096 {
            continue;
        }
        let s = v[i].1;
        let base = v.clone();
        let best = shrink(cs, |cs| {
            let mut w = base.clone();
            w[i] = (cs.iter().collect(), s);
            fails(&w)
        });
        v[i].0 = best.into_iter().collect();
    }
    v
}
