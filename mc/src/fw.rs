//! Exhaustive exploration of a finite list of cases, in parallel, with counting and replay.

use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn hash_f(x: &[f64]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    for v in x {
        v.to_bits().hash(&mut h);
    }
    h.finish()
}

/// Runs real code; a panic becomes an Err with its message and location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

/// What one execution contributes to the coverage counts.
#[derive(Default)]
pub struct Obs {
    states: Vec<u64>,
    transitions: u64,
    traces: u64,
    outcomes: Vec<String>,
    sample: Option<String>,
}
impl Obs {
    /// A distinct state / behaviour of the code under test, by canonical hash.
    pub fn state<T: Hash>(&mut self, t: &T) {
        self.states.push(hash_of(t));
    }
    pub fn state_f(&mut self, x: &[f64]) {
        self.states.push(hash_f(x));
    }
    /// Calls into the real implementation.
    pub fn step(&mut self, n: u64) {
        self.transitions += n;
    }
    /// One complete behaviour of the reference model compared with the implementation.
    pub fn trace(&mut self) {
        self.traces += 1;
    }
    pub fn outcome(&mut self, s: impl Into<String>) {
        self.outcomes.push(s.into());
    }
    pub fn sample(&mut self, s: impl Into<String>) {
        self.sample = Some(s.into());
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub family: String,
    pub key: String,
    pub msg: String,
}

#[derive(Default)]
struct Inner {
    states: HashSet<u64>,
    evaluations: u64,
    transitions: u64,
    traces: u64,
    outcomes: BTreeMap<String, u64>,
    samples: Vec<String>,
    families: Vec<(String, String, u64, u64, f64)>,
    violations: Vec<Violation>,
    notes: Vec<String>,
}

pub struct Fw {
    pub prop: String,
    pub layer: String,
    pub thorough: bool,
    pub seed: u64,
    pub scratch: String,
    replay: Option<(String, String)>,
    out: String,
    start: Instant,
    budget: Duration,
    inner: Mutex<Inner>,
}

pub type Verdict = Result<(), String>;

impl Fw {
    pub fn from_args(layer: &str) -> Fw {
        let mut prop = String::new();
        let mut out = String::new();
        let mut replay = None;
        let mut scratch = std::env::temp_dir().to_string_lossy().to_string();
        let a: Vec<String> = std::env::args().skip(1).collect();
        let mut i = 0;
        while i < a.len() {
            match a[i].as_str() {
                "--out" => {
                    out = a[i + 1].clone();
                    i += 1;
                }
                "--scratch" => {
                    scratch = a[i + 1].clone();
                    i += 1;
                }
                "--replay" => {
                    let t = std::fs::read_to_string(&a[i + 1]).expect("replay file");
                    let j: serde_json::Value = serde_json::from_str(&t).expect("replay json");
                    replay = Some((j["family"].as_str().unwrap().to_string(), j["key"].as_str().unwrap().to_string()));
                    i += 1;
                }
                x => prop = x.to_string(),
            }
            i += 1;
        }
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        std::panic::set_hook(Box::new(|i| {
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            PANIC.with(|p| *p.borrow_mut() = format!("panic at {loc}: {}", m.replace('\n', " ")));
        }));
        let secs = std::env::var("VERIF_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 240 });
        Fw { prop, layer: layer.into(), thorough, seed, scratch, replay, out, start: Instant::now(), budget: Duration::from_secs(secs), inner: Default::default() }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn note(&self, s: impl Into<String>) {
        self.inner.lock().unwrap().notes.push(s.into());
    }

    /// Runs every case.  `key` must identify a case within its family; it is what a replay file names.
    pub fn family<T: Sync>(&self, name: &str, bound: &str, cases: &[T], key: impl Fn(&T) -> String + Sync, run: impl Fn(&T, &mut Obs) -> Verdict + Sync) {
        self.family_n(name, bound, cases, 8, key, run)
    }

    pub fn family_n<T: Sync>(&self, name: &str, bound: &str, cases: &[T], threads: usize, key: impl Fn(&T) -> String + Sync, run: impl Fn(&T, &mut Obs) -> Verdict + Sync) {
        if let Some((f, _)) = &self.replay {
            if f != name {
                return;
            }
        }
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let done = AtomicUsize::new(0);
        let found: Mutex<Vec<(usize, Violation)>> = Mutex::new(vec![]);
        let busy: Vec<Mutex<Option<(Instant, usize)>>> = (0..threads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for w in 0..threads {
                let (next, done, found, busy, finished, key, run) = (&next, &done, &found, &busy, &finished, &key, &run);
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut acc: Vec<Obs> = vec![];
                        loop {
                            let i = next.fetch_add(1, Ordering::SeqCst);
                            if i >= cases.len() || self.start.elapsed() > self.budget {
                                break;
                            }
                            if let Some((_, k)) = &self.replay {
                                if *k != key(&cases[i]) {
                                    continue;
                                }
                                eprintln!("replaying {name}: {k}");
                            }
                            *busy[w].lock().unwrap() = Some((Instant::now(), i));
                            let mut o = Obs::default();
                            let r = guarded(|| run(&cases[i], &mut o)).and_then(|r| r);
                            *busy[w].lock().unwrap() = None;
                            done.fetch_add(1, Ordering::SeqCst);
                            if let Err(m) = r {
                                let mut f = found.lock().unwrap();
                                f.push((i, Violation { family: name.into(), key: key(&cases[i]), msg: m }));
                                if f.len() > 2000 {
                                    next.store(cases.len(), Ordering::SeqCst);
                                }
                            }
                            acc.push(o);
                            if acc.len() > 200 {
                                self.merge(&mut acc);
                            }
                        }
                        self.merge(&mut acc);
                        finished.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog: a case that never comes back is itself a finding
            let (busy, finished, key) = (&busy, &finished, &key);
            s.spawn(move || {
                while finished.load(Ordering::SeqCst) < threads {
                    std::thread::sleep(Duration::from_millis(20));
                    for b in busy {
                        if let Some((t, i)) = *b.lock().unwrap() {
                            if t.elapsed() > Duration::from_secs(150) {
                                let v = Violation { family: name.into(), key: key(&cases[i]), msg: "did not terminate within 150 s".into() };
                                self.inner.lock().unwrap().violations.push(v);
                                self.finish_and_exit();
                            }
                        }
                    }
                }
            });
        });
        let n = done.load(Ordering::SeqCst) as u64;
        let mut f = found.into_inner().unwrap();
        f.sort_by_key(|x| x.0);
        let mut inner = self.inner.lock().unwrap();
        let cap = if n < cases.len() as u64 && self.replay.is_none() && f.len() <= 2000 { cases.len() as u64 } else { n };
        inner.families.push((name.into(), bound.into(), n, cap, t0.elapsed().as_secs_f64()));
        inner.violations.extend(f.into_iter().map(|x| x.1));
    }

    fn merge(&self, acc: &mut Vec<Obs>) {
        let mut i = self.inner.lock().unwrap();
        for o in acc.drain(..) {
            i.evaluations += 1;
            i.states.extend(o.states);
            i.transitions += o.transitions;
            i.traces += o.traces;
            for k in o.outcomes {
                *i.outcomes.entry(k).or_default() += 1;
            }
            if let Some(s) = o.sample {
                if i.samples.len() < 12 {
                    i.samples.push(s);
                }
            }
        }
    }

    pub fn finish_and_exit(&self) -> ! {
        let i = self.inner.lock().unwrap();
        let exhaustive = i.families.iter().all(|f| f.2 == f.3);
        let j = serde_json::json!({
            "property": self.prop, "layer": self.layer, "thorough": self.thorough, "seed": self.seed,
            "evaluations": i.evaluations, "states": i.states.len(), "transitions": i.transitions, "traces": i.traces,
            "outcomes": i.outcomes, "samples": i.samples, "exhaustive": exhaustive, "notes": i.notes,
            "families": i.families.iter().map(|f| serde_json::json!({"name": f.0, "bound": f.1, "explored": f.2, "of": f.3, "wall_s": (f.4*1000.0).round()/1000.0})).collect::<Vec<_>>(),
            "violations": i.violations.iter().take(400).map(|v| serde_json::json!({"family": v.family, "key": v.key, "msg": v.msg})).collect::<Vec<_>>(),
            "violation_count": i.violations.len(),
            "wall_s": self.start.elapsed().as_secs_f64(),
        });
        let t = serde_json::to_string_pretty(&j).unwrap();
        if self.out.is_empty() {
            println!("{t}");
        } else {
            std::fs::write(&self.out, t).expect("write report");
        }
        for v in i.violations.iter().take(5) {
            eprintln!("{}: {} [{}] {}", self.prop, v.family, v.key, v.msg);
        }
        std::process::exit(if i.violations.is_empty() { 0 } else { 1 });
    }
}

/// All words of length 0..=max over 0..k, shortest first.
pub fn words(k: usize, min: usize, max: usize) -> Vec<Vec<usize>> {
    let mut all = vec![];
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for len in 0..=max {
        if len >= min {
            all.extend(cur.iter().cloned());
        }
        if len == max {
            break;
        }
        let mut nxt = Vec::with_capacity(cur.len() * k);
        for w in &cur {
            for a in 0..k {
                let mut v = w.clone();
                v.push(a);
                nxt.push(v);
            }
        }
        cur = nxt;
    }
    all
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()))
}
pub fn close_v(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| close(*x, *y, tol))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
