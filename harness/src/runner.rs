//! Parallel exhaustive enumeration, evidence and verdicts.
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, HashSet},
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// What one explored case contributes.
#[derive(Default)]
pub struct Case {
    /// canonical hash of the state/observation reached
    pub state: u64,
    /// operations executed on the implementation in this case
    pub transitions: u64,
    /// executions of the real code compared with the reference
    pub traces: u64,
}

#[derive(Debug)]
pub struct Bad {
    pub what: String,
}
pub type CaseResult = Result<Case, Bad>;

pub fn bad<T>(what: impl Into<String>) -> Result<T, Bad> {
    Err(Bad { what: what.into() })
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($arg:tt)*) => { if !$c { return Err($crate::runner::Bad { what: format!($($arg)*) }); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::runner::Bad { what: $crate::runner::differ(&format!($($arg)*), &format!("{:?}", a), &format!("{:?}", b)) });
        }
    }};
}

/// Two values that differ; of long ones only the part around the first difference.
pub fn differ(what: &str, a: &str, b: &str) -> String {
    if a.len() < 1500 && b.len() < 1500 {
        return format!("{what}: implementation {a}, reference {b}");
    }
    let n = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count().saturating_sub(200);
    let cut = |s: &str| String::from_utf8_lossy(&s.as_bytes()[n.min(s.len())..(n + 1000).min(s.len())]).into_owned();
    format!("{what}: (from character {n}) implementation ...{}..., reference ...{}...", cut(a), cut(b))
}

pub fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
pub fn hash_dbg<T: std::fmt::Debug>(t: &T) -> u64 {
    hash_of(&format!("{t:?}"))
}

pub struct Violation {
    pub space: String,
    pub index: u64,
    pub describe: String,
    pub what: String,
}

pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub start: Instant,
    pub budget_s: f64,
    pub states: Mutex<HashSet<u64>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub cases: AtomicU64,
    pub spaces: Mutex<Vec<Value>>,
    pub samples: Mutex<Vec<Value>>,
    pub violation: Mutex<Option<Violation>>,
    pub known: Mutex<BTreeMap<String, String>>,
    pub listed: BTreeMap<String, String>,
    pub only: Option<(String, u64)>,
    pub capped: AtomicBool,
}

impl Run {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, q: T, t: T) -> T {
        if self.thorough() {
            t
        } else {
            q
        }
    }
    pub fn failed(&self) -> bool {
        self.violation.lock().unwrap().is_some()
    }
    /// Records a listed deviation.  Unlisted ones are violations.
    pub fn known(&self, id: &str, what: impl Into<String>) -> Result<(), Bad> {
        if self.listed.contains_key(id) {
            self.known.lock().unwrap().entry(id.to_string()).or_insert_with(|| what.into());
            Ok(())
        } else {
            Err(Bad { what: format!("unlisted deviation {id}: {}", what.into()) })
        }
    }
    /// Explores every index of a finite space on all cores.
    pub fn space(
        &self,
        name: &str,
        bound: &str,
        total: u64,
        describe: impl Fn(u64) -> String + Sync,
        f: impl Fn(u64) -> CaseResult + Sync,
    ) {
        if self.failed() {
            return;
        }
        let t0 = Instant::now();
        let before = self.cases.load(Ordering::Relaxed);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let best: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let (lo, hi) = match &self.only {
            Some((s, i)) if s == name => (*i, *i + 1),
            Some(_) => return,
            None => (0, total),
        };
        next.store(lo, Ordering::Relaxed);
        let capped = AtomicBool::new(false);
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        let chunk = ((hi - lo) / (threads as u64 * 64)).clamp(1, 256);
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let mut local: HashSet<u64> = HashSet::new();
                        let (mut tr, mut tc, mut n) = (0u64, 0u64, 0u64);
                        'outer: loop {
                            if stop.load(Ordering::Relaxed) {
                                break;
                            }
                            let a = next.fetch_add(chunk, Ordering::Relaxed);
                            if a >= hi {
                                break;
                            }
                            if self.start.elapsed().as_secs_f64() > self.budget_s {
                                capped.store(true, Ordering::Relaxed);
                                break;
                            }
                            for i in a..(a + chunk).min(hi) {
                                let r = catch_unwind(AssertUnwindSafe(|| f(i)));
                                let r = match r {
                                    Ok(r) => r,
                                    Err(p) => {
                                        let m = p
                                            .downcast_ref::<String>()
                                            .cloned()
                                            .or_else(|| {
                                                p.downcast_ref::<&str>().map(|s| s.to_string())
                                            })
                                            .unwrap_or_default();
                                        Err(Bad { what: format!("panicked: {m}") })
                                    }
                                };
                                match r {
                                    Ok(c) => {
                                        n += 1;
                                        local.insert(c.state);
                                        tr += c.transitions;
                                        tc += c.traces;
                                    }
                                    Err(b) => {
                                        let mut g = best.lock().unwrap();
                                        if g.as_ref().is_none_or(|(j, _)| i < *j) {
                                            *g = Some((i, b.what));
                                        }
                                        stop.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                }
                            }
                        }
                        self.cases.fetch_add(n, Ordering::Relaxed);
                        self.transitions.fetch_add(tr, Ordering::Relaxed);
                        self.traces.fetch_add(tc, Ordering::Relaxed);
                        self.states.lock().unwrap().extend(local);
                    })
                    .unwrap();
            }
        });
        let done = self.cases.load(Ordering::Relaxed) - before;
        let was_capped = capped.load(Ordering::Relaxed);
        if was_capped {
            self.capped.store(true, Ordering::Relaxed);
        }
        self.spaces.lock().unwrap().push(json!({
            "space": name, "bound": bound, "size": total, "explored": done,
            "complete": !was_capped && done == total, "wall_s": t0.elapsed().as_secs_f64(),
        }));
        if total > 0 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 12 {
                for i in [0, total / 2] {
                    s.push(json!({"space": name, "index": i, "case": describe(i)}));
                }
            }
        }
        let b = best.into_inner().unwrap();
        if let Some((i, what)) = b {
            *self.violation.lock().unwrap() = Some(Violation {
                space: name.to_string(),
                index: i,
                describe: describe(i),
                what,
            });
        }
    }
}
