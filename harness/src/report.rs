//! Case runner, panic/crash/hang monitors, three-valued verdicts, evidence.
use crate::rng::{Rng, hash_str, mix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::path::PathBuf;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::time::Instant;

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        // A panic raised inside std on behalf of library code: find the innermost frame of ours.
        let mut owner = loc.clone();
        if !loc.contains("/harness/src/") && !loc.starts_with("src/") && !loc.contains("/repo/src") {
            let bt = std::backtrace::Backtrace::force_capture().to_string();
            for l in bt.lines() {
                let l = l.trim();
                if let Some(p) = l.strip_prefix("at ")
                    && !p.contains("report.rs") && (p.contains("/repo/src") || p.contains("/registry/") || p.contains("harness/src") || p.starts_with("./src/") || p.starts_with("src/")) {
                        owner = p.to_string();
                        break;
                    }
            }
        }
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, if owner == loc { loc } else { format!("{} (raised at {})", owner, loc) })));
    }));
}

/// Run `f`, turning a panic into Err((message, location)).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, (String, String)> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()),
    }
}

fn in_harness(loc: &str) -> bool {
    let l = loc.split(" (raised").next().unwrap_or("");
    l.contains("harness/src/") || l.starts_with("src/") || l.starts_with("./src/")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Violation {
    pub group: String,
    pub case: u64,
    pub msg: String,
    pub detail: String,
}

#[derive(Default)]
pub struct Out {
    /// Signature for the distinct count; None = trivial case.
    pub sig: Option<u64>,
    pub sample: Option<String>,
}

impl Out {
    pub fn sig(s: impl AsRef<str>) -> Out {
        Out { sig: Some(hash_str(s.as_ref())), sample: None }
    }
    pub fn with_sample(mut self, s: impl Into<String>) -> Out {
        self.sample = Some(s.into());
        self
    }
    pub fn trivial() -> Out {
        Out::default()
    }
}

pub type Res = Result<Out, String>;

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    pub scratch: PathBuf,
    pub only: Option<(String, u64)>,
    pub evals: AtomicU64,
    distinct: Mutex<HashSet<u64>>,
    samples: Mutex<BTreeMap<String, Vec<Value>>>,
    counters: Mutex<BTreeMap<String, u64>>,
    sets: Mutex<BTreeMap<String, BTreeSet<String>>>,
    pub violations: Mutex<Vec<Violation>>,
    pub harness_errors: Mutex<Vec<String>>,
    known: BTreeMap<String, String>,
    known_hit: Mutex<BTreeSet<String>>,
    rules: Mutex<Vec<String>>,
    start: Instant,
    slots: Vec<(AtomicU64, AtomicU64, AtomicU64, Mutex<String>)>,
}

const NSLOT: usize = 33;

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, root: PathBuf, scratch: PathBuf, only: Option<(String, u64)>) -> Ctx {
        let mut known = BTreeMap::new();
        if let Ok(s) = std::fs::read_to_string(root.join("known_findings.json"))
            && let Ok(v) = serde_json::from_str::<Value>(&s)
                && let Some(a) = v["findings"].as_array() {
                    for f in a {
                        if f["property"] == prop {
                            known.insert(f["key"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string());
                        }
                    }
                }
        Ctx {
            prop: prop.into(),
            tier,
            seed,
            root,
            scratch,
            only,
            evals: AtomicU64::new(0),
            distinct: Default::default(),
            samples: Default::default(),
            counters: Default::default(),
            sets: Default::default(),
            violations: Default::default(),
            harness_errors: Default::default(),
            known,
            known_hit: Default::default(),
            rules: Default::default(),
            start: Instant::now(),
            slots: (0..NSLOT).map(|_| (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), Mutex::new(String::new()))).collect(),
        }
    }

    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.tier == Tier::Quick { quick } else { thorough }
    }

    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn see(&self, set: &str, v: impl Into<String>) {
        let mut s = self.sets.lock().unwrap();
        let e = s.entry(set.to_string()).or_default();
        if e.len() < 5000 {
            e.insert(v.into());
        }
    }
    pub fn rule(&self, r: &str) {
        self.rules.lock().unwrap().push(r.to_string());
    }

    pub fn fail(&self, group: &str, case: u64, msg: impl Into<String>, detail: impl Into<String>) {
        let mut v = self.violations.lock().unwrap();
        v.push(Violation { group: group.into(), case, msg: msg.into(), detail: detail.into() });
    }

    /// Directed probe for a recorded defect: a failure is reported as KNOWN-FINDING when listed.
    pub fn probe(&self, key: &str, f: impl FnOnce() -> Result<(), String>) {
        if let Some((g, _)) = &self.only
            && g != &format!("probe:{}", key) {
                return;
            }
        self.evals.fetch_add(1, Ordering::Relaxed);
        let r = match guard(f) {
            Ok(r) => r,
            Err((m, l)) if in_harness(&l) => {
                self.harness_errors.lock().unwrap().push(format!("probe {}: harness panic {} at {}", key, m, l));
                return;
            }
            Err((m, l)) => Err(format!("panic: {} at {}", m, l)),
        };
        match r {
            Ok(()) => {
                self.distinct.lock().unwrap().insert(hash_str(&format!("probe:{}", key)));
            }
            Err(m) => {
                if self.known.contains_key(key) {
                    self.known_hit.lock().unwrap().insert(key.to_string());
                } else {
                    self.fail(&format!("probe:{}", key), 0, m, "");
                }
            }
        }
    }

    pub fn is_known(&self, key: &str) -> bool {
        self.known.contains_key(key)
    }

    /// Run `n` generated cases of a group on all cores.
    pub fn cases(&self, group: &str, n: u64, f: impl Fn(&mut Rng, u64) -> Res + Sync) {
        self.cases_t(group, n, 8, f)
    }
    pub fn cases_serial(&self, group: &str, n: u64, f: impl Fn(&mut Rng, u64) -> Res + Sync) {
        self.cases_t(group, n, 1, f)
    }
    fn cases_t(&self, group: &str, n: u64, threads: usize, f: impl Fn(&mut Rng, u64) -> Res + Sync) {
        if let Some((g, c)) = &self.only {
            if g == group {
                self.one(group, *c, &f, 0);
            }
            return;
        }
        if !self.violations.lock().unwrap().is_empty() && self.violations.lock().unwrap().len() >= 20 {
            return;
        }
        let next = AtomicUsize::new(0);
        let t0 = self.start.elapsed().as_secs_f64();
        let base = mix(self.seed ^ hash_str(&format!("{}/{}", self.prop, group)));
        std::thread::scope(|s| {
            for t in 0..threads {
                let next = &next;
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed) as u64;
                            if i >= n || self.violations.lock().unwrap().len() >= 20 {
                                break;
                            }
                            self.one(group, mix(base ^ i.wrapping_mul(0x9E37_79B9)), f, t);
                        }
                        self.slots[t].0.store(0, Ordering::SeqCst);
                    })
                    .unwrap();
            }
        });
        if std::env::var("VH_TIMES").is_ok() {
            println!("  {:20} {:8} cases {:8.1} s", group, n, self.start.elapsed().as_secs_f64() - t0);
        }
    }

    fn one(&self, group: &str, case: u64, f: &(impl Fn(&mut Rng, u64) -> Res + Sync), slot: usize) {
        *self.slots[slot].3.lock().unwrap() = group.to_string();
        self.slots[slot].1.store(case, Ordering::SeqCst);
        self.slots[slot].2.store(thread_cpu_ms(), Ordering::SeqCst);
        self.slots[slot].0.store(unsafe { libc::pthread_self() } as u64, Ordering::SeqCst);
        crash_note(slot, group, case);
        let mut rng = Rng::new(case);
        let r = guard(|| f(&mut rng, case));
        self.slots[slot].0.store(0, Ordering::SeqCst);
        self.evals.fetch_add(1, Ordering::Relaxed);
        match r {
            Ok(Ok(o)) => {
                if let Some(s) = o.sig {
                    let fresh = self.distinct.lock().unwrap().insert(s);
                    if fresh && let Some(sm) = o.sample {
                        let mut m = self.samples.lock().unwrap();
                        let e = m.entry(group.to_string()).or_default();
                        if e.len() < 3 {
                            let t: String = sm.chars().take(1500).collect();
                            e.push(json!({"group": group, "case": format!("{:#x}", case), "input": t}));
                        }
                    }
                }
            }
            Ok(Err(m)) => {
                if let Some(x) = m.strip_prefix("HARNESS:") {
                    self.harness_errors.lock().unwrap().push(format!("{} case {:#x}: {}", group, case, x));
                } else {
                    self.fail(group, case, m, "");
                }
            }
            Err((m, l)) => {
                if in_harness(&l) {
                    // the oracle expected something of the result that is not there
                    self.fail(group, case, format!("the result is not what the monitor can read: {} at {}", m, l), "");
                } else {
                    self.fail(group, case, format!("panic in library code: {} at {}", m, l), "");
                }
            }
        }
    }

    /// CPU-time watchdog: returns a description of a case that exceeded the bound.
    pub fn overdue(&self, limit_ms: u64) -> Option<(String, u64)> {
        for s in &self.slots {
            let t = s.0.load(Ordering::SeqCst);
            if t == 0 {
                continue;
            }
            let case = s.1.load(Ordering::SeqCst);
            let started = s.2.load(Ordering::SeqCst);
            let mut clk: libc::clockid_t = 0;
            if unsafe { libc::pthread_getcpuclockid(t as libc::pthread_t, &mut clk) } != 0 {
                continue;
            }
            let now = clock_ms(clk);
            if s.0.load(Ordering::SeqCst) == t && s.1.load(Ordering::SeqCst) == case && now > started + limit_ms {
                return Some((s.3.lock().unwrap().clone(), case));
            }
        }
        None
    }

    pub fn write_evidence(&self, level: &str) {
        let ev = self.evals.load(Ordering::Relaxed);
        let d = self.distinct.lock().unwrap().len();
        let mut samples: Vec<Value> = self.samples.lock().unwrap().values().flatten().take(12).cloned().collect();
        if samples.is_empty() {
            samples.push(json!({"note": "no generated case was recorded in this run"}));
        }
        let sets: BTreeMap<String, usize> = self.sets.lock().unwrap().iter().map(|(k, v)| (k.clone(), v.len())).collect();
        let e = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed as i64,
            "level": level,
            "coverage": {
                "evaluations": ev,
                "distinct_nontrivial": d,
                "rule": self.rules.lock().unwrap().join(" "),
                "samples": samples,
                "observed": *self.counters.lock().unwrap(),
                "distinct_states": sets,
            },
            "assumptions": [
                "Held on the executions described here; nothing is claimed about inputs the workload did not drive.",
                "Verdicts rest on the harness's own XML, ZIP, OPC and format readers."
            ],
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.lock().unwrap().len(),
        });
        let dir = self.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let _ = std::fs::write(dir.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&e).unwrap());
    }

    pub fn report(&self) -> i32 {
        for k in self.known_hit.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} — {}", self.prop, k, self.known[k]);
        }
        let v = self.violations.lock().unwrap();
        if !v.is_empty() {
            let dir = self.root.join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let mut seen = HashSet::new();
            for x in v.iter() {
                let short: String = x.msg.chars().take(90).collect();
                if !seen.insert(format!("{}{}", x.group, short)) {
                    continue;
                }
                let path = dir.join(format!("{}-{}-{:x}.txt", self.prop, x.group.replace([':', '/', ' '], "_"), x.case));
                let _ = std::fs::write(
                    &path,
                    format!("property {}\ngroup {}\ncase {:#x}\nreplay: bash run.sh {} replay {} {:#x}\n\n{}\n{}\n", self.prop, x.group, x.case, self.prop, x.group, x.case, x.msg, x.detail),
                );
                println!("VIOLATION property={} replay={}", self.prop, path.display());
                let m: String = x.msg.chars().take(1200).collect();
                println!("  {} case {:#x}: {}", x.group, x.case, m);
            }
            return 1;
        }
        let h = self.harness_errors.lock().unwrap();
        if !h.is_empty() {
            for e in h.iter().take(5) {
                eprintln!("HARNESS ERROR {}", e);
            }
            return 2;
        }
        let ev = self.evals.load(Ordering::Relaxed);
        if ev == 0 && self.only.is_none() {
            eprintln!("INCONCLUSIVE: nothing was observed");
            return 2;
        }
        println!(
            "OK property={} held on {} executions ({} distinct non-trivial) in {:.1}s",
            self.prop,
            ev,
            self.distinct.lock().unwrap().len(),
            self.start.elapsed().as_secs_f64()
        );
        0
    }
}

fn clock_ms(c: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(c, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
pub fn thread_cpu_ms() -> u64 {
    clock_ms(libc::CLOCK_THREAD_CPUTIME_ID)
}

// ---- crash notes: which case was running when the process died ----
use std::os::unix::fs::FileExt;
use std::sync::OnceLock;
static NOTES: OnceLock<std::fs::File> = OnceLock::new();
const NOTE: usize = 128;

pub fn open_notes(path: &std::path::Path) {
    if let Ok(f) = std::fs::OpenOptions::new().create(true).truncate(false).write(true).open(path) {
        let _ = NOTES.set(f);
    }
}
fn crash_note(slot: usize, group: &str, case: u64) {
    if let Some(f) = NOTES.get() {
        let mut b = [b' '; NOTE];
        let s = format!("{:#x} {}", case, group);
        let n = s.len().min(NOTE - 1);
        b[..n].copy_from_slice(&s.as_bytes()[..n]);
        b[NOTE - 1] = b'\n';
        let _ = f.write_at(&b, (slot * NOTE) as u64);
    }
}
pub fn read_notes(path: &std::path::Path) -> Vec<(String, u64)> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read(path) {
        for l in String::from_utf8_lossy(&s).lines() {
            if let Some((c, g)) = l.trim().trim_matches('\0').split_once(' ')
                && let Ok(c) = u64::from_str_radix(c.trim_start_matches("0x"), 16) {
                    v.push((g.trim().to_string(), c));
                }
        }
    }
    v
}

/// With VERIF_DUMP set to a folder, keeps an intermediate file for debugging.
pub fn dump(name: &str, b: &[u8]) {
    if let Ok(d) = std::env::var("VERIF_DUMP") {
        let _ = std::fs::write(std::path::Path::new(&d).join(name), b);
    }
}
