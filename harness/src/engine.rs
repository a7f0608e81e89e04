//! Runs generated cases in parallel, shrinks failures, writes evidence.

use crate::tape::{Tape, hash_str, mix};
use serde_json::{Value, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

/// Per case bookkeeping, filled by the check.
#[derive(Default)]
pub struct Case {
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    pub hash: u64,
    pub sample: Option<Value>,
    pub excluded: Vec<&'static str>,
    pub evals: u64,
    /// when set the check wants details for a replay
    pub verbose: bool,
}
impl Case {
    pub fn class(&mut self, c: &'static str) {
        self.classes.push(c);
    }
    pub fn class_if(&mut self, b: bool, c: &'static str) {
        if b {
            self.classes.push(c);
        }
    }
    pub fn exclude(&mut self, c: &'static str) {
        self.excluded.push(c);
    }
}

#[derive(Default)]
struct SubStats {
    cases: u64,
    evals: u64,
    nontrivial: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    excluded: BTreeMap<&'static str, u64>,
    samples: Vec<(u64, Value)>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    pub verif: String,
    pub violations: Vec<String>,
    pub known: Vec<(String, String)>,
    pub known_seen: Vec<String>,
    subs: Vec<(String, SubStats, String)>,
    pub assumptions: Vec<String>,
    pub replay: Option<(String, Vec<u64>)>,
    pub scale: f64,
    pub only: Option<String>,
    pub trace: bool,
}

thread_local! {
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
    pub static SLOT: RefCell<Option<usize>> = const { RefCell::new(None) };
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{info}");
        let m = m.replace('\n', " | ");
        PANIC_MSG.with(|p| *p.borrow_mut() = m.clone());
        if let Ok(mut g) = LAST_PANIC.lock() {
            *g = m;
        }
    }));
}

/// Run f, turning a panic into Err("panic: ...")
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC_MSG.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let m = PANIC_MSG.with(|p| p.borrow().clone());
            let m = if m.is_empty() { LAST_PANIC.lock().map(|g| g.clone()).unwrap_or_default() } else { m };
            Err(format!("panic: {m}"))
        }
    }
}

fn run_one(f: &(dyn Fn(&mut Tape, &mut Case) -> Res + Sync), tape: &mut Tape, case: &mut Case) -> Res {
    match guard(|| f(tape, case)) {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

/// a stable class of a failure message: keeps shrinking on the same kind of failure
fn kind_of(msg: &str) -> String {
    let mut s: String = msg.chars().take(60).collect();
    if let Some(i) = s.find(|c: char| c.is_ascii_digit()) {
        s.truncate(i.max(12));
    }
    s
}

const HANG_SECS: u64 = 240;
static SLOTS: [AtomicU64; 64] = [const { AtomicU64::new(0) }; 64];

pub fn start_watchdog() {
    let t0 = Instant::now();
    EPOCH.set(t0).ok();
    std::thread::spawn(move || {
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let now = t0.elapsed().as_secs();
            for s in SLOTS.iter() {
                let v = s.load(Ordering::Relaxed);
                if v != 0 && now > v + HANG_SECS {
                    eprintln!("ERROR: a generated case ran for more than {HANG_SECS} s; inconclusive");
                    std::process::exit(3);
                }
            }
        }
    });
}
static EPOCH: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
fn now_secs() -> u64 {
    EPOCH.get().map(|e| e.elapsed().as_secs()).unwrap_or(0) + 1
}

impl Ctx {
    pub fn new(prop: &str, tier: &str, seed: u64, verif: &str) -> Ctx {
        Ctx {
            prop: prop.into(),
            tier: tier.into(),
            seed,
            start: Instant::now(),
            verif: verif.into(),
            violations: vec![],
            known: vec![],
            known_seen: vec![],
            subs: vec![],
            assumptions: vec![],
            replay: None,
            scale: 1.0,
            only: None,
            trace: false,
        }
    }

    /// Number of cases for this tier.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let b = if self.tier == "thorough" { thorough } else { quick };
        ((b as f64 * self.scale) as u64).max(1)
    }

    /// Run `count` generated cases of one sub-check.
    pub fn sub(&mut self, name: &str, count: u64, rule: &str, f: impl Fn(&mut Tape, &mut Case) -> Res + Sync) {
        self.sub_threads(name, count, rule, 8, f)
    }

    pub fn sub_threads(&mut self, name: &str, count: u64, rule: &str, threads: usize, f: impl Fn(&mut Tape, &mut Case) -> Res + Sync) {
        let f: &(dyn Fn(&mut Tape, &mut Case) -> Res + Sync) = &f;
        if let Some((rname, data)) = &self.replay {
            if rname != name {
                return;
            }
            let mut tape = Tape::replay(data.clone());
            let mut case = Case { verbose: true, ..Default::default() };
            let r = run_one(f, &mut tape, &mut case);
            println!("replay {name}: classes {:?}", case.classes);
            if let Some(s) = &case.sample {
                println!("{}", serde_json::to_string_pretty(s).unwrap());
            }
            match r {
                Ok(()) => println!("replay: case passes"),
                Err(m) => {
                    println!("replay: FAILS: {m}");
                    self.violations.push(m);
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if o != name {
                return;
            }
        }
        let key = mix(self.seed ^ hash_str(&self.prop)) ^ hash_str(name);
        let next = AtomicU64::new(0);
        let first_fail = AtomicU64::new(u64::MAX);
        let stats = Mutex::new(SubStats::default());
        let fails: Mutex<Vec<(u64, Vec<u64>, String)>> = Mutex::new(vec![]);
        let slot_no = AtomicUsize::new(0);
        let t0 = Instant::now();
        std::thread::scope(|sc| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, || {
                        let slot = slot_no.fetch_add(1, Ordering::Relaxed) % 64;
                        let mut local = SubStats::default();
                        loop {
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= count || i > first_fail.load(Ordering::Relaxed) {
                                break;
                            }
                            let mut tape = Tape::fresh(mix(key ^ mix(i.wrapping_mul(0x1234567))));
                            let mut case = Case::default();
                            SLOTS[slot].store(now_secs(), Ordering::Relaxed);
                            let r = run_one(f, &mut tape, &mut case);
                            SLOTS[slot].store(0, Ordering::Relaxed);
                            local.cases += 1;
                            local.evals += case.evals.max(1);
                            for c in case.classes {
                                *local.classes.entry(c).or_default() += 1;
                            }
                            for c in case.excluded {
                                *local.excluded.entry(c).or_default() += 1;
                            }
                            if case.nontrivial {
                                local.nontrivial.insert(if case.hash == 0 { crate::tape::hash_bytes(&tape.data.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<_>>()) } else { case.hash });
                            }
                            if let Some(s) = case.sample {
                                if i < 4 || local.samples.is_empty() {
                                    local.samples.push((i, s));
                                }
                            }
                            if let Err(m) = r {
                                first_fail.fetch_min(i, Ordering::Relaxed);
                                fails.lock().unwrap().push((i, tape.data, m));
                            }
                        }
                        let mut g = stats.lock().unwrap();
                        g.cases += local.cases;
                        g.evals += local.evals;
                        g.nontrivial.extend(local.nontrivial);
                        for (k, v) in local.classes {
                            *g.classes.entry(k).or_default() += v;
                        }
                        for (k, v) in local.excluded {
                            *g.excluded.entry(k).or_default() += v;
                        }
                        g.samples.extend(local.samples);
                    })
                    .unwrap();
            }
        });
        let mut stats = stats.into_inner().unwrap();
        stats.samples.sort_by_key(|(i, _)| *i);
        stats.samples.truncate(2);
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|x| x.0);
        if self.trace {
            eprintln!("[{}] {name}: {} cases, {} nontrivial, {:.1}s {:?} excl {:?}", self.prop, stats.cases, stats.nontrivial.len(), t0.elapsed().as_secs_f64(), stats.classes, stats.excluded);
        }
        if let Some((i, data, msg)) = fails.into_iter().next() {
            let (data, msg) = self.shrink(f, data, msg);
            self.report(name, i, data, msg);
        }
        self.subs.push((name.to_string(), stats, rule.to_string()));
    }

    fn shrink(&self, f: &(dyn Fn(&mut Tape, &mut Case) -> Res + Sync), data: Vec<u64>, msg: String) -> (Vec<u64>, String) {
        let kind = kind_of(&msg);
        let deadline = Instant::now() + Duration::from_secs(60);
        let result = Mutex::new((data.clone(), msg.clone()));
        std::thread::scope(|sc| {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(sc, || {
                    let mut best = data;
                    let mut bmsg = msg;
                    let mut attempts = 0u32;
                    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bmsg: &mut String| -> bool {
                        attempts += 1;
                        if attempts > 6000 || Instant::now() > deadline {
                            return false;
                        }
                        let mut t = Tape::replay(cand);
                        let mut c = Case::default();
                        SLOTS[63].store(now_secs(), Ordering::Relaxed);
                        let r = run_one(f, &mut t, &mut c);
                        SLOTS[63].store(0, Ordering::Relaxed);
                        match r {
                            Err(m) if kind_of(&m) == kind => {
                                let used = t.used();
                                let mut d = t.data;
                                d.truncate(used);
                                if d.len() < best.len() || (d.len() == best.len() && d < *best) {
                                    *best = d;
                                    *bmsg = m;
                                    true
                                } else {
                                    false
                                }
                            }
                            _ => false,
                        }
                    };
                    loop {
                        let before = best.clone();
                        // delete spans
                        let mut size = (best.len() / 2).max(1);
                        loop {
                            let mut i = best.len();
                            while i > 0 {
                                let lo = i.saturating_sub(size);
                                if i <= best.len() {
                                    let mut c = best.clone();
                                    c.drain(lo..i);
                                    attempt(c, &mut best, &mut bmsg);
                                }
                                i = lo;
                            }
                            if size == 1 || Instant::now() > deadline {
                                break;
                            }
                            size /= 2;
                        }
                        // zero spans
                        let mut size = (best.len() / 2).max(1);
                        loop {
                            let mut i = 0;
                            while i < best.len() {
                                let hi = (i + size).min(best.len());
                                if best[i..hi].iter().any(|x| *x != 0) {
                                    let mut c = best.clone();
                                    c[i..hi].iter_mut().for_each(|x| *x = 0);
                                    attempt(c, &mut best, &mut bmsg);
                                }
                                i = hi;
                            }
                            if size == 1 || Instant::now() > deadline {
                                break;
                            }
                            size /= 2;
                        }
                        // lower single values
                        for i in 0..best.len() {
                            if i >= best.len() || Instant::now() > deadline {
                                break;
                            }
                            let v = best[i];
                            if v == 0 {
                                continue;
                            }
                            for nv in [1, v / 2, v.saturating_sub(1)] {
                                if i < best.len() && nv < best[i] {
                                    let mut c = best.clone();
                                    c[i] = nv;
                                    attempt(c, &mut best, &mut bmsg);
                                }
                            }
                        }
                        if best == before || Instant::now() > deadline {
                            break;
                        }
                    }
                    *result.lock().unwrap() = (best, bmsg);
                })
                .unwrap();
        });
        result.into_inner().unwrap()
    }

    fn report(&mut self, sub: &str, idx: u64, data: Vec<u64>, msg: String) {
        let dir = format!("{}/evidence/replay", self.verif);
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{dir}/{}-{sub}.json", self.prop);
        let v = json!({"property": self.prop, "sub": sub, "seed": self.seed, "case": idx, "message": msg, "tape": data});
        std::fs::write(&path, serde_json::to_vec(&v).unwrap()).ok();
        println!("FAILURE property={} sub={sub} case={idx}: {}", self.prop, msg.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", self.prop, path);
        self.violations.push(msg);
    }

    /// A specific, committed failing input of a known finding. `f` returns Ok when
    /// the defect no longer shows.
    pub fn known_case(&mut self, id: &str, f: impl FnOnce() -> Res) {
        if self.replay.is_some() || self.only.is_some() {
            return;
        }
        let listed = self.known.iter().find(|(k, _)| k == id).cloned();
        let r = match guard(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        match (r, listed) {
            (Err(_), Some((_, what))) => {
                println!("KNOWN-FINDING: property={} {}", self.prop, what);
                self.known_seen.push(id.to_string());
            }
            (Err(m), None) => self.report(&format!("regression-{id}"), 0, vec![], m),
            (Ok(()), Some(_)) => {
                println!("note: listed finding {id} of {} does not show any more", self.prop);
            }
            (Ok(()), None) => {}
        }
    }

    /// A fixed regression input (of a repaired defect): plain check.
    pub fn regression(&mut self, id: &str, f: impl FnOnce() -> Res) {
        if self.replay.is_some() || self.only.is_some() {
            return;
        }
        let r = match guard(f) {
            Ok(r) => r,
            Err(p) => Err(p),
        };
        if let Err(m) = r {
            self.report(&format!("regression-{id}"), 0, vec![], m);
        }
    }

    pub fn finish(&mut self) -> i32 {
        if self.replay.is_some() {
            return if self.violations.is_empty() { 0 } else { 1 };
        }
        let mut evals = 0;
        let mut nontrivial = 0;
        let mut samples = vec![];
        let mut subs = serde_json::Map::new();
        let mut rules = vec![];
        for (name, s, rule) in &self.subs {
            evals += s.evals;
            nontrivial += s.nontrivial.len() as u64;
            for (_, v) in &s.samples {
                let txt = serde_json::to_string(v).unwrap();
                let v = if txt.len() > 3000 { Value::String(txt.chars().take(3000).collect::<String>() + "…") } else { v.clone() };
                samples.push(json!({"sub": name, "case": v}));
            }
            rules.push(format!("{name}: {rule}"));
            subs.insert(
                name.clone(),
                json!({"cases": s.cases, "evaluations": s.evals, "distinct_nontrivial": s.nontrivial.len(), "classes": s.classes, "excluded_by_construction": s.excluded}),
            );
        }
        let ev = json!({
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontrivial,
                "rule": rules.join("; "),
                "samples": samples,
                "subchecks": subs,
                "known_findings_seen": self.known_seen,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", self.verif);
        std::fs::create_dir_all(&dir).ok();
        if std::fs::write(format!("{dir}/{}.json", self.prop), serde_json::to_vec_pretty(&ev).unwrap()).is_err() {
            eprintln!("ERROR: cannot write evidence");
            return 3;
        }
        println!("{} {}: {} evaluations, {} distinct non-trivial, {} violations, {:.1}s", self.prop, self.tier, evals, nontrivial, self.violations.len(), self.start.elapsed().as_secs_f64());
        if self.violations.is_empty() { 0 } else { 1 }
    }
}
