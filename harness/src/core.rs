//! Case runner: workers, panic classification, watchdogs, allocation accounting.
use crate::rng::{hash_bytes, mix, Rng};
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocator

/// Counts the bytes and blocks each thread has allocated minus freed.
pub struct Counting;

thread_local! {
    static NET: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub const THREAD_CAP: i64 = 3 << 30;
pub static OVER_SLOT: AtomicUsize = AtomicUsize::new(usize::MAX);

/// Blocks of exactly this size are counted: names of this length tell nodes which are still alive from
/// other memory which is kept on purpose.
pub const MARK: usize = 4103;
thread_local! {
    static MARKS: Cell<i64> = const { Cell::new(0) };
}
fn mark(size: usize, d: i64) {
    if size == MARK {
        let _ = MARKS.try_with(|m| m.set(m.get() + d));
    }
}
/// blocks of MARK bytes allocated minus freed by this thread
pub fn net_marks() -> i64 {
    MARKS.with(|m| m.get())
}

fn account(bytes: i64, blocks: i64) {
    let _ = NET.try_with(|n| {
        let (a, b) = n.get();
        n.set((a + bytes, b + blocks));
        if a + bytes > THREAD_CAP && bytes > 0 {
            let _ = SLOT.try_with(|s| {
                if s.get() != usize::MAX {
                    OVER_SLOT.store(s.get(), SeqCst);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            account(l.size() as i64, 1);
            mark(l.size(), 1);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        account(-(l.size() as i64), -1);
        mark(l.size(), -1);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            account(n as i64 - l.size() as i64, 0);
            mark(l.size(), -1);
            mark(n, 1);
        }
        q
    }
}

/// (bytes, blocks) allocated minus freed by this thread
pub fn net_alloc() -> (i64, i64) {
    NET.with(|n| n.get())
}

// ---------------------------------------------------------------- logging

thread_local! {
    static LOGGING: Cell<bool> = const { Cell::new(false) };
}
/// Formats what is logged in the cases which have logging switched on, and drops it.
struct Formats;
struct Nowhere;
impl std::fmt::Write for Nowhere {
    fn write_str(&mut self, _: &str) -> std::fmt::Result {
        Ok(())
    }
}
impl log::Log for Formats {
    fn enabled(&self, _: &log::Metadata) -> bool {
        LOGGING.try_with(|l| l.get()).unwrap_or(false)
    }
    fn log(&self, r: &log::Record) {
        if self.enabled(r.metadata()) {
            let _ = std::fmt::write(&mut Nowhere, *r.args());
        }
    }
    fn flush(&self) {}
}
pub fn install_logger() {
    static L: Formats = Formats;
    if log::set_logger(&L).is_ok() {
        log::set_max_level(log::LevelFilter::Trace);
    }
}
pub fn set_logging(on: bool) {
    LOGGING.with(|l| l.set(on));
}
pub fn logging() -> bool {
    LOGGING.with(|l| l.get())
}

// ---------------------------------------------------------------- cases

pub struct Violation(pub String);
pub struct HarnessError(pub String);

/// The property is violated: ends the case.
pub fn violation(msg: String) -> ! {
    std::panic::panic_any(Violation(msg))
}
pub fn harness_error(msg: String) -> ! {
    std::panic::panic_any(HarnessError(msg))
}

/// What one case did.
pub struct Cx {
    pub seed: u64,
    pub rng: Rng,
    pub tracing: bool,
    pub thorough: bool,
    trace: Arc<Mutex<Vec<String>>>,
    cnt: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, (u64, String)>,
    fp: u64,
    nontrivial: bool,
    pub sample: Option<String>,
    pub slot: Option<Arc<Slot>>,
}

impl Cx {
    fn new(seed: u64, tracing: bool, thorough: bool, trace: Arc<Mutex<Vec<String>>>) -> Self {
        Cx {
            seed,
            rng: Rng::new(seed),
            tracing,
            thorough,
            trace,
            cnt: BTreeMap::new(),
            known: BTreeMap::new(),
            fp: 0,
            nontrivial: false,
            sample: None,
            slot: None,
        }
    }
    /// a line of the trace, which is only kept for replays
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            let mut t = self.trace.lock().unwrap();
            if t.len() < 4000 {
                t.push(s);
            }
        }
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.cnt.entry(name).or_insert(0) += n;
    }
    pub fn hit(&mut self, name: &'static str) {
        self.count(name, 1);
    }
    /// mix something that characterises this case into its fingerprint
    pub fn fp(&mut self, x: u64) {
        self.fp = mix(self.fp ^ mix(x));
    }
    pub fn fps(&mut self, s: &str) {
        self.fp(hash_bytes(s.as_bytes()));
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn known(&mut self, sig: &str, msg: String) {
        let e = self.known.entry(sig.to_string()).or_insert((0, msg));
        e.0 += 1;
    }
}

/// State of a worker, watched by the main thread.
pub struct Slot {
    case: AtomicU64, // 0: idle
    seed: AtomicU64,
    tids: Mutex<Vec<i32>>,
}

impl Slot {
    /// Threads which work for the case register here.
    pub fn enter(&self) -> i32 {
        let t = tid();
        self.tids.lock().unwrap().push(t);
        t
    }
    pub fn leave(&self, t: i32) {
        self.tids.lock().unwrap().retain(|x| *x != t);
    }
}

fn tid() -> i32 {
    std::fs::read_link("/proc/thread-self")
        .ok()
        .and_then(|p| p.file_name()?.to_str()?.parse().ok())
        .unwrap_or(0)
}

/// (state, cpu ticks, context switches)
fn thread_stat(t: i32) -> Option<(char, u64, u64)> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{}/stat", t)).ok()?;
    let r = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = r.split(' ').collect();
    let cpu = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    let st = std::fs::read_to_string(format!("/proc/self/task/{}/status", t)).ok()?;
    let mut sw = 0;
    for l in st.lines() {
        if l.contains("ctxt_switches") {
            sw += l.split_whitespace().last()?.parse::<u64>().ok()?;
        }
    }
    Some((f[0].chars().next()?, cpu, sw))
}

#[derive(Clone, Debug)]
pub enum Outcome {
    Ok,
    Violation(String),
    Harness(String),
}

thread_local! {
    static PANIC_AT: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        let _ = PANIC_AT.try_with(|p| *p.borrow_mut() = (loc, msg));
    }));
}

/// Location of the last panic of this thread
pub fn last_panic() -> (String, String) {
    PANIC_AT.with(|p| p.borrow().clone())
}

/// Is a panic at this place one of the harness itself (and not of the code under test)?
fn of_harness(loc: &str) -> bool {
    loc.starts_with("src/")
}

pub fn classify(e: Box<dyn Any + Send>) -> Outcome {
    match e.downcast::<Violation>() {
        Ok(v) => Outcome::Violation(v.0),
        Err(e) => match e.downcast::<HarnessError>() {
            Ok(h) => Outcome::Harness(h.0),
            Err(_) => {
                let (loc, msg) = last_panic();
                if of_harness(&loc) {
                    Outcome::Harness(format!("panic in the harness at {}: {}", loc, msg))
                } else {
                    Outcome::Violation(format!("panicked at {}: {}", loc, msg))
                }
            }
        },
    }
}

/// Run `f`, a panic of the code under test is returned as its description.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => match classify(e) {
            Outcome::Violation(m) => Err(m),
            Outcome::Harness(m) => harness_error(m),
            Outcome::Ok => unreachable!(),
        },
    }
}

// ---------------------------------------------------------------- runner

pub struct Plan {
    pub id: &'static str,
    pub run: fn(&mut Cx),
    /// cases of the quick and thorough tier
    pub cases: (u64, u64),
    pub workers: usize,
    /// how often a case is repeated by a replay, more than once if it depends on the scheduling
    pub replays: u64,
    /// CPU seconds one case may use before it counts as not terminating
    pub case_cpu: u64,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub verif: String,
    pub evidence: Option<String>,
    pub cases: Option<u64>,
    pub only: Option<u64>,
    pub time_cap: u64,
}

#[derive(Default)]
struct Total {
    evaluations: u64,
    fps: HashSet<u64>,
    cnt: BTreeMap<&'static str, u64>,
    known: BTreeMap<String, (u64, String, u64)>,
    samples: Vec<serde_json::Value>,
    bad: Option<(u64, Outcome)>,
}

pub fn run_one(
    plan: &Plan,
    seed: u64,
    tracing: bool,
    thorough: bool,
    slot: Option<Arc<Slot>>,
) -> (Outcome, Cx, Vec<String>) {
    let trace = Arc::new(Mutex::new(Vec::new()));
    let mut cx = Cx::new(seed, tracing, thorough, trace.clone());
    cx.slot = slot;
    // what the code under test logs is formatted in some of the cases
    set_logging(mix(seed ^ 0x106) % 8 == 0);
    let r = catch_unwind(AssertUnwindSafe(|| (plan.run)(&mut cx)));
    let o = match r {
        Ok(()) => Outcome::Ok,
        Err(e) => classify(e),
    };
    let t = match trace.lock() {
        Ok(t) => t.clone(),
        Err(e) => e.into_inner().clone(),
    };
    (o, cx, t)
}

pub fn case_seed(base: u64, id: &str, i: u64) -> u64 {
    mix(mix(base ^ hash_bytes(id.as_bytes())).wrapping_add(i)) | 1
}

/// Signatures listed in the known findings file for this property
pub fn known_sigs(verif: &str, id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{}/known_findings.txt", verif)).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: property=")?;
            let mut w = l.split_whitespace();
            if w.next()? != id {
                return None;
            }
            Some(w.next()?.strip_prefix("sig=")?.to_string())
        })
        .collect()
}

fn write_replay(o: &Opts, plan: &Plan, seed: u64, msg: &str, trace: &[String]) -> String {
    let dir = format!("{}/replays", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{:016x}.txt", dir, plan.id, seed);
    let body = format!(
        "property={}\nseed={}\ntier={}\nmessage={}\n# run: kmon replay {}\n{}\n",
        plan.id,
        seed,
        o.tier,
        msg.replace('\n', " | "),
        p,
        trace.join("\n")
    );
    let _ = std::fs::write(&p, body);
    p
}

fn evidence(o: &Opts, plan: &Plan, t: &Total, wall: f64, violations: u64) {
    if let Some(p) = &o.evidence {
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), t.evaluations.into());
        cov.insert("distinct_nontrivial".into(), (t.fps.len() as u64).into());
        cov.insert("rule".into(), plan.rule.into());
        let mut samples = t.samples.clone();
        if samples.is_empty() {
            samples.push(serde_json::json!({"note": "no case finished"}));
        }
        cov.insert("samples".into(), samples.into());
        let c: serde_json::Map<String, serde_json::Value> = t
            .cnt
            .iter()
            .map(|(k, v)| ((*k).to_string(), (*v).into()))
            .collect();
        cov.insert("observed".into(), c.into());
        let kf: serde_json::Map<String, serde_json::Value> = t
            .known
            .iter()
            .map(|(k, v)| (k.clone(), v.0.into()))
            .collect();
        cov.insert("known_findings_seen".into(), kf.into());
        let e = serde_json::json!({
            "property": plan.id,
            "tier": o.tier,
            "seed": o.seed,
            "level": "exploration",
            "coverage": cov,
            "assumptions": plan.assumptions,
            "wall_s": wall,
            "violations": violations,
        });
        if let Some(d) = std::path::Path::new(p).parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(p, serde_json::to_string_pretty(&e).unwrap() + "\n").unwrap();
    }
}

pub fn run_plan(plan: &'static Plan, o: &Opts) -> i32 {
    let start = Instant::now();
    let thorough = o.tier == "thorough";
    let n = o
        .cases
        .unwrap_or(if thorough { plan.cases.1 } else { plan.cases.0 });
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let total = Arc::new(Mutex::new(Total::default()));
    let workers = if o.only.is_some() { 1 } else { plan.workers };
    let slots: Vec<Arc<Slot>> = (0..workers)
        .map(|_| {
            Arc::new(Slot {
                case: AtomicU64::new(0),
                seed: AtomicU64::new(0),
                tids: Mutex::new(vec![]),
            })
        })
        .collect();
    let inflight = format!("{}/replays/inflight-{}.txt", o.verif, plan.id);
    let _ = std::fs::create_dir_all(format!("{}/replays", o.verif));
    let _ = std::fs::remove_file(&inflight);
    // seeds of the running cases, so that a crash of the process can be attributed
    let inflight_file = Arc::new(
        std::fs::OpenOptions::new()
            .create(true)
            .write(true)
            .truncate(true)
            .open(&inflight)
            .unwrap(),
    );
    let done = Arc::new(AtomicI64::new(0));
    let mut handles = vec![];
    for (w, slot) in slots.iter().enumerate() {
        let (next, stop, total, slot, done) = (
            next.clone(),
            stop.clone(),
            total.clone(),
            slot.clone(),
            done.clone(),
        );
        let inflight_file = inflight_file.clone();
        let (base, only, only_trace) = (o.seed, o.only, o.only.is_some());
        let h = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || {
                use std::os::unix::fs::FileExt;
                SLOT.with(|s| s.set(w));
                slot.enter();
                loop {
                    let i = next.fetch_add(1, SeqCst);
                    if stop.load(SeqCst) || i >= if only.is_some() { plan.replays } else { n } {
                        break;
                    }
                    let seed = only.unwrap_or_else(|| case_seed(base, plan.id, i));
                    let _ = inflight_file.write_at(format!("{:020}\n", seed).as_bytes(), w as u64 * 21);
                    slot.seed.store(seed, SeqCst);
                    slot.case.store(i + 1, SeqCst);
                    let (out, cx, trace) = run_one(plan, seed, only_trace, thorough, Some(slot.clone()));
                    slot.case.store(0, SeqCst);
                    if only_trace && (plan.replays == 1 || !matches!(out, Outcome::Ok)) {
                        for l in &trace {
                            println!("{}", l);
                        }
                    }
                    let mut t = total.lock().unwrap();
                    t.evaluations += 1;
                    for (k, v) in &cx.cnt {
                        *t.cnt.entry(*k).or_insert(0) += v;
                    }
                    for (k, v) in &cx.known {
                        let e = t
                            .known
                            .entry(k.clone())
                            .or_insert((0, v.1.clone(), seed));
                        e.0 += v.0;
                    }
                    // (bounds the memory; later cases are then not counted as distinct)
                    if cx.nontrivial && t.fps.len() < 20_000_000 {
                        t.fps.insert(cx.fp);
                    }
                    if let Some(s) = &cx.sample {
                        if t.samples.len() < 4 {
                            t.samples
                                .push(serde_json::json!({"case_seed": seed, "case": s}));
                        }
                    }
                    if !matches!(out, Outcome::Ok) && t.bad.is_none() {
                        t.bad = Some((seed, out));
                        stop.store(true, SeqCst);
                    }
                }
                done.fetch_add(1, SeqCst);
            })
            .unwrap();
        handles.push(h);
    }
    // ---- monitor
    let mut base: Vec<(u64, u64)> = vec![(0, 0); workers]; // case, cpu at its start
    // (cpu, context switches, samples without a change)
    let mut quiet: Vec<(u64, u64, u32)> = vec![(0, 0, 0); workers];
    let hang = |slot: &Slot, why: String| -> i32 {
        let seed = slot.seed.load(SeqCst);
        let p = write_replay(o, plan, seed, &why, &[]);
        eprintln!("case {}: {}", seed, why);
        if let Ok(t) = total.lock() {
            evidence(o, plan, &t, start.elapsed().as_secs_f64(), 1);
        }
        println!("VIOLATION property={} replay={}", plan.id, p);
        use std::io::Write;
        let _ = std::io::stdout().flush();
        std::process::exit(1)
    };
    while done.load(SeqCst) < workers as i64 {
        std::thread::sleep(Duration::from_millis(25));
        let over = OVER_SLOT.load(SeqCst);
        if over < slots.len() {
            hang(&slots[over], "uses more and more memory".into());
        }
        if start.elapsed().as_secs() > o.time_cap {
            stop.store(true, SeqCst);
        }
        for (w, slot) in slots.iter().enumerate() {
            let case = slot.case.load(SeqCst);
            if case == 0 {
                base[w] = (0, 0);
                quiet[w].2 = 0;
                continue;
            }
            let tids = match slot.tids.try_lock() {
                Ok(t) => t.clone(),
                Err(_) => continue,
            };
            let stats: Vec<_> = tids.iter().filter_map(|t| thread_stat(*t)).collect();
            let cpu: u64 = stats.iter().map(|s| s.1).sum();
            let sw: u64 = stats.iter().map(|s| s.2).sum();
            if slot.case.load(SeqCst) != case {
                continue;
            }
            if base[w].0 != case {
                base[w] = (case, cpu);
                quiet[w] = (cpu, sw, 0);
                continue;
            }
            let used = cpu.saturating_sub(base[w].1) / 100;
            if used > plan.case_cpu {
                hang(
                    slot,
                    format!("does not terminate (used {} s of CPU time)", used),
                );
            }
            let blocked = !stats.is_empty() && stats.iter().all(|s| s.0 == 'S' || s.0 == 'D');
            if !blocked || quiet[w].0 != cpu || quiet[w].1 != sw {
                quiet[w] = (cpu, sw, 0);
            } else {
                quiet[w].2 += 1;
            }
            if quiet[w].2 >= 480 {
                hang(
                    slot,
                    format!("deadlock: all {} threads of the case are blocked", stats.len()),
                );
            }
        }
    }
    for h in handles {
        let _ = h.join();
    }
    let _ = std::fs::remove_file(&inflight);
    let wall = start.elapsed().as_secs_f64();
    let mut t = total.lock().unwrap();
    let sigs = known_sigs(&o.verif, plan.id);
    if t.bad.is_none() {
        let unlisted = t
            .known
            .iter()
            .find(|(k, _)| !sigs.contains(k))
            .map(|(k, v)| (v.2, format!("{} [{}]", v.1, k)));
        if let Some((seed, m)) = unlisted {
            t.bad = Some((seed, Outcome::Violation(m)));
        }
    }
    match t.bad.clone() {
        None => {
            if o.only.is_none() && (t.evaluations == 0 || t.fps.is_empty()) {
                eprintln!("harness error: nothing was explored");
                return 2;
            }
            evidence(o, plan, &t, wall, 0);
            for (k, v) in &t.known {
                println!("KNOWN-FINDING: property={} {} (seen {} times) [{}]", plan.id, v.1, v.0, k);
            }
            println!(
                "{}: held in {} cases, {} distinct non-trivial, {:.1} s",
                plan.id,
                t.evaluations,
                t.fps.len(),
                wall
            );
            for (k, v) in &t.cnt {
                println!("    {:<40} {}", k, v);
            }
            0
        }
        Some((_, Outcome::Harness(m))) => {
            eprintln!("harness error: {}", m);
            2
        }
        Some((seed, Outcome::Violation(m))) => {
            let trace = match run_one_again(plan, seed, thorough) {
                Some(t) => t,
                None => vec![],
            };
            let p = write_replay(o, plan, seed, &m, &trace);
            evidence(o, plan, &t, wall, 1);
            eprintln!("case {}: {}", seed, m);
            println!("VIOLATION property={} replay={}", plan.id, p);
            1
        }
        Some((_, Outcome::Ok)) => unreachable!(),
    }
}

/// Run a failed case again to record its trace, give up if it does not end.
fn run_one_again(plan: &'static Plan, seed: u64, thorough: bool) -> Option<Vec<String>> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let (_, _, trace) = run_one(plan, seed, true, thorough, None);
            let _ = tx.send(trace);
        })
        .ok()?;
    rx.recv_timeout(Duration::from_secs(20)).ok()
}
