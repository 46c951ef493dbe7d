//! Path exploration over all scenarios of a property, with native validation and replay.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

use crate::ctx::{CTX, Ctx, Slot, WorkItem};
use crate::env::{NatEnv, SymEnv};
use crate::json::{arr, esc, field};
use crate::q::{EngineLimit, Q};
use crate::smt::{Smt, Stats};
use crate::sym;

pub struct Scenario {
    pub id: String,
    pub sym: Box<dyn Fn(&SymEnv) + Send + Sync>,
    pub nat: Box<dyn Fn(&NatEnv) + Send + Sync>,
    pub max_paths: usize,
    pub max_ops: u64,
    pub max_decisions: usize,
    /// The inputs have partial factorizations that differ from those of the native numbers.
    pub partial: bool,
}

#[derive(Clone)]
pub struct Request {
    pub property: String,
    pub tier: String,
    pub seed: u64,
}
impl Request {
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
}

/// What a check family provides.
pub struct Family {
    pub scenarios: fn(&Request) -> Vec<Scenario>,
    /// (functions encoded, bounds, assumptions)
    pub describe: fn(&Request) -> (Vec<&'static str>, String, Vec<&'static str>),
}

const STEPS: &str = "the run does not end";

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

/// Set in a worker that ran into the end of its stack, or aborted; it then stays where it is.
static CRASHED: [AtomicBool; 64] = [const { AtomicBool::new(false) }; 64];
thread_local! {
    static WORKER: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
const CRASH: &str = "the run crashes";

mod signals {
    #[repr(C)]
    pub struct SigAction {
        pub handler: usize,
        pub mask: [u64; 16],
        pub flags: i32,
        pub restorer: usize,
    }
    unsafe extern "C" {
        pub fn sigaction(signal: i32, new: *const SigAction, old: *mut SigAction) -> i32;
        pub fn pause() -> i32;
        pub fn _exit(code: i32) -> !;
    }
    pub const SIGABRT: i32 = 6;
    pub const SA_ONSTACK: i32 = 0x0800_0000;
}

extern "C" fn on_abort(_: i32) {
    let i = WORKER.with(|w| w.get());
    if i < CRASHED.len() {
        CRASHED[i].store(true, Ordering::SeqCst);
        loop {
            unsafe { signals::pause() };
        }
    }
    unsafe { signals::_exit(134) }
}

/// Keep the check alive when the code under test crashes one of the workers.
fn watch_crashes() {
    let action = signals::SigAction { handler: on_abort as usize, mask: [0; 16], flags: signals::SA_ONSTACK, restorer: 0 };
    unsafe { signals::sigaction(signals::SIGABRT, &action, std::ptr::null_mut()) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {}", msg.lines().next().unwrap_or(""))));
    }));
}

#[derive(Default, Clone)]
struct Agg {
    paths: u64,
    decisions: u64,
    entailed: u64,
    vcs_smt: u64,
    vcs_nf: u64,
    vcs_unknown: u64,
    vacuous: u64,
    limits: BTreeMap<String, u64>,
    validated: u64,
    mismatches: Vec<String>,
    outcomes: BTreeMap<String, u64>,
    ops: u64,
}

#[derive(Clone)]
pub struct Violation {
    pub scenario: String,
    pub what: String,
    pub values: BTreeMap<String, Q>,
    pub reproduced: bool,
    pub native: String,
}

struct Shared {
    queues: Vec<Vec<WorkItem>>,
    started: Vec<usize>,
    running: usize,
    dropped: u64,
    agg: Vec<Agg>,
    stats: Stats,
    violations: Vec<Violation>,
    seen: BTreeSet<(usize, String)>,
    samples: Vec<String>,
    unreproduced: Vec<Violation>,
    /// Workers that are not waited for.
    away: BTreeSet<usize>,
}

pub fn native_once(s: &Scenario, values: BTreeMap<String, Q>) -> (Vec<String>, bool, Vec<String>) {
    let env = NatEnv::new(values);
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (s.nat)(&env)));
    let mut failures = env.failures.borrow().clone();
    if r.is_err() {
        failures.push(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()));
    }
    let o = env.outcome.borrow().clone();
    (failures, *env.broken_assumption.borrow(), o)
}

/// The symbolic side on numbers (exact 128 bit rationals): decides who is right when the native run ends in a
/// failure that the engine does not see. `None` when the numbers get too large.
fn concrete_once(s: &Scenario, values: BTreeMap<String, Q>) -> Option<(Vec<String>, bool, Vec<String>)> {
    crate::env::set_concrete(Some(values));
    let env = SymEnv::default();
    PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(|| (s.sym)(&env)));
    let (mut failures, broken) = crate::env::set_concrete(None).unwrap();
    if let Err(e) = r {
        if e.downcast_ref::<EngineLimit>().is_some() {
            return None;
        }
        failures.push(PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()));
    }
    let o = env.outcome.borrow().clone();
    Some((failures, broken, o))
}
/// The rational number type of the native run (a dependency) fails on some large fractions.
fn dependency_failure(native: &str) -> bool {
    native.contains("/relp-num-") && native.contains("building_blocks.rs")
}

/// Does the code fail in this point on other exact numbers as well?
fn confirmed(s: &Scenario, v: &BTreeMap<String, Q>) -> bool {
    concrete_once(s, v.clone()).is_some_and(|(f, broken, _)| !broken && !f.is_empty())
}

fn values_text(v: &BTreeMap<String, Q>) -> String {
    v.iter().map(|(k, q)| format!("{k}={q}")).collect::<Vec<_>>().join(";")
}
fn parse_values(t: &str) -> BTreeMap<String, Q> {
    t.split(';')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (k, v) = x.split_once('=').unwrap();
            let q = match v.split_once('/') {
                Some((a, b)) => Q::new(a.parse().unwrap(), b.parse().unwrap()),
                None => Q::new(v.parse().unwrap(), 1),
            };
            (k.to_string(), q)
        })
        .collect()
}

/// Run natively in a child with time and memory limits. Returns (violates, description).
fn native_child(req: &Request, id: &str, values: &BTreeMap<String, Q>) -> (bool, String) {
    let exe = std::env::current_exe().unwrap();
    let mut child = Command::new("sh")
        .arg("-c")
        .arg("ulimit -v 4000000; exec \"$0\" \"$@\"")
        .arg(exe)
        .args(["native", &req.property, &req.tier, &req.seed.to_string(), id, &values_text(values)])
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let t = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let mut out = String::new();
            child.stdout.take().unwrap().read_to_string(&mut out).ok();
            let out = out.trim().replace('\n', " | ");
            return match st.code() {
                Some(0) => (false, out),
                Some(3) => (false, format!("assumption broken {out}")),
                Some(1) => (true, out),
                Some(c) => (false, format!("exit {c} {out}")),
                None => (true, format!("crashed: {st:?} {out}")),
            };
        }
        if t.elapsed() > Duration::from_secs(20) {
            child.kill().ok();
            child.wait().ok();
            return (true, "did not finish within 20 s".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

fn worker(scs: &[Scenario], shared: &(Mutex<Shared>, Condvar), req: &Request, deadline: Instant, slot: Arc<Mutex<Slot>>) {
    let mut smt: Option<Smt> = None;
    loop {
        let (idx, item) = {
            let mut sh = shared.0.lock().unwrap();
            loop {
                let now = Instant::now();
                let pick = if now > deadline {
                    for i in 0..scs.len() {
                        let n = sh.queues[i].len() as u64;
                        if n > 0 {
                            sh.dropped += n;
                            *sh.agg[i].limits.entry("time limit".into()).or_insert(0) += n;
                            sh.queues[i].clear();
                        }
                    }
                    None
                } else {
                    (0..scs.len())
                        .filter(|&i| !sh.queues[i].is_empty() && sh.started[i] < scs[i].max_paths)
                        .min_by_key(|&i| sh.started[i])
                };
                if let Some(i) = pick {
                    sh.started[i] += 1;
                    sh.running += 1;
                    let it = sh.queues[i].pop().unwrap();
                    break (i, it);
                }
                if sh.running == 0 {
                    drop(sh);
                    shared.1.notify_all();
                    if let Some(s) = smt.take() {
                        shared.0.lock().unwrap().stats.add(&s.stats);
                    }
                    return;
                }
                sh = shared.1.wait_timeout(sh, Duration::from_millis(50)).unwrap().0;
            }
        };
        let s = &scs[idx];
        let mut z = smt.take().unwrap_or_else(|| Smt::new(if req.thorough() { 10_000 } else { 3_000 }));
        z.push();
        let mut c = Ctx {
            smt: z,
            facts: HashMap::new(),
            pc: vec![],
            names: vec![],
            model: None,
            alternatives: vec![],
            nonlinear: false,
            vacuous: false,
            failures: vec![],
            n_decisions: 0,
            n_entailed: 0,
            vcs_smt: 0,
            vcs_normal_form: 0,
            vcs_unknown: 0,
            ops: 0,
            max_ops: s.max_ops,
            max_decisions: s.max_decisions,
            notes: vec![],
            assumed_text: vec![],
            model_tried: None,
            slot: slot.clone(),
        };
        *slot.lock().unwrap() = Slot { busy: Some((idx, Instant::now())), model: item.model.clone(), names: vec![] };
        c.add_prefix(&item);
        CTX.with(|x| *x.borrow_mut() = Some(c));
        sym::reset_factors();
        let env = SymEnv::default();
        PANIC.with(|p| *p.borrow_mut() = None);
        let r = catch_unwind(AssertUnwindSafe(|| (s.sym)(&env)));
        let mut c = CTX.with(|x| x.borrow_mut().take()).unwrap();
        let mut limit: Option<String> = None;
        let mut step_limit = false;
        if let Err(e) = r {
            if let Some(l) = e.downcast_ref::<EngineLimit>() {
                limit = Some(l.0.to_string());
                step_limit = l.0 == "step limit";
            } else {
                let what = PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into());
                let model = catch_unwind(AssertUnwindSafe(|| c.ensure_model())).ok().flatten();
                if !c.vacuous {
                    c.failures.push(crate::ctx::Failure { what, model });
                }
            }
        }
        if step_limit {
            let model = catch_unwind(AssertUnwindSafe(|| c.ensure_model())).ok().flatten();
            c.failures.push(crate::ctx::Failure { what: STEPS.into(), model });
        }
        let failed = !c.failures.is_empty();
        // Native validation of this path
        let mut validated = None;
        let leaf_model = if !failed && limit.is_none() && !c.vacuous {
            catch_unwind(AssertUnwindSafe(|| c.ensure_model())).ok().flatten()
        } else {
            None
        };
        c.smt.pop();
        let names = c.names.clone();
        let assign = |m: &Vec<Q>| -> BTreeMap<String, Q> {
            names.iter().enumerate().map(|(i, n)| (n.clone(), m.get(i).copied().unwrap_or(Q::ZERO))).collect()
        };
        let symout = env.outcome.borrow().clone();
        if let Some(m) = &leaf_model {
            let v = assign(m);
            slot.lock().unwrap().model = Some(m.clone());
            let (f, broken, out) = native_once(s, v.clone());
            if (!f.is_empty() || broken || out != symout) && !confirmed(s, &v) {
                // The failure is one of the native numbers, not of the code
                validated = None;
                limit = Some("native numbers failed".into());
            } else {
                validated = Some((v, f, broken, out));
            }
        }
        slot.lock().unwrap().busy = None;
        // Replays
        let mut found: Vec<Violation> = vec![];
        let mut fresh: Vec<(String, Option<Vec<Q>>)> = vec![];
        {
            let mut sh = shared.0.lock().unwrap();
            for f in c.failures.drain(..) {
                if sh.seen.insert((idx, f.what.clone())) {
                    fresh.push((f.what, f.model));
                }
            }
        }
        for (what, model) in fresh {
            match model {
                Some(m) => {
                    let v = assign(&m);
                    let mut rep = (false, String::new());
                    for _ in 0..5 {
                        rep = native_child(req, &s.id, &v);
                        if rep.0 {
                            break;
                        }
                    }
                    if dependency_failure(&rep.1) {
                        rep = match concrete_once(s, v.clone()) {
                            Some((f, broken, _)) => (!broken && !f.is_empty(), format!("on 128 bit rationals: {}", f.join(" | "))),
                            None => (false, format!("native numbers fail: {}", rep.1)),
                        };
                    }
                    found.push(Violation { scenario: s.id.clone(), what, values: v, reproduced: rep.0, native: rep.1 });
                }
                // The region may well be empty, the solver could not tell
                None => {
                    let mut sh = shared.0.lock().unwrap();
                    *sh.agg[idx].limits.entry("failure without a rational model".into()).or_insert(0) += 1;
                    sh.seen.remove(&(idx, what));
                }
            }
        }
        // A retry is allowed when a counterexample could not be reproduced
        let mut sh = shared.0.lock().unwrap();
        for v in found {
            if v.reproduced {
                sh.violations.push(v);
            } else if v.what.starts_with(STEPS) {
                *sh.agg[idx].limits.entry("step limit".into()).or_insert(0) += 1;
            } else {
                sh.seen.remove(&(idx, v.what.clone()));
                if sh.unreproduced.len() < 50 {
                    sh.unreproduced.push(v);
                }
            }
        }
        let sample = if let Some((v, ..)) = &validated {
            Some(format!("{} [{}] {}", s.id, values_text(v), symout.join(",")))
        } else {
            None
        };
        if let Some(x) = sample {
            let n = sh.agg[idx].paths;
            if n < 2 && sh.samples.len() < 24 {
                sh.samples.push(x);
            }
        }
        let alternatives = std::mem::take(&mut c.alternatives);
        sh.queues[idx].extend(alternatives);
        let a = &mut sh.agg[idx];
        a.decisions += c.n_decisions;
        a.entailed += c.n_entailed;
        a.vcs_smt += c.vcs_smt;
        a.vcs_nf += c.vcs_normal_form;
        a.vcs_unknown += c.vcs_unknown;
        a.ops += c.ops;
        if c.vacuous {
            a.vacuous += 1;
        } else {
            a.paths += 1;
            *a.outcomes.entry(symout.join(",")).or_insert(0) += 1;
        }
        if let Some(l) = limit {
            if l != "infeasible path" && !step_limit {
                *a.limits.entry(l).or_insert(0) += 1;
            }
        }
        if let Some((v, f, broken, out)) = validated {
            a.validated += 1;
            if broken || !f.is_empty() || out != symout {
                let t = format!(
                    "{} [{}] native: {:?} {:?}{} symbolic: {:?}",
                    s.id,
                    values_text(&v),
                    f,
                    out,
                    if broken { " assumption broken" } else { "" },
                    symout
                );
                if a.mismatches.len() < 3 {
                    a.mismatches.push(t);
                }
                // The real code on the real numbers fails in a point of a verified region.
                if !broken && !f.is_empty() {
                    let what = format!("native: {}", f[0]);
                    if sh.seen.insert((idx, what.clone())) {
                        sh.violations.push(Violation {
                            scenario: s.id.clone(),
                            what,
                            values: v,
                            reproduced: true,
                            native: f.join(" | "),
                        });
                    }
                }
            }
        }
        if sh.away.contains(&WORKER.with(|w| w.get())) {
            return;
        }
        sh.running -= 1;
        drop(sh);
        shared.1.notify_all();
        smt = Some(c.smt);
    }
}

/// One line of the known findings file: `finding: property=X scenario=<prefix> what=<substring> :: text`
struct Known {
    property: String,
    scenario: String,
    what: String,
    values: String,
    text: String,
}
fn known_findings() -> Vec<Known> {
    let path = std::env::var("VERIF_KNOWN").unwrap_or_else(|_| "/verif/known-findings.txt".into());
    let Ok(t) = std::fs::read_to_string(path) else { return vec![] };
    t.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let (head, text) = l.split_once(" :: ")?;
            let get = |k: &str| {
                head.split(" @").find_map(|p| p.trim().trim_start_matches('@').strip_prefix(&format!("{k}=")).map(|s| s.trim().to_string())).unwrap_or_default()
            };
            Some(Known { property: get("property"), scenario: get("scenario"), what: get("what"), values: get("values"), text: text.to_string() })
        })
        .collect()
}

pub fn main_entry(family: Family) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    // Deep expression trees never occur, but give the workers a generous stack anyway.
    match args.get(1).map(|s| s.as_str()) {
        Some("native") => {
            let req = Request { property: args[2].clone(), tier: args[3].clone(), seed: args[4].parse().unwrap() };
            let scs = (family.scenarios)(&req);
            let Some(s) = scs.into_iter().find(|s| s.id == args[5]) else {
                println!("no scenario {}", args[5]);
                std::process::exit(2)
            };
            let (mut f, mut broken, out) = native_once(&s, parse_values(&args[6]));
            if s.partial && f.is_empty() {
                if let Some((g, b, _)) = concrete_once(&s, parse_values(&args[6])) {
                    f = g.into_iter().map(|x| format!("on 128 bit rationals: {x}")).collect();
                    broken = b;
                }
            }
            println!("outcome {out:?}");
            for x in &f {
                println!("FAILS {x}");
            }
            std::process::exit(if broken { 3 } else if f.is_empty() { 0 } else { 1 })
        }
        Some("replay") => {
            let text = std::fs::read_to_string(&args[2]).expect("replay file");
            let g = |k: &str| field(&text, k).unwrap_or_default();
            let req = Request { property: g("property"), tier: g("tier"), seed: g("seed").parse().unwrap_or(1) };
            let (bad, what) = native_child(&req, &g("scenario"), &parse_values(&g("values")));
            println!("{}: {what}", if bad { "REPRODUCED" } else { "not reproduced" });
            std::process::exit(if bad { 1 } else { 0 })
        }
        Some("list") => {
            let req = Request { property: args[2].clone(), tier: args[3].clone(), seed: 1 };
            for s in (family.scenarios)(&req) {
                println!("{}", s.id);
            }
            std::process::exit(0)
        }
        Some("check") => {}
        _ => {
            eprintln!("usage: check PROPERTY quick|thorough | replay FILE | native ... | list PROPERTY TIER");
            std::process::exit(2)
        }
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let req = Request { property: args[2].clone(), tier: args[3].clone(), seed };
    let only = std::env::var("VERIF_ONLY").ok();
    let t0 = Instant::now();
    let budget: u64 = std::env::var("VERIF_BUDGET_S")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(if req.thorough() { 600 } else { 100 });
    let mut scs = (family.scenarios)(&req);
    if let Some(o) = &only {
        scs.retain(|s| s.id.contains(o.as_str()));
    }
    if scs.is_empty() {
        eprintln!("no scenarios for {}", req.property);
        std::process::exit(2);
    }
    {
        let mut ids = BTreeSet::new();
        for s in &scs {
            assert!(ids.insert(s.id.clone()), "duplicate scenario {}", s.id);
        }
    }
    let n = scs.len();
    let shared = Arc::new((
        Mutex::new(Shared {
            queues: (0..n).map(|_| vec![WorkItem { prefix: vec![], facts: HashMap::new(), model: None }]).collect(),
            started: vec![0; n],
            running: 0,
            dropped: 0,
            agg: vec![Agg::default(); n],
            stats: Stats::default(),
            violations: vec![],
            seen: BTreeSet::new(),
            samples: vec![],
            unreproduced: vec![],
            away: BTreeSet::new(),
        }),
        Condvar::new(),
    ));
    let deadline = t0 + Duration::from_secs(budget);
    let scs = Arc::new(scs);
    watch_crashes();
    let threads: usize = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let mut slots = vec![];
    let mut handles: Vec<_> = (0..threads)
        .map(|i| {
            let slot = Arc::new(Mutex::new(Slot::default()));
            slots.push(slot.clone());
            let (scs, shared, req) = (scs.clone(), shared.clone(), req.clone());
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn(move || {
                    WORKER.with(|w| w.set(i));
                    worker(&scs, &shared, &req, deadline, slot)
                })
                .unwrap()
        })
        .map(Some)
        .collect();
    // A path that stays away is replayed natively: either the real code hangs, or only the engine is slow.
    let patience = Duration::from_secs(if req.thorough() { 120 } else { 40 });
    let mut checked: BTreeSet<usize> = BTreeSet::new();
    let mut abandoned = 0;
    loop {
        std::thread::sleep(Duration::from_millis(20));
        let mut alive = false;
        for i in 0..threads {
            let Some(h) = &handles[i] else { continue };
            if h.is_finished() {
                if let Err(e) = handles[i].take().unwrap().join() {
                    let what = e.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| e.downcast_ref::<String>().cloned());
                    eprintln!("a worker died: {what:?} {:?}", e.downcast_ref::<EngineLimit>().map(|l| &l.0));
                    std::process::exit(2);
                }
                continue;
            }
            alive = true;
            let (busy, model, names) = {
                let s = slots[i].lock().unwrap();
                (s.busy, s.model.clone(), s.names.clone())
            };
            let Some((idx, since)) = busy else { continue };
            let crashed = CRASHED[i].load(Ordering::SeqCst);
            if (crashed || since.elapsed() > patience) && checked.insert(i) {
                let values: BTreeMap<String, Q> = names
                    .iter()
                    .enumerate()
                    .map(|(k, n)| (n.clone(), model.as_ref().and_then(|m| m.get(k).copied()).unwrap_or(Q::ZERO)))
                    .collect();
                let (bad, native) = native_child(&req, &scs[idx].id, &values);
                if bad {
                    let mut sh = shared.0.lock().unwrap();
                    sh.violations.push(Violation { scenario: scs[idx].id.clone(), what: if crashed { CRASH } else { STEPS }.into(), values, reproduced: true, native });
                    sh.queues.iter_mut().for_each(|q| q.clear());
                    sh.running -= 1;
                    sh.away.insert(i);
                    handles[i] = None;
                    continue;
                }
            }
            if crashed {
                let mut sh = shared.0.lock().unwrap();
                handles[i] = None;
                sh.away.insert(i);
                sh.running -= 1;
                *sh.agg[idx].limits.entry("crash".into()).or_insert(0) += 1;
                sh.unreproduced.push(Violation { scenario: scs[idx].id.clone(), what: CRASH.into(), values: BTreeMap::new(), reproduced: false, native: String::new() });
                continue;
            }
            if since.elapsed() > patience && Instant::now() > deadline + Duration::from_secs(20) {
                abandoned += 1;
                handles[i] = None;
                let mut sh = shared.0.lock().unwrap();
                sh.away.insert(i);
                sh.running -= 1;
                *sh.agg[idx].limits.entry("slow path".into()).or_insert(0) += 1;
            }
        }
        if !alive {
            break;
        }
    }
    let _ = abandoned;
    let sh = shared.0.lock().unwrap();
    let mut tot = Agg::default();
    let mut exhaustive_scs = 0;
    let mut open = sh.dropped;
    for (i, a) in sh.agg.iter().enumerate() {
        tot.paths += a.paths;
        tot.decisions += a.decisions;
        tot.entailed += a.entailed;
        tot.vcs_smt += a.vcs_smt;
        tot.vcs_nf += a.vcs_nf;
        tot.vcs_unknown += a.vcs_unknown;
        tot.vacuous += a.vacuous;
        tot.validated += a.validated;
        tot.ops += a.ops;
        for (k, v) in &a.limits {
            *tot.limits.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &a.outcomes {
            let k: String = k.chars().take(60).collect();
            *tot.outcomes.entry(k).or_insert(0) += v;
        }
        tot.mismatches.extend(a.mismatches.iter().cloned());
        open += sh.queues[i].len() as u64;
        if sh.queues[i].is_empty() && a.limits.is_empty() && a.vcs_unknown == 0 && a.paths > 0 {
            exhaustive_scs += 1;
        }
    }
    let all_exhaustive = exhaustive_scs == n && sh.dropped == 0;
    // Report
    let known = known_findings();
    let mut violations = 0;
    let mut reported: BTreeSet<String> = BTreeSet::new();
    let replay_dir = std::env::var("VERIF_REPLAYS").unwrap_or_else(|_| "/verif/evidence/replays".into());
    for v in &sh.violations {
        if let Some(k) = known.iter().find(|k| {
            k.property == req.property
                && (k.scenario.is_empty() || v.scenario.starts_with(&k.scenario))
                && (k.what.is_empty() || v.what.contains(&k.what) || v.native.contains(&k.what))
                && (k.values.is_empty() || values_text(&v.values) == k.values)
        }) {
            let line = format!("KNOWN-FINDING: property={} {}", req.property, k.text);
            if reported.insert(line.clone()) {
                println!("{line}");
            }
            continue;
        }
        violations += 1;
        if violations > 10 {
            continue;
        }
        std::fs::create_dir_all(&replay_dir).ok();
        let path = format!("{replay_dir}/{}-{violations}.json", req.property);
        let body = format!(
            "{{\n  \"property\": {},\n  \"tier\": {},\n  \"seed\": \"{}\",\n  \"scenario\": {},\n  \"what\": {},\n  \"values\": {},\n  \"native\": {}\n}}\n",
            esc(&req.property), esc(&req.tier), req.seed, esc(&v.scenario), esc(&v.what), esc(&values_text(&v.values)), esc(&v.native)
        );
        std::fs::write(&path, body).ok();
        println!("VIOLATION property={} replay={}", req.property, path);
        println!("  scenario {}: {} [{}] native: {}", v.scenario, v.what, values_text(&v.values), v.native);
    }
    let verbose = std::env::var("VERIF_VERBOSE").is_ok();
    for u in sh.unreproduced.iter().take(if verbose { 50 } else { 3 }) {
        println!("UNREPRODUCED scenario {}: {} [{}] native: {}", u.scenario, u.what, values_text(&u.values), u.native);
    }
    for m in tot.mismatches.iter().take(if verbose { 50 } else { 3 }) {
        println!("MISMATCH {m}");
    }
    if verbose {
        for (i, a) in sh.agg.iter().enumerate() {
            println!(
                "  {:60} paths {:6} open {:5} decisions {:6} vcs {:5}+{:5} unknown {} limits {:?} outcomes {:?}",
                scs[i].id, a.paths, sh.queues[i].len(), a.decisions, a.vcs_smt, a.vcs_nf, a.vcs_unknown, a.limits,
                a.outcomes.iter().take(6).collect::<Vec<_>>()
            );
        }
    }
    let (functions, bounds, assumptions) = (family.describe)(&req);
    let functions: Vec<String> = functions.iter().map(|s| s.to_string()).collect();
    let assumptions: Vec<String> = assumptions.iter().map(|s| s.to_string()).collect();
    let limits: Vec<String> = tot.limits.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let outcomes: Vec<String> = tot.outcomes.iter().take(40).map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    let wall = t0.elapsed().as_secs_f64();
    let ev = format!(
        r#"{{
  "property": {},
  "tier": {},
  "seed": {},
  "level": "model_checking",
  "coverage": {{
    "method": "the real generic code is executed on symbolic rational functions; every comparison splits the input space, z3 decides which branches and whether a property can fail in a region",
    "states": {},
    "transitions": {},
    "traces_validated_against_impl": {},
    "samples": {},
    "scenarios": {},
    "scenarios_explored_completely": {},
    "exhaustive": {},
    "unexplored_regions": {},
    "comparisons_entailed": {},
    "obligations_decided_by_solver": {},
    "obligations_decided_by_normal_form": {},
    "obligations_unknown": {},
    "engine_limits": {{{}}},
    "outcomes": {{{}}},
    "symbolic_operations": {},
    "solver_queries": {},
    "solver_sat": {},
    "solver_unsat": {},
    "solver_unknown": {},
    "solver_nonlinear_queries": {},
    "solver_seconds": {:.2},
    "solver": "z3 (QF_LRA / QF_NRA)",
    "functions_encoded": {},
    "bounds": {},
    "unreproduced_counterexamples": {},
    "native_mismatches": {}
  }},
  "assumptions": {},
  "wall_s": {:.2},
  "violations": {}
}}
"#,
        esc(&req.property), esc(&req.tier), req.seed, tot.paths, tot.decisions, tot.validated, arr(&sh.samples), n, exhaustive_scs,
        all_exhaustive, open, tot.entailed, tot.vcs_smt, tot.vcs_nf, tot.vcs_unknown, limits.join(", "), outcomes.join(", "), tot.ops,
        sh.stats.queries, sh.stats.sat, sh.stats.unsat, sh.stats.unknown, sh.stats.nonlinear, sh.stats.seconds,
        arr(&functions), esc(&bounds), sh.unreproduced.len(), tot.mismatches.len(), arr(&assumptions), wall, violations
    );
    let ev_dir = std::env::var("VERIF_EVIDENCE").unwrap_or_else(|_| "/verif/evidence".into());
    std::fs::create_dir_all(&ev_dir).ok();
    std::fs::write(format!("{ev_dir}/{}.json", req.property), ev).expect("evidence");
    println!(
        "{} {}: {} scenarios ({} complete), {} regions, {} decisions, {} obligations ({} by solver), {} queries, {:.1} s solver, {} validated natively, {} open, limits {:?}, {:.1} s",
        req.property, req.tier, n, exhaustive_scs, tot.paths, tot.decisions, tot.vcs_smt + tot.vcs_nf, tot.vcs_smt, sh.stats.queries,
        sh.stats.seconds, tot.validated, open, tot.limits, wall
    );
    if violations > 0 {
        std::process::exit(1);
    }
    if !sh.unreproduced.is_empty() || tot.paths == 0 {
        println!("the engine and the real code disagree, no verdict");
        std::process::exit(2);
    }
    std::process::exit(0)
}
