//! The explorer: work distribution, case bookkeeping, violations, evidence.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use crate::case::{Case, Out};

pub struct Viol {
    pub case: String,
    pub expected: String,
    pub got: String,
}

pub struct Ctx {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub thorough: bool,
    pub start: Instant,
    pub known: Vec<(String, String)>, // (case, note)
    /// known findings given by a call site: (name of the deviation, note, seen)
    pub classes: Vec<(String, String, AtomicU64)>,
    pub viols: Mutex<Vec<Viol>>,
    pub n_viol: AtomicU64,
    pub stop: AtomicBool,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub groups: Mutex<BTreeMap<String, (u64, u64, u64)>>, // cases, distinct outcomes (capped), us
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    /// explore every stride-th element of the outermost alphabet only
    pub stride: usize,
    /// N01: look for panics and for deviations the release build does not have
    pub profile: bool,
    pub suspects: Mutex<Vec<Viol>>,
    pub n_suspects: AtomicU64,
    /// prefix of the names of the groups
    pub part: Mutex<String>,
}

const MAX_SUSPECTS: usize = 200;
const MAX_VIOL: u64 = 4000;
const OUTCOME_CAP: usize = 4096;

thread_local! {
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

pub struct Slot {
    in_impl: AtomicBool,
    ticks: AtomicU64,
    case: Mutex<Option<Case>>,
}
static SLOTS: OnceLock<Vec<Slot>> = OnceLock::new();

thread_local! {
    static MY_SLOT: std::cell::Cell<usize> = const { std::cell::Cell::new(usize::MAX) };
}
static CTX: OnceLock<&'static Ctx> = OnceLock::new();
extern "C" {
    fn signal(sig: i32, handler: usize) -> usize;
    fn alarm(s: u32) -> u32;
    fn _exit(code: i32) -> !;
}
/// The code under test crashed: report the case. (Not async-signal-safe; if
/// that goes wrong, the alarm ends the process and bin/check reports it.)
extern "C" fn crashed(sig: i32) {
    unsafe {
        alarm(20);
        for s in [11, 7, 4, 8, 6] {
            signal(s, 0);
        }
    }
    let i = MY_SLOT.with(|m| m.get());
    if let (Some(ctx), Some(s)) = (CTX.get(), SLOTS.get().and_then(|v| v.get(i))) {
        if s.in_impl.load(SeqCst) {
            let c = s.case.lock().unwrap().clone();
            ctx.violation(c.map_or(String::new(), |c| c.text()), "no crash".into(), format!("signal {sig}"));
            let code = finish(ctx);
            let _ = std::io::stdout().flush();
            unsafe { _exit(code) }
        }
    }
    eprintln!("the harness crashed: signal {sig}");
    unsafe { _exit(3) }
}

/// per-worker counters
pub struct Local<'a> {
    pub ctx: &'a Ctx,
    pub cases: u64,
    pub states: u64,
    pub outcomes: HashSet<u64>,
    pub want_sample: bool,
    slot: usize,
}

pub fn fnv(data: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for &b in data {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = format!("{}", info);
        PANIC_MSG.with(|p| *p.borrow_mut() = m.clone());
        let q = QUIET.with(|q| *q.borrow());
        if !q {
            eprintln!("{m}");
        }
    }));
}

/// run f, turning a panic of the code under test into Err(message)
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = false);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow().lines().collect::<Vec<_>>().join(" ")))
}

impl<'a> Local<'a> {
    /// evaluate one case on the implementation and on the model
    #[inline]
    pub fn check(&mut self, c: Case) {
        self.step(c);
    }
    /// the same; returns what the implementation computed
    #[inline]
    pub fn step(&mut self, c: Case) -> Out {
        self.cases += 1;
        let s = &SLOTS.get().unwrap()[self.slot];
        s.ticks.store(self.cases, Relaxed);
        let want = c.model();
        *s.case.lock().unwrap() = Some(c.clone());
        s.in_impl.store(true, Relaxed);
        let got = match catch_unwind(AssertUnwindSafe(|| c.impl_eval())) {
            Ok(o) => o,
            Err(_) => Out::Panic(
                PANIC_MSG.with(|p| p.borrow().replace('\n', " ")),
            ),
        };
        s.in_impl.store(false, Relaxed);
        if self.outcomes.len() < OUTCOME_CAP {
            self.outcomes.insert(want.hash());
        }
        if self.want_sample {
            self.want_sample = false;
            let mut s = self.ctx.samples.lock().unwrap();
            if s.len() < 40 {
                s.push(format!("{} => {}", c.text(), want.text()));
            }
        }
        if !want.accepts(&got) {
            for k in &self.ctx.classes {
                if c.deviant(&k.0).is_some_and(|d| d.accepts(&got)) {
                    k.2.fetch_add(1, Relaxed);
                    return got;
                }
            }
            if self.ctx.profile && !matches!(got, Out::Panic(_)) {
                self.ctx.suspect(c.text(), want.text(), got.text());
                return got;
            }
            self.ctx.violation(c.text(), want.text(), got.text());
        }
        got
    }
}

impl Ctx {
    pub fn violation(&self, case: String, expected: String, got: String) {
        let n = self.n_viol.fetch_add(1, SeqCst);
        if n < MAX_VIOL {
            self.viols.lock().unwrap().push(Viol { case, expected, got });
        } else {
            self.stop.store(true, SeqCst);
        }
    }
    fn suspect(&self, case: String, expected: String, got: String) {
        let n = self.n_suspects.fetch_add(1, SeqCst) as usize;
        if n < MAX_SUSPECTS {
            self.suspects.lock().unwrap().push(Viol { case, expected, got });
        }
    }
    /// A wrong result of the checked build is a violation of N01 if the
    /// release build gives another one (if not, it violates another property).
    pub fn settle_suspects(&self, root: &str) {
        for v in self.suspects.lock().unwrap().drain(..) {
            let o = std::process::Command::new(format!("{root}/build/target/release/mc"))
                .args(["replay", &v.case])
                .output()
                .expect("release build");
            let o = String::from_utf8_lossy(&o.stdout).to_string();
            let got = o.split("\ngot      ").nth(1).map(|s| s.trim_end_matches('\n').to_string());
            if got.as_deref() != Some(v.got.as_str()) {
                self.violation(v.case, format!("as in the release build: {}", got.unwrap_or(o)), v.got);
            }
        }
    }
    pub fn note(&self, s: impl Into<String>) {
        self.notes.lock().unwrap().push(s.into());
    }

    /// Enumerate 0..n in parallel; body(local, i) generates and checks cases.
    pub fn explore<F>(&self, group: &str, n: usize, body: F)
    where
        F: Fn(&mut Local, usize) + Sync,
    {
        let t0 = Instant::now();
        let nt = threads();
        let next = AtomicUsize::new(0);
        let chunk = (n / (nt * 64)).max(1);
        let tot = Mutex::new((0u64, HashSet::<u64>::new(), 0u64));
        std::thread::scope(|s| {
            for slot in 0..nt {
                let (next, body, tot) = (&next, &body, &tot);
                s.spawn(move || {
                    MY_SLOT.with(|m| m.set(slot));
                    let mut l = Local {
                        ctx: self,
                        cases: 0,
                        states: 0,
                        outcomes: HashSet::new(),
                        want_sample: slot == 0,
                        slot,
                    };
                    QUIET.with(|q| *q.borrow_mut() = true);
                    'w: loop {
                        let i0 = next.fetch_add(chunk, Relaxed);
                        if i0 >= n || self.stop.load(Relaxed) {
                            break;
                        }
                        for i in i0..(i0 + chunk).min(n) {
                            if i % self.stride != 0 {
                                continue;
                            }
                            if self.stop.load(Relaxed) {
                                break 'w;
                            }
                            if catch_unwind(AssertUnwindSafe(|| body(&mut l, i))).is_err() {
                                let msg = PANIC_MSG.with(|p| p.borrow().clone());
                                eprintln!("harness panic: {msg}");
                                std::process::exit(3);
                            }
                        }
                    }
                    QUIET.with(|q| *q.borrow_mut() = false);
                    let mut t = tot.lock().unwrap();
                    t.0 += l.cases;
                    t.2 += l.states;
                    for o in l.outcomes {
                        if t.1.len() < OUTCOME_CAP * 4 {
                            t.1.insert(o);
                        }
                    }
                });
            }
        });
        let t = tot.into_inner().unwrap();
        self.states.fetch_add(if t.2 > 0 { t.2 } else { t.0 }, SeqCst);
        self.transitions.fetch_add(t.0, SeqCst);
        self.traces.fetch_add(t.0, SeqCst);
        let us = t0.elapsed().as_micros() as u64;
        let mut g = self.groups.lock().unwrap();
        let group = &format!("{}{group}", self.part.lock().unwrap());
        let e = g.entry(group.to_string()).or_insert((0, 0, 0));
        e.0 += t.0;
        e.1 = e.1.max(t.1.len() as u64);
        e.2 += us;
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!(
                "{group}: {} cases, >={} distinct outcomes, {:.2}s",
                t.0,
                t.1.len(),
                us as f64 / 1e6
            );
        }
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16)
}

fn watchdog(ctx: &'static Ctx) {
    // A worker stuck on one case for this long means the code under test does
    // not terminate on it.
    const LIMIT: Duration = Duration::from_secs(200);
    let slots = SLOTS.get().unwrap();
    let mut last: Vec<(u64, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
    loop {
        std::thread::sleep(Duration::from_millis(500));
        for (i, s) in slots.iter().enumerate() {
            let t = s.ticks.load(Relaxed);
            if !s.in_impl.load(SeqCst) || t != last[i].0 {
                last[i] = (t, Instant::now());
            } else if last[i].1.elapsed() > LIMIT {
                let c = s.case.lock().unwrap().clone();
                ctx.violation(
                    c.map_or(String::new(), |c| c.text()),
                    "terminates".into(),
                    "no answer within 200 s".into(),
                );
                std::process::exit(finish(ctx));
            }
        }
    }
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str) -> String {
    if s.chars().count() > 400 {
        format!("{}...[{} chars]", s.chars().take(400).collect::<String>(), s.chars().count())
    } else {
        s.into()
    }
}

pub fn start(prop: &str, tier: &str, seed: u64, root: &str) -> &'static Ctx {
    let mut known = vec![];
    let mut classes = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in t.lines() {
            if let Some(r) = l.strip_prefix(&format!("known: property={prop} case=[")) {
                if let Some((c, n)) = r.split_once("] ") {
                    known.push((c.to_string(), n.to_string()));
                }
            }
            let class = match l.strip_prefix("known: property=") {
                Some(r) if prop == "N01" => r.split_once(" class=[").map(|x| x.1),
                _ => l.strip_prefix(&format!("known: property={prop} class=[")),
            };
            if let Some(r) = class {
                if let Some((c, n)) = r.split_once("] ") {
                    classes.push((c.to_string(), n.to_string(), AtomicU64::new(0)));
                }
            }
        }
    }
    SLOTS.get_or_init(|| {
        (0..threads())
            .map(|_| Slot {
                in_impl: AtomicBool::new(false),
                ticks: AtomicU64::new(0),
                case: Mutex::new(None),
            })
            .collect()
    });
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        prop: prop.into(),
        tier: tier.into(),
        seed,
        thorough: tier == "thorough" && prop != "N01",
        start: Instant::now(),
        known,
        classes,
        viols: Mutex::new(vec![]),
        n_viol: AtomicU64::new(0),
        stop: AtomicBool::new(false),
        states: AtomicU64::new(0),
        transitions: AtomicU64::new(0),
        traces: AtomicU64::new(0),
        groups: Mutex::new(BTreeMap::new()),
        samples: Mutex::new(vec![]),
        notes: Mutex::new(vec![]),
        stride: if prop == "N01" && tier != "thorough" { 2 } else { 1 },
        profile: prop == "N01",
        suspects: Mutex::new(vec![]),
        n_suspects: AtomicU64::new(0),
        part: Mutex::new(String::new()),
    }));
    let _ = CTX.set(ctx);
    for s in [11, 7, 4, 8, 6] {
        unsafe { signal(s, crashed as *const () as usize) };
    }
    std::thread::spawn(move || watchdog(ctx));
    ctx
}

/// write evidence, print verdict, return the exit code
pub fn finish(ctx: &Ctx) -> i32 {
    let root = std::env::var("MC_ROOT").unwrap_or_else(|_| "/verif".into());
    let viols = ctx.viols.lock().unwrap();
    let mut fresh = vec![];
    let mut seen_known = vec![false; ctx.known.len()];
    for v in viols.iter() {
        match ctx.known.iter().position(|k| k.0 == v.case) {
            Some(i) => seen_known[i] = true,
            None => fresh.push(v),
        }
    }
    for (i, k) in ctx.known.iter().enumerate() {
        if seen_known[i] {
            println!("KNOWN-FINDING: property={} {} [{}]", ctx.prop, k.1, clip(&k.0));
        }
    }
    for (c, n, k) in &ctx.classes {
        let k = k.load(SeqCst);
        if k > 0 && !ctx.profile {
            println!("KNOWN-FINDING: property={} {n} [{c}: {k} cases]", ctx.prop);
        }
    }
    let mut code = 0;
    if !fresh.is_empty() {
        code = 1;
        fresh.sort_by_key(|v| (v.case.len(), v.case.clone()));
        fresh.dedup_by(|a, b| a.case == b.case);
        let dir = format!("{root}/build/replay");
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{}.txt", ctx.prop);
        if let Ok(mut f) = std::fs::File::create(&path) {
            for v in fresh.iter().take(if std::env::var("MC_ALL").is_ok() { 4000 } else { 200 }) {
                let _ = writeln!(f, "case {}\n  expected {}\n  got      {}", v.case, v.expected, v.got);
            }
            let _ = writeln!(f, "# replay one: {root}/bin/replay '<case text>'{}", if ctx.profile { " checked" } else { "" });
        }
        for v in fresh.iter().take(5) {
            println!("  case     {}", clip(&v.case));
            println!("  expected {}", clip(&v.expected));
            println!("  got      {}", clip(&v.got));
        }
        println!("VIOLATION property={} replay={}", ctx.prop, path);
    }
    // evidence
    let groups = ctx.groups.lock().unwrap();
    let samples = ctx.samples.lock().unwrap();
    let notes = ctx.notes.lock().unwrap();
    let mut e = String::new();
    e.push_str("{\n");
    e.push_str(&format!(" \"property\": {},\n", json_str(&ctx.prop)));
    e.push_str(&format!(" \"tier\": {},\n \"seed\": {},\n", json_str(&ctx.tier), ctx.seed));
    e.push_str(" \"level\": \"model_checking\",\n \"coverage\": {\n");
    e.push_str(&format!("  \"states\": {},\n", ctx.states.load(SeqCst)));
    e.push_str(&format!("  \"transitions\": {},\n", ctx.transitions.load(SeqCst)));
    e.push_str(&format!(
        "  \"traces_validated_against_impl\": {},\n",
        ctx.traces.load(SeqCst)
    ));
    e.push_str(&format!(
        "  \"exhaustive\": {},\n",
        !ctx.stop.load(SeqCst)
    ));
    e.push_str("  \"groups\": {\n");
    let gl: Vec<String> = groups
        .iter()
        .map(|(k, v)| {
            format!(
                "   {}: {{\"cases\": {}, \"distinct_outcomes_at_least\": {}, \"ms\": {}}}",
                json_str(k),
                v.0,
                v.1,
                v.2 / 1000
            )
        })
        .collect();
    e.push_str(&gl.join(",\n"));
    e.push_str("\n  },\n  \"samples\": [\n");
    let sl: Vec<String> = samples.iter().map(|s| format!("   {}", json_str(&clip(s)))).collect();
    e.push_str(&sl.join(",\n"));
    e.push_str("\n  ]\n },\n");
    let nl: Vec<String> = notes.iter().map(|s| json_str(s)).collect();
    e.push_str(&format!(" \"assumptions\": [{}],\n", nl.join(", ")));
    e.push_str(&format!(" \"violations\": {},\n", fresh.len()));
    e.push_str(&format!(" \"wall_s\": {:.3}\n}}\n", ctx.start.elapsed().as_secs_f64()));
    let edir = format!("{root}/evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(x) = std::fs::write(format!("{edir}/{}.json", ctx.prop), e) {
        eprintln!("cannot write evidence: {x}");
        return 3;
    }
    println!(
        "{} {}: {} states, {} transitions, {} violations, {:.1}s",
        ctx.prop,
        ctx.tier,
        ctx.states.load(SeqCst),
        ctx.transitions.load(SeqCst),
        fresh.len(),
        ctx.start.elapsed().as_secs_f64()
    );
    code
}
