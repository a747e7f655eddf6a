//! Exhaustive bounded exploration of the real library, with a reference model as oracle.
//!
//! Two explorers share one reporting layer:
//!  * `Ctx::space`: every element of a finite product space of scenes/inputs (mixed-radix index,
//!    so each index is a different case), each run through the library and the reference model;
//!  * `Ctx::bfs`: explicit-state breadth-first search over operation histories, states
//!    deduplicated by an exact key.
//! Nothing is sampled. The counterexample reported is the one with the lowest index
//! (`space`) or the shortest history (`bfs`).

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::hash::Hash;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

/// Per-worker observations.
pub struct Local {
    pub calls: u64,
    pub strict: u64,
    pub soft: u64,
    pub skipped: u64,
    pub outcomes: Vec<(&'static str, u64)>,
    fail: Option<String>,
    is_soft: bool,
    is_skip: bool,
    known: Vec<(&'static str, String)>,
    note: Option<String>,
    want_note: bool,
}

impl Local {
    fn new() -> Local {
        Local {
            calls: 0,
            strict: 0,
            soft: 0,
            skipped: 0,
            outcomes: vec![],
            fail: None,
            is_soft: false,
            is_skip: false,
            known: vec![],
            note: None,
            want_note: false,
        }
    }
    /// The case violates the property. The first failure of a case is kept.
    #[cold]
    pub fn fail(&mut self, msg: String) {
        if self.fail.is_none() {
            self.fail = Some(msg)
        }
    }
    #[inline]
    pub fn check(&mut self, ok: bool, msg: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(msg());
        }
        ok
    }
    pub fn failed(&self) -> bool {
        self.fail.is_some()
    }
    /// The combination is outside the property's domain (e.g. a direction of no length).
    pub fn skip(&mut self) {
        self.is_skip = true
    }
    /// The verdict of this case is decided only up to rounding (exact contact that the library's
    /// floating point cannot represent): it is run, but not counted as validated.
    pub fn soft(&mut self) {
        self.is_soft = true
    }
    #[inline]
    pub fn outcome(&mut self, name: &'static str) {
        for o in self.outcomes.iter_mut() {
            if std::ptr::eq(o.0.as_ptr(), name.as_ptr()) || o.0 == name {
                o.1 += 1;
                return;
            }
        }
        self.outcomes.push((name, 1));
    }
    /// A deviation that matches a listed known finding exactly.
    #[allow(dead_code)]
    pub fn known(&mut self, key: &'static str, msg: String) {
        if !self.known.iter().any(|k| k.0 == key) {
            self.known.push((key, msg));
        }
    }
    /// Describe the case (only evaluated for samples, replays and failures).
    #[inline]
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            self.note = Some(f())
        }
    }
}

/// Run a library call: counts it as a transition.
#[macro_export]
macro_rules! api {
    ($l:expr, $e:expr) => {{
        $l.calls += 1;
        $e
    }};
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, bool)>> = RefCell::new(None);
    static QUIET: Cell<bool> = Cell::new(false);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let harness = loc.starts_with("src/");
        let p = info.payload();
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        LAST_PANIC.with(|c| *c.borrow_mut() = Some((format!("panicked: {} ({})", m, loc), harness)));
        if !QUIET.with(|q| q.get()) {
            eprintln!("panic: {} ({})", m, loc);
        }
    }));
}

/// Run a library call that is allowed to refuse by panicking.
#[allow(dead_code)]
pub fn may_panic<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

/// Run `f` on a thread of its own, so that nothing that earlier calls may have left in
/// thread-local storage is there; a panic of the library comes back as a panic here.
pub fn isolated<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    let quiet = QUIET.with(|q| q.get());
    let r = std::thread::scope(|s| {
        s.spawn(|| {
            QUIET.with(|q| q.set(quiet));
            catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|c| c.borrow_mut().take()))
        })
        .join()
        .expect("isolated thread")
    });
    match r {
        Ok(x) => x,
        Err(p) => {
            LAST_PANIC.with(|c| *c.borrow_mut() = p);
            std::panic::resume_unwind(Box::new("library panic in an isolated run"))
        }
    }
}

#[derive(Clone)]
pub struct Violation {
    pub space: String,
    pub case: Case,
    pub msg: String,
    pub desc: String,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Case {
    Index(u64),
    History(u64, Vec<u32>), // initial state number, operation numbers
}

struct SpaceReport {
    name: String,
    bound: String,
    kind: &'static str,
    states: u64,
    transitions: u64,
    validated: u64,
    soft: u64,
    skipped: u64,
    depth: u64,
    outcomes: BTreeMap<String, u64>,
}

pub enum Mode {
    Explore,
    Replay(String, Case),
    /// like Explore, but each worker records the case it is about to run in a file
    Trace(std::fs::File),
    /// list the cases that differ in outcome (debugging aid)
    Only(String),
}

pub struct Ctx {
    pub prop: &'static str,
    pub tier: Tier,
    pub mode: Mode,
    pub threads: usize,
    reports: Vec<SpaceReport>,
    samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub known: Vec<(&'static str, String)>,
    pub assumptions: Vec<String>,
    pub replay_hit: bool,
    capped: bool,
    start: Instant,
    space_no: u32,
}

const HANG_S: u64 = 40;

fn trace_name(no: u32, name: &str) {
    use std::io::Write;
    if let Ok(p) = std::env::var("MC_TRACE_NAMES") {
        if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(p) {
            let _ = writeln!(f, "{} {}", no, name);
        }
    }
}

fn run_case<F: Fn(u64, &mut Local)>(f: &F, idx: u64, l: &mut Local) {
    l.fail = None;
    l.is_soft = false;
    l.is_skip = false;
    l.note = None;
    let r = catch_unwind(AssertUnwindSafe(|| f(idx, l)));
    if r.is_err() {
        let (m, harness) = LAST_PANIC.with(|c| c.borrow_mut().take()).unwrap_or(("panicked".into(), false));
        if harness {
            eprintln!("HARNESS ERROR in case {}: {}", idx, m);
            std::process::exit(3);
        }
        l.fail(m);
    }
}

impl Ctx {
    pub fn new(prop: &'static str, tier: Tier, mode: Mode) -> Ctx {
        Ctx {
            prop,
            tier,
            mode,
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8),
            reports: vec![],
            samples: vec![],
            violations: vec![],
            known: vec![],
            assumptions: vec![],
            replay_hit: false,
            capped: false,
            start: Instant::now(),
            space_no: 0,
        }
    }
    pub fn deep(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    /// pick the bound of the tier
    pub fn by<T>(&self, quick: T, thorough: T) -> T {
        if self.quick() {
            quick
        } else {
            thorough
        }
    }
    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string())
    }

    fn merge(&mut self, mut rep: SpaceReport, locals: Vec<Local>) {
        for l in locals {
            rep.transitions += l.calls;
            rep.validated += l.strict;
            rep.soft += l.soft;
            rep.skipped += l.skipped;
            for (n, c) in l.outcomes {
                *rep.outcomes.entry(n.to_string()).or_insert(0) += c;
            }
            for k in l.known {
                if !self.known.iter().any(|x| x.0 == k.0) {
                    self.known.push(k)
                }
            }
        }
        self.reports.push(rep);
    }

    /// Every case 0..size of a finite space, in parallel; `bound` says what the space is.
    pub fn space<F>(&mut self, name: &str, bound: &str, size: u64, f: F)
    where
        F: Fn(u64, &mut Local) + Sync,
    {
        self.space_no += 1;
        match &self.mode {
            Mode::Replay(s, c) => {
                if s == name {
                    if let Case::Index(i) = c {
                        let i = *i;
                        self.replay_hit = true;
                        self.replay_index(name, i, &f);
                    }
                }
                return;
            }
            Mode::Trace(_) => trace_name(self.space_no, name),
            Mode::Only(s) => {
                if s != name {
                    return;
                }
            }
            _ => {}
        }
        assert!(size > 0, "empty space {}", name);
        let next = AtomicU64::new(0);
        let best = AtomicU64::new(u64::MAX);
        let found: Mutex<Option<(u64, String)>> = Mutex::new(None);
        let chunk = (size / (self.threads as u64 * 64)).clamp(1, 4096);
        let n = self.threads;
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..n).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let done = AtomicBool::new(false);
        let hang: Mutex<Option<u64>> = Mutex::new(None);
        let trace = if let Mode::Trace(file) = &self.mode { Some(file) } else { None };
        let space_no = self.space_no;
        let mut locals = vec![];
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for w in 0..n {
                let (next, best, found, slots, f) = (&next, &best, &found, &slots, &f);
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            QUIET.with(|q| q.set(true));
                            let mut l = Local::new();
                            loop {
                                let a = next.fetch_add(chunk, Relaxed);
                                if a >= size {
                                    break;
                                }
                                let b = (a + chunk).min(size);
                                for i in a..b {
                                    if i >= best.load(Relaxed) {
                                        break;
                                    }
                                    slots[w].0.store(i, Relaxed);
                                    if let Some(tf) = trace {
                                        let mut buf = [0u8; 16];
                                        buf[..8].copy_from_slice(&(space_no as u64).to_le_bytes());
                                        buf[8..].copy_from_slice(&(i + 1).to_le_bytes());
                                        let _ = tf.write_at(&buf, w as u64 * 16);
                                    }
                                    run_case(f, i, &mut l);
                                    if let Some(m) = l.fail.take() {
                                        best.fetch_min(i, Relaxed);
                                        let mut g = found.lock().unwrap();
                                        if g.as_ref().map_or(true, |x| i < x.0) {
                                            *g = Some((i, m));
                                        }
                                        break;
                                    }
                                    if l.is_skip {
                                        l.skipped += 1
                                    } else if l.is_soft {
                                        l.soft += 1
                                    } else {
                                        l.strict += 1
                                    }
                                }
                                slots[w].1.fetch_add(1, Relaxed);
                            }
                            slots[w].0.store(u64::MAX, Relaxed);
                            l
                        })
                        .unwrap(),
                );
            }
            // watchdog: a call that never returns is a violation, not a silent timeout
            let (slots, done, hang) = (&slots, &done, &hang);
            let (prop, tier) = (self.prop, self.tier);
            let name2 = name.to_string();
            sc.spawn(move || {
                let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (u64::MAX, Instant::now())).collect();
                while !done.load(Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    for w in 0..n {
                        let i = slots[w].0.load(Relaxed);
                        if i != last[w].0 {
                            last[w] = (i, Instant::now());
                        } else if i != u64::MAX && last[w].1.elapsed().as_secs() >= HANG_S {
                            *hang.lock().unwrap() = Some(i);
                            let v = Violation {
                                space: name2.clone(),
                                case: Case::Index(i),
                                msg: format!("a library call did not return within {} s", HANG_S),
                                desc: String::new(),
                            };
                            report_violation(prop, tier, &v);
                            std::process::exit(1);
                        }
                    }
                }
            });
            for h in hs {
                match h.join() {
                    Ok(l) => locals.push(l),
                    Err(_) => {
                        eprintln!("HARNESS ERROR: worker died");
                        std::process::exit(3);
                    }
                }
            }
            done.store(true, Relaxed);
        });
        let rep = SpaceReport {
            name: name.into(),
            bound: bound.into(),
            kind: "input space",
            states: 0,
            transitions: 0,
            validated: 0,
            soft: 0,
            skipped: 0,
            depth: 1,
            outcomes: BTreeMap::new(),
        };
        self.merge(rep, locals);
        let r = self.reports.last_mut().unwrap();
        r.states = r.validated + r.soft;
        // describe a few cases, spread over the space
        if let Some((i, m)) = found.into_inner().unwrap() {
            let d = self.describe_case(i, &f);
            self.violations.push(Violation { space: name.into(), case: Case::Index(i), msg: m, desc: d });
        } else {
            for k in [size / 3, (size / 3) * 2 + size / 7] {
                if self.samples.len() < 12 {
                    for i in (k..(k + 200).min(size)).chain(0..0) {
                        let mut l = Local::new();
                        l.want_note = true;
                        QUIET.with(|q| q.set(true));
                        run_case(&f, i, &mut l);
                        QUIET.with(|q| q.set(false));
                        if !l.is_skip {
                            if let Some(n) = l.note.take() {
                                self.samples.push(format!("[{} #{}] {}", name, i, n));
                            }
                            break;
                        }
                    }
                }
            }
        }
    }

    fn describe_case<F: Fn(u64, &mut Local)>(&self, i: u64, f: &F) -> String {
        QUIET.with(|q| q.set(true));
        let mut l = Local::new();
        l.want_note = true;
        run_case(f, i, &mut l);
        QUIET.with(|q| q.set(false));
        l.note.take().unwrap_or_default()
    }

    fn replay_index<F: Fn(u64, &mut Local)>(&mut self, name: &str, i: u64, f: &F) {
        let mut msgs = vec![];
        for _ in 0..2 {
            let mut l = Local::new();
            l.want_note = true;
            run_case(f, i, &mut l);
            println!("replay {} #{}: {}", name, i, l.note.clone().unwrap_or_default());
            println!("  -> {}", l.fail.clone().unwrap_or_else(|| "holds".into()));
            msgs.push((l.fail.clone(), l.note.clone()));
        }
        if msgs[0] != msgs[1] {
            println!("  (two replays differ: the library's answer depends on earlier calls)");
        }
        if let Some(m) = msgs[0].0.clone() {
            self.violations.push(Violation {
                space: name.into(),
                case: Case::Index(i),
                msg: m,
                desc: msgs[0].1.clone().unwrap_or_default(),
            });
        }
    }

    /// Breadth-first search over operation histories, to `max_depth` operations or to closure.
    /// `step` applies operation `op` of `nops` to a state by calling the library and comparing
    /// with the model; `None` means the operation is not enabled.
    pub fn bfs<S, K, St, Ke, De>(&mut self, name: &str, bound: &str, inits: Vec<S>, nops: u32, max_depth: u32, max_states: usize, step: St, key: Ke, opname: De)
    where
        S: Clone + Send + Sync,
        K: Hash + Eq + Send,
        St: Fn(&S, u32, &mut Local) -> Option<S> + Sync,
        Ke: Fn(&S) -> K + Sync,
        De: Fn(u32) -> String,
    {
        self.space_no += 1;
        match &self.mode {
            Mode::Replay(s, c) => {
                if s == name {
                    if let Case::History(i0, ops) = c.clone() {
                        self.replay_hit = true;
                        for round in 0..2 {
                            let mut st = inits[i0 as usize].clone();
                            let mut l = Local::new();
                            let mut bad = None;
                            for (n, op) in ops.iter().enumerate() {
                                let nxt = RefCell::new(None);
                                run_case(&|_, l: &mut Local| *nxt.borrow_mut() = step(&st, *op, l), 0, &mut l);
                                println!("replay {} step {}: {} -> {}", name, n, opname(*op), l.fail.clone().unwrap_or_else(|| "ok".into()));
                                if let Some(m) = l.fail.take() {
                                    bad = Some(m);
                                    break;
                                }
                                match nxt.into_inner() {
                                    Some(s) => st = s,
                                    None => break,
                                }
                            }
                            if round == 0 {
                                if let Some(m) = bad {
                                    self.violations.push(Violation { space: name.into(), case: Case::History(i0, ops.clone()), msg: m, desc: String::new() });
                                }
                            }
                        }
                    }
                }
                return;
            }
            Mode::Trace(_) => trace_name(self.space_no, name),
            Mode::Only(s) => {
                if s != name {
                    return;
                }
            }
            _ => {}
        }
        // arena of visited states: parent, operation
        let mut parent: Vec<(u32, u32)> = vec![];
        let mut seen: HashMap<K, u32> = HashMap::new();
        let mut frontier: Vec<(u32, S)> = vec![];
        let mut total = Local::new();
        for (i, s) in inits.iter().enumerate() {
            let k = key(s);
            if !seen.contains_key(&k) {
                let id = parent.len() as u32;
                seen.insert(k, id);
                parent.push((u32::MAX, i as u32));
                frontier.push((id, s.clone()));
            }
        }
        let mut depth = 0;
        let mut transitions = 0u64;
        let mut violation: Option<(u32, u32, String)> = None;
        let mut capped = false;
        let space_no = self.space_no;
        while !frontier.is_empty() && depth < max_depth && violation.is_none() && !capped {
            let n = self.threads;
            let next = AtomicU64::new(0);
            let slots: Vec<AtomicU64> = (0..n).map(|_| AtomicU64::new(u64::MAX)).collect();
            let done = AtomicBool::new(false);
            let trace = if let Mode::Trace(file) = &self.mode { Some(file) } else { None };
            let fr = &frontier;
            let mut results: Vec<(u32, u32, S, K)> = vec![];
            let mut fails: Vec<(u32, u32, String)> = vec![];
            std::thread::scope(|sc| {
                let mut hs = vec![];
                for w in 0..n {
                    let (next, step, key, slots) = (&next, &step, &key, &slots);
                    hs.push(
                        std::thread::Builder::new()
                            .stack_size(16 << 20)
                            .spawn_scoped(sc, move || {
                                QUIET.with(|q| q.set(true));
                                let mut l = Local::new();
                                let mut out = vec![];
                                let mut bad = vec![];
                                loop {
                                    let a = next.fetch_add(16, Relaxed) as usize;
                                    if a >= fr.len() {
                                        break;
                                    }
                                    for (id, s) in &fr[a..(a + 16).min(fr.len())] {
                                        for op in 0..nops {
                                            slots[w].store(((*id as u64) << 20) | op as u64, Relaxed);
                                            if let Some(tf) = trace {
                                                let mut buf = [0u8; 16];
                                                buf[..8].copy_from_slice(&(space_no as u64).to_le_bytes());
                                                buf[8..].copy_from_slice(&1u64.to_le_bytes());
                                                let _ = tf.write_at(&buf, w as u64 * 16);
                                            }
                                            let nxt = RefCell::new(None);
                                            run_case(&|_, l: &mut Local| *nxt.borrow_mut() = step(s, op, l), 0, &mut l);
                                            if let Some(m) = l.fail.take() {
                                                bad.push((*id, op, m));
                                                break;
                                            }
                                            if let Some(t) = nxt.into_inner() {
                                                l.strict += 1;
                                                let k = key(&t);
                                                out.push((*id, op, t, k));
                                            }
                                        }
                                        if !bad.is_empty() {
                                            break;
                                        }
                                    }
                                    if !bad.is_empty() {
                                        break;
                                    }
                                }
                                slots[w].store(u64::MAX, Relaxed);
                                (l, out, bad)
                            })
                            .unwrap(),
                    );
                }
                let (slots, done) = (&slots, &done);
                let (prop, tier, name2) = (self.prop, self.tier, name.to_string());
                let parent2 = &parent;
                sc.spawn(move || {
                    let mut last: Vec<(u64, Instant)> = (0..n).map(|_| (u64::MAX, Instant::now())).collect();
                    while !done.load(Relaxed) {
                        std::thread::sleep(std::time::Duration::from_millis(5));
                        for w in 0..n {
                            let i = slots[w].load(Relaxed);
                            if i != last[w].0 {
                                last[w] = (i, Instant::now());
                            } else if i != u64::MAX && last[w].1.elapsed().as_secs() >= HANG_S {
                                let (i0, mut ops) = history(parent2, (i >> 20) as u32);
                                ops.push((i & 0xfffff) as u32);
                                let v = Violation { space: name2.clone(), case: Case::History(i0, ops), msg: format!("a library call did not return within {} s", HANG_S), desc: String::new() };
                                report_violation(prop, tier, &v);
                                std::process::exit(1);
                            }
                        }
                    }
                });
                for h in hs {
                    match h.join() {
                        Ok((l, o, b)) => {
                            total.calls += l.calls;
                            total.strict += l.strict;
                            for (nm, c) in l.outcomes {
                                if let Some(x) = total.outcomes.iter_mut().find(|x| x.0 == nm) {
                                    x.1 += c
                                } else {
                                    total.outcomes.push((nm, c))
                                }
                            }
                            for k in l.known {
                                if !total.known.iter().any(|x| x.0 == k.0) {
                                    total.known.push(k)
                                }
                            }
                            results.extend(o);
                            fails.extend(b);
                        }
                        Err(_) => {
                            eprintln!("HARNESS ERROR: worker died");
                            std::process::exit(3);
                        }
                    }
                }
                done.store(true, Relaxed);
            });
            transitions += results.len() as u64;
            fails.sort_by_key(|x| (x.0, x.1));
            if let Some(v) = fails.into_iter().next() {
                violation = Some(v);
                break;
            }
            // deterministic order whatever the thread timing
            results.sort_by_key(|r| (r.0, r.1));
            let mut nf = vec![];
            for (pid, op, s, k) in results {
                if seen.len() >= max_states {
                    capped = true;
                    break;
                }
                if let std::collections::hash_map::Entry::Vacant(e) = seen.entry(k) {
                    let id = parent.len() as u32;
                    e.insert(id);
                    parent.push((pid, op));
                    nf.push((id, s));
                }
            }
            frontier = nf;
            depth += 1;
        }
        let closed = frontier.is_empty();
        self.capped |= capped;
        let mut rep = SpaceReport {
            name: name.into(),
            bound: format!("{}; {}", bound, if closed { format!("closed: no new state after {} operations", depth) } else if capped { format!("STOPPED at {} states, complete to {} operations", max_states, depth.saturating_sub(1)) } else { format!("all histories of up to {} operations", depth) }),
            kind: "operation histories",
            states: parent.len() as u64,
            transitions: 0,
            validated: 0,
            soft: 0,
            skipped: 0,
            depth: depth as u64,
            outcomes: BTreeMap::new(),
        };
        if transitions > 0 {
            rep.outcomes.insert("model transitions".into(), transitions);
        }
        let sample_ids: Vec<u32> = vec![parent.len() as u32 / 2, parent.len() as u32 - 1];
        self.merge(rep, vec![total]);
        if let Some((id, op, m)) = violation {
            let (i0, mut ops) = history(&parent, id);
            ops.push(op);
            let desc = format!("initial state {}; {}", i0, ops.iter().map(|o| opname(*o)).collect::<Vec<_>>().join("; "));
            self.violations.push(Violation { space: name.into(), case: Case::History(i0, ops), msg: m, desc });
        } else {
            for id in sample_ids {
                if self.samples.len() < 14 {
                    let (i0, ops) = history(&parent, id);
                    self.samples.push(format!("[{}] initial state {}; {}", name, i0, ops.iter().map(|o| opname(*o)).collect::<Vec<_>>().join("; ")));
                }
            }
        }
    }

    /// 0: held, 1: violated
    pub fn finish(self, verif: &str) -> i32 {
        let wall = self.start.elapsed().as_secs_f64();
        let mut rc = 0;
        if let Mode::Replay(s, c) = &self.mode {
            if !self.replay_hit {
                eprintln!("replay: no space {} in {} ({:?})", s, self.prop, c);
                return 2;
            }
            for v in &self.violations {
                println!("VIOLATION property={} replay={}", self.prop, replay_path(self.prop, &v.space));
                rc = 1;
            }
            return rc;
        }
        for (k, m) in &self.known {
            println!("KNOWN-FINDING: property={} {} {}", self.prop, k, m);
        }
        for v in &self.violations {
            report_violation(self.prop, self.tier, v);
            rc = 1;
        }
        let states: u64 = self.reports.iter().map(|r| r.states).sum();
        let trans: u64 = self.reports.iter().map(|r| r.transitions).sum();
        let val: u64 = self.reports.iter().map(|r| r.validated).sum();
        let mut j = String::new();
        let tier = if self.quick() { "quick" } else { "thorough" };
        let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let _ = write!(j, "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n", js(self.prop), tier, seed);
        let _ = write!(j, "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"exhaustive\": {},\n", states, trans, val, rc == 0 && !self.capped);
        let _ = write!(j, "  \"counting\": \"states: distinct scenes/inputs (every index of a product space is a different one; out-of-domain ones are not counted) plus states distinct by exact key in the history searches; transitions: calls of the real library made and observed; traces_validated_against_impl: scenes or history steps whose complete predicted observation was compared strictly with the real library (cases of exact contact that floating point cannot decide are run but not counted)\",\n");
        let _ = write!(j, "  \"spaces\": [\n");
        for (i, r) in self.reports.iter().enumerate() {
            let oc = r.outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ");
            let _ = write!(j, "   {{\"name\": {}, \"kind\": {}, \"bound\": {}, \"states\": {}, \"transitions\": {}, \"strictly_validated\": {}, \"undecided_contact\": {}, \"out_of_domain\": {}, \"depth\": {}, \"outcomes\": {{{}}}}}{}\n", js(&r.name), js(r.kind), js(&r.bound), r.states, r.transitions, r.validated, r.soft, r.skipped, r.depth, oc, if i + 1 < self.reports.len() { "," } else { "" });
        }
        let _ = write!(j, "  ],\n  \"samples\": [{}]\n }},\n", self.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(",\n   "));
        let _ = write!(j, " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", self.assumptions.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "), wall, self.violations.len());
        let dir = format!("{}/evidence", verif);
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(format!("{}/{}.json", dir, self.prop), j) {
            eprintln!("cannot write evidence: {}", e);
            return 2;
        }
        for r in &self.reports {
            println!("{} {}: states={} calls={} validated={} undecided={} depth={} {:?}", self.prop, r.name, r.states, r.transitions, r.validated, r.soft, r.depth, r.outcomes);
        }
        println!("{} {}: {} spaces, states={} transitions={} validated={} wall={:.1}s {}", self.prop, tier, self.reports.len(), states, trans, val, wall, if rc == 0 { "held" } else { "VIOLATED" });
        rc
    }
}

fn history(parent: &[(u32, u32)], mut id: u32) -> (u64, Vec<u32>) {
    let mut ops = vec![];
    loop {
        let (p, op) = parent[id as usize];
        if p == u32::MAX {
            ops.reverse();
            return (op as u64, ops);
        }
        ops.push(op);
        id = p;
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

pub fn replay_path(prop: &str, space: &str) -> String {
    let s: String = space.chars().map(|c| if c.is_ascii_alphanumeric() || c == '-' || c == '_' { c } else { '_' }).collect();
    format!("{}/replays/{}-{}.replay", verif_dir(), prop, s)
}

pub fn report_violation(prop: &str, tier: Tier, v: &Violation) {
    let p = replay_path(prop, &v.space);
    let _ = std::fs::create_dir_all(format!("{}/replays", verif_dir()));
    let mut s = String::new();
    let _ = writeln!(s, "property {}", prop);
    let _ = writeln!(s, "tier {}", if tier == Tier::Quick { "quick" } else { "thorough" });
    let _ = writeln!(s, "space {}", v.space);
    match &v.case {
        Case::Index(i) => {
            let _ = writeln!(s, "index {}", i);
        }
        Case::History(i, ops) => {
            let _ = writeln!(s, "history {} {}", i, ops.iter().map(|o| o.to_string()).collect::<Vec<_>>().join(" "));
        }
    }
    let _ = writeln!(s, "# {}", v.desc.replace('\n', " "));
    let _ = writeln!(s, "# {}", v.msg.replace('\n', " "));
    let _ = writeln!(s, "# replay: /verif/check.sh {} --replay {}", prop, p);
    let _ = std::fs::write(&p, s);
    println!("counterexample {} {:?}", v.space, v.case);
    println!("  {}", v.desc);
    println!("  {}", v.msg);
    println!("VIOLATION property={} replay={}", prop, p);
}

pub fn parse_replay(path: &str) -> Option<(String, Tier, String, Case)> {
    let t = std::fs::read_to_string(path).ok()?;
    let (mut p, mut ti, mut sp, mut ca) = (None, Tier::Quick, None, None);
    for line in t.lines() {
        let mut it = line.splitn(2, ' ');
        let (k, v) = (it.next()?, it.next().unwrap_or(""));
        match k {
            "property" => p = Some(v.to_string()),
            "tier" => ti = if v == "thorough" { Tier::Thorough } else { Tier::Quick },
            "space" => sp = Some(v.to_string()),
            "index" => ca = Some(Case::Index(v.parse().ok()?)),
            "history" => {
                let mut n = v.split_whitespace();
                let i0 = n.next()?.parse().ok()?;
                ca = Some(Case::History(i0, n.map(|x| x.parse().unwrap()).collect()))
            }
            _ => {}
        }
    }
    Some((p?, ti, sp?, ca?))
}

/// Mixed-radix decoder of a case index.
pub struct Dec(pub u64);
impl Dec {
    #[inline]
    pub fn take(&mut self, n: usize) -> usize {
        let r = self.0 % n as u64;
        self.0 /= n as u64;
        r as usize
    }
    #[inline]
    pub fn pick<T: Copy>(&mut self, s: &[T]) -> T {
        let n = self.take(s.len());
        s[n]
    }
}

/// An alphabet: its elements must differ, so that an index names one case.
pub fn alph<T: PartialEq + std::fmt::Debug>(v: Vec<T>) -> Vec<T> {
    assert!(v.len() < 100_000);
    if v.len() < 3000 {
        for i in 0..v.len() {
            for j in 0..i {
                assert!(v[i] != v[j] || format!("{:?}", v[i]) != format!("{:?}", v[j]), "duplicate in alphabet: {:?}", v[i]);
            }
        }
    }
    v
}
