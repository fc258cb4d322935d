//! Exhaustive exploration of a choice tree.
//!
//! A scenario is a closure that obtains every nondeterministic decision from `choose` (all
//! alternatives are explored) or `choose_dev` (alternatives other than 0 are deviations from the
//! default and at most `Config::bound` of them are taken in one execution). The scenario is
//! re-executed once per leaf; two executions that share a prefix of choices must see the same
//! choice points, which is verified on every replay.
//!
//! A third kind of decision is which process moves next (`schedule`). It starts with one
//! alternative; others are added when an execution shows (`backtrack`) that two of its steps race,
//! as in source-set dynamic partial-order reduction. Alternatives explored before an alternative
//! are handed back with it, for sleep sets.
use crate::coro;
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Config {
    /// Maximum number of deviations (non-default `choose_dev` answers) per execution.
    pub bound: u32,
    pub threads: usize,
    /// Wall clock cap of one exploration.
    pub wall: Duration,
    /// Run every execution on a fresh thread (fixes the iteration order of std hash maps).
    pub fresh_thread: bool,
    /// Wall clock cap of one execution: exceeding it means the code did not terminate.
    pub exec_wall: Duration,
    /// Stop at the first violation that is not listed.
    pub stop_on_violation: bool,
    /// One worker, whose executions come one after another in a fixed order; violations are not replayed.
    pub serial: bool,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            bound: 0,
            threads: 8,
            wall: Duration::from_secs(600),
            fresh_thread: false,
            exec_wall: Duration::from_secs(60),
            stop_on_violation: true,
            serial: false,
        }
    }
}

impl Config {
    pub fn bound(bound: u32) -> Config {
        Config {
            bound,
            ..Config::default()
        }
    }
    pub fn fresh(mut self) -> Config {
        self.fresh_thread = true;
        self
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    /// Identifies the failing input, call site or history (known findings are matched on it).
    pub key: String,
    pub msg: String,
    pub choices: Vec<u32>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Exploration {
    pub name: String,
    pub bound: u32,
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub pruned: u64,
    pub max_depth: usize,
    pub outcomes: usize,
    pub outcomes_capped: bool,
    pub complete: bool,
    pub wall_s: f64,
    pub samples: Vec<Vec<String>>,
    pub violations: BTreeMap<String, Violation>,
    /// Violations whose key is a listed known finding: executions affected, per key.
    pub known: BTreeMap<String, u64>,
    pub divergence: Option<String>,
    /// Violations which the same choices alone do not lead to: what happened depends on executions before.
    pub unconfirmed: Vec<Violation>,
}

#[derive(Clone)]
struct Point {
    /// 0 in a replay from bare choices: not known.
    n: u32,
    c: u32,
    sched: Option<Arc<Branch>>,
}

/// One alternative of a scheduling point.
struct Branch {
    node: Arc<Node>,
    /// The alternatives that come before it.
    earlier: Vec<u32>,
}

/// A scheduling point, shared by all executions through it.
struct Node {
    sleep: Vec<u32>,
    alts: Mutex<Alts>,
}

struct Alts {
    /// Everything explored or to be explored.
    order: Vec<u32>,
    /// What the worker that has this point on its stack has still to explore.
    todo: Vec<u32>,
}

impl Node {
    fn branch(self: &Arc<Node>, order: &[u32], c: u32) -> Arc<Branch> {
        let at = order.iter().position(|x| *x == c).unwrap();
        Arc::new(Branch { node: self.clone(), earlier: order[..at].to_vec() })
    }
}

struct Exec {
    prefix: Vec<Point>,
    trace: Vec<Point>,
    /// Alternatives to explore, one of each, by scheduling point.
    races: Vec<(usize, Vec<u32>)>,
    budget: u32,
    steps: u64,
    notes: Option<Vec<String>>,
    outcome: u64,
    has_outcome: bool,
    pruned: bool,
}

thread_local! {
    static EXEC: RefCell<Option<Exec>> = const { RefCell::new(None) };
}

struct Fail(String, String);
struct Prune;
struct Diverged(String);

pub fn is_control(e: &(dyn Any + Send)) -> bool {
    e.is::<Fail>() || e.is::<Prune>() || e.is::<Diverged>() || e.is::<coro::Cancel>()
}

/// The point of the prefix that this decision repeats, if it does.
fn replayed(e: &Exec, n: usize) -> Result<Option<Point>, String> {
    let i = e.trace.len();
    let Some(p) = e.prefix.get(i) else { return Ok(None) };
    if p.n != 0 && p.n != n as u32 {
        return Err(format!("replay diverged at choice {i}: arity {} before, {n} now", p.n));
    }
    if p.c as usize >= n {
        return Err(format!("replay diverged at choice {i}: {} of {n}", p.c));
    }
    Ok(Some(p.clone()))
}

/// A decision which of `n` processes moves next, of which those in `sleep` need not be explored.
pub struct Scheduled {
    pub choice: usize,
    /// Explored before this one.
    pub earlier: Vec<u32>,
    /// Where alternatives can be added.
    pub point: Option<usize>,
}

/// Explores one alternative; with `all`, every one that does not sleep.
pub fn schedule(n: usize, sleep: &[u32], all: bool) -> Scheduled {
    assert!(sleep.len() < n, "nobody to schedule");
    if n == 1 {
        return Scheduled { choice: 0, earlier: vec![], point: None };
    }
    let r = EXEC.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.as_mut().expect("schedule outside an execution");
        let point = e.trace.len();
        let p = match replayed(e, n)? {
            Some(p) => p,
            None => {
                let mut awake = (0..n as u32).filter(|x| !sleep.contains(x));
                let c = awake.next().unwrap();
                let mut order = vec![c];
                if all {
                    order.extend(awake);
                }
                let todo = order[1..].iter().rev().copied().collect();
                let node = Arc::new(Node { sleep: sleep.to_vec(), alts: Mutex::new(Alts { order, todo }) });
                Point { n: n as u32, c, sched: Some(Arc::new(Branch { node, earlier: vec![] })) }
            }
        };
        let s = Scheduled { choice: p.c as usize, earlier: p.sched.as_ref().map_or(vec![], |b| b.earlier.clone()), point: Some(point) };
        e.trace.push(p);
        Ok(s)
    });
    match r {
        Ok(s) => s,
        Err(m) => {
            dying();
            resume_unwind(Box::new(Diverged(m)))
        }
    }
}

/// Whether this execution still repeats an earlier one.
pub fn replaying() -> bool {
    EXEC.with(|e| e.borrow().as_ref().is_some_and(|e| e.trace.len() < e.prefix.len()))
}

/// At this scheduling point, one of these has to be explored as well, unless one is or sleeps.
pub fn backtrack(point: usize, any_of: Vec<u32>) {
    EXEC.with(|e| {
        if let Some(e) = e.borrow_mut().as_mut() {
            e.races.push((point, any_of));
        }
    })
}

fn record(n: usize, dev: bool) -> usize {
    debug_assert!(n > 0);
    if n <= 1 {
        return 0;
    }
    let r = EXEC.with(|e| {
        let mut e = e.borrow_mut();
        let e = e.as_mut().expect("choose outside an execution");
        if dev && e.budget == 0 {
            return Ok(0);
        }
        let c = match replayed(e, n)? {
            Some(p) => p.c,
            None => 0,
        };
        e.trace.push(Point { n: n as u32, c, sched: None });
        if dev && c != 0 {
            e.budget -= 1;
        }
        Ok(c as usize)
    });
    match r {
        Ok(c) => c,
        Err(m) => {
            dying();
            resume_unwind(Box::new(Diverged(m)))
        }
    }
}

/// A decision among `n` alternatives, all of which are explored.
pub fn choose(n: usize) -> usize {
    record(n, false)
}

/// A decision among `n` answers where 0 is the default and every other one is a deviation.
pub fn choose_dev(n: usize) -> usize {
    record(n, true)
}

/// An element of a slice, all of which are explored.
pub fn pick<T>(xs: &[T]) -> &T {
    &xs[choose(xs.len())]
}

/// Count an operation executed on the code under test.
pub fn step() {
    EXEC.with(|e| {
        if let Some(e) = e.borrow_mut().as_mut() {
            e.steps += 1;
        }
    })
}

/// Whether notes of this execution are kept (samples and replays).
pub fn noting() -> bool {
    EXEC.with(|e| e.borrow().as_ref().is_some_and(|e| e.notes.is_some()))
}

/// Describe what happens in this execution, for replays and samples.
pub fn note(f: impl FnOnce() -> String) {
    if noting() {
        let s = f();
        EXEC.with(|e| {
            if let Some(n) = e.borrow_mut().as_mut().and_then(|e| e.notes.as_mut()) {
                if n.len() < 4000 {
                    n.push(s)
                }
            }
        })
    }
}

/// Register an observed outcome (distinct ones are counted).
pub fn outcome<H: std::hash::Hash + ?Sized>(h: &H) {
    use std::hash::Hasher;
    let mut s = Fnv(0xcbf29ce484222325);
    h.hash(&mut s);
    EXEC.with(|e| {
        if let Some(e) = e.borrow_mut().as_mut() {
            e.outcome = e.outcome.wrapping_mul(0x9E3779B97F4A7C15) ^ s.finish();
            e.has_outcome = true;
        }
    })
}

struct Fnv(u64);
impl std::hash::Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}

fn dying() {
    if coro::in_coro() {
        coro::DYING.with(|d| d.set(true));
    }
}

/// The property is violated in this execution.
pub fn fail_key(key: impl Into<String>, msg: impl Into<String>) -> ! {
    dying();
    resume_unwind(Box::new(Fail(key.into(), msg.into())))
}

pub fn fail(msg: impl Into<String>) -> ! {
    let m = msg.into();
    fail_key(m.clone(), m)
}

/// Abandon this execution: it is equivalent to one explored elsewhere.
pub fn prune() -> ! {
    dying();
    resume_unwind(Box::new(Prune))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)+) => { if !$c { $crate::fail(format!($($a)+)) } };
}

enum Verdict {
    Ok,
    Pruned,
    Fail(String, String),
    Diverged(String),
}

struct Done {
    verdict: Verdict,
    trace: Vec<Point>,
    races: Vec<(usize, Vec<u32>)>,
    steps: u64,
    outcome: Option<u64>,
    notes: Vec<String>,
}

fn run_one(
    body: &(dyn Fn() + Sync),
    prefix: Vec<Point>,
    bound: u32,
    notes: bool,
) -> Done {
    EXEC.with(|e| {
        *e.borrow_mut() = Some(Exec {
            prefix,
            trace: Vec::new(),
            races: Vec::new(),
            budget: bound,
            steps: 0,
            notes: if notes { Some(Vec::new()) } else { None },
            outcome: 0,
            has_outcome: false,
            pruned: false,
        })
    });
    let r = catch_unwind(AssertUnwindSafe(body));
    crate::host::clear();
    let e = EXEC.with(|e| e.borrow_mut().take().unwrap());
    let verdict = match r {
        Ok(()) => Verdict::Ok,
        Err(p) => {
            if let Some(f) = p.downcast_ref::<Fail>() {
                Verdict::Fail(f.0.clone(), f.1.clone())
            } else if p.is::<Prune>() {
                Verdict::Pruned
            } else if let Some(d) = p.downcast_ref::<Diverged>() {
                Verdict::Diverged(d.0.clone())
            } else {
                let t = coro::panic_text(&*p);
                Verdict::Diverged(format!("the harness itself panicked: {t}"))
            }
        }
    };
    let _ = e.pruned;
    // A prefix that is longer than the trace means the program took another path.
    let verdict = if e.trace.len() < e.prefix.len() && !matches!(verdict, Verdict::Diverged(_) | Verdict::Fail(..)) {
        Verdict::Diverged(format!(
            "replay diverged: {} choices made, {} expected",
            e.trace.len(),
            e.prefix.len()
        ))
    } else {
        verdict
    };
    Done {
        verdict,
        steps: e.steps,
        outcome: if e.has_outcome { Some(e.outcome) } else { None },
        notes: e.notes.unwrap_or_default(),
        trace: e.trace,
        races: e.races,
    }
}

fn run_exec(
    body: &(dyn Fn() + Sync),
    prefix: Vec<Point>,
    cfg: &Config,
    notes: bool,
) -> Done {
    if cfg.fresh_thread {
        std::thread::scope(|s| {
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn_scoped(s, || run_one(body, prefix, cfg.bound, notes))
                .expect("spawn")
                .join()
                .expect("execution thread")
        })
    } else {
        run_one(body, prefix, cfg.bound, notes)
    }
}

/// Re-execute one recorded execution.
pub fn replay(body: &(dyn Fn() + Sync), choices: &[u32], cfg: &Config) -> (Option<(String, String)>, Vec<String>, Option<String>) {
    let prefix = choices.iter().map(|c| Point { n: 0, c: *c, sched: None }).collect();
    let d = run_exec(body, prefix, cfg, true);
    match d.verdict {
        Verdict::Fail(k, m) => (Some((k, m)), d.notes, None),
        Verdict::Diverged(m) => (None, d.notes, Some(m)),
        _ => (None, d.notes, None),
    }
}

struct Task {
    prefix: Vec<Point>,
}

struct Shared {
    queue: Mutex<(Vec<Task>, usize)>, // tasks, idle workers
    cv: Condvar,
    hungry: AtomicUsize,
    stop: AtomicBool,
    capped: AtomicBool,
    progress: AtomicU64,
}

struct Slot {
    since: Mutex<Option<(Instant, Vec<u32>)>>,
}

pub fn explore(
    name: &str,
    cfg: &Config,
    known: &(dyn Fn(&str) -> bool + Sync),
    on_hang: &(dyn Fn(Violation) + Sync),
    body: &(dyn Fn() + Sync),
) -> Exploration {
    let t0 = Instant::now();
    let threads = if cfg.serial { 1 } else { cfg.threads.max(1) };
    let sh = Shared {
        queue: Mutex::new((
            vec![Task {
                prefix: vec![],
            }],
            0,
        )),
        cv: Condvar::new(),
        hungry: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        capped: AtomicBool::new(false),
        progress: AtomicU64::new(0),
    };
    let slots: Vec<Arc<Slot>> = (0..threads)
        .map(|_| {
            Arc::new(Slot {
                since: Mutex::new(None),
            })
        })
        .collect();
    let total = Mutex::new((Exploration::default(), HashSet::<u64>::new()));
    let finished = AtomicBool::new(false);

    std::thread::scope(|s| {
        let mut hs = vec![];
        for slot in slots.iter() {
            let (sh, total, slot) = (&sh, &total, slot.clone());
            hs.push(
                std::thread::Builder::new()
                    .name("worker".into())
                    .stack_size(8 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Exploration::default();
                        let mut outs = HashSet::new();
                        worker(sh, threads, cfg, known, body, &slot, &mut local, &mut outs);
                        let mut t = total.lock().unwrap();
                        t.0.executions += local.executions;
                        t.0.states += local.states;
                        t.0.transitions += local.transitions;
                        t.0.pruned += local.pruned;
                        t.0.max_depth = t.0.max_depth.max(local.max_depth);
                        t.0.outcomes_capped |= local.outcomes_capped;
                        for (k, n) in local.known {
                            *t.0.known.entry(k).or_default() += n;
                        }
                        if local.divergence.is_some() {
                            t.0.divergence = local.divergence;
                        }
                        for (k, v) in local.violations {
                            let better = match t.0.violations.get(&k) {
                                None => true,
                                Some(o) => {
                                    weight(&v.choices) < weight(&o.choices)
                                }
                            };
                            if better {
                                t.0.violations.insert(k, v);
                            }
                        }
                        if t.0.samples.len() < 3 {
                            t.0.samples.extend(local.samples);
                        }
                        if t.1.len() < 4_000_000 {
                            t.1.extend(outs);
                        } else {
                            t.0.outcomes_capped = true;
                        }
                    })
                    .unwrap(),
            );
        }
        // watchdog
        let w = s.spawn(|| {
            while !finished.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(50));
                if t0.elapsed() > cfg.wall && !sh.stop.swap(true, Ordering::Relaxed) {
                    sh.capped.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                }
                for slot in &slots {
                    let g = slot.since.lock().unwrap();
                    if let Some((t, p)) = g.as_ref() {
                        if t.elapsed() > cfg.exec_wall {
                            on_hang(Violation {
                                key: "no-termination".into(),
                                msg: format!(
                                    "an execution did not finish within {:?}",
                                    cfg.exec_wall
                                ),
                                choices: p.clone(),
                                notes: vec![],
                            });
                        }
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        finished.store(true, Ordering::Relaxed);
        w.join().unwrap();
    });

    let (mut ex, outs) = total.into_inner().unwrap();
    ex.name = name.to_string();
    ex.bound = cfg.bound;
    ex.outcomes = outs.len();
    ex.complete = !sh.capped.load(Ordering::Relaxed)
        && !(sh.stop.load(Ordering::Relaxed))
        && ex.divergence.is_none();
    ex.wall_s = t0.elapsed().as_secs_f64();
    ex.samples.truncate(3);
    if cfg.serial {
        return ex;
    }
    // Confirm violations: the same choices must fail in the same way, twice.
    for (k, mut v) in std::mem::take(&mut ex.violations) {
        let same = (0..2).all(|_| {
            let (r, notes, _) = replay(body, &v.choices, cfg);
            v.notes = notes;
            r.is_some_and(|(k2, _)| k2 == k)
        });
        if same {
            ex.violations.insert(k, v);
        } else {
            ex.unconfirmed.push(v);
        }
    }
    ex
}

fn weight(c: &[u32]) -> (usize, usize, Vec<u32>) {
    (c.iter().filter(|x| **x != 0).count(), c.len(), c.to_vec())
}

#[allow(clippy::too_many_arguments)]
fn worker(
    sh: &Shared,
    threads: usize,
    cfg: &Config,
    known: &(dyn Fn(&str) -> bool + Sync),
    body: &(dyn Fn() + Sync),
    slot: &Slot,
    st: &mut Exploration,
    outs: &mut HashSet<u64>,
) {
    loop {
        // take a task
        let task = {
            let mut q = sh.queue.lock().unwrap();
            q.1 += 1;
            sh.hungry.store(q.1, Ordering::Relaxed);
            loop {
                if sh.stop.load(Ordering::Relaxed) {
                    sh.cv.notify_all();
                    return;
                }
                if let Some(t) = q.0.pop() {
                    q.1 -= 1;
                    sh.hungry.store(q.1, Ordering::Relaxed);
                    break t;
                }
                if q.1 == threads {
                    sh.stop_idle();
                    return;
                }
                let (g, _) = sh.cv.wait_timeout(q, Duration::from_millis(20)).unwrap();
                q = g;
                if sh.progress.load(Ordering::Relaxed) == u64::MAX {
                    return;
                }
            }
        };
        let mut floor = task.prefix.len();
        let mut prefix = task.prefix;
        let mut fresh_from = prefix.len(); // choices before this index were visited before
        loop {
            if sh.stop.load(Ordering::Relaxed) {
                break;
            }
            let notes = st.samples.len() < 2 && sh.progress.load(Ordering::Relaxed) < 40;
            *slot.since.lock().unwrap() = Some((Instant::now(), prefix.iter().map(|p| p.c).collect()));
            let d = run_exec(body, std::mem::take(&mut prefix), cfg, notes);
            *slot.since.lock().unwrap() = None;
            st.executions += 1;
            let pr = sh.progress.load(Ordering::Relaxed);
            if pr < 1_000_000 {
                sh.progress.store(pr + 1, Ordering::Relaxed);
            }
            st.transitions += d.steps;
            st.states += (d.trace.len() + 1).saturating_sub(fresh_from) as u64;
            st.max_depth = st.max_depth.max(d.trace.len());
            if let Some(o) = d.outcome {
                if outs.len() < 2_000_000 {
                    outs.insert(o);
                } else {
                    st.outcomes_capped = true;
                }
            }
            if notes && !d.notes.is_empty() && matches!(d.verdict, Verdict::Ok) {
                let mut n = d.notes.clone();
                n.truncate(60);
                st.samples.push(n);
            }
            match d.verdict {
                Verdict::Ok => {}
                Verdict::Pruned => st.pruned += 1,
                Verdict::Fail(key, msg) => {
                    if known(&key) {
                        *st.known.entry(key).or_default() += 1;
                    } else {
                        let choices: Vec<u32> = d.trace.iter().map(|p| p.c).collect();
                        let better = match st.violations.get(&key) {
                            None => st.violations.len() < 200,
                            Some(o) => weight(&choices) < weight(&o.choices),
                        };
                        if better {
                            st.violations.insert(
                                key.clone(),
                                Violation {
                                    key,
                                    msg,
                                    choices,
                                    notes: d.notes,
                                },
                            );
                        }
                        if cfg.stop_on_violation {
                            sh.stop.store(true, Ordering::Relaxed);
                            sh.cv.notify_all();
                        }
                    }
                }
                Verdict::Diverged(m) => {
                    st.divergence = Some(format!(
                        "{m}; choices {:?}",
                        d.trace.iter().map(|p| p.c).collect::<Vec<_>>()
                    ));
                    sh.stop.store(true, Ordering::Relaxed);
                    sh.cv.notify_all();
                    return;
                }
            }
            let trace = d.trace;
            // what the races of this execution ask for
            for (i, any_of) in d.races {
                let Some(b) = trace[i].sched.as_ref() else { continue };
                let mut a = b.node.alts.lock().unwrap();
                if any_of.iter().any(|x| a.order.contains(x) || b.node.sleep.contains(x)) {
                    continue;
                }
                a.order.push(any_of[0]);
                if i >= floor {
                    a.todo.push(any_of[0]);
                    continue;
                }
                let p = step_aside(&trace, i, any_of[0], &a.order);
                drop(a);
                sh.queue.lock().unwrap().0.push(Task { prefix: p });
                sh.cv.notify_one();
            }
            // donate the shallowest open alternatives
            if sh.hungry.load(Ordering::Relaxed) > 0 {
                for i in floor..trace.len() {
                    let open = open(&trace, i);
                    if open.is_empty() {
                        continue;
                    }
                    let mut q = sh.queue.lock().unwrap();
                    q.0.extend(open.into_iter().rev().map(|prefix| Task { prefix }));
                    drop(q);
                    sh.cv.notify_all();
                    floor = i + 1;
                    break;
                }
            }
            // next leaf
            let mut i = trace.len();
            let mut found = false;
            while i > floor && !found {
                i -= 1;
                match &trace[i].sched {
                    None => {
                        if trace[i].c + 1 < trace[i].n {
                            prefix = step_aside(&trace, i, trace[i].c + 1, &[]);
                            found = true;
                        }
                    }
                    Some(b) => {
                        let mut a = b.node.alts.lock().unwrap();
                        if let Some(x) = a.todo.pop() {
                            prefix = step_aside(&trace, i, x, &a.order);
                            found = true;
                        }
                    }
                }
            }
            if !found {
                break;
            }
            fresh_from = i + 1;
        }
    }
}

/// The prefix that goes to alternative `c` at point `i`.
fn step_aside(trace: &[Point], i: usize, c: u32, order: &[u32]) -> Vec<Point> {
    let mut p = trace[..=i].to_vec();
    p[i].c = c;
    p[i].sched = trace[i].sched.as_ref().map(|b| b.node.branch(order, c));
    p
}

/// All that is open at point `i`, which is no longer on the stack of this worker then.
fn open(trace: &[Point], i: usize) -> Vec<Vec<Point>> {
    match &trace[i].sched {
        None => (trace[i].c + 1..trace[i].n).map(|c| step_aside(trace, i, c, &[])).collect(),
        Some(b) => {
            let mut a = b.node.alts.lock().unwrap();
            let todo = std::mem::take(&mut a.todo);
            todo.into_iter().rev().map(|c| step_aside(trace, i, c, &a.order)).collect()
        }
    }
}

impl Shared {
    fn stop_idle(&self) {
        self.progress.store(u64::MAX, Ordering::Relaxed);
        self.cv.notify_all();
    }
}

/// Install the panic hook: panics of the code under test are data, not output.
pub fn install() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        if coro::in_coro() {
            // the modelled process traps here: nothing it does afterwards is visible
            coro::DYING.with(|d| d.set(true));
        }
        coro::LAST_PANIC.with(|l| *l.borrow_mut() = Some(format!("{msg} at {loc}")));
        if std::env::var_os("MC_SHOW_PANICS").is_some() {
            eprintln!("panic: {msg} at {loc}");
        }
    }));
}

thread_local! {
    static HASH_SEED: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// Choose the iteration order of the std hash maps made from here on, on this thread. Only has an
/// effect in a scenario with `fresh()`, before the first map is made.
pub fn hash_seed(n: usize) {
    HASH_SEED.with(|s| s.set(n as u64));
}

/// The only source of randomness of std hash maps: replaced, so that executions replay.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.try_with(|s| s.get()).unwrap_or(0).wrapping_mul(0x9E3779B97F4A7C15);
    for i in 0..len {
        x = x.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        *buf.add(i) = (z ^ (z >> 31)) as u8;
    }
    len as isize
}
