//! A deterministic model of the Lunatic host.
//!
//! Processes are coroutines on one OS thread. A process runs until its next *visible* host
//! operation, which it announces and which the scheduler executes when it picks the process.
//! Visible operations are those whose effect another process can observe: accepting, connecting,
//! reading, writing, closing the last handle of a connection, sending, receiving, the registry and
//! process exit. Which enabled process moves next is a choice of the explorer; so are the sizes of
//! reads and writes and injected I/O errors when the harness enables them.
//!
//! Two schedulers are available. `Sched::Full` explores every schedule up to the commutation of
//! independent operations: source-set dynamic partial-order reduction (vector clocks over the
//! executed operations, `races`) with sleep sets. `Sched::Preempt` explores every schedule with at
//! most `Config::bound` preemptions (shared with the other deviations).
use crate::coro::{self, Coro, Exit};
use crate::engine::{self, choose, choose_dev};
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub type Pid = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sched {
    /// All interleavings modulo commutation.
    Full,
    /// Preemption bounded (the bound is the explorer's deviation bound).
    Preempt,
    /// One canonical schedule: the lowest enabled process runs.
    Fixed,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Seg {
    /// A read returns the bytes of at most one write.
    Front,
    /// A read returns everything available that fits.
    All,
    /// As `All`, and every shorter non-empty length is a deviation.
    Dev,
    /// Every non-empty length is explored.
    Free,
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub sched: Sched,
    pub seg: Seg,
    /// A write may accept fewer bytes than offered (deviation).
    pub short_writes: bool,
    /// A write of a server process may fail (deviation); the connection is then broken.
    pub write_errors: bool,
    /// A read of a server process may fail (deviation); the connection is then broken.
    pub read_errors: bool,
    /// An accept may fail (deviation).
    pub accept_errors: bool,
    /// Maximum number of scheduled operations: beyond it the execution counts as a livelock.
    pub horizon: u64,
}

impl Default for Opts {
    fn default() -> Self {
        Opts {
            sched: Sched::Full,
            seg: Seg::Front,
            short_writes: false,
            write_errors: false,
            read_errors: false,
            accept_errors: false,
            horizon: 1500,
        }
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Op {
    Local,
    Bind(u16),
    Accept(usize),
    Connect(u16),
    Read(usize, usize),
    Write(usize, usize),
    Close(usize, usize),
    Reset(usize, usize),
    Send(Pid),
    Recv { tags: Vec<i64>, timeout: bool },
    Exit,
    Kill(Pid),
    /// Link to or unlink from another process.
    Link(Pid),
    RegGet,
    RegPut,
    Mark(bool),
    Quiesce,
    /// Waits for a harness condition on the client side bytes of a connection.
    Never,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Status {
    /// Waiting for its pending operation.
    Waiting(Op),
    Done,
    Trapped(String),
    Killed,
}

/// By process, how many of its events have happened.
type Clock = Vec<u32>;

fn join(a: &mut Clock, b: &Clock) {
    if a.len() < b.len() {
        a.resize(b.len(), 0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}

fn at(c: &Clock, p: Pid) -> u32 {
    c.get(p).copied().unwrap_or(0)
}

/// An operation with what its dependence on others is decided from.
#[derive(Clone)]
struct Act {
    pid: Pid,
    op: Op,
    /// For an exit: whether there are links, and whether the process is registered.
    links: bool,
    registered: bool,
    /// For an exit, the connections held; for a message, those that it carries.
    held: Vec<(usize, usize)>,
    /// For a message: whether nobody receives it.
    lost: bool,
    /// For a read: whether it takes more than one write if there is more.
    coarse: bool,
}

/// An executed operation.
struct Event {
    act: Act,
    /// Which of the events of its process this is, from 1.
    k: u32,
    clock: Clock,
    point: Option<usize>,
    /// The processes that could move instead.
    enabled: Vec<Pid>,
}

#[derive(Debug)]
enum Res {
    Tcp(usize, usize),
    Listener(usize),
    Process(Pid),
    Dns(VecDeque<u16>),
    Error(String),
    Config,
}

struct Msg {
    tag: i64,
    data: Vec<u8>,
    pos: usize,
    res: Vec<Option<Res>>,
    link_died: bool,
    clock: Clock,
}

struct Proc {
    path: Vec<u16>,
    name: String,
    client: bool,
    coro: Option<Coro>,
    status: Status,
    mailbox: VecDeque<Msg>,
    scratch: Option<Msg>,
    res: Vec<Option<Res>>,
    links: Vec<(Pid, i64)>,
    die_when_link_dies: bool,
    children: u16,
    tags: i64,
    trap: Option<String>,
    /// Result of `Recv`: 0 data, 1 link trapped, 9027 timeout.
    exiting: bool,
    clock: Clock,
    events: u32,
}

#[derive(Default)]
struct Dir {
    segs: VecDeque<Vec<u8>>,
    /// When each of `segs` was written.
    clocks: VecDeque<Clock>,
    /// When its end was reached: closed or shut by the writer, or broken for the reader.
    end: Clock,
    len: usize,
    /// Everything ever written into this direction.
    total: Vec<u8>,
    /// Total bytes handed to readers.
    consumed: usize,
}

struct Conn {
    #[allow(dead_code)]
    port: u16,
    /// `dir[s]` carries bytes written by side `s` (0 = connecting side, 1 = accepting side).
    dir: [Dir; 2],
    handles: [u32; 2],
    closed: [bool; 2],
    reset: [bool; 2],
    /// Half closed: the side sends nothing more but still receives.
    shut: [bool; 2],
    /// Local failure injected on this side.
    broken: [bool; 2],
    lost_write: [bool; 2],
    writes: [Vec<Vec<u8>>; 2],
    connected: Clock,
}

struct Listener {
    port: u16,
    backlog: VecDeque<usize>,
    bound: Clock,
}

pub struct World {
    opts: Opts,
    procs: Vec<Proc>,
    conns: Vec<Conn>,
    listeners: Vec<Listener>,
    registry: BTreeMap<String, Pid>,
    current: Option<Pid>,
    last: Option<Pid>,
    sleep: Vec<Pid>,
    /// What has happened under `Sched::Full` since the last point at which nothing could move.
    events: Vec<Event>,
    all: bool,
    steps: u64,
    roots: u16,
    pub livelock: bool,
    pub deadlock: bool,
}

thread_local! {
    static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}

fn with<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|w| f(w.borrow_mut().as_mut().expect("host call outside a world")))
}

fn dying() -> bool {
    coro::DYING.with(|d| d.get())
}

/// Drop the world of this thread, if any, unwinding every live coroutine.
pub fn clear() {
    let coros = WORLD.with(|w| {
        w.borrow_mut()
            .as_mut()
            .map(|w| w.procs.iter_mut().filter_map(|p| p.coro.take()).collect::<Vec<_>>())
    });
    if let Some(coros) = coros {
        for mut c in coros {
            c.cancel();
        }
        WORLD.with(|w| *w.borrow_mut() = None);
    }
}

pub fn new_world(opts: Opts) {
    clear();
    WORLD.with(|w| {
        *w.borrow_mut() = Some(World {
            opts,
            procs: vec![],
            conns: vec![],
            listeners: vec![],
            registry: BTreeMap::new(),
            current: None,
            last: None,
            sleep: vec![],
            events: vec![],
            all: std::env::var_os("MC_ALL_SCHEDULES").is_some(),
            steps: 0,
            roots: 0,
            livelock: false,
            deadlock: false,
        })
    });
}

fn add_proc(w: &mut World, path: Vec<u16>, name: String, client: bool, f: Box<dyn FnOnce()>) -> Pid {
    let pid = w.procs.len();
    let now = now(w);
    w.procs.push(Proc {
        path,
        name,
        client,
        coro: Some(Coro::new(f)),
        status: Status::Waiting(Op::Local),
        mailbox: VecDeque::new(),
        scratch: None,
        res: vec![],
        links: vec![],
        die_when_link_dies: true,
        children: 0,
        tags: 128,
        trap: None,
        exiting: false,
        clock: now,
        events: 0,
    });
    pid
}

/// Add a root process running the code under test.
pub fn server(name: &str, f: impl FnOnce() + 'static) -> Pid {
    with(|w| {
        let r = w.roots;
        w.roots += 1;
        add_proc(w, vec![r], name.into(), false, Box::new(f))
    })
}

/// Add a root process of the harness (a network client).
pub fn client(name: &str, f: impl FnOnce() + 'static) -> Pid {
    with(|w| {
        let r = w.roots;
        w.roots += 1;
        add_proc(w, vec![r], name.into(), true, Box::new(f))
    })
}

/// A connection whose connecting side is scripted: `input` is available to the accepting side from
/// the start and, if `eof`, is followed by end of stream.
pub fn scripted_conn(input: &[u8], eof: bool) -> usize {
    with(|w| {
        let id = new_conn(w, 0);
        let c = &mut w.conns[id];
        if !input.is_empty() {
            c.dir[0].segs.push_back(input.to_vec());
            c.dir[0].clocks.push_back(vec![]);
        }
        c.dir[0].len = input.len();
        c.dir[0].total = input.to_vec();
        c.handles = [1, 0];
        c.shut[0] = eof;
        id
    })
}

/// The clock of what happens now.
fn now(w: &World) -> Clock {
    w.current.map_or(vec![], |p| w.procs[p].clock.clone())
}

fn new_conn(w: &mut World, port: u16) -> usize {
    let now = now(w);
    w.conns.push(Conn {
        port,
        dir: [Dir::default(), Dir::default()],
        handles: [0, 0],
        closed: [false, false],
        reset: [false, false],
        shut: [false, false],
        broken: [false, false],
        lost_write: [false, false],
        writes: [vec![], vec![]],
        connected: now,
    });
    w.conns.len() - 1
}

/// Give the running process a handle on side `side` of `conn`; returns the resource id, from which
/// the guest library builds a `TcpStream`.
pub fn adopt(conn: usize, side: usize) -> u64 {
    with(|w| {
        let me = w.current.expect("adopt outside a process");
        w.conns[conn].handles[side] += 1;
        add_res(w, me, Res::Tcp(conn, side))
    })
}

/// A handle on a process for the running process.
pub fn handle(pid: Pid) -> u64 {
    with(|w| {
        let me = w.current.expect("handle outside a process");
        add_res(w, me, Res::Process(pid))
    })
}

/// The connecting side is no longer scripted: it belongs to the processes that `adopt` it.
pub fn release_script(conn: usize) {
    with(|w| w.conns[conn].handles[0] -= 1);
}

/// Everything written so far by `side` of `conn`.
pub fn written(conn: usize, side: usize) -> Vec<u8> {
    with(|w| w.conns[conn].dir[side].total.clone())
}

pub fn consumed(conn: usize, by_side: usize) -> usize {
    with(|w| w.conns[conn].dir[1 - by_side].consumed)
}

pub fn is_closed(conn: usize, side: usize) -> bool {
    with(|w| w.conns[conn].closed[side])
}

pub fn conn_count() -> usize {
    with(|w| w.conns.len())
}

#[derive(Clone, Debug)]
pub struct ProcInfo {
    pub pid: Pid,
    pub path: Vec<u16>,
    pub name: String,
    pub client: bool,
    pub status: Status,
    /// Data messages waiting in the mailbox.
    pub queued: usize,
}

pub fn procs() -> Vec<ProcInfo> {
    with(|w| {
        w.procs
            .iter()
            .enumerate()
            .map(|(pid, p)| ProcInfo {
                pid,
                path: p.path.clone(),
                name: p.name.clone(),
                client: p.client,
                status: p.status.clone(),
                queued: p.mailbox.len(),
            })
            .collect()
    })
}

/// The server processes that trapped, with the reason.
pub fn traps() -> Vec<(String, String)> {
    procs()
        .into_iter()
        .filter(|p| !p.client)
        .filter_map(|p| match p.status {
            Status::Trapped(m) => Some((p.name, m)),
            _ => None,
        })
        .collect()
}

pub fn livelock() -> bool {
    with(|w| w.livelock)
}

pub fn steps() -> u64 {
    with(|w| w.steps)
}

/// Trap the running process (as a failing host call does).
fn host_trap(m: &str) -> ! {
    panic!("host trap: {m}")
}

// ---------------------------------------------------------------------------------------------
// scheduling

fn matches_msg(m: &Msg, tags: &[i64]) -> bool {
    tags.is_empty() || tags.contains(&m.tag)
}

fn eof_visible(w: &World, conn: usize, side: usize) -> bool {
    let c = &w.conns[conn];
    let peer = 1 - side;
    c.closed[peer] || c.reset[peer] || c.broken[side] || c.shut[peer]
}

fn enabled(w: &World, pid: Pid, op: &Op) -> bool {
    match op {
        Op::Accept(l) => !w.listeners[*l].backlog.is_empty(),
        Op::Connect(port) => w.listeners.iter().any(|l| l.port == *port),
        Op::Read(c, s) => w.conns[*c].dir[1 - s].len > 0 || eof_visible(w, *c, *s),
        Op::Recv { tags, timeout } => {
            *timeout || w.procs[pid].mailbox.iter().any(|m| m.link_died || matches_msg(m, tags))
        }
        Op::Quiesce | Op::Never => false,
        _ => true,
    }
}

fn tcp(r: &Res) -> Option<(usize, usize)> {
    match r {
        Res::Tcp(c, s) => Some((*c, *s)),
        _ => None,
    }
}

fn receives(p: &Proc) -> bool {
    matches!(p.status, Status::Waiting(_))
}

fn held_endpoints(p: &Proc) -> Vec<(usize, usize)> {
    let mut v: Vec<(usize, usize)> = p
        .res
        .iter()
        .flatten()
        .chain(p.mailbox.iter().flat_map(|m| m.res.iter().flatten()))
        .chain(p.scratch.iter().flat_map(|m| m.res.iter().flatten()))
        .filter_map(tcp)
        .collect();
    v.sort();
    v.dedup();
    v
}

fn act(w: &World, pid: Pid, op: &Op) -> Act {
    let exit = *op == Op::Exit;
    Act {
        pid,
        op: op.clone(),
        links: exit && !w.procs[pid].links.is_empty(),
        registered: exit && w.registry.values().any(|p| *p == pid),
        held: match op {
            Op::Exit => held_endpoints(&w.procs[pid]),
            Op::Send(_) => w.procs[pid].scratch.iter().flat_map(|m| m.res.iter().flatten()).filter_map(tcp).collect(),
            _ => vec![],
        },
        lost: matches!(op, Op::Send(m) if !receives(&w.procs[*m])),
        coarse: matches!(op, Op::Read(..)) && w.opts.seg != Seg::Front && !w.procs[pid].client,
    }
}

/// Conservative dependence between two co-enabled operations of different processes.
fn dependent(x: &Act, y: &Act) -> bool {
    use Op::*;
    match (&x.op, &y.op) {
        (Quiesce | Kill(_) | Link(_), _) | (_, Quiesce | Kill(_) | Link(_)) => true,
        (Accept(x), Accept(y)) => x == y,
        (Connect(x), Connect(y)) | (Bind(x), Bind(y)) => x == y,
        (Read(c, s), Read(d, t)) | (Write(c, s), Write(d, t)) => c == d && s == t,
        (Read(c, s), Write(d, t)) | (Write(d, t), Read(c, s)) => (x.coarse || y.coarse) && c == d && s != t,
        (Close(c, s), Write(d, t)) | (Write(d, t), Close(c, s)) => c == d && s != t,
        (Reset(c, _), Read(d, _) | Write(d, _) | Close(d, _) | Reset(d, _))
        | (Read(d, _) | Write(d, _) | Close(d, _), Reset(c, _)) => c == d,
        (Send(m), Send(n)) => m == n,
        (Send(m), Recv { timeout: true, .. }) => *m == y.pid,
        (Recv { timeout: true, .. }, Send(m)) => *m == x.pid,
        // a message to a process that is gone closes what it carries
        (Send(m), Exit) => *m == y.pid && !x.held.is_empty() || ends_with(y, &x.op),
        (Exit, Send(m)) => *m == x.pid && !y.held.is_empty() || ends_with(x, &y.op),
        (Exit, Exit) => x.links || y.links,
        (Exit, o) => ends_with(x, o),
        (o, Exit) => ends_with(y, o),
        (Send(_), o) if x.lost => ends_with(x, o),
        (o, Send(_)) if y.lost => ends_with(y, o),
        (RegPut, RegPut | RegGet) | (RegGet, RegPut) => true,
        (Mark(x), Mark(y)) => x != y,
        _ => false,
    }
}

/// An act that closes connections.
fn ends_with(p: &Act, o: &Op) -> bool {
    if p.links {
        return true;
    }
    match o {
        Op::Write(c, s) => p.held.iter().any(|(d, t)| c == d && s != t),
        Op::Reset(c, _) => p.held.iter().any(|(d, _)| c == d),
        Op::RegGet => p.registered,
        Op::RegPut => p.op == Op::Exit,
        _ => false,
    }
}

/// The clock of this operation if it is executed now; `ask` reports its races with what has
/// happened: where, and who could move there to have them the other way round.
///
/// What an operation takes (a message, bytes, a connection) comes before it, but hides no race:
/// had it come before another operation, it might have taken something else.
fn races(w: &World, a: &Act, ask: &mut dyn FnMut(usize, Vec<u32>)) -> Clock {
    let mut c = w.procs[a.pid].clock.clone();
    for i in (0..w.events.len()).rev() {
        let e = &w.events[i];
        let p = e.act.pid;
        if p == a.pid || at(&c, p) >= e.k || !dependent(&e.act, a) {
            continue;
        }
        if let Some(point) = e.point {
            // what can come before this event: the first event of each process that does not
            // come after it, if none of the others has to come before that
            let mut first: Vec<&Event> = vec![];
            let mut can: Vec<Pid> = vec![];
            for f in &w.events[i + 1..] {
                if at(&f.clock, p) >= e.k || first.iter().any(|g| g.act.pid == f.act.pid) {
                    continue;
                }
                if !first.iter().any(|g| at(&f.clock, g.act.pid) >= g.k) {
                    can.push(f.act.pid);
                }
                first.push(f);
            }
            if !first.iter().any(|g| g.act.pid == a.pid || at(&c, g.act.pid) >= g.k) {
                can.insert(0, a.pid);
            }
            let able: Vec<u32> = can.iter().filter_map(|q| e.enabled.iter().position(|x| x == q)).map(|i| i as u32).collect();
            if !able.is_empty() {
                ask(point, able);
            } else if can != [a.pid] {
                ask(point, vec![]);
            }
        }
        join(&mut c, &e.clock);
    }
    match &a.op {
        Op::Accept(l) => {
            if let Some(n) = w.listeners[*l].backlog.front() {
                join(&mut c, &w.conns[*n].connected);
            }
        }
        Op::Connect(port) => {
            if let Some(l) = w.listeners.iter().find(|l| l.port == *port) {
                join(&mut c, &l.bound);
            }
        }
        Op::Read(n, s) => {
            let d = &w.conns[*n].dir[1 - s];
            match d.clocks.front() {
                Some(written) if !a.coarse => join(&mut c, written),
                Some(_) => {}
                None => join(&mut c, &d.end),
            }
        }
        Op::Recv { tags, timeout: false } => {
            if let Some(m) = w.procs[a.pid].mailbox.iter().find(|m| m.link_died || matches_msg(m, tags)) {
                join(&mut c, &m.clock);
            }
        }
        _ => {}
    }
    c
}

/// Report the races of an operation that can be executed now, or waits in vain.
fn race(w: &World, pid: Pid, op: &Op) -> Clock {
    let quiet = engine::replaying();
    races(w, &act(w, pid, op), &mut |point, able| {
        assert!(!able.is_empty(), "a race that nobody can turn round");
        if !quiet {
            engine::backtrack(point, able);
        }
    })
}

/// This is as far as it goes: what still waits could have come earlier.
fn waiting(w: &World) {
    for p in 0..w.procs.len() {
        if let Some(op) = pending(w, p) {
            if !matches!(op, Op::Quiesce | Op::Never | Op::Local) && !enabled(w, p, op) {
                race(w, p, op);
            }
        }
    }
}

/// Nothing can move: whatever happens from here on comes after all that has happened.
fn barrier(w: &mut World) {
    waiting(w);
    let mut all = vec![];
    for e in &w.events {
        join(&mut all, &e.clock);
    }
    for p in &mut w.procs {
        join(&mut p.clock, &all);
    }
    w.events.clear();
}

fn pending(w: &World, pid: Pid) -> Option<&Op> {
    match &w.procs[pid].status {
        Status::Waiting(op) => Some(op),
        _ => None,
    }
}

/// Run the world until no process can move (or the horizon is reached).
pub fn run() {
    loop {
        // invisible transitions first
        let local = with(|w| {
            (0..w.procs.len()).find(|p| matches!(pending(w, *p), Some(Op::Local)))
        });
        if let Some(p) = local {
            advance(p);
            continue;
        }
        let next = with(|w| {
            if w.steps >= w.opts.horizon {
                w.livelock = true;
                return None;
            }
            let mut en: Vec<Pid> = (0..w.procs.len())
                .filter(|p| pending(w, *p).is_some_and(|op| enabled(w, *p, op)))
                .collect();
            if en.is_empty() {
                en = (0..w.procs.len())
                    .filter(|p| matches!(pending(w, *p), Some(Op::Quiesce)))
                    .collect();
                w.sleep.clear();
                barrier(w);
            }
            en.sort_by(|a, b| w.procs[*a].path.cmp(&w.procs[*b].path));
            Some((en, w.opts.sched, w.last, w.sleep.clone()))
        });
        let Some((en, sched, last, sleep)) = next else {
            break;
        };
        if en.is_empty() {
            break;
        }
        let chosen = match sched {
            Sched::Fixed => en[0],
            Sched::Full if with(|w| matches!(pending(w, en[0]), Some(Op::Quiesce))) => en[choose(en.len())],
            Sched::Full => {
                let asleep: Vec<u32> = (0..en.len()).filter(|i| sleep.contains(&en[*i])).map(|i| i as u32).collect();
                if asleep.len() == en.len() {
                    with(|w| waiting(w));
                    engine::prune();
                }
                let d = engine::schedule(en.len(), &asleep, with(|w| w.all));
                let chosen = en[d.choice];
                with(|w| {
                    let op = pending(w, chosen).unwrap().clone();
                    let a = act(w, chosen, &op);
                    let mut z: Vec<Pid> = w.sleep.clone();
                    z.extend(d.earlier.iter().map(|i| en[*i as usize]));
                    z.retain(|p| match pending(w, *p) {
                        Some(o) => *p != chosen && !dependent(&act(w, *p, o), &a),
                        None => false,
                    });
                    z.sort();
                    z.dedup();
                    w.sleep = z;
                    let mut clock = race(w, chosen, &op);
                    let p = &mut w.procs[chosen];
                    p.events += 1;
                    let k = p.events;
                    if clock.len() <= chosen {
                        clock.resize(chosen + 1, 0);
                    }
                    clock[chosen] = k;
                    p.clock = clock.clone();
                    w.events.push(Event { act: a, k, clock, point: d.point, enabled: en.clone() });
                });
                chosen
            }
            Sched::Preempt => match last {
                Some(l) if en.contains(&l) => {
                    let mut order = vec![l];
                    order.extend(en.iter().copied().filter(|p| *p != l));
                    order[choose_dev(order.len())]
                }
                _ => en[choose(en.len())],
            },
        };
        with(|w| {
            w.steps += 1;
            w.last = Some(chosen);
        });
        engine::step();
        engine::note(|| {
            with(|w| {
                let p = &w.procs[chosen];
                format!("{} {:?}: {:?}", p.name, p.path, pending(w, chosen).unwrap())
            })
        });
        advance(chosen);
    }
}

fn advance(pid: Pid) {
    if with(|w| w.procs[pid].exiting) {
        finish_exit(pid);
        return;
    }
    let h = with(|w| {
        w.current = Some(pid);
        w.procs[pid].status = Status::Waiting(Op::Never);
        w.procs[pid].coro.as_mut().expect("coroutine").raw()
    });
    // SAFETY: the coroutine is owned by the process table and is not dropped while it runs (a
    // process never kills itself through the table).
    let done = unsafe { Coro::resume_handle(h) };
    with(|w| w.current = None);
    if let Some(n) = coro::alloc_trap_pending() {
        let c = with(|w| {
            let p = &mut w.procs[pid];
            p.trap = Some(format!("allocation of {n} bytes requested"));
            p.coro.take().unwrap()
        });
        c.abandon();
        begin_exit(pid);
        return;
    }
    if !done {
        return;
    }
    let mut c = with(|w| w.procs[pid].coro.take().unwrap());
    match c.take_exit() {
        Some(Exit::Panicked(e)) => {
            if engine::is_control(&*e) {
                drop(c);
                std::panic::resume_unwind(e);
            }
            let t = coro::panic_text(&*e);
            if with(|w| w.procs[pid].client) {
                drop(c);
                panic!("harness client panicked: {t}");
            }
            with(|w| w.procs[pid].trap = Some(t));
        }
        _ => {}
    }
    drop(c);
    begin_exit(pid);
}

fn begin_exit(pid: Pid) {
    with(|w| {
        let p = &mut w.procs[pid];
        p.exiting = true;
        p.status = Status::Waiting(Op::Exit);
    });
}

fn finish_exit(pid: Pid) {
    let kill = with(|w| {
        let p = &mut w.procs[pid];
        let trap = p.trap.clone();
        p.status = match &trap {
            Some(t) => Status::Trapped(t.clone()),
            None => Status::Done,
        };
        engine::note(|| format!("{} {:?} exits: {:?}", p.name, p.path, p.status));
        release_all(w, pid);
        let links = std::mem::take(&mut w.procs[pid].links);
        w.registry.retain(|_, v| *v != pid);
        let mut kill = vec![];
        for (other, tag) in links {
            w.procs[other].links.retain(|(q, _)| *q != pid);
            if trap.is_some() && matches!(w.procs[other].status, Status::Waiting(_)) {
                if w.procs[other].die_when_link_dies {
                    kill.push(other);
                } else {
                    let clock = w.procs[pid].clock.clone();
                    w.procs[other].mailbox.push_back(Msg {
                        clock,
                        tag,
                        data: vec![],
                        pos: 0,
                        res: vec![],
                        link_died: true,
                    });
                }
            }
        }
        kill
    });
    for k in kill {
        kill_proc(k);
    }
}

fn kill_proc(pid: Pid) {
    let c = with(|w| {
        if !matches!(w.procs[pid].status, Status::Waiting(_)) {
            return None;
        }
        if let Some(e) = w.events.pop() {
            // it could have moved before, whether that kills it or not
            let op = pending(w, pid).unwrap().clone();
            if !matches!(op, Op::Quiesce | Op::Never | Op::Local) {
                race(w, pid, &op);
                w.events.push(e);
                race(w, pid, &op);
            } else {
                w.events.push(e);
            }
        }
        w.procs[pid].status = Status::Killed;
        w.procs[pid].coro.take()
    });
    if let Some(mut c) = c {
        c.cancel();
    }
    let kill = with(|w| {
        release_all(w, pid);
        w.registry.retain(|_, v| *v != pid);
        let links = std::mem::take(&mut w.procs[pid].links);
        for (o, _) in &links {
            w.procs[*o].links.retain(|(q, _)| *q != pid);
        }
        links
    });
    for (o, _) in kill {
        if with(|w| w.procs[o].die_when_link_dies) {
            kill_proc(o);
        }
    }
}

fn release_all(w: &mut World, pid: Pid) {
    let p = &mut w.procs[pid];
    let mut all: Vec<Res> = p.res.iter_mut().filter_map(|r| r.take()).collect();
    for m in p.mailbox.iter_mut().chain(p.scratch.iter_mut()) {
        all.extend(m.res.iter_mut().filter_map(|r| r.take()));
    }
    p.mailbox.clear();
    p.scratch = None;
    for r in all {
        release(w, r);
    }
}

fn release(w: &mut World, r: Res) {
    if let Res::Tcp(c, s) = r {
        w.conns[c].handles[s] -= 1;
        ends(w, c, s);
        if w.conns[c].handles[s] == 0 {
            w.conns[c].closed[s] = true;
            engine::note(|| format!("c{c}: side {s} closed"));
        }
    }
}

/// This is part of what ends what this side sends.
fn ends(w: &mut World, conn: usize, side: usize) {
    if let Some(e) = w.events.last() {
        let clock = e.clock.clone();
        join(&mut w.conns[conn].dir[side].end, &clock);
    }
}

fn release_msg(w: &mut World, m: Msg) {
    for r in m.res.into_iter().flatten() {
        release(w, r);
    }
}

/// Announce a visible operation and wait to be scheduled.
fn visible(op: Op) {
    with(|w| {
        let me = w.current.expect("host operation outside a process");
        w.procs[me].status = Status::Waiting(op);
    });
    coro::suspend();
}

fn me() -> Pid {
    with(|w| w.current.expect("host operation outside a process"))
}

fn add_res(w: &mut World, p: Pid, r: Res) -> u64 {
    w.procs[p].res.push(Some(r));
    w.procs[p].res.len() as u64 - 1
}

fn res_tcp(id: u64) -> (usize, usize) {
    let r = with(|w| {
        let me = w.current.expect("host operation outside a process");
        match w.procs[me].res.get(id as usize) {
            Some(Some(Res::Tcp(c, s))) => Some((*c, *s)),
            _ => None,
        }
    });
    r.unwrap_or_else(|| host_trap("no such TCP stream"))
}

fn res_proc(id: u64) -> Pid {
    let r = with(|w| {
        let me = w.current.expect("host operation outside a process");
        match w.procs[me].res.get(id as usize) {
            Some(Some(Res::Process(p))) => Some(*p),
            _ => None,
        }
    });
    r.unwrap_or_else(|| host_trap("no such process"))
}

fn err_res(m: &str) -> u64 {
    with(|w| {
        let me = w.current.unwrap();
        add_res(w, me, Res::Error(m.into()))
    })
}

/// Candidate short lengths below `max` (all of them for small `max`).
fn shorter(max: usize) -> Vec<usize> {
    if max <= 64 {
        (1..max).collect()
    } else {
        let mut v: Vec<usize> = vec![1, 2, 3, 4, 5, 8, 9, 14, 15, max / 2, max - 1];
        v.retain(|x| *x < max);
        v.sort();
        v.dedup();
        v
    }
}

fn do_read(conn: usize, side: usize, n: usize) -> Result<Vec<u8>, String> {
    visible(Op::Read(conn, side));
    let (broken, avail, front, seg, faults, rst) = with(|w| {
        let c = &w.conns[conn];
        let d = &c.dir[1 - side];
        let me = w.current.unwrap();
        (
            c.broken[side],
            d.len,
            d.segs.front().map_or(0, |s| s.len()),
            if w.procs[me].client { Seg::Front } else { w.opts.seg },
            w.opts.read_errors && !w.procs[me].client,
            c.reset[1 - side],
        )
    });
    if broken {
        return Err("connection broken".into());
    }
    if faults && choose_dev(2) == 1 {
        with(|w| {
            w.conns[conn].broken[side] = true;
            ends(w, conn, 1 - side);
        });
        engine::note(|| format!("c{conn}: read fails"));
        return Err("injected read error".into());
    }
    if avail == 0 {
        if rst {
            return Err("connection reset by peer".into());
        }
        engine::note(|| format!("c{conn}: end of stream"));
        return Ok(vec![]);
    }
    let k = match seg {
        Seg::Front => front.min(n),
        Seg::All => avail.min(n),
        Seg::Dev => {
            let max = avail.min(n);
            let alts = shorter(max);
            let i = choose_dev(alts.len() + 1);
            if i == 0 {
                max
            } else {
                alts[i - 1]
            }
        }
        Seg::Free => {
            let max = avail.min(n);
            max - choose(max)
        }
    };
    let out = with(|w| {
        let d = &mut w.conns[conn].dir[1 - side];
        let mut out = Vec::with_capacity(k);
        while out.len() < k {
            let need = k - out.len();
            let front = d.segs.front_mut().unwrap();
            if front.len() <= need {
                out.extend(d.segs.pop_front().unwrap());
                d.clocks.pop_front();
            } else {
                out.extend(front.drain(..need));
            }
        }
        d.len -= k;
        d.consumed += k;
        out
    });
    engine::note(|| format!("c{conn}: read of up to {n} returns {k}"));
    Ok(out)
}

fn do_write(conn: usize, side: usize, data: &[u8]) -> Result<usize, String> {
    visible(Op::Write(conn, side));
    let (broken, peer_closed, lost, faults, short) = with(|w| {
        let c = &w.conns[conn];
        let me = w.current.unwrap();
        let client = w.procs[me].client;
        (
            c.broken[side] || c.reset[1 - side],
            c.closed[1 - side],
            c.lost_write[side],
            w.opts.write_errors && !client,
            w.opts.short_writes && !client,
        )
    });
    if broken {
        return Err("connection broken".into());
    }
    if peer_closed && lost {
        return Err("broken pipe".into());
    }
    if faults && choose_dev(2) == 1 {
        with(|w| {
            w.conns[conn].broken[side] = true;
            ends(w, conn, 1 - side);
        });
        engine::note(|| format!("c{conn}: write fails"));
        return Err("injected write error".into());
    }
    if peer_closed {
        // accepted by the kernel, answered by a reset
        with(|w| w.conns[conn].lost_write[side] = true);
        return Ok(data.len());
    }
    let mut k = data.len();
    if short && k > 1 {
        let alts = shorter(k);
        let i = choose_dev(alts.len() + 1);
        if i > 0 {
            k = alts[i - 1];
        }
    }
    with(|w| {
        let now = now(w);
        let c = &mut w.conns[conn];
        let d = &mut c.dir[side];
        if k > 0 {
            d.clocks.push_back(now);
            d.segs.push_back(data[..k].to_vec());
        }
        d.len += k;
        d.total.extend_from_slice(&data[..k]);
        c.writes[side].push(data[..k].to_vec());
    });
    engine::note(|| format!("c{conn}: wrote {:?}", String::from_utf8_lossy(&data[..k.min(200)])));
    Ok(k)
}

fn do_close(conn: usize, side: usize) {
    // Only the drop of the last handle is visible.
    let last = with(|w| w.conns[conn].handles[side] == 1);
    if last {
        visible(Op::Close(conn, side));
    }
}

fn do_accept(l: usize) -> Result<usize, String> {
    visible(Op::Accept(l));
    let faults = with(|w| w.opts.accept_errors);
    if faults && choose_dev(2) == 1 {
        engine::note(|| "accept fails".into());
        return Err("injected accept error".into());
    }
    Ok(with(|w| {
        let c = w.listeners[l].backlog.pop_front().unwrap();
        w.conns[c].handles[1] += 1;
        c
    }))
}

fn do_connect(port: u16) -> usize {
    visible(Op::Connect(port));
    with(|w| {
        let id = new_conn(w, port);
        w.conns[id].handles[0] = 1;
        let l = w.listeners.iter_mut().find(|l| l.port == port).unwrap();
        l.backlog.push_back(id);
        id
    })
}

// ---------------------------------------------------------------------------------------------
// harness side network client

/// Client operations for harness processes.
pub mod net {
    use super::*;

    #[derive(Debug)]
    pub struct Sock {
        pub conn: usize,
        open: bool,
    }

    pub fn connect(port: u16) -> Sock {
        Sock {
            conn: do_connect(port),
            open: true,
        }
    }

    impl Sock {
        pub fn send(&self, data: &[u8]) -> bool {
            do_write(self.conn, 0, data).is_ok()
        }

        /// Some bytes, or `None` at end of stream or after a reset.
        pub fn recv(&self, n: usize) -> Option<Vec<u8>> {
            match do_read(self.conn, 0, n) {
                Ok(v) if v.is_empty() => None,
                Ok(v) => Some(v),
                Err(_) => None,
            }
        }

        /// Exactly `n` bytes, or what came before the end of the stream.
        pub fn recv_exact(&self, n: usize) -> Vec<u8> {
            let mut out = vec![];
            while out.len() < n {
                match self.recv(n - out.len()) {
                    Some(v) => out.extend(v),
                    None => break,
                }
            }
            out
        }

        pub fn recv_to_end(&self) -> Vec<u8> {
            let mut out = vec![];
            while let Some(v) = self.recv(1 << 20) {
                out.extend(v)
            }
            out
        }

        /// Read up to and including `pat`.
        pub fn recv_until(&self, pat: &[u8]) -> Vec<u8> {
            let mut out: Vec<u8> = vec![];
            while !out.ends_with(pat) {
                match self.recv(1) {
                    Some(v) => out.extend(v),
                    None => break,
                }
            }
            out
        }

        pub fn close(&mut self) {
            if self.open {
                self.open = false;
                visible(Op::Close(self.conn, 0));
                with(|w| {
                    w.conns[self.conn].handles[0] = 0;
                    w.conns[self.conn].closed[0] = true;
                    ends(w, self.conn, 0);
                });
            }
        }

        /// Send nothing more; keep receiving.
        pub fn shutdown_write(&mut self) {
            visible(Op::Close(self.conn, 0));
            with(|w| {
                w.conns[self.conn].shut[0] = true;
                ends(w, self.conn, 0);
            });
        }

        /// Abort the connection: the peer reads what was sent, then fails.
        pub fn reset(&mut self) {
            if self.open {
                self.open = false;
                visible(Op::Reset(self.conn, 0));
                with(|w| {
                    w.conns[self.conn].handles[0] = 0;
                    w.conns[self.conn].closed[0] = true;
                    w.conns[self.conn].reset[0] = true;
                    ends(w, self.conn, 0);
                });
            }
        }
    }

    /// Wait until nothing else can move.
    pub fn quiesce() {
        visible(Op::Quiesce);
    }

    /// A point of the real time order: `true` marks an invocation, `false` a response.
    pub fn mark(invoke: bool) -> u64 {
        visible(Op::Mark(invoke));
        with(|w| w.steps)
    }

    /// Block forever, keeping connections open.
    pub fn park() {
        visible(Op::Never);
    }
}

/// Shared cell for observations made by coroutines.
pub fn cell<T>(v: T) -> Rc<RefCell<T>> {
    Rc::new(RefCell::new(v))
}

/// From here on, processes are scheduled like this. (For a client that has just waited for `quiesce`.)
pub fn schedule(s: Sched) {
    with(|w| {
        w.opts.sched = s;
        w.sleep.clear();
    });
}

/// Kill a process from the harness (as a crash of that process).
pub fn crash(pid: Pid) {
    visible(Op::Kill(pid));
    kill_proc(pid);
}

// ---------------------------------------------------------------------------------------------
// the guest ABI

pub mod api {
    #![allow(clippy::missing_safety_doc, clippy::too_many_arguments)]
    use super::*;

    macro_rules! dead {
        ($r:expr) => {
            if dying() {
                return $r;
            }
        };
    }

    pub mod error {
        use super::*;
        pub unsafe fn string_size(id: u64) -> u32 {
            dead!(0);
            let me = me();
            with(|w| match w.procs[me].res.get(id as usize) {
                Some(Some(Res::Error(s))) => s.len() as u32,
                _ => 0,
            })
        }
        pub unsafe fn to_string(id: u64, out: *mut u8) {
            dead!(());
            let me = me();
            with(|w| {
                if let Some(Some(Res::Error(s))) = w.procs[me].res.get(id as usize) {
                    std::ptr::copy_nonoverlapping(s.as_ptr(), out, s.len());
                }
            })
        }
        pub unsafe fn drop(id: u64) {
            dead!(());
            let me = me();
            with(|w| {
                if let Some(r) = w.procs[me].res.get_mut(id as usize) {
                    if matches!(r, Some(Res::Error(_))) {
                        *r = None;
                    }
                }
            })
        }
    }

    pub mod message {
        use super::*;
        pub unsafe fn create_data(tag: i64, _capacity: u64) {
            dead!(());
            let me = me();
            with(|w| {
                let old = w.procs[me].scratch.replace(Msg {
                    tag,
                    data: vec![],
                    pos: 0,
                    res: vec![],
                    link_died: false,
                    clock: vec![],
                });
                if let Some(m) = old {
                    release_msg(w, m)
                }
            });
        }
        pub unsafe fn write_data(data: *const u8, len: usize) -> usize {
            dead!(len);
            let me = me();
            let s = std::slice::from_raw_parts(data, len);
            let ok = with(|w| match &mut w.procs[me].scratch {
                Some(m) => {
                    m.data.extend_from_slice(s);
                    true
                }
                None => false,
            });
            if !ok {
                host_trap("no message to write to");
            }
            len
        }
        pub unsafe fn read_data(data: *mut u8, len: usize) -> usize {
            dead!(0);
            let me = me();
            let r = with(|w| match &mut w.procs[me].scratch {
                Some(m) => {
                    let k = len.min(m.data.len() - m.pos);
                    std::ptr::copy_nonoverlapping(m.data.as_ptr().add(m.pos), data, k);
                    m.pos += k;
                    Some(k)
                }
                None => None,
            });
            r.unwrap_or_else(|| host_trap("no message to read from"))
        }
        pub unsafe fn seek_data(position: u64) {
            dead!(());
            let me = me();
            with(|w| {
                if let Some(m) = &mut w.procs[me].scratch {
                    m.pos = position as usize
                }
            })
        }
        pub unsafe fn get_tag() -> i64 {
            dead!(0);
            let me = me();
            let t = with(|w| w.procs[me].scratch.as_ref().map(|m| m.tag));
            t.unwrap_or_else(|| host_trap("no message"))
        }
        pub unsafe fn data_size() -> u64 {
            dead!(0);
            let me = me();
            with(|w| w.procs[me].scratch.as_ref().map_or(0, |m| m.data.len() as u64))
        }
        fn push(id: u64, want_tcp: bool) -> u64 {
            let me = me();
            let r = with(|w| {
                let p = &mut w.procs[me];
                let ok = match p.res.get(id as usize) {
                    Some(Some(Res::Tcp(..))) => want_tcp,
                    Some(Some(Res::Process(_))) => !want_tcp,
                    _ => false,
                };
                if !ok || p.scratch.is_none() {
                    return None;
                }
                let r = p.res[id as usize].take();
                let m = p.scratch.as_mut().unwrap();
                m.res.push(r);
                Some(m.res.len() as u64 - 1)
            });
            r.unwrap_or_else(|| host_trap("resource to send does not exist"))
        }
        fn take(index: u64, want_tcp: bool) -> u64 {
            let me = me();
            let r = with(|w| {
                let m = w.procs[me].scratch.as_mut()?;
                let slot = m.res.get_mut(index as usize)?;
                match slot {
                    Some(Res::Tcp(..)) if want_tcp => {}
                    Some(Res::Process(_)) if !want_tcp => {}
                    _ => return None,
                }
                let r = slot.take().unwrap();
                Some(add_res(w, me, r))
            });
            r.unwrap_or_else(|| host_trap("resource to take does not exist"))
        }
        pub unsafe fn push_process(id: u64) -> u64 {
            dead!(0);
            push(id, false)
        }
        pub unsafe fn take_process(index: u64) -> u64 {
            dead!(0);
            take(index, false)
        }
        pub unsafe fn push_tcp_stream(id: u64) -> u64 {
            dead!(0);
            push(id, true)
        }
        pub unsafe fn take_tcp_stream(index: u64) -> u64 {
            dead!(0);
            take(index, true)
        }
        pub unsafe fn send(process_id: u64) {
            dead!(());
            let target = res_proc(process_id);
            visible(Op::Send(target));
            deliver(target);
        }
        fn deliver(target: Pid) {
            let me = me();
            let ok = with(|w| {
                let Some(mut m) = w.procs[me].scratch.take() else {
                    return false;
                };
                m.pos = 0;
                m.clock = now(w);
                if receives(&w.procs[target]) {
                    w.procs[target].mailbox.push_back(m);
                } else {
                    release_msg(w, m);
                }
                true
            });
            if !ok {
                host_trap("no message to send");
            }
        }
        pub unsafe fn send_receive_skip_search(process_id: u64, timeout: u32) -> u32 {
            if dying() {
                coro::die();
            }
            let target = res_proc(process_id);
            let me = me();
            let tag = with(|w| w.procs[me].scratch.as_ref().map_or(0, |m| m.tag));
            visible(Op::Send(target));
            deliver(target);
            recv(vec![tag], timeout != 0)
        }
        pub unsafe fn receive(tag: *const i64, tag_len: usize, timeout: u32) -> u32 {
            if dying() {
                coro::die();
            }
            let tags = if tag_len == 0 {
                vec![]
            } else {
                std::slice::from_raw_parts(tag, tag_len).to_vec()
            };
            recv(tags, timeout != 0)
        }
        fn recv(tags: Vec<i64>, timeout: bool) -> u32 {
            visible(Op::Recv {
                tags: tags.clone(),
                timeout,
            });
            let me = me();
            with(|w| {
                let i = w.procs[me]
                    .mailbox
                    .iter()
                    .position(|m| m.link_died || matches_msg(m, &tags));
                match i {
                    None => 9027,
                    Some(i) => {
                        let m = w.procs[me].mailbox.remove(i).unwrap();
                        let died = m.link_died;
                        if let Some(old) = w.procs[me].scratch.replace(m) {
                            release_msg(w, old)
                        }
                        died as u32
                    }
                }
            })
        }
    }

    pub mod networking {
        use super::*;
        fn port_of(name: &str) -> Option<u16> {
            name.rsplit(':').next()?.parse().ok()
        }
        pub unsafe fn resolve(name: *const u8, len: usize, _t: u32, id: *mut u64) -> u32 {
            dead!(1);
            let s = String::from_utf8_lossy(std::slice::from_raw_parts(name, len)).to_string();
            match port_of(&s) {
                Some(p) => {
                    let me = me();
                    *id = with(|w| add_res(w, me, Res::Dns(VecDeque::from(vec![p]))));
                    0
                }
                None => {
                    *id = err_res("cannot resolve");
                    1
                }
            }
        }
        pub unsafe fn drop_dns_iterator(id: u64) {
            dead!(());
            let me = me();
            with(|w| w.procs[me].res[id as usize] = None)
        }
        pub unsafe fn resolve_next(
            id: u64,
            addr_type: *mut u32,
            addr: *mut u8,
            port: *mut u16,
            _flow: *mut u32,
            _scope: *mut u32,
        ) -> u32 {
            dead!(1);
            let me = me();
            with(|w| match w.procs[me].res.get_mut(id as usize) {
                Some(Some(Res::Dns(q))) => match q.pop_front() {
                    Some(p) => {
                        *addr_type = 4;
                        std::ptr::copy_nonoverlapping([127u8, 0, 0, 1].as_ptr(), addr, 4);
                        *port = p;
                        0
                    }
                    None => 1,
                },
                _ => 1,
            })
        }
        pub unsafe fn tcp_bind(
            _t: u32,
            _a: *const u8,
            port: u32,
            _f: u32,
            _s: u32,
            id: *mut u64,
        ) -> u32 {
            dead!(1);
            visible(Op::Bind(port as u16));
            let me = me();
            let r = with(|w| {
                if w.listeners.iter().any(|l| l.port == port as u16) {
                    return None;
                }
                w.listeners.push(Listener {
                    port: port as u16,
                    backlog: VecDeque::new(),
                    bound: now(w),
                });
                let l = w.listeners.len() - 1;
                Some(add_res(w, me, Res::Listener(l)))
            });
            match r {
                Some(r) => {
                    *id = r;
                    0
                }
                None => {
                    *id = err_res("address in use");
                    1
                }
            }
        }
        pub unsafe fn drop_tcp_listener(id: u64) {
            dead!(());
            let me = me();
            with(|w| w.procs[me].res[id as usize] = None)
        }
        pub unsafe fn tcp_local_addr(id: u64, out: *mut u64) -> u32 {
            dead!(1);
            let me = me();
            with(|w| {
                let port = match w.procs[me].res.get(id as usize) {
                    Some(Some(Res::Listener(l))) => w.listeners[*l].port,
                    _ => 0,
                };
                *out = add_res(w, me, Res::Dns(VecDeque::from(vec![port])));
            });
            0
        }
        pub unsafe fn tcp_accept(id: u64, out: *mut u64, peer: *mut u64) -> u32 {
            dead!(1);
            let me = me();
            let l = with(|w| match w.procs[me].res.get(id as usize) {
                Some(Some(Res::Listener(l))) => Some(*l),
                _ => None,
            });
            let Some(l) = l else {
                host_trap("no such listener")
            };
            match do_accept(l) {
                Ok(c) => {
                    with(|w| {
                        *out = add_res(w, me, Res::Tcp(c, 1));
                        *peer = add_res(w, me, Res::Dns(VecDeque::from(vec![40000 + c as u16])));
                    });
                    0
                }
                Err(e) => {
                    *out = err_res(&e);
                    1
                }
            }
        }
        pub unsafe fn tcp_connect(
            _t: u32,
            _a: *const u8,
            port: u32,
            _f: u32,
            _s: u32,
            _timeout: u32,
            id: *mut u64,
        ) -> u32 {
            dead!(1);
            let c = do_connect(port as u16);
            let me = me();
            *id = with(|w| add_res(w, me, Res::Tcp(c, 0)));
            0
        }
        pub unsafe fn drop_tcp_stream(id: u64) {
            dead!(());
            let (c, s) = res_tcp(id);
            do_close(c, s);
            let me = me();
            with(|w| {
                let r = w.procs[me].res[id as usize].take().unwrap();
                release(w, r);
            });
        }
        pub unsafe fn clone_tcp_stream(id: u64) -> u64 {
            dead!(0);
            let (c, s) = res_tcp(id);
            let me = me();
            with(|w| {
                w.conns[c].handles[s] += 1;
                add_res(w, me, Res::Tcp(c, s))
            })
        }
        pub unsafe fn tcp_write_vectored(
            id: u64,
            bufs: *const u32,
            n: usize,
            _timeout: u32,
            out: *mut u64,
        ) -> u32 {
            dead!(1);
            let (c, s) = res_tcp(id);
            let bufs = std::slice::from_raw_parts(bufs as *const std::io::IoSlice<'_>, n);
            let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
            match do_write(c, s, &all) {
                Ok(k) => {
                    *out = k as u64;
                    0
                }
                Err(e) => {
                    *out = err_res(&e);
                    1
                }
            }
        }
        pub unsafe fn tcp_read(
            id: u64,
            buf: *mut u8,
            n: usize,
            _timeout: u32,
            out: *mut u64,
        ) -> u32 {
            dead!(1);
            let (c, s) = res_tcp(id);
            if n == 0 {
                *out = 0;
                return 0;
            }
            match do_read(c, s, n) {
                Ok(v) => {
                    std::ptr::copy_nonoverlapping(v.as_ptr(), buf, v.len());
                    *out = v.len() as u64;
                    0
                }
                Err(e) => {
                    *out = err_res(&e);
                    1
                }
            }
        }
        pub unsafe fn tcp_flush(_id: u64, _err: *mut u64) -> u32 {
            0
        }
    }

    pub mod process {
        use super::*;
        pub unsafe fn compile_module(_d: *const u8, _l: usize, _id: *mut u64) -> i32 {
            -1
        }
        pub unsafe fn drop_module(_c: u64) {}
        pub unsafe fn create_config() -> u64 {
            dead!(0);
            let me = me();
            with(|w| add_res(w, me, Res::Config))
        }
        pub unsafe fn drop_config(_c: u64) {}
        pub unsafe fn config_set_max_memory(_c: u64, _m: u64) {}
        pub unsafe fn config_get_max_memory(_c: u64) -> u64 {
            0
        }
        pub unsafe fn config_set_max_fuel(_c: u64, _m: u64) {}
        pub unsafe fn config_get_max_fuel(_c: u64) -> u64 {
            0
        }
        pub unsafe fn config_can_compile_modules(_c: u64) -> u32 {
            0
        }
        pub unsafe fn config_set_can_compile_modules(_c: u64, _v: u32) {}
        pub unsafe fn config_can_create_configs(_c: u64) -> u32 {
            0
        }
        pub unsafe fn config_set_can_create_configs(_c: u64, _v: u32) {}
        pub unsafe fn config_can_spawn_processes(_c: u64) -> u32 {
            1
        }
        pub unsafe fn config_set_can_spawn_processes(_c: u64, _v: u32) {}

        pub unsafe fn spawn(
            link: i64,
            _config: i64,
            _module: i64,
            _f: *const u8,
            _fl: usize,
            params: *const u8,
            params_len: usize,
            id: *mut u64,
        ) -> u32 {
            dead!(1);
            // two 64 bit parameters: the entry wrapper and the function it calls
            assert_eq!(params_len, 34, "unexpected spawn parameters");
            let p = std::slice::from_raw_parts(params, params_len);
            let arg = |i: usize| {
                let mut b = [0u8; 8];
                b.copy_from_slice(&p[i * 17 + 1..i * 17 + 9]);
                usize::from_le_bytes(b)
            };
            let (entry, function) = (arg(0), arg(1));
            let entry: fn(usize) = std::mem::transmute(entry);
            let me = me();
            *id = with(|w| {
                let mut path = w.procs[me].path.clone();
                let k = w.procs[me].children;
                w.procs[me].children += 1;
                path.push(k);
                let name = format!("{}.{}", w.procs[me].name, k);
                let child = add_proc(w, path, name, false, Box::new(move || entry(function)));
                if link != 0 {
                    w.procs[me].links.push((child, link));
                    w.procs[child].links.push((me, link));
                }
                engine::note(|| format!("{} spawns {}", w.procs[me].name, w.procs[child].name));
                add_res(w, me, Res::Process(child))
            });
            0
        }
        pub unsafe fn drop_process(id: u64) {
            dead!(());
            let me = me();
            with(|w| {
                if let Some(r) = w.procs[me].res.get_mut(id as usize) {
                    *r = None
                }
            })
        }
        pub unsafe fn clone_process(id: u64) -> u64 {
            dead!(0);
            let p = res_proc(id);
            let me = me();
            with(|w| add_res(w, me, Res::Process(p)))
        }
        pub unsafe fn sleep_ms(_ms: u64) {}
        pub unsafe fn die_when_link_dies(trap: u32) {
            dead!(());
            let me = me();
            with(|w| w.procs[me].die_when_link_dies = trap != 0)
        }
        pub unsafe fn this() -> u64 {
            dead!(0);
            let me = me();
            with(|w| add_res(w, me, Res::Process(me)))
        }
        pub unsafe fn id(process: u64, uuid: *mut [u8; 16]) {
            dead!(());
            let p = res_proc(process);
            with(|w| {
                let mut h = 0xcbf29ce484222325u128;
                for x in &w.procs[p].path {
                    h = (h ^ (*x as u128 + 1)).wrapping_mul(0x1000000000000000000013b);
                }
                *uuid = h.to_le_bytes();
            })
        }
        pub unsafe fn link(tag: i64, process: u64) {
            dead!(());
            let p = res_proc(process);
            let me = me();
            visible(Op::Link(p));
            with(|w| {
                w.procs[me].links.push((p, tag));
                w.procs[p].links.push((me, tag));
            })
        }
        pub unsafe fn unlink(process: u64) {
            dead!(());
            let p = res_proc(process);
            let me = me();
            visible(Op::Link(p));
            with(|w| {
                w.procs[me].links.retain(|(q, _)| *q != p);
                w.procs[p].links.retain(|(q, _)| *q != me);
            })
        }
        /// Replaces the guest library's per-instance tag counter.
        pub fn next_tag() -> i64 {
            if dying() {
                return 0;
            }
            let me = me();
            with(|w| {
                w.procs[me].tags += 1;
                w.procs[me].tags
            })
        }
    }

    pub mod registry {
        use super::*;
        unsafe fn name(n: *const u8, l: usize) -> String {
            String::from_utf8_lossy(std::slice::from_raw_parts(n, l)).to_string()
        }
        pub unsafe fn put(n: *const u8, l: usize, process: u64) {
            dead!(());
            let p = res_proc(process);
            let n = name(n, l);
            visible(Op::RegPut);
            with(|w| w.registry.insert(n, p));
        }
        pub unsafe fn get(n: *const u8, l: usize, process: *mut u64) -> u32 {
            dead!(1);
            let n = name(n, l);
            visible(Op::RegGet);
            let me = me();
            with(|w| match w.registry.get(&n).copied() {
                Some(p) => {
                    *process = add_res(w, me, Res::Process(p));
                    0
                }
                None => 1,
            })
        }
        pub unsafe fn remove(n: *const u8, l: usize) {
            dead!(());
            let n = name(n, l);
            visible(Op::RegPut);
            with(|w| w.registry.remove(&n));
        }
    }

    pub mod wasi {
        pub unsafe fn config_add_environment_variable(
            _c: u64,
            _k: *const u8,
            _kl: usize,
            _v: *const u8,
            _vl: usize,
        ) {
        }
        pub unsafe fn config_add_command_line_argument(_c: u64, _k: *const u8, _l: usize) {}
        pub unsafe fn config_preopen_dir(_c: u64, _k: *const u8, _l: usize) {}
    }

    pub mod version {
        pub unsafe fn major() -> u32 {
            0
        }
        pub unsafe fn minor() -> u32 {
            9
        }
        pub unsafe fn patch() -> u32 {
            1
        }
    }
}
