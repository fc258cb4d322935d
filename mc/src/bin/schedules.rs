//! schedules [SECONDS] - does the reduction lose anything? Enumerates small programs over the host
//! model's operations and compares what is observable under all schedules, one by one, with what
//! is under the schedules that partial-order reduction leaves, and under those that sleep sets
//! alone leave. Exit status: 0 the same, 1 not.
use mc::engine::{choose, explore, install, outcome, Config};
use mc::host::{self, api, net, Opts, Sched, Seg};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Nothing,
    Send(usize, i64),
    Recv(i64),
    TryRecv,
    Read(usize),
    Write(usize),
    Drop(usize),
    Die,
    End,
    Link(usize),
    Put,
    Get,
    Spawn,
    Connect,
    Accept,
    Pass(usize),
    Quiesce,
    Crash(usize),
}
use Do::*;

struct Me {
    others: Vec<u64>,
    socks: Vec<Option<u64>>,
    seen: std::rc::Rc<std::cell::RefCell<Vec<Vec<String>>>>,
    i: usize,
    listener: Option<u64>,
}

const ME: &[u8] = b"a";

impl Me {
    fn saw(&self, s: impl Into<String>) {
        self.seen.borrow_mut()[self.i].push(s.into());
    }

    fn act(&mut self, d: Do) {
        unsafe {
            match d {
                Nothing => {}
                Send(to, tag) => {
                    api::message::create_data(tag, 0);
                    api::message::write_data([self.i as u8 + b'0'].as_ptr(), 1);
                    api::message::send(self.others[to]);
                }
                Pass(to) => {
                    if let Some(s) = self.socks[0].take() {
                        api::message::create_data(1, 0);
                        api::message::push_tcp_stream(s);
                        api::message::send(self.others[to]);
                    }
                }
                Recv(_) | TryRecv => {
                    let tags: &[i64] = match d {
                        Recv(1) => &[1],
                        Recv(2) => &[2],
                        _ => &[],
                    };
                    let r = api::message::receive(tags.as_ptr(), tags.len(), (d == TryRecv) as u32);
                    if r == 0 {
                        let mut b = [0];
                        api::message::read_data(b.as_mut_ptr(), 1);
                        self.saw(format!("got {} {}", api::message::get_tag(), b[0]));
                        if b[0] == 0 {
                            self.socks[0] = Some(api::message::take_tcp_stream(0));
                        }
                    } else {
                        self.saw(format!("got {r}"));
                    }
                }
                Read(c) => {
                    if let Some(s) = self.socks[c] {
                        let (mut b, mut n) = ([0; 2], 0);
                        let r = api::networking::tcp_read(s, b.as_mut_ptr(), 2, 0, &mut n);
                        self.saw(format!("read {r} {n} {b:?}"));
                    }
                }
                Write(c) => {
                    if let Some(s) = self.socks[c] {
                        let b = [b'a' + self.i as u8];
                        let v = [std::io::IoSlice::new(&b)];
                        let mut n = 0;
                        let r = api::networking::tcp_write_vectored(s, v.as_ptr() as *const u32, 1, 0, &mut n);
                        self.saw(format!("wrote {r}"));
                    }
                }
                Drop(c) => {
                    if let Some(s) = self.socks[c].take() {
                        api::networking::drop_tcp_stream(s);
                    }
                }
                Die => panic!("dies"),
                End => {}
                Link(o) => api::process::link(7, self.others[o]),
                Put => api::registry::put(ME.as_ptr(), 1, self.others[self.i]),
                Get => {
                    let mut id = 0;
                    let r = api::registry::get(ME.as_ptr(), 1, &mut id);
                    let mut u = [0; 16];
                    if r == 0 {
                        api::process::id(id, &mut u);
                    }
                    self.saw(format!("found {r} {u:?}"));
                }
                Spawn => {
                    fn child(_: usize) {
                        unsafe {
                            let mut id = 0;
                            if api::registry::get(ME.as_ptr(), 1, &mut id) == 0 {
                                api::message::create_data(2, 0);
                                api::message::write_data(b"x".as_ptr(), 1);
                                api::message::send(id);
                            }
                        }
                    }
                    let mut p = vec![];
                    for x in [child as fn(usize) as usize, 0] {
                        p.push(0x7e);
                        p.extend((x as u64).to_le_bytes());
                        p.extend([0; 8]);
                    }
                    let mut id = 0;
                    api::process::spawn(0, 0, 0, b"".as_ptr(), 0, p.as_ptr(), p.len(), &mut id);
                }
                Connect => {
                    let s = net::connect(9);
                    self.saw("connected");
                    s.send(&[b'A' + self.i as u8]);
                }
                Accept => {
                    let mut id = 0;
                    if self.listener.is_none() && api::networking::tcp_bind(4, b"".as_ptr(), 9, 0, 0, &mut id) == 0 {
                        self.listener = Some(id);
                    }
                    let Some(l) = self.listener else { return };
                    let (mut s, mut p) = (0, 0);
                    api::networking::tcp_accept(l, &mut s, &mut p);
                    let (mut b, mut n) = ([0; 1], 0);
                    api::networking::tcp_read(s, b.as_mut_ptr(), 1, 0, &mut n);
                    self.saw(format!("accepted {b:?}"));
                }
                Quiesce => net::quiesce(),
                Crash(o) => {
                    host::crash(o);
                    // everything else is before or after this
                    let n: Vec<usize> = self.seen.borrow().iter().map(|s| s.len()).collect();
                    self.saw(format!("{n:?}"));
                }
            }
            self.saw("");
        }
    }
}

struct Suite {
    name: &'static str,
    procs: usize,
    len: usize,
    /// What each process may do.
    menu: fn(usize) -> Vec<Do>,
    links: bool,
    seg: Seg,
}

type Outcomes = BTreeMap<String, BTreeSet<String>>;
/// What is seen, by program, to show what is lost.
static ALL: Mutex<Option<Outcomes>> = Mutex::new(None);

fn lost(s: &Suite, first: Do, cfg: &Config) {
    let mut got = vec![];
    for sched in [Sched::Preempt, Sched::Full] {
        *ALL.lock().unwrap() = Some(Outcomes::new());
        explore(s.name, cfg, &|_| false, &|v| panic!("{v:?}"), &|| run(s, first, sched));
        got.push(ALL.lock().unwrap().take().unwrap());
    }
    let mut programs: Vec<&String> = got[0].keys().filter(|p| got[0].get(*p) != got[1].get(*p)).collect();
    programs.sort_by_key(|p| p.len());
    for p in programs.iter().take(5) {
        println!("  {p}:");
        for o in &got[0][*p] {
            println!("    {} {o}", if got[1].get(*p).is_some_and(|x| x.contains(o)) { " " } else { "lost" });
        }
    }
    println!("  {} programs", programs.len());
}

fn run(s: &Suite, first: Do, sched: Sched) {
    let seen = host::cell(vec![vec![]; s.procs]);
    host::new_world(Opts { sched, seg: s.seg, ..Opts::default() });
    let plan: Vec<Vec<Do>> = (0..s.procs)
        .map(|i| {
            let m = (s.menu)(i);
            let mut over = false;
            (0..s.len)
                .map(|k| {
                    let d = if over {
                        Nothing
                    } else if i == 0 && k == 0 {
                        first
                    } else {
                        m[choose(m.len())]
                    };
                    over |= matches!(d, Nothing | End | Die);
                    d
                })
                .collect()
        })
        .collect();
    let conns = [host::scripted_conn(b"", false), host::scripted_conn(b"12", true)];
    let n = s.procs;
    for (i, plan) in plan.clone().into_iter().enumerate() {
        let (seen, links) = (seen.clone(), s.links);
        host::server(&format!("p{i}"), move || {
            let others = (0..n).map(host::handle).collect();
            // the first connection is between the first process and the rest, the second is scripted
            let socks = vec![Some(host::adopt(conns[0], (i > 0) as usize)), (i == 1).then(|| host::adopt(conns[1], 1))];
            let mut me = Me { others, socks, seen, i, listener: None };
            if links {
                unsafe { api::process::die_when_link_dies((i == 0) as u32) };
            }
            for d in plan {
                me.act(d);
            }
            if i == 0 && n > 2 {
                net::park();
            }
        });
    }
    host::release_script(conns[0]);
    host::run();
    let ends: Vec<_> = host::procs().into_iter().map(|p| (p.path, format!("{:?}", p.status), p.queued)).collect();
    let mut ends = ends;
    ends.sort();
    let bytes: Vec<_> = conns.iter().flat_map(|c| [host::written(*c, 0), host::written(*c, 1)]).collect();
    let (plan, shown) = (format!("{plan:?}"), format!("{:?} {ends:?} {bytes:?}", seen.borrow()));
    outcome(&(&plan, &shown));
    if let Some(all) = ALL.lock().unwrap().as_mut() {
        all.entry(plan).or_default().insert(shown);
    }
}

fn main() {
    if std::env::var_os("MC_SHOW_PANICS").is_none() {
        install();
    }
    let secs: u64 = std::env::args().nth(1).map_or(600, |x| x.parse().unwrap());
    let suites = [
        Suite { name: "messages", procs: 3, len: 2, menu: |_| vec![Nothing, Send(0, 1), Send(1, 2), Send(2, 1), Recv(0), Recv(1), TryRecv], links: false, seg: Seg::Front },
        Suite { name: "streams", procs: 2, len: 3, menu: |_| vec![Nothing, Read(0), Write(0), Drop(0), Read(1), Pass(1), Pass(0), Recv(1), Die], links: false, seg: Seg::Front },
        Suite { name: "streams, all at once", procs: 2, len: 3, menu: |_| vec![Nothing, Read(0), Write(0), Drop(0), Read(1), Die], links: false, seg: Seg::All },
        Suite { name: "shared streams", procs: 3, len: 2, menu: |_| vec![Nothing, Read(0), Write(0), Drop(0), Die], links: false, seg: Seg::Front },
        Suite { name: "ends", procs: 3, len: 2, menu: |i| vec![Nothing, Send(i, 1), Send((i + 1) % 3, 1), Recv(0), Die, Link((i + 2) % 3), Write(0)], links: true, seg: Seg::Front },
        Suite { name: "registry", procs: 3, len: 2, menu: |i| if i == 2 { vec![Nothing, Spawn, Get] } else { vec![Nothing, Put, Get, Recv(0), Send((i + 1) % 3, 1), Die] }, links: false, seg: Seg::Front },
        Suite { name: "listeners", procs: 3, len: 2, menu: |i| vec![Nothing, if i < 2 { Accept } else { Connect }, if i > 0 { Connect } else { Accept }, Send(2, 1), Recv(0), Quiesce], links: false, seg: Seg::Front },
        Suite { name: "crashes", procs: 3, len: 2, menu: |i| vec![Nothing, Crash((i + 1) % 3), Send((i + 1) % 3, 1), Recv(0), Write(0), Read(0), Quiesce], links: false, seg: Seg::Front },
        Suite { name: "longer", procs: 2, len: 4, menu: |i| vec![Nothing, Send(1 - i, 1), Recv(0), TryRecv, Write(0), Read(0)], links: false, seg: Seg::Front },
    ];
    let mut bad = false;
    let only = std::env::args().nth(2);
    for s in &suites {
        if only.as_ref().is_some_and(|o| o != s.name) {
            continue;
        }
        let t = Instant::now();
        let (mut counts, mut execs, mut done, mut pruned) = ([0; 3], [0; 3], 0, 0);
        let menu = (s.menu)(0);
        for first in &menu {
            if t.elapsed() > Duration::from_secs(secs) {
                break;
            }
            let mut last = [0; 3];
            for (k, (sched, all)) in [(Sched::Preempt, false), (Sched::Full, true), (Sched::Full, false)].into_iter().enumerate() {
                if all {
                    std::env::set_var("MC_ALL_SCHEDULES", "1");
                } else {
                    std::env::remove_var("MC_ALL_SCHEDULES");
                }
                let cfg = Config { bound: 1_000_000, wall: Duration::from_secs(secs), ..Config::default() };
                let e = explore(s.name, &cfg, &|_| false, &|v| panic!("{v:?}"), &|| run(s, *first, sched));
                if !e.complete || e.outcomes_capped {
                    println!("{} {first:?}: not complete: {:?}", s.name, e.divergence);
                    std::process::exit(2);
                }
                last[k] = e.outcomes;
                counts[k] += e.outcomes;
                execs[k] += e.executions - e.pruned;
                if k == 2 {
                    pruned += e.pruned;
                }
            }
            done += 1;
            if last[0] != last[2] {
                println!("{} {first:?}: {last:?}", s.name);
                lost(s, *first, &Config { bound: 1_000_000, ..Config::default() });
            }
        }
        println!(
            "{}: {} of {} parts, {} schedules with {} outcomes; sleep sets {} with {}; reduction {} with {} ({} given up); {:.0} s",
            s.name, done, menu.len(), execs[0], counts[0], execs[1], counts[1], execs[2], counts[2], pruned, t.elapsed().as_secs_f64()
        );
        bad |= counts[0] != counts[1] || counts[0] != counts[2];
    }
    std::process::exit(bad as i32);
}
