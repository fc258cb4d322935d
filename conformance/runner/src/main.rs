//! conformance GUEST.wasm LUNATIC [--runs N] [--patience SECONDS] [--report FILE] [PROGRAM...]
//!
//! Explores every program on the host model, which gives the set of outcomes the model allows, runs it
//! N times on the Lunatic runtime, and checks that every outcome seen there is in the set.
use mc::engine;
use mc::host::{self, net, Opts, Sched, Seg};
use mc::Config;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::TcpStream;
use std::process::{Command, Stdio};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

mod programs {
    include!("../../programs.rs");

    fn say(s: &str) {
        super::SAID.with(|l| l.borrow_mut().push(s.to_string()));
    }
    fn ready() {}
}
use programs::{Program, Step};

#[global_allocator]
static A: mc::coro::TrapAlloc = mc::coro::TrapAlloc;

thread_local! {
    static SAID: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static GOT: RefCell<Vec<Vec<String>>> = const { RefCell::new(vec![]) };
}

/// What can be seen of one execution.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Outcome {
    said: Vec<String>,
    /// Of the main process: finished, died, waiting, serving.
    main: &'static str,
    /// What each client got, connection by connection.
    clients: Vec<Vec<String>>,
}

impl Outcome {
    fn show(&self) -> String {
        let cut = |s: &String| if s.len() > 150 { format!("{}... ({} bytes)", s.chars().take(100).collect::<String>(), s.len()) } else { s.clone() };
        format!("said {:?}, main {}, clients {:?}", self.said.iter().map(cut).collect::<Vec<_>>(), self.main, self.clients.iter().map(|c| c.iter().map(cut).collect::<Vec<_>>()).collect::<Vec<_>>())
    }
}

/// Headers are written in any order.
fn tidy(got: &[u8]) -> String {
    let s: String = got.iter().map(|b| if b.is_ascii_graphic() || b" \r\n".contains(b) { (*b as char).to_string() } else { format!("\\x{b:02x}") }).collect();
    match s.split_once("\r\n\r\n") {
        Some((head, rest)) if s.starts_with("HTTP/1.1") => {
            let mut lines: Vec<&str> = head.split("\r\n").collect();
            lines[1..].sort();
            format!("{}\n\n{rest}", lines.join("\n"))
        }
        _ => s,
    }
}

// ---------------------------------------------------------------------------------------------
// on the model

const PORT: u16 = 9000;
const DONE: u16 = 20000;

fn model_client(i: usize, steps: &[Step]) {
    let mut sock: Option<net::Sock> = None;
    let mut buf: Vec<u8> = vec![];
    let put = |s: String| GOT.with(|g| g.borrow_mut()[i].push(s));
    for s in steps.iter().chain([&Step::Close]) {
        match s {
            Step::Connect => {
                if let Some(mut s) = sock.take() {
                    s.close();
                    put(tidy(&std::mem::take(&mut buf)));
                }
                sock = Some(net::connect(PORT));
            }
            Step::After(j) => {
                net::connect(DONE + *j as u16);
            }
            _ => {
                let Some(c) = sock.as_mut() else { continue };
                match s {
                    Step::Send(b) => {
                        c.send(b);
                    }
                    Step::Until(p) => buf.extend(c.recv_until(p)),
                    Step::Exact(n) => buf.extend(c.recv_exact(*n)),
                    Step::ToEnd => {
                        buf.extend(c.recv_to_end());
                        buf.extend(b"|end");
                    }
                    Step::Half => c.shutdown_write(),
                    Step::Reset => c.reset(),
                    Step::Close => {
                        c.close();
                        sock = None;
                        put(tidy(&std::mem::take(&mut buf)));
                    }
                    _ => unreachable!(),
                }
            }
        }
    }
    if sock.is_some() {
        put(tidy(&buf));
    }
    put("done".into());
    std::mem::forget(lunatic::net::TcpListener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], DONE + i as u16))));
}

fn on_model(p: &Program) -> (BTreeSet<Outcome>, u64, u64) {
    let all: Mutex<BTreeSet<Outcome>> = Mutex::new(BTreeSet::new());
    let (main, clients, serves) = (p.main, p.clients.clone(), p.serves);
    let mut cfg = Config::default();
    cfg.wall = Duration::from_secs(300);
    let e = engine::explore(p.name, &cfg, &|_| false, &|v| panic!("hang: {v:?}"), &|| {
        SAID.with(|s| s.borrow_mut().clear());
        GOT.with(|g| *g.borrow_mut() = vec![vec![]; clients.len()]);
        host::new_world(Opts { sched: Sched::Full, seg: Seg::Front, horizon: 5000, ..Opts::default() });
        host::server("main", move || main(PORT));
        for (i, c) in clients.iter().enumerate() {
            let c = c.clone();
            host::client(&format!("client {i}"), move || model_client(i, &c));
        }
        host::run();
        assert!(!host::livelock(), "a livelock");
        let m = &host::procs()[0];
        let main = match &m.status {
            _ if serves => "serving",
            host::Status::Done => "finished",
            host::Status::Trapped(_) | host::Status::Killed => "died",
            _ => "waiting",
        };
        all.lock().unwrap().insert(Outcome { said: SAID.with(|s| s.borrow().clone()), main, clients: GOT.with(|g| g.borrow().clone()) });
    });
    assert!(e.complete, "the exploration of {} is not complete", p.name);
    assert!(e.violations.is_empty(), "{}: {:?}", p.name, e.violations);
    (all.into_inner().unwrap(), e.executions, e.transitions)
}

// ---------------------------------------------------------------------------------------------
// in reality

/// How long nothing may come before it counts as never.
fn patience() -> Duration {
    Duration::from_secs(*PATIENCE.get().unwrap_or(&8))
}
static PATIENCE: std::sync::OnceLock<u64> = std::sync::OnceLock::new();

extern "C" {
    fn setsockopt(fd: i32, level: i32, name: i32, value: *const [i32; 2], len: u32) -> i32;
}

fn real_client(port: u16, steps: &[Step], done: &(Mutex<Vec<usize>>, Condvar)) -> Vec<String> {
    let mut out = vec![];
    let mut sock: Option<TcpStream> = None;
    let mut buf: Vec<u8> = vec![];
    for s in steps.iter().chain([&Step::Close]) {
        match s {
            Step::Connect => {
                if sock.take().is_some() {
                    out.push(tidy(&std::mem::take(&mut buf)));
                }
                let s = TcpStream::connect(("127.0.0.1", port)).expect("connect");
                s.set_nodelay(true).unwrap();
                s.set_read_timeout(Some(patience())).unwrap();
                sock = Some(s);
            }
            Step::After(j) => {
                let t = Instant::now();
                let mut g = done.0.lock().unwrap();
                while !g.contains(j) {
                    g = done.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
                    if t.elapsed() > patience() * 2 {
                        std::mem::forget(sock);
                        return out;
                    }
                }
            }
            _ => {
                let Some(c) = sock.as_mut() else { continue };
                // the bytes up to an end; nothing more comes for long: this client waits for ever
                let mut stuck = false;
                let mut read = |enough: &dyn Fn(&[u8]) -> bool| {
                    let mut got = vec![];
                    let mut b = [0];
                    while !enough(&got) {
                        match c.read(&mut b) {
                            Ok(0) => break,
                            Ok(_) => got.push(b[0]),
                            Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                                stuck = true;
                                break;
                            }
                            Err(_) => break,
                        }
                    }
                    got
                };
                match s {
                    Step::Send(b) => {
                        let _ = c.write_all(b);
                    }
                    Step::Until(p) => buf.extend(read(&|g| g.ends_with(p))),
                    Step::Exact(n) => buf.extend(read(&|g| g.len() == *n)),
                    Step::ToEnd => {
                        buf.extend(read(&|_| false));
                        buf.extend(b"|end");
                    }
                    Step::Half => {
                        let _ = c.shutdown(std::net::Shutdown::Write);
                    }
                    Step::Reset => {
                        use std::os::fd::AsRawFd;
                        // SO_LINGER, at once
                        unsafe { setsockopt(c.as_raw_fd(), 1, 13, &[1, 0], 8) };
                        sock = None;
                        out.push(tidy(&std::mem::take(&mut buf)));
                    }
                    Step::Close => {
                        sock = None;
                        out.push(tidy(&std::mem::take(&mut buf)));
                    }
                    _ => unreachable!(),
                }
                if stuck {
                    // its connection stays open until the program ends
                    std::mem::forget(sock);
                    return out;
                }
            }
        }
    }
    out.push("done".into());
    out
}

fn free_port() -> u16 {
    std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port()
}

fn in_reality(p: &Program, guest: &str, lunatic: &str) -> Outcome {
    let port = free_port();
    let mut child = Command::new(lunatic).args([guest, p.name, &port.to_string()]).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("lunatic");
    let out = child.stdout.take().unwrap();
    let state = Arc::new((Mutex::new((vec![], false, false, false)), Condvar::new()));
    let st = state.clone();
    // said, ready, finished, closed
    let reader = std::thread::spawn(move || {
        for l in BufReader::new(out).lines() {
            let Ok(l) = l else { break };
            let mut g = st.0.lock().unwrap();
            if let Some(x) = l.strip_prefix("said ") {
                g.0.push(x.to_string());
            } else if l == "ready" {
                g.1 = true;
            } else if l == "finished" {
                g.2 = true;
            }
            st.1.notify_all();
        }
        st.0.lock().unwrap().3 = true;
        st.1.notify_all();
    });
    let wait = |f: &dyn Fn(&(Vec<String>, bool, bool, bool)) -> bool, secs: u64| {
        let t = Instant::now();
        let mut g = state.0.lock().unwrap();
        while !f(&g) && t.elapsed() < Duration::from_secs(secs) {
            g = state.1.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
        }
        f(&g)
    };
    let mut clients = vec![];
    if !p.clients.is_empty() {
        assert!(wait(&|g| g.1 || g.3, 60), "{} does not start", p.name);
        let done = (Mutex::new(vec![]), Condvar::new());
        clients = std::thread::scope(|s| {
            let hs: Vec<_> = p
                .clients
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    let done = &done;
                    s.spawn(move || {
                        let r = real_client(port, c, done);
                        if r.last().is_some_and(|l| l == "done") {
                            done.0.lock().unwrap().push(i);
                            done.1.notify_all();
                        }
                        r
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
    }
    let main = if p.serves {
        "serving"
    } else if wait(&|g| g.2 || g.3, if p.clients.is_empty() { 60 } else { 20 }) {
        // let what was said arrive
        wait(&|g| g.3, 5);
        if state.0.lock().unwrap().2 {
            "finished"
        } else {
            "died"
        }
    } else {
        "waiting"
    };
    let _ = child.kill();
    let _ = child.wait();
    let _ = reader.join();
    let said = state.0.lock().unwrap().0.clone();
    Outcome { said, main, clients }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |n: &str| args.iter().position(|a| a == n).map(|i| args[i + 1].clone());
    let runs: usize = opt("--runs").map_or(20, |x| x.parse().unwrap());
    let report = opt("--report");
    if let Some(n) = opt("--patience") {
        PATIENCE.set(n.parse().unwrap()).unwrap();
    }
    let programs: Vec<Program> = programs::programs();
    let names: Vec<&str> = programs.iter().map(|p| p.name).collect();
    let wanted: Vec<&String> = args.iter().skip(3).filter(|a| names.contains(&a.as_str())).collect();
    engine::install();
    let mut lines = BTreeMap::new();
    let mut bad = 0;
    for p in &programs {
        if !wanted.is_empty() && !wanted.iter().any(|w| *w == p.name) {
            continue;
        }
        let (model, executions, transitions) = on_model(p);
        let jobs = Mutex::new(runs);
        let seen: Mutex<BTreeMap<Outcome, usize>> = Mutex::new(BTreeMap::new());
        std::thread::scope(|s| {
            for _ in 0..4 {
                s.spawn(|| loop {
                    {
                        let mut j = jobs.lock().unwrap();
                        if *j == 0 {
                            return;
                        }
                        *j -= 1;
                    }
                    let o = in_reality(p, &args[1], &args[2]);
                    *seen.lock().unwrap().entry(o).or_default() += 1;
                });
            }
        });
        let seen = seen.into_inner().unwrap();
        let strange: Vec<&Outcome> = seen.keys().filter(|o| !model.contains(o)).collect();
        println!("{}: the model allows {} outcomes ({executions} executions, {transitions} operations); {runs} runs showed {} of them, {} others", p.name, model.len(), seen.len() - strange.len(), strange.len());
        for o in &strange {
            println!("  NOT ALLOWED {}", o.show());
        }
        if !strange.is_empty() || std::env::var_os("SHOW").is_some() {
            for o in model.iter().take(12) {
                println!("  allowed {}", o.show());
            }
        }
        bad += strange.len();
        lines.insert(p.name, (model.len(), executions, transitions, seen.len()));
    }
    if let Some(f) = report {
        let mut t = String::from("program | outcomes the model allows | executions explored | operations | seen on the runtime\n---|---|---|---|---\n");
        for (n, (m, e, tr, s)) in &lines {
            t += &format!("{n} | {m} | {e} | {tr} | {s}\n");
        }
        std::fs::write(f, t).unwrap();
    }
    if bad > 0 {
        println!("FAILED: {bad} outcomes of the runtime are not allowed by the model");
        std::process::exit(1);
    }
    println!("OK: {} programs, {runs} runs each", lines.len());
}
