//! Checks of the `list` example, whose sources are compiled as they are.
use mc::host::{self, net, Opts, Sched, Seg};
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail, fail_key, note, outcome, pick, Config};
use std::cell::RefCell;
use std::rc::Rc;

mod app {
    #![allow(warnings)]
    include!("../../../../repo/examples/list/src/main.rs");

    pub fn start() {
        main()
    }
}

#[global_allocator]
static A: mc::coro::TrapAlloc = mc::coro::TrapAlloc;

fn main() {
    mc::report::main(vec![Check {
        property: "A01",
        assumptions: vec![
            "the Lunatic host model of mc/src/host.rs (processes, mailboxes, TCP) stands for the Lunatic runtime",
            "messages of plain characters; histories of at most six (eight) requests in sequence, at most three (four) clients with at most four (five) requests between them",
        ],
        scenarios: a01,
    }])
}

const PORT: u16 = 8080;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(&'static str),
    Read(usize),
}

impl Op {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Op::Add(s) => post(&format!("message={s}")),
            Op::Read(n) => get(&format!("/read/{n}")),
        }
    }
}

fn post(body: &str) -> Vec<u8> {
    post_bytes(body.as_bytes())
}

fn post_bytes(body: &[u8]) -> Vec<u8> {
    let mut v = format!("POST /submit HTTP/1.1\r\nHost: localhost:8080\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: {}\r\n\r\n", body.len()).into_bytes();
    v.extend(body);
    v
}

fn get(path: &str) -> Vec<u8> {
    format!("GET {path} HTTP/1.1\r\nHost: localhost:8080\r\n\r\n").into_bytes()
}

/// What a page says.
#[derive(Clone, Debug, PartialEq, Hash)]
enum Page {
    Form,
    Added,
    Items(Vec<String>),
    Status(u16),
    /// The connection ended without an answer.
    Nothing,
    Other(String),
}

fn page(b: &[u8]) -> Page {
    if b.is_empty() {
        return Page::Nothing;
    }
    let s = String::from_utf8_lossy(b).into_owned();
    let Some(rest) = s.strip_prefix("HTTP/1.1 ") else { return Page::Other(s) };
    let status: u16 = rest.get(..3).and_then(|x| x.parse().ok()).unwrap_or(0);
    let Some((_, body)) = s.split_once("\r\n\r\n") else { return Page::Other(s) };
    if status != 200 {
        return Page::Status(status);
    }
    if !body.ends_with("</html>") {
        return Page::Other(s);
    }
    if body.contains("Added that item") {
        return Page::Added;
    }
    if body.contains("<form") && body.contains("name=\"message\"") {
        return Page::Form;
    }
    if body.contains("Message list") {
        let items: Vec<String> = body.split("Item: ").skip(1).map(|x| x.split('<').next().unwrap().to_string()).collect();
        let none = body.contains("There are no messages yet.");
        if none != items.is_empty() {
            return Page::Other(s);
        }
        return Page::Items(items);
    }
    Page::Other(s)
}

fn apply(state: &mut Vec<String>, op: Op) -> Page {
    match op {
        Op::Add(s) => {
            state.push(s.to_string());
            Page::Added
        }
        Op::Read(n) => Page::Items(state[state.len().saturating_sub(n)..].to_vec()),
    }
}

/// The known defect of `/read/n`: it lists all messages if there are more than n. An execution in which
/// this is all that is wrong is reported under this key.
const READ_ALL: &str = "read-all";

fn lists_all(op: Op, state: &[String], page: &Page) -> bool {
    matches!(op, Op::Read(n) if n < state.len()) && *page == Page::Items(state.to_vec())
}

/// Are these the answers to requests made one after another? The state at the end.
fn sequential(log: &[Done]) -> Vec<String> {
    let mut state = vec![];
    let mut all = None;
    for d in log {
        let want = apply(&mut state, d.op);
        if d.page != want {
            let why = format!("{:?} is answered by {:?} instead of {want:?}", d.op, d.page);
            ensure!(lists_all(d.op, &state, &d.page), "{why}");
            all = all.or(Some(why));
        }
    }
    if let Some(why) = all {
        fail_key(READ_ALL, why);
    }
    state
}

type Seen = Rc<RefCell<Vec<Done>>>;

#[derive(Clone, Debug)]
struct Done {
    op: Op,
    call: u64,
    ret: u64,
    page: Page,
}

fn start(opts: Opts) {
    host::new_world(opts);
    host::server("list", app::start);
}

fn ask(bytes: &[u8]) -> Page {
    let mut c = net::connect(PORT);
    c.send(bytes);
    let out = c.recv_to_end();
    c.close();
    page(&out)
}

/// A client that makes these requests one after another.
fn client(name: &str, ops: Vec<Op>, log: &Seen) {
    let log = log.clone();
    host::client(name, move || {
        for op in ops {
            let call = net::mark(true);
            let page = ask(&op.bytes());
            let ret = net::mark(false);
            log.borrow_mut().push(Done { op, call, ret, page });
        }
    });
}

fn healthy() {
    let ps = host::procs();
    let sv = ps.iter().find(|p| p.name == "list").unwrap();
    ensure!(matches!(sv.status, host::Status::Waiting(_)), "the server ended: {:?}", sv.status);
    if host::livelock() {
        fail_key("livelock", "the server keeps working without end");
    }
}

fn no_traps() {
    let t = host::traps();
    ensure!(t.is_empty(), "processes trapped: {t:?}");
}

/// Is there an order of the operations, consistent with real time, in which the answers make sense?
/// `all`: reading may also list every message, as the example does (see `READ_ALL`).
fn linearizable(done: &[Done], state: Vec<String>, all: bool) -> bool {
    if done.is_empty() {
        return true;
    }
    (0..done.len()).any(|i| {
        // nothing that has to come before it is left
        if done.iter().any(|d| d.ret < done[i].call) {
            return false;
        }
        let mut s = state.clone();
        let want = apply(&mut s, done[i].op);
        if want != done[i].page && !(all && lists_all(done[i].op, &s, &done[i].page)) {
            return false;
        }
        let mut rest = done.to_vec();
        rest.remove(i);
        linearizable(&rest, s, all)
    })
}

fn a01(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("sequential", "every history of requests, one after another", Config::bound(0), move || {
            const OPS: &[Op] = &[Op::Add("a"), Op::Add("b"), Op::Read(0), Op::Read(1), Op::Read(2), Op::Read(7)];
            let n = if t { 8 } else { 6 };
            let ops: Vec<Op> = (0..n).map(|_| *pick(OPS)).collect();
            note(|| format!("{ops:?}"));
            start(Opts { sched: Sched::Fixed, horizon: 10_000, ..Opts::default() });
            let log: Seen = host::cell(vec![]);
            client("client", ops.clone(), &log);
            host::run();
            healthy();
            no_traps();
            let log = log.borrow();
            ensure!(log.len() == ops.len(), "a request was never answered: {log:?}");
            outcome(&sequential(&log));
        }),
        scenario("long", "lists of up to thirty messages, read from every length", Config::bound(0), || {
            let n = choose(31);
            let k = choose(34);
            const M: &[&str] = &["m0", "m1", "m2", "m3", "m4", "m5", "m6"];
            let mut ops: Vec<Op> = (0..n).map(|i| Op::Add(M[i * i % 7])).collect();
            ops.push(Op::Read(k));
            start(Opts { sched: Sched::Fixed, horizon: 100_000, ..Opts::default() });
            let log: Seen = host::cell(vec![]);
            client("client", ops.clone(), &log);
            host::run();
            healthy();
            no_traps();
            let log = log.borrow();
            ensure!(log.len() == ops.len(), "a request was never answered");
            sequential(&log);
            outcome(&(n, k));
        }),
        scenario("sizes", "messages of up to 300 000 bytes, and lists of up to a thousand messages", Config::bound(0), || {
            let n = *pick(&[1usize, 40, 255, 256, 257, 1000]);
            let len = *pick(&[3usize, 127, 128, 8192, 65_535, 65_537, 300_000]);
            let at = choose(3);
            let texts: Vec<String> = (0..n).map(|i| if i == (n - 1) * at / 2 { format!("{i}-{}", "long".repeat(len / 4)) } else { format!("m{i}") }).collect();
            start(Opts { sched: Sched::Fixed, horizon: 1_000_000, ..Opts::default() });
            let seen = host::cell(vec![]);
            let (s2, t2) = (seen.clone(), texts.clone());
            host::client("client", move || {
                for x in &t2 {
                    let p = ask(&post(&format!("message={x}")));
                    s2.borrow_mut().push(p);
                }
                let p = ask(&get(&format!("/read/{}", t2.len())));
                s2.borrow_mut().push(p);
            });
            host::run();
            healthy();
            no_traps();
            let s = seen.borrow();
            ensure!(s.len() == n + 1 && s[..n].iter().all(|p| *p == Page::Added), "a message of {n} was not added");
            let Page::Items(items) = &s[n] else { fail("the list does not read") };
            ensure!(*items == texts, "the list of {n} messages, one of {len} bytes, reads as {} messages of {:?} bytes", items.len(), items.iter().map(|x| x.len()).max());
            outcome(&(n, len, at));
        }),
        scenario("concurrent", "clients at once, in every interleaving: the answers are those of some sequential order", Config::bound(0), move || {
            const OPS: &[Op] = &[Op::Add("a"), Op::Add("b"), Op::Read(1), Op::Read(5)];
            // how many requests each client makes
            const SHAPES: &[&[usize]] = &[&[2, 2], &[1, 1, 1], &[1, 3], &[2, 1, 1], &[1, 1, 1, 1], &[2, 3]];
            let shape = SHAPES[choose(if t { SHAPES.len() } else { 3 })];
            let plan: Vec<Vec<Op>> = shape.iter().map(|n| (0..*n).map(|_| *pick(OPS)).collect()).collect();
            note(|| format!("{plan:?}"));
            start(Opts { sched: Sched::Full, horizon: 10_000, ..Opts::default() });
            let log: Seen = host::cell(vec![]);
            for (i, ops) in plan.iter().enumerate() {
                client(&format!("client {i}"), ops.clone(), &log);
            }
            host::run();
            healthy();
            no_traps();
            let done = log.borrow().clone();
            ensure!(done.len() == shape.iter().sum::<usize>(), "a request was never answered: {done:?}");
            ensure!(linearizable(&done, vec![], true), "no order of the requests explains the answers: {done:?}");
            if !linearizable(&done, vec![], false) {
                fail_key(READ_ALL, format!("no order of the requests explains the answers: {done:?}"));
            }
            outcome(&(shape, done.iter().map(|d| (format!("{:?}", d.op), d.page.clone())).collect::<Vec<_>>()));
        }),
        scenario("bad-requests", "requests that cannot be served are answered by an error, and change nothing", Config::bound(0), || {
            let bad: Vec<(&str, Vec<u8>, &[u16])> = vec![
                ("negative", get("/read/-1"), &[400, 404]),
                ("not a number", get("/read/x"), &[400, 404]),
                ("no number", get("/read/"), &[400, 404]),
                ("no number", get("/read"), &[400, 404]),
                ("too many", get("/read/1/2"), &[400, 404]),
                ("huge", get("/read/99999999999999999999"), &[400, 404]),
                ("unknown", get("/"), &[404]),
                ("unknown", get("/nothing/here"), &[404]),
                ("other method", b"PUT /submit HTTP/1.1\r\nHost: h\r\nContent-Length: 9\r\n\r\nmessage=x".to_vec(), &[404, 405, 400]),
                ("no message", post("text=x"), &[400]),
                ("empty body", post(""), &[400]),
                ("not UTF-8", post_bytes(b"message=\xff"), &[400]),
                ("not UTF-8", post_bytes(b"\xff\xfe"), &[400]),
                ("malformed", b"POST /submit\r\n\r\n".to_vec(), &[400]),
                ("half a body", b"POST /submit HTTP/1.1\r\nHost: h\r\nContent-Length: 100\r\n\r\nmess".to_vec(), &[400]),
            ];
            let i = choose(bad.len());
            let (what, bytes, want) = bad[i].clone();
            note(|| what.to_string());
            start(Opts { sched: Sched::Fixed, horizon: 10_000, ..Opts::default() });
            let seen = host::cell(vec![]);
            let s2 = seen.clone();
            host::client("client", move || {
                let mut add = |p: Page| s2.borrow_mut().push(p);
                add(ask(&Op::Add("a").bytes()));
                let mut c = net::connect(PORT);
                c.send(&bytes);
                c.shutdown_write();
                let out = c.recv_to_end();
                c.close();
                add(page(&out));
                add(ask(&Op::Read(9).bytes()));
                add(ask(&Op::Add("b").bytes()));
                add(ask(&Op::Read(9).bytes()));
                add(ask(&get("/submit")));
            });
            host::run();
            healthy();
            let s = seen.borrow();
            ensure!(s.len() == 6, "a request was never answered: {s:?}");
            let a = vec!["a".to_string()];
            let ab = vec!["a".to_string(), "b".to_string()];
            ensure!(
                (&s[0], &s[2], &s[3], &s[4], &s[5]) == (&Page::Added, &Page::Items(a), &Page::Added, &Page::Items(ab), &Page::Form),
                "around the request ({what}): {s:?}"
            );
            // the known defects: these make the handler panic
            let key = match what {
                "negative" | "not a number" | "no number" | "too many" | "huge" => Some("read-not-a-number"),
                "not UTF-8" => Some("submit-not-utf8"),
                _ => None,
            };
            match &s[1] {
                Page::Status(st) => {
                    ensure!(want.contains(st), "the request ({what}) is answered by the status {st}");
                    no_traps();
                    outcome(&(i, st));
                }
                Page::Nothing if key.is_some() => fail_key(key.unwrap(), format!("the request ({what}) is not answered: {:?}", host::traps())),
                p => fail(format!("the request ({what}) is answered by {p:?}")),
            }
        }),
        scenario("leaving", "a client that leaves at any point adds its message at most once, and disturbs nobody, in every interleaving", Config::bound(0), move || {
            let at = choose(4);
            let how = choose(2);
            start(Opts { sched: Sched::Full, horizon: 10_000, ..Opts::default() });
            host::client("leaving", move || {
                let mut c = net::connect(PORT);
                let b = Op::Add("x").bytes();
                match at {
                    0 => {}
                    1 => { c.send(&b[..40]); }
                    2 => { c.send(&b[..b.len() - 2]); }
                    _ => { c.send(&b); }
                }
                if how == 0 { c.close() } else { c.reset() }
            });
            let log: Seen = host::cell(vec![]);
            client("client", vec![Op::Add("a"), Op::Read(9)], &log);
            let others: Seen = host::cell(vec![]);
            if choose(2) == 1 {
                client("reader", vec![Op::Read(9)], &others);
            }
            host::run();
            healthy();
            for d in others.borrow().iter() {
                let Page::Items(items) = &d.page else { fail(format!("answers {:?}", d.page)) };
                ensure!(items.len() <= 2 && items.iter().all(|x| x == "a" || x == "x" && at == 3), "another reads {items:?}");
            }
            let done = log.borrow().clone();
            ensure!(done.len() == 2 && done[0].page == Page::Added, "answers {done:?}");
            let Page::Items(items) = &done[1].page else { fail(format!("answers {done:?}")) };
            let s: Vec<&str> = items.iter().map(|x| x.as_str()).collect();
            let ok = s == ["a"] || (at == 3 && (s == ["a", "x"] || s == ["x", "a"]));
            ensure!(ok, "the list reads {items:?}");
            outcome(&(at, how, items));
        }),
        scenario("segmented", "requests in pieces and answers in pieces", Config::bound(if t { 2 } else { 1 }), || {
            let ops = *pick(&[[Op::Add("hello"), Op::Read(3)], [Op::Read(3), Op::Add("b")], [Op::Add("a"), Op::Add("b")]]);
            start(Opts { sched: Sched::Fixed, seg: Seg::Dev, short_writes: true, horizon: 10_000, ..Opts::default() });
            let log: Seen = host::cell(vec![]);
            client("client", ops.to_vec(), &log);
            host::run();
            healthy();
            no_traps();
            ensure!(log.borrow().len() == ops.len(), "a request was never answered");
            outcome(&sequential(&log.borrow()));
        }),
        scenario("segmented-concurrent", "two clients at once, some reads and writes of whose connections are cut short, in every interleaving", Config::bound(if t { 2 } else { 1 }), || {
            start(Opts { sched: Sched::Full, seg: Seg::Dev, short_writes: true, horizon: 10_000, ..Opts::default() });
            let log: Seen = host::cell(vec![]);
            client("adds", vec![Op::Add("hello")], &log);
            client("reads", vec![Op::Read(3)], &log);
            host::run();
            healthy();
            no_traps();
            let done = log.borrow().clone();
            ensure!(done.len() == 2, "a request was never answered: {done:?}");
            ensure!(linearizable(&done, vec![], false), "no order of the requests explains the answers: {done:?}");
            outcome(&done.iter().map(|d| (format!("{:?}", d.op), d.page.clone())).collect::<Vec<_>>());
        }),
    ]
}
