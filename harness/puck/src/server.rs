//! Serving: routing, isolation between connections, state.
use crate::io::show;
use crate::refhttp::split_message;
use mc::host::{self, net, Opts, Sched, Seg};
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail, fail_key, note, outcome, pick, Config};
use puck::core::router::{Route, Router};
use puck::core::{Core, Stream, UsedStream};
use puck::lunatic::net::TcpListener;
use puck::request::Method;
use puck::{Request, Response};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

pub fn checks() -> Vec<Check> {
    vec![
        Check { property: "S01", assumptions: vec![
            "the Lunatic host model of mc/src/host.rs (processes, mailboxes, TCP) stands for the Lunatic runtime; conformance/ replays programs on both",
            "at most four (five) requests at once in every interleaving; route tables of at most three routes over the listed matchers",
        ], scenarios: s01 },
        Check { property: "S02", assumptions: vec![
            "the Lunatic host model of mc/src/host.rs stands for the Lunatic runtime",
            "one misbehaving connection of each listed kind next to well behaved ones, in all interleavings, with up to two or three injected faults where faults are injected",
        ], scenarios: s02 },
        Check { property: "S03", assumptions: vec![
            "the Lunatic host model of mc/src/host.rs stands for the Lunatic runtime",
            "the listed state values, at most four (five) concurrent connections, in every interleaving",
        ], scenarios: s03 },
    ]
}

pub const PORT: u16 = 3000;

fn addr() -> std::net::SocketAddr {
    ([127, 0, 0, 1], PORT).into()
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize, Hash)]
enum St {
    Unit,
    Num(i64),
    Text(String),
    Many(Vec<Option<(u8, String)>>),
    Pair(Box<St>, Box<St>),
}

#[derive(Clone, Debug, PartialEq)]
struct Entry {
    handler: usize,
    id: String,
    method: String,
    path: String,
    body: String,
    state: St,
}

thread_local! {
    static LOG: RefCell<Vec<Entry>> = const { RefCell::new(vec![]) };
}

fn id_of(req: &Request) -> String {
    req.headers().get("X-Id").cloned().unwrap_or_default()
}

fn matches(kind: usize, method: &str, path: &str) -> bool {
    match kind {
        0 => path == "/a",
        1 => true,
        2 => method == "POST",
        3 => path == "/b",
        _ => unreachable!(),
    }
}

fn method_text(m: &Method) -> String {
    match m {
        Method::Get => "GET".into(),
        Method::Post => "POST".into(),
        Method::Head => "HEAD".into(),
        Method::OtherMethod(x) => x.clone(),
    }
}

fn matcher<const K: usize>(req: &Request) -> bool {
    if req.url().path() == "/panic-matcher" {
        panic!("matcher panics");
    }
    matches(K, &method_text(req.method()), req.url().path())
}

fn handler<const N: usize>(mut req: Request, stream: Stream, state: St) -> UsedStream {
    let path = req.url().path().to_string();
    let method = method_text(req.method());
    let id = id_of(&req);
    let body = match req.headers().get("Content-Length") {
        Some(_) => req.take_body().into_string().unwrap_or_else(|e| format!("unreadable: {e}")),
        None => String::new(),
    };
    LOG.with(|l| {
        l.borrow_mut().push(Entry { handler: N, id: id.clone(), method, path: path.clone(), body: body.clone(), state: state.clone() })
    });
    if path == "/panic" {
        panic!("handler panics");
    }
    if path == "/drop" {
        drop(stream);
        return UsedStream::empty();
    }
    if path == "/panic-late" {
        let r = Response::build().status(200, "partial").body("x").build();
        let _ = stream.respond(r);
        panic!("handler panics after responding");
    }
    let res = Response::build()
        .status(200 + N as u16, "OK")
        .header("X-Id", &id)
        .body(format!("{N}|{id}|{body}|{state:?}"))
        .build();
    match stream.respond(res) {
        Ok(u) => u,
        Err(_) => UsedStream::empty(),
    }
}

fn matcher_fn(k: usize) -> fn(&Request) -> bool {
    [matcher::<0>, matcher::<1>, matcher::<2>, matcher::<3>][k]
}
fn handler_fn(n: usize) -> fn(Request, Stream, St) -> UsedStream {
    [handler::<0>, handler::<1>, handler::<2>, handler::<3>][n]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    ServeRouter,
    RouterRun,
    ForEach,
}
const MODES: &[Mode] = &[Mode::ServeRouter, Mode::RouterRun, Mode::ForEach];

/// Route `i` of the table has matcher `table[i]` and handler `i`.
fn serve(mode: Mode, table: &[usize], state: St) {
    serve_routes(mode, table.iter().copied().enumerate().map(|(i, k)| (k, i)).collect(), state)
}

/// Routes of matchers and handlers.
fn serve_routes(mode: Mode, table: Vec<(usize, usize)>, state: St) {
    LOG.with(|l| l.borrow_mut().clear());
    host::server("server", move || {
        let mut router = Router::<St>::new();
        for (k, h) in table {
            router = router.route(Route::new(matcher_fn(k), handler_fn(h)));
        }
        match mode {
            Mode::ServeRouter => Core::bind(addr(), state).unwrap().serve_router(router),
            Mode::RouterRun => router.run(TcpListener::bind(addr()).unwrap(), state),
            Mode::ForEach => Core::bind(addr(), state).unwrap().for_each(handler::<0>),
        }
    });
}

fn expected(mode: Mode, table: &[usize], method: &str, path: &str) -> Option<usize> {
    match mode {
        Mode::ForEach => Some(0),
        _ => table.iter().position(|k| matches(*k, method, path)),
    }
}

#[derive(Clone, Copy, Debug)]
struct Req {
    method: &'static str,
    path: &'static str,
    body: &'static str,
    /// Sent as two writes, split here (0: one write).
    split: usize,
}

impl Req {
    fn bytes(&self, id: &str) -> Vec<u8> {
        let mut s = format!("{} {} HTTP/1.1\r\nHost: h\r\nX-Id: {id}\r\n", self.method, self.path);
        if !self.body.is_empty() {
            s.push_str(&format!("Content-Length: {}\r\n", self.body.len()));
        }
        s.push_str("\r\n");
        s.push_str(self.body);
        s.into_bytes()
    }
}

/// What a client saw: everything up to the end of stream.
type Seen = std::rc::Rc<RefCell<Option<(usize, Vec<u8>)>>>;

fn http_client(id: &str, bytes: Vec<u8>, split: usize) -> Seen {
    let seen = host::cell(None);
    let s2 = seen.clone();
    host::client(id, move || {
        let c = net::connect(PORT);
        if split > 0 && split < bytes.len() {
            c.send(&bytes[..split]);
            c.send(&bytes[split..]);
        } else {
            c.send(&bytes);
        }
        let out = c.recv_to_end();
        *s2.borrow_mut() = Some((c.conn, out));
    });
    seen
}

/// The client got exactly the response of `handler` to the request `id`.
fn check_response(seen: &Seen, handler: Option<usize>, id: &str, body: &str, state: &St) {
    let Some((_, out)) = seen.borrow().clone() else {
        fail_key("no answer", format!("client {id} was never answered"))
    };
    match handler {
        Some(n) => {
            let Some((start, hs, b)) = split_message(&out) else { fail(format!("client {id} received {}", show(&out))) };
            ensure!(start == format!("HTTP/1.1 {} OK", 200 + n), "client {id} received the answer {start:?} instead of the one of handler {n}");
            ensure!(hs == vec![("X-Id".to_string(), id.to_string())], "client {id} received the headers {hs:?}");
            let want = format!("{n}|{id}|{body}|{state:?}");
            ensure!(b == want.as_bytes(), "client {id} received {} instead of {want:?}", show(&b));
        }
        // no route: nothing is invented; a 404 would be as good as the silence of today
        None => ensure!(
            out.is_empty() || out.starts_with(b"HTTP/1.1 404 "),
            "client {id} received {} although no route matches", show(&out)
        ),
    }
}

fn check_log(want: Vec<Entry>) {
    let mut got = LOG.with(|l| l.borrow().clone());
    let key = |e: &Entry| (e.id.clone(), e.handler);
    got.sort_by_key(key);
    let mut want = want;
    want.sort_by_key(key);
    ensure!(got == want, "handlers ran as {got:?} instead of {want:?}");
}

fn entry(h: usize, id: &str, r: &Req, state: &St) -> Entry {
    Entry { handler: h, id: id.into(), method: r.method.into(), path: r.path.into(), body: r.body.into(), state: state.clone() }
}

fn server_alive() {
    let p = host::procs();
    let sv = p.iter().find(|p| p.name == "server").expect("server");
    ensure!(matches!(sv.status, host::Status::Waiting(_)), "the accept loop ended: {:?}", sv.status);
    if host::livelock() {
        fail_key("livelock", "the server keeps working without end");
    }
}

fn no_traps() {
    let t = host::traps();
    ensure!(t.is_empty(), "processes trapped: {t:?}");
}

const REQS: &[Req] = &[
    Req { method: "GET", path: "/a", body: "", split: 0 },
    Req { method: "POST", path: "/b", body: "hello", split: 0 },
    Req { method: "POST", path: "/a", body: "xy\r\n\r\n", split: 62 },
    Req { method: "GET", path: "/none", body: "", split: 7 },
];

fn s01(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    vec![
        scenario("one-request", "every route table of at most three routes, every request, every way of serving", Config::bound(0), move || {
            let mode = *pick(MODES);
            let n = if mode == Mode::ForEach { 0 } else { choose(4) };
            let table: Vec<usize> = (0..n).map(|_| choose(4)).collect();
            let r = *pick(REQS);
            let st = St::Num(7);
            note(|| format!("{mode:?} table {table:?} request {r:?}"));
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            serve(mode, &table, st.clone());
            let seen = http_client("c1", r.bytes("c1"), r.split);
            host::run();
            server_alive();
            no_traps();
            let h = expected(mode, &table, r.method, r.path);
            check_response(&seen, h, "c1", r.body, &st);
            check_log(h.map(|h| entry(h, "c1", &r, &st)).into_iter().collect());
            outcome(&(format!("{mode:?}"), table, r.path, r.method));
        }),
        scenario("tables", "every table of at most three routes over two matchers and a few handlers, which routes may share", Config::bound(0), move || {
            let mode = *pick(&MODES[..2]);
            let n = choose(if t { 5 } else { 4 });
            let table: Vec<(usize, usize)> = (0..n).map(|_| (choose(4), choose(3))).collect();
            let r = *pick(REQS);
            let st = St::Unit;
            note(|| format!("{mode:?} table {table:?} request {r:?}"));
            host::new_world(Opts { sched: Sched::Fixed, ..Opts::default() });
            serve_routes(mode, table.clone(), st.clone());
            let seen = http_client("c1", r.bytes("c1"), 0);
            host::run();
            server_alive();
            no_traps();
            let h = table.iter().find(|(k, _)| matches(*k, r.method, r.path)).map(|(_, h)| *h);
            check_response(&seen, h, "c1", r.body, &st);
            check_log(h.map(|h| entry(h, "c1", &r, &st)).into_iter().collect());
            outcome(&(format!("{mode:?}"), table, r.path, r.method));
        }),
        scenario("long-tables", "tables of up to 300 routes, the first or last or any of which matches", Config::bound(0), move || {
            let mode = *pick(&MODES[..2]);
            let n = *pick(&[1usize, 2, 3, 4, 5, 7, 8, 9, 16, 17, 32, 33, 64, 65, 70, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
            let at = if n <= 70 { choose(n) } else { *pick(&[0, 1, 63, 64, n / 2, n - 2, n - 1]) };
            // the wanted route, others which do not match, and one after it which would
            let table: Vec<(usize, usize)> = (0..n).map(|i| if i == at { (0, 1) } else if i > at { (1, 2) } else { (3, 3) }).collect();
            let st = St::Unit;
            host::new_world(Opts { sched: Sched::Fixed, ..Opts::default() });
            serve_routes(mode, table, st.clone());
            let seen = http_client("c1", REQS[0].bytes("c1"), 0);
            host::run();
            server_alive();
            no_traps();
            check_response(&seen, Some(1), "c1", "", &st);
            check_log(vec![entry(1, "c1", &REQS[0], &st)]);
            outcome(&(format!("{mode:?}"), n, at));
        }),
        scenario("many", "hundreds of connections, one after another or waiting at once, any one of them stalled", Config::bound(0), move || {
            let mode = *pick(MODES);
            let n = if t { 1200 } else { 300 };
            let at_once = choose(2) == 1;
            let stalled = *pick(&[usize::MAX, 0, 1, 2, 3]);
            let st = St::Num(9);
            host::new_world(Opts { sched: Sched::Fixed, horizon: 400_000, ..Opts::default() });
            serve(mode, &[0, 2, 1], st.clone());
            let seen: Vec<Seen> = (0..n).map(|_| host::cell(None)).collect();
            let s2 = seen.clone();
            host::client("clients", move || {
                let mut waiting = vec![];
                for i in 0..n {
                    let mut c = net::connect(PORT);
                    if i == stalled {
                        waiting.push((usize::MAX, c));
                        continue;
                    }
                    c.send(&REQS[i % 3].bytes(&format!("c{i}")));
                    if at_once {
                        waiting.push((i, c));
                        continue;
                    }
                    let out = c.recv_to_end();
                    *s2[i].borrow_mut() = Some((c.conn, out));
                    c.close();
                }
                for (i, c) in &waiting {
                    if *i != usize::MAX {
                        *s2[*i].borrow_mut() = Some((c.conn, c.recv_to_end()));
                    }
                }
            });
            host::run();
            server_alive();
            no_traps();
            let mut log = vec![];
            for i in (0..n).filter(|i| *i != stalled) {
                let (r, id) = (&REQS[i % 3], format!("c{i}"));
                let h = expected(mode, &[0, 2, 1], r.method, r.path);
                check_response(&seen[i], h, &id, r.body, &st);
                log.extend(h.map(|h| entry(h, &id, r, &st)));
            }
            check_log(log);
            outcome(&(format!("{mode:?}"), at_once, stalled));
        }),
        scenario("concurrent", "concurrent requests in every interleaving: each is answered once, by the first matching route, on its own connection", Config::bound(0), move || {
            let mode = *pick(MODES);
            let table: &[usize] = pick::<&[usize]>(&[&[0, 2, 1], &[3, 0], &[2, 1, 0]]);
            let n = if t { 5 } else { 4 };
            let st = St::Text("s".into());
            let reqs: Vec<Req> = (0..n).map(|_| *pick(REQS)).collect();
            note(|| format!("{mode:?} table {table:?} requests {reqs:?}"));
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            serve(mode, table, st.clone());
            let ids: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
            let seen: Vec<Seen> = reqs.iter().zip(&ids).map(|(r, id)| http_client(id, r.bytes(id), r.split)).collect();
            host::run();
            server_alive();
            no_traps();
            let mut log = vec![];
            for ((r, id), seen) in reqs.iter().zip(&ids).zip(&seen) {
                let h = expected(mode, table, r.method, r.path);
                check_response(seen, h, id, r.body, &st);
                log.extend(h.map(|h| entry(h, id, r, &st)));
            }
            check_log(log);
            outcome(&(format!("{mode:?}"), table, reqs.iter().map(|r| r.path).collect::<Vec<_>>()));
        }),
        scenario("segmented", "requests arriving in arbitrary pieces, and answers written in arbitrary pieces", Config::bound(if t { 4 } else { 3 }), move || {
            let mode = *pick(MODES);
            let r = *pick(&REQS[..3]);
            let st = St::Unit;
            host::new_world(Opts { sched: Sched::Fixed, seg: Seg::Dev, short_writes: true, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            let seen = http_client("c1", r.bytes("c1"), 0);
            host::run();
            server_alive();
            no_traps();
            let h = expected(mode, &[0, 1], r.method, r.path);
            check_response(&seen, h, "c1", r.body, &st);
            check_log(h.map(|h| entry(h, "c1", &r, &st)).into_iter().collect());
            outcome(&(format!("{mode:?}"), r.path));
        }),
        scenario("segmented-concurrent", "two requests at once, some reads and writes of which are cut short, in every interleaving", Config::bound(if t { 3 } else { 2 }), move || {
            let mode = *pick(MODES);
            let r = *pick(&REQS[..3]);
            let st = St::Unit;
            host::new_world(Opts { sched: Sched::Full, seg: Seg::Dev, short_writes: true, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            let seen = http_client("c1", r.bytes("c1"), 0);
            let other = http_client("c2", REQS[1].bytes("c2"), 0);
            host::run();
            server_alive();
            no_traps();
            let mut log = vec![];
            for (seen, id, r) in [(&seen, "c1", &r), (&other, "c2", &REQS[1])] {
                let h = expected(mode, &[0, 1], r.method, r.path);
                check_response(seen, h, id, r.body, &st);
                log.extend(h.map(|h| entry(h, id, r, &st)));
            }
            check_log(log);
            outcome(&(format!("{mode:?}"), r.path));
        }),
        scenario("sizes", "requests and answers of up to 1 MiB, in one piece or two, next to small ones", Config::bound(0), || {
            let mode = *pick(MODES);
            let n = *pick(&[32_768usize, 65_535, 65_537, 131_073, 300_001, 1_048_577]);
            let split = *pick(&[0usize, 90, 8192, 70_000]);
            let body: String = (0..n).map(|i| (b'a' + (i / 97 % 26) as u8) as char).collect();
            let st = St::Text("s".repeat(*pick(&[1usize, 70_000])));
            let small = REQS[1];
            let mut bytes = format!("POST /a HTTP/1.1\r\nHost: h\r\nX-Id: c1\r\nContent-Length: {n}\r\n\r\n").into_bytes();
            bytes.extend(body.as_bytes());
            host::new_world(Opts { sched: Sched::Fixed, horizon: 100_000, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            let seen = http_client("c1", bytes, split);
            let other = http_client("c2", small.bytes("c2"), 0);
            host::run();
            server_alive();
            no_traps();
            check_response(&seen, Some(0), "c1", &body, &st);
            let h = expected(mode, &[0, 1], small.method, small.path);
            check_response(&other, h, "c2", small.body, &st);
            ensure!(LOG.with(|l| l.borrow().iter().filter(|e| e.id == "c1" && e.body == body && e.state == st).count() == 1), "the handler of a request of {n} bytes");
            outcome(&(format!("{mode:?}"), n, split));
        }),
        scenario("sequence", "one request after another: the server does not change over time", Config::bound(0), move || {
            let mode = *pick(MODES);
            let table = [3usize, 0, 2];
            let n = if t { 8 } else { 6 };
            let st = St::Num(-1);
            let reqs: Vec<Req> = (0..n).map(|_| *pick(REQS)).collect();
            host::new_world(Opts { sched: Sched::Fixed, ..Opts::default() });
            serve(mode, &table, st.clone());
            let seen: Vec<Seen> = (0..n).map(|_| host::cell(None)).collect();
            let (s2, r2) = (seen.clone(), reqs.clone());
            host::client("clients", move || {
                for (i, r) in r2.iter().enumerate() {
                    let mut c = net::connect(PORT);
                    c.send(&r.bytes(&format!("c{i}")));
                    let out = c.recv_to_end();
                    *s2[i].borrow_mut() = Some((c.conn, out));
                    c.close();
                }
            });
            host::run();
            server_alive();
            no_traps();
            let mut log = vec![];
            for (i, r) in reqs.iter().enumerate() {
                let id = format!("c{i}");
                let h = expected(mode, &table, r.method, r.path);
                check_response(&seen[i], h, &id, r.body, &st);
                log.extend(h.map(|h| entry(h, &id, r, &st)));
            }
            check_log(log);
            outcome(&(format!("{mode:?}"), reqs.iter().map(|r| (r.method, r.path)).collect::<Vec<_>>()));
        }),
    ]
}

/// Requests no server may act upon.
fn malformed() -> Vec<(&'static str, Vec<u8>)> {
    vec![
        ("garbage", b"\x16\x03\x01\r\n\r\n".to_vec()),
        ("no host", b"GET / HTTP/1.1\r\n\r\n".to_vec()),
        ("bad target", b"GET x HTTP/1.1\r\nHost: h\r\n\r\n".to_vec()),
        ("bad header", b"GET / HTTP/1.1\r\nHost: h\r\nA b: c\r\n\r\n".to_vec()),
        ("not UTF-8", b"GET / HTTP/1.1\r\nHost: h\r\nA: \xff\r\n\r\n".to_vec()),
        ("two hosts", b"GET /a HTTP/1.1\r\nHost: h\r\nHost: i\r\n\r\n".to_vec()),
        ("bad length", b"POST /a HTTP/1.1\r\nHost: h\r\nContent-Length: -3\r\n\r\n".to_vec()),
        ("empty", b"".to_vec()),
        ("truncated", b"GET /a HTTP/1.1\r\nHos".to_vec()),
    ]
}

/// What may go wrong on one connection.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    Panic,
    PanicLate,
    PanicMatcher,
    Drop,
    Stall,
    StallHalf,
    LeaveAtOnce,
    LeaveAfterRequest,
    Reset,
    ResetAfterRequest,
}
const BADS: &[Bad] = &[
    Bad::Panic, Bad::PanicLate, Bad::PanicMatcher, Bad::Drop, Bad::Stall, Bad::StallHalf,
    Bad::LeaveAtOnce, Bad::LeaveAfterRequest, Bad::Reset, Bad::ResetAfterRequest,
];

fn bad_client(bad: Bad) {
    host::client("bad", move || {
        let mut c = net::connect(PORT);
        let req = |p: &str| format!("GET {p} HTTP/1.1\r\nHost: h\r\nX-Id: bad\r\n\r\n");
        match bad {
            Bad::Panic | Bad::PanicLate | Bad::PanicMatcher | Bad::Drop => {
                let p = match bad { Bad::Panic => "/panic", Bad::PanicLate => "/panic-late", Bad::PanicMatcher => "/panic-matcher", _ => "/drop" };
                c.send(req(p).as_bytes());
                c.recv_to_end();
            }
            Bad::Stall => net::park(),
            Bad::StallHalf => {
                c.send(&req("/a").as_bytes()[..20]);
                net::park();
            }
            Bad::LeaveAtOnce => c.close(),
            Bad::LeaveAfterRequest => {
                c.send(req("/a").as_bytes());
                c.close();
            }
            Bad::Reset => c.reset(),
            Bad::ResetAfterRequest => {
                c.send(req("/a").as_bytes());
                c.reset();
            }
        }
    });
}

fn s02(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    let good = |seen: &Seen, id: &str, h: usize, st: &St| check_response(seen, Some(h), id, "", st);
    vec![
        scenario("malformed", "a malformed request next to a good one: refused, no handler runs, the good one is served", Config::bound(0), move || {
            let mode = *pick(MODES);
            let cat = malformed();
            let (what, bytes) = pick(&cat).clone();
            let st = St::Num(1);
            note(|| format!("{mode:?} {what}"));
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            let bad = host::cell(None);
            let b2 = bad.clone();
            host::client("bad", move || {
                let mut c = net::connect(PORT);
                if !bytes.is_empty() {
                    c.send(&bytes);
                }
                c.shutdown_write();
                let out = c.recv_to_end();
                *b2.borrow_mut() = Some((c.conn, out));
            });
            let seen = http_client("c1", REQS[0].bytes("c1"), 0);
            host::run();
            server_alive();
            good(&seen, "c1", 0, &st);
            check_log(vec![entry(0, "c1", &REQS[0], &st)]);
            let Some((_, out)) = bad.borrow().clone() else { fail_key("no answer", format!("the malformed request ({what}) leaves its client waiting")) };
            ensure!(out.starts_with(b"HTTP/1.1 400 ") && split_message(&out).is_some(), "the malformed request ({what}) is answered by {}", show(&out));
            no_traps();
            outcome(&(format!("{mode:?}"), what));
        }),
        scenario("misbehaving", "a handler that panics, or a client that stalls or leaves, next to good ones in every interleaving", Config::bound(0), move || {
            let mode = *pick(MODES);
            let bad = *pick(BADS);
            let st = St::Num(1);
            let n = if t { 4 } else { 3 };
            note(|| format!("{mode:?} {bad:?}"));
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            bad_client(bad);
            let ids: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
            let seen: Vec<Seen> = ids.iter().map(|id| http_client(id, REQS[0].bytes(id), 0)).collect();
            host::run();
            server_alive();
            for (s, id) in seen.iter().zip(&ids) {
                good(s, id, 0, &st);
            }
            let mut got = LOG.with(|l| l.borrow().clone());
            got.retain(|e| e.id != "bad");
            ensure!(got.len() == n, "handlers ran as {got:?}");
            outcome(&(format!("{mode:?}"), format!("{bad:?}")));
        }),
        scenario("afterwards", "a good request with and after every pair of misbehaving connections, in every interleaving", Config::bound(0), move || {
            let mode = *pick(MODES);
            let a = *pick(BADS);
            let b = *pick(BADS);
            let st = St::Unit;
            host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            bad_client(a);
            bad_client(b);
            let first = http_client("c0", REQS[0].bytes("c0"), 0);
            let seen = host::cell(None);
            let s2 = seen.clone();
            host::client("c1", move || {
                net::quiesce();
                let c = net::connect(PORT);
                c.send(&REQS[0].bytes("c1"));
                let out = c.recv_to_end();
                *s2.borrow_mut() = Some((c.conn, out));
            });
            host::run();
            server_alive();
            good(&first, "c0", 0, &st);
            good(&seen, "c1", 0, &st);
            outcome(&(format!("{mode:?}"), format!("{a:?}"), format!("{b:?}")));
        }),
        scenario("accept-errors", "failing accepts are survived, whenever they happen", Config::bound(if t { 8 } else { 5 }), move || {
            let mode = *pick(MODES);
            let st = St::Unit;
            host::new_world(Opts { sched: Sched::Full, accept_errors: true, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            let seen: Vec<Seen> = ["c0", "c1"].iter().map(|id| http_client(id, REQS[0].bytes(id), 0)).collect();
            host::run();
            server_alive();
            no_traps();
            for (s, id) in seen.iter().zip(["c0", "c1"]) {
                good(s, id, 0, &st);
            }
            check_log(vec![entry(0, "c0", &REQS[0], &st), entry(0, "c1", &REQS[0], &st)]);
            outcome(&format!("{mode:?}"));
        }),
        scenario("broken-connections", "reads and writes that fail on one connection never disturb another, nor trap", Config::bound(if t { 4 } else { 3 }), move || {
            let mode = *pick(MODES);
            let st = St::Unit;
            host::new_world(Opts { sched: Sched::Full, read_errors: true, write_errors: true, ..Opts::default() });
            serve(mode, &[0, 1], st.clone());
            let seen: Vec<Seen> = ["c0", "c1"].iter().map(|id| http_client(id, REQS[0].bytes(id), 0)).collect();
            host::run();
            server_alive();
            no_traps();
            // a connection is served exactly, or cut short, or (its request unreadable) refused
            for (sn, id) in seen.iter().zip(["c0", "c1"]) {
                let Some((_, out)) = sn.borrow().clone() else { fail_key("no answer", format!("client {id} was left waiting")) };
                let whole = format!("HTTP/1.1 200 OK\r\nX-Id: {id}\r\n\r\n0|{id}||Unit");
                ensure!(whole.as_bytes().starts_with(&out) || out.starts_with(b"HTTP/1.1 400 "), "client {id} received {}", show(&out));
                let n = LOG.with(|l| l.borrow().iter().filter(|e| e.id == id).count());
                ensure!(n <= 1, "the request of {id} was handled {n} times");
                if out == whole.as_bytes() {
                    ensure!(n == 1, "answered without a handler");
                }
                outcome(&(format!("{mode:?}"), out));
            }
        }),
    ]
}

fn s03(tier: Tier) -> Vec<Scenario> {
    let t = tier == Tier::Thorough;
    fn big(n: usize) -> St {
        St::Many((0..n).map(|i| if i % 3 == 0 { None } else { Some((i as u8, format!("v{i}"))) }).collect())
    }
    vec![scenario("values", "every handler of every connection receives the state the server was started with", Config::bound(0), move || {
        let mode = *pick(MODES);
        let st = match choose(8) {
            0 => St::Unit,
            1 => St::Num(i64::MIN),
            2 => St::Text(String::new()),
            3 => St::Text("h\u{e9}\u{1F980}\0\r\n".into()),
            4 => big(0),
            5 => big(40),
            6 => St::Pair(Box::new(St::Num(-1)), Box::new(big(3))),
            _ => St::Text("x".repeat(70_000)),
        };
        let n = 1 + choose(if t { 5 } else { 4 });
        host::new_world(Opts { sched: Sched::Full, ..Opts::default() });
        serve(mode, &[0, 1], st.clone());
        let ids: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
        let seen: Vec<Seen> = ids.iter().map(|id| http_client(id, REQS[0].bytes(id), 0)).collect();
        host::run();
        server_alive();
        no_traps();
        for (s, id) in seen.iter().zip(&ids) {
            check_response(s, Some(0), id, "", &st);
        }
        check_log(ids.iter().map(|id| entry(0, id, &REQS[0], &st)).collect());
        outcome(&(format!("{mode:?}"), n, st));
    }),
    scenario("long-tables", "tables of up to 300 routes: the handler of any of them receives the state", Config::bound(0), || {
        let mode = *pick(&MODES[..2]);
        let n = *pick(&[1usize, 2, 8, 9, 16, 17, 32, 33, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
        let at = *pick(&[0, n / 2, n - 1]);
        let table: Vec<(usize, usize)> = (0..n).map(|i| if i == at { (0, 1) } else if i > at { (1, 2) } else { (3, 3) }).collect();
        let st = match choose(4) {
            0 => St::Num(i64::MIN + 3),
            1 => big(40),
            2 => St::Text("x".repeat(300)),
            _ => St::Pair(Box::new(St::Num(1 << 40)), Box::new(big(3))),
        };
        host::new_world(Opts { sched: Sched::Fixed, ..Opts::default() });
        serve_routes(mode, table, st.clone());
        let seen = http_client("c1", REQS[0].bytes("c1"), 0);
        host::run();
        server_alive();
        no_traps();
        check_response(&seen, Some(1), "c1", "", &st);
        check_log(vec![entry(1, "c1", &REQS[0], &st)]);
        outcome(&(format!("{mode:?}"), n, at, st));
    }),
    scenario("many", "hundreds of connections, every one of which gets the state", Config::bound(0), move || {
        let mode = *pick(MODES);
        let n = if t { 1200 } else { 300 };
        let st = [St::Num(-5), big(7), St::Text("y".repeat(70_000))][choose(3)].clone();
        host::new_world(Opts { sched: Sched::Fixed, horizon: 400_000, ..Opts::default() });
        serve(mode, &[0, 1], st.clone());
        let seen: Vec<Seen> = (0..n).map(|_| host::cell(None)).collect();
        let s2 = seen.clone();
        host::client("clients", move || {
            for (i, s) in s2.iter().enumerate() {
                let mut c = net::connect(PORT);
                c.send(&REQS[0].bytes(&format!("c{i}")));
                *s.borrow_mut() = Some((c.conn, c.recv_to_end()));
                c.close();
            }
        });
        host::run();
        server_alive();
        no_traps();
        for (i, s) in seen.iter().enumerate() {
            check_response(s, Some(0), &format!("c{i}"), "", &st);
        }
        check_log((0..n).map(|i| entry(0, &format!("c{i}"), &REQS[0], &st)).collect());
        outcome(&(format!("{mode:?}"), n));
    })]
}
