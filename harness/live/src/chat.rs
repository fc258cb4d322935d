//! The `chat` example, whose sources are compiled as they are.
use crate::dom::{self, Browser, Dom};
use crate::refws::*;
use mc::host::{self, net, Opts, Sched, Seg};
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail, fail_key, note, outcome, pick, Config};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

mod app {
    #![allow(warnings)]
    include!("../../../../repo/examples/chat/src/main.rs");

    pub fn start() {
        main()
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        property: "A02",
        assumptions: vec![
            "the Lunatic host model of mc/src/host.rs (processes, mailboxes, TCP) stands for the Lunatic runtime",
            "harness/live/dom.js stands for the browsers",
            "at most four users, who send at most three messages each; who joins and leaves at which time as listed",
        ],
        scenarios: a02,
    }]
}

const PORT: u16 = 8081;
const HREF: &str = "http://localhost:8081/";

fn start(opts: Opts) {
    host::new_world(opts);
    host::server("chat", app::start);
}

fn get(path: &str) -> Vec<u8> {
    format!("GET {path} HTTP/1.1\r\nHost: localhost:8081\r\n\r\n").into_bytes()
}

fn upgrade() -> Vec<u8> {
    b"GET /ws HTTP/1.1\r\nHost: localhost:8081\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n".to_vec()
}

/// A user's connection.
struct User {
    sock: net::Sock,
}

impl User {
    fn join() -> User {
        let sock = net::connect(PORT);
        sock.send(&upgrade());
        User { sock }
    }
    fn conn(&self) -> usize {
        self.sock.conn
    }
    fn tell(&self, s: String) {
        self.sock.send(&f(1, s.as_bytes()).bytes());
    }
    fn input(&self, listener: &str, value: &str) {
        self.tell(serde_json::json!({ "listener": listener, "payload": { "value": value } }).to_string());
    }
    fn click(&self, listener: &str) {
        self.tell(serde_json::json!({ "listener": listener }).to_string());
    }
    fn name(&self, name: &str) {
        self.input("set_username", name);
    }
    fn register(&self) {
        self.click("initialize_username");
    }
    fn compose(&self, text: &str) {
        self.input("update_message_contents", text);
    }
    fn submit(&self) {
        self.click("submit_message");
    }
}

/// What a user's page shows.
#[derive(Clone, Debug, PartialEq, Hash)]
enum Page {
    /// Asks for a name.
    Asks(String),
    Chat { name: String, id: u64, composing: String, messages: Vec<(String, u64, String)> },
}

fn kids(d: &Dom) -> Vec<&Dom> {
    match d {
        Dom::El { children, .. } => children.iter().filter(|c| matches!(c, Dom::El { .. })).collect(),
        _ => vec![],
    }
}

fn el<'a>(d: &'a Dom) -> (&'a str, &'a BTreeMap<String, String>, String) {
    match d {
        Dom::El { tag, attrs, children, .. } => {
            let t = children.iter().filter_map(|c| if let Dom::Text(t) = c { Some(t.as_str()) } else { None }).collect();
            (tag, attrs, t)
        }
        Dom::Text(_) => fail("a text where an element was expected"),
    }
}

fn value(d: &Dom) -> String {
    el(d).1.get("value").cloned().unwrap_or_default()
}

fn read_page(body: &[Dom]) -> Option<Page> {
    let [root] = body else { return None };
    let top = kids(root);
    let first = kids(top.first()?);
    if el(first.first()?).0 == "input" {
        let [_, _] = top[..] else { return None };
        return Some(Page::Asks(value(first[0])));
    }
    let hello = el(first[0]).2;
    let rest = hello.strip_prefix("Hello ")?.strip_suffix(")!")?;
    let (name, id) = rest.rsplit_once(" (user_id: ")?;
    let mut messages = vec![];
    for m in &top[1..] {
        let k = kids(m);
        let [h, p] = k[..] else { return None };
        let x = el(h).2;
        let x = x.strip_prefix("Message from ")?.strip_suffix(")")?;
        let (n, i) = x.rsplit_once(" (user id: ")?;
        messages.push((n.to_string(), i.parse().ok()?, el(p).2));
    }
    Some(Page::Chat { name: name.into(), id: id.parse().ok()?, composing: value(kids(first[1])[0]), messages })
}

/// What the page of this connection shows in the end.
fn page(conn: usize) -> Page {
    let sent = host::written(conn, 1);
    let Some(at) = sent.windows(4).position(|w| w == b"\r\n\r\n") else { fail("the WebSocket was not opened") };
    ensure!(sent.starts_with(b"HTTP/1.1 101"), "the WebSocket was not opened: {:?}", String::from_utf8_lossy(&sent));
    let frames = match server_frames(&sent[at + 4..]) {
        Ok((f, [])) => f,
        other => fail_key("frames", format!("the server sent malformed frames: {other:?}")),
    };
    let msgs: Vec<String> = frames.into_iter().filter(|f| f.0 == 1).map(|f| String::from_utf8(f.1).unwrap()).collect();
    // the same messages make the same page
    static KNOWN: std::sync::Mutex<BTreeMap<Vec<String>, Page>> = std::sync::Mutex::new(BTreeMap::new());
    if let Some(p) = KNOWN.lock().unwrap().get(&msgs) {
        return p.clone();
    }
    let (mut b, url) = Browser::open(HREF);
    ensure!(url.as_deref() == Ok("ws://localhost:8081/ws"), "the page connects to {url:?}");
    let mut last = vec![];
    for (r, m) in b.ask(msgs.iter().map(|m| dom::message(m)).collect()).iter().zip(&msgs) {
        match dom::painted(r) {
            Ok(p) => last = p.body,
            Err(e) => fail_key("script", format!("the page fails on {m}: {e}")),
        }
    }
    match read_page(&last) {
        Some(p) => {
            let mut known = KNOWN.lock().unwrap();
            if known.len() < 100_000 {
                known.insert(msgs, p.clone());
            }
            p
        }
        None => fail_key("page", format!("the page shows {}", dom::show(&last))),
    }
}

fn healthy() {
    let t = host::traps();
    ensure!(t.is_empty(), "processes trapped: {t:?}");
    if host::livelock() {
        fail_key("livelock", "the server keeps working without end");
    }
    let ps = host::procs();
    let sv = ps.iter().find(|p| p.name == "chat").unwrap();
    ensure!(matches!(sv.status, host::Status::Waiting(_)), "the server ended: {:?}", sv.status);
}

/// What a user has to see: messages (sender's index, text) that must, and that may, be there.
struct Sees {
    conn: usize,
    name: &'static str,
    must: Vec<(usize, &'static str)>,
    may: Vec<(usize, &'static str)>,
}

type Cast = Rc<RefCell<Vec<Sees>>>;

/// Everybody's page is right; ids of those present at the same time differ.
fn judge(cast: &[Sees]) {
    let pages: Vec<(String, u64, Vec<(String, u64, String)>)> = cast
        .iter()
        .map(|s| match page(s.conn) {
            Page::Chat { name, id, messages, .. } => (name, id, messages),
            p => fail(format!("{} is not registered: the page shows {p:?}", s.name)),
        })
        .collect();
    for (i, a) in pages.iter().enumerate() {
        ensure!(a.0 == cast[i].name, "{} is called {:?}", cast[i].name, a.0);
        for b in &pages[..i] {
            ensure!(a.1 != b.1, "{} and {} have the same id {}", a.0, b.0, a.1);
        }
    }
    for (s, (name, _, got)) in cast.iter().zip(&pages) {
        for who in 0..cast.len() {
            let full = |x: &[(usize, &'static str)]| -> Vec<&str> { x.iter().filter(|m| m.0 == who).map(|m| m.1).collect() };
            let sees: Vec<&str> = got.iter().filter(|m| m.1 == pages[who].1).map(|m| m.2.as_str()).collect();
            let (must, may) = (full(&s.must), full(&s.may));
            // in the sender's order: what has to be there, and a selection of what may be
            let mut all: Vec<&str> = sees.clone();
            all.retain(|m| must.contains(m));
            if all != must {
                fail(format!("{name} sees {sees:?} of {} instead of {must:?} (everything: {got:?})", pages[who].0));
            }
            let mut extra: Vec<&str> = sees.clone();
            extra.retain(|m| !must.contains(m));
            let mut it = may.iter();
            ensure!(extra.iter().all(|m| it.any(|x| x == m)), "{name} sees {sees:?} of {}, of whom {must:?} and some of {may:?} were to be seen", pages[who].0);
            ensure!(got.iter().filter(|m| m.1 == pages[who].1).all(|m| m.0 == pages[who].0), "{name} sees messages of {} under another name: {got:?}", pages[who].0);
        }
        let known: Vec<u64> = pages.iter().map(|p| p.1).collect();
        ensure!(got.iter().all(|m| known.contains(&m.1)), "{name} sees a message of nobody: {got:?}");
    }
}

/// Registered users, in an order of their own.
fn registered(names: &[&'static str]) -> Vec<User> {
    let us: Vec<User> = names.iter().map(|_| User::join()).collect();
    net::quiesce();
    for (u, n) in us.iter().zip(names) {
        u.name(n);
        u.register();
        net::quiesce();
    }
    us
}

/// The script of all users; interleavings are explored from where it says so.
fn director(f: impl FnOnce(&Cast) + 'static) -> Cast {
    let cast: Cast = host::cell(vec![]);
    let c2 = cast.clone();
    start(Opts { sched: Sched::Fixed, seg: Seg::All, horizon: 100_000, ..Opts::default() });
    host::client("users", move || {
        f(&c2);
        net::park();
    });
    cast
}

fn a02(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    vec![
        scenario("histories", "every history of three users who write, in every order", Config::bound(0).fresh(), move || {
            const NAMES: [&str; 3] = ["anna", "ben", "anna"];
            const TEXTS: [[&str; 4]; 3] = [["a0", "a1", "a2", "a3"], ["b0", "b1", "b2", "b3"], ["c0", "c1", "c2", "c3"]];
            // who does something: write, join, leave
            let n = if th { 6 } else { 5 };
            let steps: Vec<usize> = (0..n).map(|_| choose(6)).collect();
            note(|| format!("{steps:?}"));
            let s2 = steps.clone();
            let cast = director(move |cast| {
                let mut us: Vec<Option<User>> = vec![None, None, None];
                let mut sees: Vec<Vec<(usize, &'static str)>> = vec![vec![]; 3];
                let mut wrote = [0; 3];
                let mut gone = [false; 3];
                for s in s2 {
                    let who = s % 3;
                    if s < 3 {
                        if gone[who] || wrote[who] == 4 {
                            continue;
                        }
                        if let Some(u) = &us[who] {
                            let text = TEXTS[who][wrote[who]];
                            wrote[who] += 1;
                            u.compose(text);
                            u.submit();
                            net::quiesce();
                            for x in 0..3 {
                                if us[x].is_some() {
                                    sees[x].push((who, text));
                                }
                            }
                        } else {
                            us[who] = registered(&[NAMES[who]]).pop();
                        }
                    } else if let Some(mut u) = us[who].take() {
                        u.sock.close();
                        gone[who] = true;
                        net::quiesce();
                    }
                }
                let mut index = [None; 3];
                let mut all = vec![];
                for x in 0..3 {
                    if us[x].is_some() {
                        index[x] = Some(all.len());
                        all.push(x);
                    }
                }
                // only those who are still there are judged; messages of others are not told apart by
                // their ids, which may have been given to somebody else
                let left: Vec<&str> = (0..3).filter(|x| gone[*x]).flat_map(|x| TEXTS[x]).collect();
                for x in all {
                    let must: Vec<&'static str> = sees[x].iter().map(|m| m.1).collect();
                    let Page::Chat { name, messages, .. } = page(us[x].as_ref().unwrap().conn()) else { fail("a page asks for a name that was given") };
                    ensure!(name == NAMES[x], "{} is called {name:?}", NAMES[x]);
                    let got: Vec<&str> = messages.iter().map(|m| m.2.as_str()).collect();
                    ensure!(got == must, "{name} sees {got:?} instead of {must:?} ({left:?} have left)");
                    for (m, (who, _)) in messages.iter().zip(&sees[x]) {
                        ensure!(m.0 == NAMES[*who], "{name} sees {m:?} of {}", NAMES[*who]);
                    }
                    cast.borrow_mut().push(Sees {
                        conn: us[x].as_ref().unwrap().conn(),
                        name: NAMES[x],
                        must: vec![],
                        may: vec![],
                    });
                }
                std::mem::forget(us);
            });
            host::run();
            healthy();
            // ids of those present differ
            let ids: Vec<u64> = cast.borrow().iter().map(|s| if let Page::Chat { id, .. } = page(s.conn) { id } else { 0 }).collect();
            for i in 0..ids.len() {
                ensure!(!ids[..i].contains(&ids[i]), "two users have the id {}", ids[i]);
            }
            outcome(&(steps, ids));
        }),
        scenario("writing", "registered users write at the same time, in every interleaving", Config::bound(0).fresh(), move || {
            const PLANS: &[&[usize]] = &[&[1, 0], &[1, 1], &[2, 0], &[2, 1], &[1, 0, 0], &[1, 1, 0], &[2, 2], &[1, 1, 1]];
            let plan = PLANS[choose(if th { 8 } else { 5 })];
            if plan.len() > 2 {
                mc::hash_seed(choose(3));
            }
            const NAMES: [&str; 3] = ["anna", "ben", "carl"];
            const TEXTS: [[&str; 2]; 3] = [["a0", "a1"], ["b0", "b1"], ["c0", "c1"]];
            note(|| format!("{plan:?}"));
            let cast = director(move |cast| {
                let us = registered(&NAMES[..plan.len()]);
                for (i, u) in us.iter().enumerate() {
                    if plan[i] > 0 {
                        u.compose(TEXTS[i][0]);
                    }
                }
                net::quiesce();
                host::schedule(Sched::Full);
                for (i, u) in us.iter().enumerate() {
                    for k in 0..plan[i] {
                        if k > 0 {
                            u.compose(TEXTS[i][k]);
                        }
                        u.submit();
                    }
                }
                let must: Vec<(usize, &'static str)> = (0..us.len()).flat_map(|i| (0..plan[i]).map(move |k| (i, TEXTS[i][k]))).collect();
                for (i, u) in us.iter().enumerate() {
                    cast.borrow_mut().push(Sees { conn: u.conn(), name: NAMES[i], must: must.clone(), may: vec![] });
                }
                net::park();
                drop(us);
            });
            host::run();
            healthy();
            judge(&cast.borrow());
            outcome(&(plan, cast.borrow().iter().map(|s| page(s.conn)).collect::<Vec<_>>()));
        }),
        scenario("joining", "users register at the same time as each other and as somebody writes, in every interleaving", Config::bound(0).fresh(), move || {
            let (joins, writes) = [(2, false), (1, true), (2, true)][choose(3)];
            note(|| format!("{joins} join, somebody writes: {writes}"));
            let cast = director(move |cast| {
                let us = registered(&["anna"]);
                us[0].compose("hello");
                let new: Vec<User> = (0..joins).map(|_| User::join()).collect();
                net::quiesce();
                new.iter().for_each(|u| u.name("new"));
                net::quiesce();
                host::schedule(Sched::Full);
                if writes {
                    us[0].submit();
                }
                new.iter().for_each(|u| u.register());
                let said: Vec<_> = writes.then_some((0, "hello")).into_iter().collect();
                cast.borrow_mut().push(Sees { conn: us[0].conn(), name: "anna", must: said.clone(), may: vec![] });
                for u in &new {
                    cast.borrow_mut().push(Sees { conn: u.conn(), name: "new", must: vec![], may: said.clone() });
                }
                net::park();
                drop((us, new));
            });
            host::run();
            healthy();
            judge(&cast.borrow());
            outcome(&cast.borrow().iter().map(|s| page(s.conn)).collect::<Vec<_>>());
        }),
        scenario("leaving", "a user leaves while another writes and a third registers, in every interleaving", Config::bound(0).fresh(), move || {
            let how = choose(if th { 4 } else { 3 });
            let register = th && choose(2) == 1;
            let cast = director(move |cast| {
                let mut us = registered(&["anna", "ben"]);
                us[0].compose("hello");
                let third = User::join();
                net::quiesce();
                third.name("carl");
                net::quiesce();
                host::schedule(Sched::Full);
                us[0].submit();
                let ben = &mut us[1];
                match how {
                    0 => ben.sock.close(),
                    1 => ben.sock.reset(),
                    2 => {
                        ben.sock.send(&f(8, b"").bytes());
                    }
                    _ => {
                        ben.compose("bye");
                        ben.submit();
                        ben.sock.close();
                    }
                }
                if register {
                    third.register();
                }
                net::quiesce();
                host::schedule(Sched::Fixed);
                if !register {
                    third.register();
                }
                net::quiesce();
                us[0].compose("again");
                us[0].submit();
                third.compose("here");
                third.submit();
                net::quiesce();
                let mut said = vec![(0, "again"), (1, "here")];
                let may: Vec<_> = if register { vec![(0, "hello")] } else { vec![] };
                cast.borrow_mut().push(Sees { conn: third.conn(), name: "carl", must: said.clone(), may });
                said.insert(0, (0, "hello"));
                cast.borrow_mut().insert(0, Sees { conn: us[0].conn(), name: "anna", must: said, may: vec![] });
                net::park();
                drop((us, third));
            });
            host::run();
            healthy();
            let seen: Vec<Page> = cast.borrow().iter().map(|s| page(s.conn)).collect();
            if how < 3 {
                judge(&cast.borrow());
            }
            outcome(&(how, register, seen));
        }),
        scenario("from-the-start", "users join, choose a name, write and some of them leave, all at the same time, in every interleaving", Config::bound(0).fresh(), move || {
            // how far each user gets: registers, writes, leaves then
            const PLANS: &[&[(usize, bool)]] = &[&[(0, false), (0, false)], &[(1, false), (0, false)], &[(1, false), (1, false)], &[(1, false), (0, true)], &[(1, true), (1, false)], &[(2, false), (1, true)], &[(0, false), (0, false), (0, false)], &[(1, false), (0, false), (0, true)]];
            let plan = PLANS[choose(if th { PLANS.len() } else { 5 })];
            const NAMES: [&str; 3] = ["anna", "ben", "carl"];
            const TEXTS: [[&str; 2]; 3] = [["a0", "a1"], ["b0", "b1"], ["c0", "c1"]];
            note(|| format!("{plan:?}"));
            mc::hash_seed(choose(if plan.len() > 2 { 3 } else { 1 }));
            let cast: Cast = host::cell(vec![]);
            let left = host::cell(vec![]);
            start(Opts { sched: Sched::Full, horizon: 100_000, ..Opts::default() });
            for (i, (writes, leaves)) in plan.iter().copied().enumerate() {
                let (cast, left) = (cast.clone(), left.clone());
                host::client(NAMES[i], move || {
                    let mut u = User::join();
                    u.name(NAMES[i]);
                    u.register();
                    for text in &TEXTS[i][..writes] {
                        u.compose(text);
                        u.submit();
                    }
                    if leaves {
                        u.sock.send(&f(8, b"").bytes());
                        u.sock.recv_to_end();
                        u.sock.close();
                        left.borrow_mut().push(u.conn());
                    } else {
                        let said = |j: usize| (0..plan[j].0).map(move |k| (j, TEXTS[j][k]));
                        let may = (0..plan.len()).filter(|j| *j != i).flat_map(said).collect();
                        cast.borrow_mut().push(Sees { conn: u.conn(), name: NAMES[i], must: said(i).collect(), may });
                        net::park();
                    }
                });
            }
            host::run();
            healthy();
            ensure!(left.borrow().len() == plan.iter().filter(|p| p.1).count(), "somebody who wanted to leave could not");
            let mut cast = std::mem::take(&mut *cast.borrow_mut());
            cast.sort_by_key(|s| s.name);
            let pages: Vec<Page> = cast.iter().map(|s| page(s.conn)).collect();
            if left.borrow().is_empty() {
                // the users are numbered as they are named
                judge(&cast);
            } else {
                for (s, p) in cast.iter().zip(&pages) {
                    let Page::Chat { name, messages, .. } = p else { fail(format!("{} is not registered: the page shows {p:?}", s.name)) };
                    ensure!(name == s.name, "{} is called {name:?}", s.name);
                    for (j, (writes, _)) in plan.iter().enumerate() {
                        let of: Vec<&str> = messages.iter().filter(|m| m.0 == NAMES[j]).map(|m| m.2.as_str()).collect();
                        let mut it = TEXTS[j][..*writes].iter();
                        ensure!(of.iter().all(|m| it.any(|x| x == m)), "{name} sees {of:?} of {}", NAMES[j]);
                        ensure!(NAMES[j] != s.name || of.len() == *writes, "{name} sees {of:?} of what was written");
                    }
                    ensure!(messages.iter().all(|m| NAMES[..plan.len()].contains(&m.0.as_str())), "{name} sees a message of nobody: {messages:?}");
                }
            }
            outcome(&(plan, pages));
        }),
        scenario("pages", "the page, its script and nothing else are served; only a WebSocket request gets a WebSocket", Config::bound(0).fresh(), || {
            let what = *pick(&["/", "/js", "/ws", "/nothing", "/js/x"]);
            let seen = host::cell(vec![]);
            let s2 = seen.clone();
            let cast = director(move |_| {
                let mut c = net::connect(PORT);
                c.send(&get(what));
                *s2.borrow_mut() = c.recv_to_end();
                c.close();
            });
            host::run();
            healthy();
            drop(cast);
            let seen = String::from_utf8_lossy(&seen.borrow()).into_owned();
            if seen.is_empty() && ["/nothing", "/js/x"].contains(&what) {
                // the router does not answer what matches no route
                return outcome(&what);
            }
            let Some((head, body)) = seen.split_once("\r\n\r\n") else { fail(format!("{what} is answered by {seen:?}")) };
            let status = head.split(' ').nth(1).unwrap_or("").to_string();
            let ty = head.lines().find_map(|l| l.to_lowercase().strip_prefix("content-type: ").map(|x| x.to_string())).unwrap_or_default();
            match what {
                "/" => {
                    ensure!(status == "200" && ty.starts_with("text/html"), "the page is served with {head:?}");
                    ensure!(body.contains("src=\"./js\"") && body.contains("<body>"), "the page does not load its script: {body}");
                }
                "/js" => {
                    ensure!(status == "200" && (ty.starts_with("application/javascript") || ty.starts_with("text/javascript")), "the script is served with {head:?}");
                    let own = puck_liveview::init::js().take_body().into_string().unwrap();
                    ensure!(body == own, "the script is served in part");
                }
                "/ws" => ensure!(status == "400", "a request for a WebSocket which is none gets the status {status}"),
                _ => ensure!(status == "404", "{what} gets the status {status}"),
            }
            outcome(&(what, status));
        }),
        scenario("browsers", "two browsers: what one user types and sends on the page appears on both, whatever it is", Config::bound(0).fresh(), || {
            const WORDS: &[&str] = &["hello", "", "a+b", "é\u{1F600}", "\"\\", "x y", "0"];
            let (name, text) = (*pick(WORDS), *pick(WORDS));
            note(|| format!("{name:?} says {text:?}"));
            let seen = host::cell((vec![], vec![]));
            let s2 = seen.clone();
            let cast = director(move |_| {
                let us = [User::join(), User::join()];
                let mut bs = [Browser::open(HREF).0, Browser::open(HREF).0];
                let mut read = [0; 2];
                let mut shown: [Vec<Dom>; 2] = [vec![], vec![]];
                let mut update = |bs: &mut [Browser; 2], shown: &mut [Vec<Dom>; 2]| {
                    net::quiesce();
                    for i in 0..2 {
                        let sent = host::written(us[i].conn(), 1);
                        let at = sent.windows(4).position(|w| w == b"\r\n\r\n").map_or(sent.len(), |n| n + 4);
                        let fs = match server_frames(&sent[at..]) {
                            Ok((f, [])) => f,
                            other => fail_key("frames", format!("the server sent malformed frames: {other:?}")),
                        };
                        for (_, m) in &fs[read[i]..] {
                            match bs[i].receive(std::str::from_utf8(m).unwrap()) {
                                Ok(p) => shown[i] = p.body,
                                Err(e) => fail_key("script", e),
                            }
                        }
                        read[i] = fs.len();
                    }
                };
                let does = |bs: &mut [Browser; 2], i: usize, path: &[usize], ev: &str, v: Option<&str>| match bs[i].fire(path, ev, v) {
                    Ok(d) => d.sent.iter().for_each(|m| us[i].tell(m.clone())),
                    Err(e) => fail_key("script", e),
                };
                update(&mut bs, &mut shown);
                for (i, n) in [name, "other"].iter().enumerate() {
                    does(&mut bs, i, &[0, 0, 0], "input", Some(n));
                    update(&mut bs, &mut shown);
                    ensure!(read_page(&shown[i]) == Some(Page::Asks(n.to_string())), "after typing the name {n:?} the page shows {}", dom::show(&shown[i]));
                    does(&mut bs, i, &[0, 1, 0], "click", None);
                    update(&mut bs, &mut shown);
                }
                for n in 1..3 {
                    does(&mut bs, 0, &[0, 0, 1, 0], "input", Some(text));
                    update(&mut bs, &mut shown);
                    does(&mut bs, 0, &[0, 0, 2, 0], "click", None);
                    update(&mut bs, &mut shown);
                    for i in 0..2 {
                        let Some(Page::Chat { name: shown_name, id, composing, messages }) = read_page(&shown[i]) else { fail_key("page", format!("the page shows {}", dom::show(&shown[i]))) };
                        let _ = id;
                        ensure!(shown_name == ["", "other"][i] || i == 0 && shown_name == name, "the user {i} is called {shown_name:?}");
                        ensure!(i == 1 || composing == text, "the text being written is {composing:?}");
                        ensure!(messages.len() == n && messages.iter().all(|m| m.0 == name && m.2 == text), "the page of user {i} shows {messages:?} after {n} times {text:?} of {name:?}");
                        s2.borrow_mut().0.push(messages.len());
                    }
                }
                s2.borrow_mut().1.push(true);
                net::park();
                drop((us, bs));
            });
            host::run();
            healthy();
            drop(cast);
            ensure!(seen.borrow().1.len() == 1, "the conversation came to a stop");
            outcome(&(name, text));
        }),
    ]
}
