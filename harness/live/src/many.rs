//! Several clients of one LiveView page: each has a component of its own.
use crate::live::{fixed, follows_as, frames, PORT};
use crate::refws::*;
use crate::tree::*;
use mc::host::{self, net, Opts, Sched};
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail, fail_key, note, outcome, pick, Config};
use puck::core::{Core, Stream, UsedStream};
use puck::lunatic::net::TcpListener;
use puck::lunatic::Process;
use puck::ws::websocket::WebSocket;
use puck::Request;
use puck_liveview::component::{manage, Component, Context};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::event::{ClickEvent, InputEvent};
use puck_liveview::dom::listener::Listener;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};

pub fn check() -> Check {
    Check {
        property: "V07",
        assumptions: vec![
            "the Lunatic host model of mc/src/host.rs (processes, mailboxes, TCP) stands for the Lunatic runtime",
            "harness/live/dom.js stands for the browser",
            "two or three clients, at most two updates each",
        ],
        scenarios,
    }
}

#[derive(Serialize, Deserialize)]
enum In {
    Say(String),
    /// From now on, what is told goes to this component.
    Meet(Process<In>),
    Tell(String),
    Die,
}

impl std::fmt::Debug for In {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", brief(self))
    }
}

fn brief(i: &In) -> String {
    match i {
        In::Say(x) => x.clone(),
        In::Meet(_) => "meets".into(),
        In::Tell(x) => format!("tells {x}"),
        In::Die => "dies".into(),
    }
}

/// Where a component panics.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Hash)]
enum Dies {
    No,
    New,
    FirstRender,
    Handler,
    Update,
    LaterRender,
}

thread_local! {
    /// By the name of a component: what it was asked to do, how often it was made and dropped.
    static SEEN: RefCell<BTreeMap<String, (Vec<String>, u32, u32)>> = const { RefCell::new(BTreeMap::new()) };
}

fn of<R>(name: &str, f: impl FnOnce(&mut (Vec<String>, u32, u32)) -> R) -> R {
    SEEN.with(|s| f(s.borrow_mut().entry(name.into()).or_default()))
}

struct Own {
    name: String,
    dies: Dies,
    seen: Vec<String>,
    friend: Option<Process<In>>,
}

fn shown(name: &str, seen: &[String]) -> T {
    t("div").child(t("h1").text(name)).child(t("p").text("go").on("i", "input").on("d", "click")).with(seen.iter().map(|s| t("p").text(s)).collect()).number(0)
}

impl Component<(String, Dies), In> for Own {
    fn new((name, dies): (String, Dies), context: &Context<In>) -> Self {
        of(&name, |s| s.1 += 1);
        if dies == Dies::New {
            panic!("{name} dies");
        }
        let _ = context;
        Own { name, dies, seen: vec![], friend: None }
    }
    fn update(&mut self, input: In, _: &Context<In>) {
        of(&self.name, |s| s.0.push(brief(&input)));
        self.seen.push(brief(&input));
        match input {
            In::Say(_) => {}
            In::Meet(p) => self.friend = Some(p),
            In::Tell(x) => self.friend.as_ref().unwrap().send(In::Say(x)),
            In::Die => {}
        }
        if self.dies == Dies::Update {
            panic!("{} dies", self.name);
        }
    }
    fn render(&self) -> (Element, HashMap<String, Listener<In>>) {
        if self.dies == Dies::FirstRender || self.dies == Dies::LaterRender && !self.seen.is_empty() {
            panic!("{} dies", self.name);
        }
        let mut m = HashMap::new();
        let (name, dies) = (self.name.clone(), self.dies);
        m.insert(
            "i".to_string(),
            Listener::Input {
                call: Box::new(move |e: InputEvent| {
                    if dies == Dies::Handler {
                        panic!("{name} dies");
                    }
                    match e.value.strip_prefix("tell ") {
                        Some(x) => In::Tell(x.into()),
                        None => In::Say(e.value),
                    }
                }),
            },
        );
        m.insert("d".to_string(), Listener::Click { call: Box::new(|_: ClickEvent| In::Die) });
        (shown(&self.name, &self.seen).element(), m)
    }
}

impl Drop for Own {
    fn drop(&mut self) {
        of(&self.name, |s| s.2 += 1);
    }
}

fn event(value: &str) -> Vec<u8> {
    f(1, format!("{{\"listener\":\"i\",\"payload\":{{\"value\":\"{value}\"}}}}").as_bytes()).bytes()
}

/// A server whose clients get components called own0, own1, ... in the order in which they are accepted.
fn serve(opts: Opts, dies: Vec<Dies>, then: impl FnOnce(Vec<Process<In>>) + 'static) {
    SEEN.with(|s| s.borrow_mut().clear());
    host::new_world(opts);
    host::server("server", move || {
        let l = TcpListener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], PORT))).unwrap();
        let mut all = vec![];
        for (i, d) in dies.into_iter().enumerate() {
            let (stream, _) = l.accept().unwrap();
            all.push(manage::<Own, (String, Dies), In>((called(i), d), WebSocket::new(stream)));
        }
        then(all);
        net::park();
    });
}

fn painted(sent: &[u8]) -> Vec<String> {
    frames(sent).into_iter().filter(|f| f.0 == 1).map(|f| String::from_utf8(f.1).unwrap()).collect()
}

/// The component whose page this connection shows, which has to show all it did.
fn whose(conn: usize, names: &[String]) -> Option<String> {
    let msgs = painted(&host::written(conn, 1));
    let first = msgs.first()?;
    let mine: Vec<&String> = names.iter().filter(|n| first.contains(&format!("\"{n}\""))).collect();
    ensure!(mine.len() == 1, "the first paint is of {mine:?}: {first}");
    let name = mine[0].clone();
    let log = of(&name, |s| s.0.clone());
    follows_as(&msgs, &log, &|seen| shown(&name, seen));
    Some(name)
}

/// Every connection shows a component of its own; by connection, what each was asked to do.
fn apart(conns: &[usize], names: &[String]) -> Vec<(String, Vec<String>)> {
    let got: Vec<(String, Vec<String>)> = conns
        .iter()
        .map(|c| {
            let n = whose(*c, names).unwrap_or_else(|| fail_key("page", "a client gets no page"));
            let l = of(&n, |s| s.0.clone());
            (n, l)
        })
        .collect();
    let mut ns: Vec<&String> = got.iter().map(|g| &g.0).collect();
    ns.sort();
    ns.dedup();
    ensure!(ns.len() == conns.len(), "{} clients share components: {got:?}", conns.len());
    got
}

fn called(i: usize) -> String {
    format!("own{i}")
}

fn names(n: usize) -> Vec<String> {
    (0..n).map(called).collect()
}

/// These, each source in its order, and nothing else.
fn asked(name: &str, log: &[String], sources: &[Vec<String>]) {
    let n: usize = sources.iter().map(|s| s.len()).sum();
    ensure!(log.len() == n, "{name} was asked {log:?} instead of {sources:?}");
    for s in sources {
        ensure!(log.iter().filter(|l| s.contains(l)).eq(s.iter()), "{name} was asked {log:?} instead of {sources:?}");
    }
}

fn full() -> Opts {
    Opts { sched: Sched::Full, horizon: 20_000, ..Opts::default() }
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    fn clients(n: usize, events: usize) -> std::rc::Rc<RefCell<Vec<usize>>> {
        let conns = host::cell(vec![0; n]);
        for i in 0..n {
            let c2 = conns.clone();
            host::client(&format!("client {i}"), move || {
                let s = net::connect(PORT);
                c2.borrow_mut()[i] = s.conn;
                for e in 0..events {
                    s.send(&event(&format!("c{i}e{e}")));
                }
                net::park();
            });
        }
        conns
    }
    vec![
        scenario("together", "two clients send events and their components are sent messages, in every interleaving", Config::bound(0), move || {
            let (events, notes) = [(1, 0), (0, 1), (1, 1), (2, 1), (2, 2)][choose(if th { 5 } else { 4 })];
            serve(full(), vec![Dies::No; 2], move |ps| {
                for (i, p) in ps.iter().enumerate() {
                    for n in 0..notes {
                        p.send(In::Say(format!("own{i}n{n}")));
                    }
                }
            });
            let conns = clients(2, events);
            host::run();
            crate::live::no_traps();
            for (i, (name, log)) in apart(&conns.borrow(), &names(2)).iter().enumerate() {
                asked(name, log, &[(0..events).map(|e| format!("c{i}e{e}")).collect(), (0..notes).map(|n| format!("{name}n{n}")).collect()]);
            }
            outcome(&(events, notes, SEEN.with(|s| s.borrow().clone())));
        }),
        scenario("three", "three clients with events and messages, in every interleaving", Config::bound(0), move || {
            serve(full(), vec![Dies::No; 3], move |ps| {
                for (i, p) in ps.iter().enumerate().rev() {
                    p.send(In::Say(format!("own{i}n0")));
                }
            });
            let conns = clients(3, 1);
            host::run();
            crate::live::no_traps();
            for (i, (name, log)) in apart(&conns.borrow(), &names(3)).iter().enumerate() {
                asked(name, log, &[vec![format!("c{i}e0")], vec![format!("{name}n0")]]);
            }
            outcome(&SEEN.with(|s| s.borrow().clone()));
        }),
        scenario("friends", "one component sends messages to another", Config::bound(0), move || {
            let both = choose(2) == 1;
            serve(full(), vec![Dies::No; 2], move |ps| {
                ps[0].send(In::Meet(ps[1].clone()));
                ps[0].send(In::Tell("a".into()));
                if both {
                    ps[1].send(In::Meet(ps[0].clone()));
                    ps[1].send(In::Tell("b".into()));
                }
            });
            let conns = clients(2, 1);
            host::run();
            crate::live::no_traps();
            for (i, (name, log)) in apart(&conns.borrow(), &names(2)).iter().enumerate() {
                let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
                let (tells, hears) = match (name.as_str(), both) {
                    ("own0", true) => (s(&["meets", "tells a"]), s(&["b"])),
                    ("own0", false) => (s(&["meets", "tells a"]), s(&[])),
                    (_, true) => (s(&["meets", "tells b"]), s(&["a"])),
                    _ => (s(&[]), s(&["a"])),
                };
                asked(name, log, &[vec![format!("c{i}e0")], tells, hears]);
            }
            outcome(&SEEN.with(|s| s.borrow().clone()));
        }),
        scenario("leaves", "one client leaves, in some way, while the other goes on", Config::bound(0), move || {
            let how = choose(3);
            serve(full(), vec![Dies::No; 2], move |ps| {
                for (i, p) in ps.iter().enumerate() {
                    p.send(In::Say(format!("own{i}:")));
                }
            });
            let stays = host::cell(0);
            let s2 = stays.clone();
            host::client("leaves", move || {
                let mut s = net::connect(PORT);
                s.send(&event("x"));
                match how {
                    0 => s.reset(),
                    1 => s.close(),
                    _ => {
                        s.send(&f(8, b"").bytes());
                        s.recv_to_end();
                        s.close();
                    }
                }
            });
            host::client("stays", move || {
                let s = net::connect(PORT);
                *s2.borrow_mut() = s.conn;
                s.send(&event("y"));
                net::park();
            });
            host::run();
            crate::live::no_traps();
            let got = apart(&[*stays.borrow()], &names(2));
            let (name, log) = &got[0];
            asked(name, log, &[vec!["y".into()], vec![format!("{name}:")]]);
            ensure!(of(name, |s| (s.1, s.2)) == (1, 0), "the component of the client that stays is gone");
            let (left, made, dropped) = of(if name == "own0" { "own1" } else { "own0" }, |s| (s.0.clone(), s.1, s.2));
            ensure!(left.iter().all(|l| l == "x" || !l.is_empty() && *l != "y" && *l != format!("{name}:")), "the one that left was asked {left:?}");
            ensure!(made == dropped, "the component of the client that left is still there");
            outcome(&(how, SEEN.with(|s| s.borrow().clone())));
        }),
        scenario("panics", "one component panics; the others go on, and others that come later too", Config::bound(0), move || {
            let dies = *pick(&[Dies::New, Dies::FirstRender, Dies::Handler, Dies::Update, Dies::LaterRender]);
            let which = choose(2);
            let after = choose(2) == 1;
            note(|| format!("{dies:?} of {which}"));
            let mut all = vec![Dies::No; 3];
            all[which] = dies;
            serve(full(), all, move |ps| {
                for (i, p) in ps.iter().enumerate() {
                    p.send(In::Say(format!("own{i}:")));
                }
            });
            let conns = host::cell(vec![0; 3]);
            for i in 0..3 {
                let c2 = conns.clone();
                host::client(&format!("client {i}"), move || {
                    if i == 2 && after {
                        net::quiesce();
                    }
                    let s = net::connect(PORT);
                    c2.borrow_mut()[i] = s.conn;
                    s.send(&event(&format!("c{i}")));
                    net::park();
                });
            }
            host::run();
            let traps = host::traps();
            ensure!(traps.len() == 1 && traps[0].1.contains("dies"), "one component dies, and these trap: {traps:?}");
            let mut seen = vec![];
            for (i, c) in conns.borrow().iter().enumerate() {
                let Some(name) = first_of(*c) else { continue };
                if name == called(which) {
                    continue;
                }
                let log = of(&name, |s| s.0.clone());
                let n = whose(*c, &names(3));
                ensure!(n.as_ref() == Some(&name), "the page of {name} is of {n:?}");
                asked(&name, &log, &[vec![format!("c{i}")], vec![format!("{name}:")]]);
                seen.push(name);
            }
            seen.sort();
            seen.dedup();
            ensure!(seen.len() == 2, "the clients of {seen:?} go on, when {which} has died");
            outcome(&(dies, which, SEEN.with(|s| s.borrow().clone())));
        }),
        scenario("server", "clients of a whole server, whose components are made from what they asked for; some leave, ask for something else, or make theirs panic", Config::bound(0), move || {
            #[derive(Clone, Copy, Debug, PartialEq, Hash)]
            enum Does {
                Stays,
                Leaves,
                Resets,
                NoUpgrade,
                Garbage,
                Panics(Dies),
            }
            const MANY: &[Does] = &[Does::Stays, Does::Leaves, Does::Resets, Does::NoUpgrade, Does::Garbage, Does::Panics(Dies::New), Does::Panics(Dies::Handler), Does::Panics(Dies::LaterRender)];
            let n = if th { 3 } else { 2 };
            let mut does = vec![Does::Stays];
            does.extend((1..n).map(|_| *pick(MANY)));
            if !th && choose(2) == 1 {
                does.push(Does::Stays);
            }
            note(|| format!("{does:?}"));
            SEEN.with(|s| s.borrow_mut().clear());
            host::new_world(full());
            host::server("server", || {
                Core::bind(std::net::SocketAddr::from(([127, 0, 0, 1], PORT)), Dies::No).unwrap().for_each(|req: Request, s: Stream, _: Dies| {
                    let name = req.url().path().trim_start_matches('/').to_string();
                    let dies = match req.url().query() {
                        Some("new") => Dies::New,
                        Some("handler") => Dies::Handler,
                        Some("render") => Dies::LaterRender,
                        _ => Dies::No,
                    };
                    let ws = match s.upgrade(&req) {
                        Ok(ws) => ws,
                        Err(used) => return used,
                    };
                    manage::<Own, (String, Dies), In>((name, dies), ws);
                    UsedStream::empty()
                })
            });
            let conns = host::cell(vec![0; does.len()]);
            for (i, does) in does.iter().copied().enumerate() {
                let c2 = conns.clone();
                host::client(&format!("client {i}"), move || {
                    let mut s = net::connect(PORT);
                    c2.borrow_mut()[i] = s.conn;
                    let query = match does {
                        Does::Panics(Dies::New) => "?new",
                        Does::Panics(Dies::Handler) => "?handler",
                        Does::Panics(_) => "?render",
                        _ => "",
                    };
                    match does {
                        Does::NoUpgrade => s.send(format!("GET /{i} HTTP/1.1\r\nHost: h\r\n\r\n").as_bytes()),
                        Does::Garbage => s.send(b"GET /0 HTTP\r\n\r\n"),
                        _ => s.send(format!("GET /{i}{query} HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\n\r\n").as_bytes()),
                    };
                    s.recv_until(b"\r\n\r\n");
                    match does {
                        Does::NoUpgrade | Does::Garbage => {
                            s.recv_to_end();
                            return;
                        }
                        _ => {
                            s.send(&event(&format!("c{i}")));
                        }
                    }
                    match does {
                        Does::Leaves => s.close(),
                        Does::Resets => s.reset(),
                        _ => net::park(),
                    }
                });
            }
            host::run();
            let traps = host::traps();
            let want = does.iter().filter(|d| matches!(d, Does::Panics(_))).count();
            ensure!(traps.len() == want && traps.iter().all(|t| t.1.contains("dies")), "{does:?}, and these trap: {traps:?}");
            for (i, c) in conns.borrow().iter().enumerate().filter(|(i, _)| does[*i] == Does::Stays) {
                let w = host::written(*c, 1);
                let at = w.windows(4).position(|x| x == b"\r\n\r\n").unwrap_or_else(|| fail_key("page", "no answer")) + 4;
                let log = of(&i.to_string(), |s| s.0.clone());
                asked(&i.to_string(), &log, &[vec![format!("c{i}")]]);
                follows_as(&painted(&w[at..]), &log, &|seen| shown(&i.to_string(), seen));
            }
            for (i, d) in does.iter().enumerate() {
                if !SEEN.with(|s| s.borrow().contains_key(&i.to_string())) {
                    ensure!(*d != Does::Stays && !matches!(d, Does::Panics(_)), "client {i} has no component");
                    continue;
                }
                let (log, made, dropped) = of(&i.to_string(), |s| (s.0.clone(), s.1, s.2));
                ensure!(!matches!(d, Does::NoUpgrade | Does::Garbage), "client {i} ({d:?}) got a component");
                ensure!(log.iter().all(|l| *l == format!("c{i}")), "the component of client {i} was asked {log:?}");
                if matches!(d, Does::Stays) {
                    ensure!((made, dropped) == (1, 0), "the component of client {i} was made {made} times and dropped {dropped} times");
                }
            }
            outcome(&(does, SEEN.with(|s| s.borrow().clone())));
        }),
        scenario("data", "start data of any shape reaches the component as it is", Config::bound(0), move || {
            #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
            enum D {
                Unit,
                One(Option<Box<D>>),
                Many { a: Vec<D>, m: BTreeMap<String, i64> },
            }
            let which = choose(12);
            let depth = choose(4);
            let mut d = D::Unit;
            for _ in 0..depth {
                d = if choose(2) == 0 { D::One(Some(Box::new(d))) } else { D::Many { a: vec![d.clone(), D::One(None), d], m: [("".to_string(), -1), ("h\u{e9}\0".to_string(), i64::MIN)].into() } };
            }
            match which {
                0 => same_data(()),
                1 => same_data(String::new()),
                2 => same_data("a \u{1F980} \"<b>\"\n\0".to_string()),
                3 => same_data(vec![0u8; [0, 1, 1000, 100_000][depth]]),
                4 => same_data((u64::MAX, i64::MIN, 1.5f64, 'x', true)),
                5 => same_data(Some(Some(None::<u8>))),
                6 => same_data(None::<String>),
                7 => same_data(vec![(1u8, "x".to_string()), (2, "".to_string())]),
                8 => same_data([("k".to_string(), vec![1, 2]), ("".to_string(), vec![])].into_iter().collect::<BTreeMap<_, _>>()),
                9 => same_data([1u128 << 100, 0, u128::MAX]),
                10 => same_data("x".repeat([0, 10, 65_536, 1_000_000][depth])),
                _ => same_data(d),
            }
            outcome(&(which, depth));
        }),
    ]
}

fn first_of(conn: usize) -> Option<String> {
    let msgs = painted(&host::written(conn, 1));
    let first = msgs.first()?;
    names(3).into_iter().find(|n| first.contains(&format!("\"{n}\"")))
}

thread_local! {
    static GOT: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}

struct Shows;

impl<D: std::fmt::Debug> Component<D, In> for Shows {
    fn new(data: D, _: &Context<In>) -> Self {
        GOT.with(|g| g.borrow_mut().push(format!("{data:?}")));
        Shows
    }
    fn update(&mut self, _: In, _: &Context<In>) {}
    fn render(&self) -> (Element, HashMap<String, Listener<In>>) {
        (t("p").element(), HashMap::new())
    }
}

fn same_data<D: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static>(d: D) {
    GOT.with(|g| g.borrow_mut().clear());
    host::new_world(fixed());
    let conns = [host::scripted_conn(&[], false), host::scripted_conn(&[], false)];
    let d2 = d.clone();
    host::server("server", move || {
        for c in conns {
            let ws = WebSocket::new(puck::lunatic::net::TcpStream::__from_id(host::adopt(c, 1)));
            manage::<Shows, D, In>(d2.clone(), ws);
        }
        net::park();
    });
    host::run();
    crate::live::no_traps();
    let got = GOT.with(|g| g.borrow().clone());
    let want = format!("{d:?}");
    ensure!(got.len() == 2 && got.iter().all(|g| *g == want), "components were made from {} instead of {}", got.iter().map(|g| g.chars().take(200).collect::<String>()).collect::<Vec<_>>().join(" and "), want.chars().take(200).collect::<String>());
    for c in conns {
        if painted(&host::written(c, 1)).len() != 1 {
            fail("no page");
        }
    }
}
