//! `puck_liveview`: components on the server, their page in the browser.
use crate::dom::{self, Browser, Dom};
use crate::refws::*;
use crate::tree::*;
use mc::host::{self, net, Opts, Sched, Seg};
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail, fail_key, note, outcome, pick, Config};
use puck::lunatic::net::{TcpListener, TcpStream};
use puck::ws::websocket::WebSocket;
use puck_liveview::component::{manage, Component, Context};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::event::{ClickEvent, InputEvent, SubmitEvent};
use puck_liveview::dom::listener::Listener;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::HashMap;

pub fn checks() -> Vec<Check> {
    const HOST: &str = "the Lunatic host model of mc/src/host.rs (processes, mailboxes, TCP) stands for the Lunatic runtime";
    const DOM: &str = "harness/live/dom.js stands for the browser (documents, events, one WebSocket); the client script itself is the one the server hands out";
    const WELL: &str = "renderings give every element its own id, siblings different keys, and no attribute named id; attribute names contain no plus sign";
    vec![
        Check { property: "V01", assumptions: vec![HOST, DOM, WELL, "the listed families of renderings; sequences of two to four renderings"], scenarios: v01 },
        Check { property: "V02", assumptions: vec![HOST, DOM, WELL, "the listed families of renderings, every event on every element; client messages of the listed alphabet, at most three in a row"], scenarios: v02 },
        Check { property: "V03", assumptions: vec![HOST, DOM, "at most four updates from at most three sources, in every interleaving"], scenarios: v03 },
        Check { property: "V04", assumptions: vec![HOST, "one client, which leaves at every byte and operation of the listed conversations, in every interleaving"], scenarios: v04 },
    ]
}

pub const PORT: u16 = 8081;
const HREF: &str = "http://localhost:8081/";

// ---------------------------------------------------------------------------------------------
// components

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum In {
    Next,
    /// `epoch`: the rendering whose handler was called.
    Event { listener: String, kind: String, value: String, epoch: usize },
    Note(String),
    /// Sends itself another message.
    Ask(String),
}

impl In {
    fn brief(&self) -> String {
        match self {
            In::Next => "next".into(),
            In::Event { listener, kind, value, .. } if kind == "input" => format!("{kind} {listener} {value}"),
            In::Event { listener, kind, .. } => format!("{kind} {listener}"),
            In::Note(x) => x.clone(),
            In::Ask(x) => format!("ask {x}"),
        }
    }
}

thread_local! {
    /// What the components were asked to do, and how often one was made and dropped.
    static LOG: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static MADE: RefCell<(u32, u32)> = const { RefCell::new((0, 0)) };
}

fn forget() {
    LOG.with(|l| l.borrow_mut().clear());
    MADE.with(|m| *m.borrow_mut() = (0, 0));
}

fn log() -> Vec<String> {
    LOG.with(|l| l.borrow().clone())
}

fn listeners(t: &T, epoch: usize) -> HashMap<String, Listener<In>> {
    let mut m = HashMap::new();
    fn go(t: &T, epoch: usize, m: &mut HashMap<String, Listener<In>>) {
        for (name, event) in &t.listeners {
            let (n, e) = (name.clone(), event.clone());
            let ev = move |value: String| In::Event { listener: n.clone(), kind: e.clone(), value, epoch };
            m.insert(
                name.clone(),
                match event.as_str() {
                    "click" => Listener::Click { call: Box::new(move |_: ClickEvent| ev(String::new())) },
                    "submit" => Listener::Submit { call: Box::new(move |_: SubmitEvent| ev(String::new())) },
                    _ => Listener::Input { call: Box::new(move |i: InputEvent| ev(i.value)) },
                },
            );
        }
        t.children.iter().for_each(|c| go(c, epoch, m));
    }
    go(t, epoch, &mut m);
    m
}

/// Shows one rendering after another, one per input; stays at the last.
struct Slides {
    trees: Vec<T>,
    at: usize,
    updates: usize,
}

impl Component<Vec<T>, In> for Slides {
    fn new(trees: Vec<T>, _: &Context<In>) -> Self {
        MADE.with(|m| m.borrow_mut().0 += 1);
        Slides { trees, at: 0, updates: 0 }
    }
    fn update(&mut self, input: In, _: &Context<In>) {
        LOG.with(|l| l.borrow_mut().push(input.brief()));
        if let In::Event { epoch, listener, .. } = &input {
            if *epoch != self.updates {
                fail_key("stale-handler", format!("after {} updates a handler of the rendering after {epoch} is called for {listener}", self.updates));
            }
        }
        self.updates += 1;
        self.at = (self.at + 1).min(self.trees.len() - 1);
    }
    fn render(&self) -> (Element, HashMap<String, Listener<In>>) {
        let t = &self.trees[self.at];
        (t.element(), listeners(t, self.updates))
    }
}

impl Drop for Slides {
    fn drop(&mut self) {
        MADE.with(|m| m.borrow_mut().1 += 1);
    }
}

/// Shows everything it was asked to do, in order.
struct Journal {
    seen: Vec<String>,
}

fn journal(seen: &[String]) -> T {
    t("div").child(t("p").text("go").on("c", "click").on("i", "input")).with(seen.iter().map(|s| t("p").text(s)).collect()).number(0)
}

impl Component<(), In> for Journal {
    fn new(_: (), _: &Context<In>) -> Self {
        MADE.with(|m| m.borrow_mut().0 += 1);
        Journal { seen: vec![] }
    }
    fn update(&mut self, input: In, context: &Context<In>) {
        LOG.with(|l| l.borrow_mut().push(input.brief()));
        self.seen.push(input.brief());
        if let In::Ask(x) = input {
            context.process().send(In::Note(x));
        }
    }
    fn render(&self) -> (Element, HashMap<String, Listener<In>>) {
        let t = journal(&self.seen);
        (t.element(), listeners(&t, self.seen.len()))
    }
}

impl Drop for Journal {
    fn drop(&mut self) {
        MADE.with(|m| m.borrow_mut().1 += 1);
    }
}

// ---------------------------------------------------------------------------------------------
// running them

pub fn fixed() -> Opts {
    Opts { sched: Sched::Fixed, seg: Seg::All, horizon: 100_000, ..Opts::default() }
}

pub fn no_traps() {
    let t = host::traps();
    ensure!(t.is_empty(), "processes trapped: {t:?}");
    if host::livelock() {
        fail_key("livelock", "the server keeps working without end");
    }
}

/// The texts that the server sent on a connection; every frame has to be whole and known.
fn texts(sent: &[u8]) -> Vec<String> {
    let (frames, rest) = match server_frames(sent) {
        Ok(x) => x,
        Err(e) => fail(format!("the server sent a malformed frame: {e}")),
    };
    ensure!(rest.is_empty(), "the server sent part of a frame: {} bytes are left", rest.len());
    let mut out = vec![];
    for (op, data) in frames {
        ensure!(op == 1, "the server sent a frame with the code {op}");
        match utf8(&data) {
            Some(s) => out.push(s),
            None => fail("the server sent a text which is not UTF-8"),
        }
    }
    out
}

/// The messages a client gets that watches these renderings pass.
fn messages(trees: &[T]) -> Vec<String> {
    forget();
    host::new_world(fixed());
    let conn = host::scripted_conn(&[], false);
    let trees = trees.to_vec();
    let n = trees.len();
    host::server("server", move || {
        let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
        let p = manage::<Slides, Vec<T>, In>(trees, ws);
        for _ in 1..n {
            p.send(In::Next);
        }
        net::park();
    });
    host::run();
    no_traps();
    ensure!(log().len() == n - 1, "{} of {} updates were made", log().len(), n - 1);
    texts(&host::written(conn, 1))
}

/// The page after these messages, and after the first of them.
fn page(msgs: &[String]) -> (Browser, Vec<Dom>, Vec<Dom>) {
    let (mut b, url) = Browser::open(HREF);
    if let Err(e) = url {
        fail_key("script", format!("the page does not open its WebSocket: {e}"));
    }
    ensure!(!msgs.is_empty(), "nothing was sent for the first rendering");
    let out = b.ask(msgs.iter().map(|m| dom::message(m)).collect());
    let mut pages = vec![];
    for (r, m) in out.iter().zip(msgs) {
        match dom::painted(r) {
            Ok(p) => {
                ensure!(p.sent.is_empty(), "the page answers an update: {:?}", p.sent);
                pages.push(p.body);
            }
            Err(e) => fail_key("script", format!("the page fails on {m}: {e}")),
        }
    }
    let last = pages.last().unwrap().clone();
    (b, pages.remove(0), last)
}

fn shows(want: &T, body: &[Dom]) {
    if body.len() != 1 {
        fail_key("page", format!("the page shows {} instead of {}", dom::show(body), want.brief()));
    }
    if let Err(e) = same(want, &body[0]) {
        fail_key("page", format!("the page shows {} instead of {}: {e}", dom::show(body), want.brief()));
    }
}

pub type Family = Vec<T>;

/// `n` renderings of a family, one after another.
fn slides(name: &'static str, about: &'static str, n: usize, f: Family, events_too: bool) -> Scenario {
    scenario(name, format!("{about}: all sequences of {n} of {} renderings", f.len()), Config::bound(0), move || {
        let trees: Vec<T> = (0..n).map(|_| pick(&f).clone()).collect();
        note(|| trees.iter().map(|t| t.brief()).collect::<Vec<_>>().join("\n"));
        judge(&trees, events_too);
    })
}

pub fn judge(trees: &[T], events_too: bool) {
    let msgs = messages(trees);
    let (mut b, first, last) = page(&msgs);
    shows(&trees[0], &first);
    let want = trees.last().unwrap();
    shows(want, &last);
    if trees.len() == 2 {
        if let Err(e) = nodes_stay(&trees[0], &first[0], want, &last[0]) {
            fail_key("node", format!("{e}: what the user was doing there is lost"));
        }
    }
    if events_too {
        hears(&mut b, want);
    }
    outcome(&msgs);
}

const VALUE: &str = "v+\"é<";

/// What the page sends to the server for one event.
fn announced(sent: &[String]) -> Vec<(String, Option<String>)> {
    let mut out: Vec<(String, Option<String>)> = vec![];
    for s in sent {
        let v: serde_json::Value = serde_json::from_str(s).unwrap_or_else(|e| fail(format!("the page sent {s:?}: {e}")));
        let Some(l) = v["listener"].as_str() else { fail(format!("the page sent {s}, which names no listener")) };
        out.push((l.to_string(), v["payload"]["value"].as_str().map(|x| x.to_string())));
    }
    out
}

/// Every event on every element is reported to exactly the listeners of this rendering.
fn hears(b: &mut Browser, want: &T) {
    let evs = events(want);
    let out = b.ask(evs.iter().map(|(p, e, _)| dom::event(p, e, (*e == "input").then_some(VALUE))).collect());
    for ((path, e, heard), r) in evs.iter().zip(&out) {
        let d = match dom::dispatched(r) {
            Ok(d) => d,
            Err(x) => fail_key("script", format!("the page fails when a {e} happens at {path:?}: {x}")),
        };
        let w: Vec<(String, Option<String>)> = heard.iter().map(|l| (l.clone(), (*e == "input").then(|| VALUE.to_string()))).collect();
        let got = announced(&d.sent);
        if got != w {
            fail_key("listeners", format!("a {e} at {path:?} is reported to {got:?} instead of {w:?}"));
        }
        if *e == "submit" && d.prevented == heard.is_empty() {
            fail_key("submit", format!("a submit at {path:?} with {} listeners {} the page", heard.len(), if heard.is_empty() { "does not leave" } else { "leaves" }));
        }
    }
}

// ---------------------------------------------------------------------------------------------
// families of renderings

pub fn plain(n: usize) -> Family {
    const FORMS: &[fn(T) -> T] = &[|t| t, |mut t| {
        t.tag = "p".into();
        t.text("x")
    }];
    (1..=n).flat_map(|n| shapes(n)).flat_map(|s| dressed(&s, FORMS)).map(|t| t.number(0)).collect()
}

pub fn single() -> Family {
    let attrs: &[&[(&str, &str)]] = &[&[], &[("a", "x")], &[("a", "y")], &[("a", "x"), ("b", "x")], &[("b", "y")], &[("a", "x+y")], &[("a", "")]];
    let mut out = vec![];
    for tag in ["div", "p"] {
        for at in attrs {
            for text in [None, Some("x"), Some("x+y"), Some("")] {
                for (id, kid) in [(0, false), (1, false), (0, true), (1, true)] {
                    let mut e = t(tag);
                    for (k, v) in *at {
                        e = e.attr(k, v);
                    }
                    e.text = text.map(|s| s.to_string());
                    if kid {
                        e = e.child(t("p").text("kid"));
                    }
                    out.push(e.number(id));
                }
            }
        }
    }
    out
}

pub fn listening() -> Family {
    let sets: &[&[(&str, &str)]] = &[
        &[],
        &[("l", "click")],
        &[("m", "click")],
        &[("l", "click"), ("m", "click")],
        &[("m", "click"), ("l", "click")],
        &[("l", "input")],
        &[("l+1", "click")],
        &[("l", "click"), ("m", "submit"), ("n", "input")],
        &[("l", "submit")],
    ];
    let mut out = vec![];
    for a in sets {
        for b in sets {
            for form in 0..3 {
                let add = |mut e: T, s: &[(&str, &str)]| {
                    for (n, v) in s {
                        e = e.on(n, v);
                    }
                    e
                };
                let kid = add(t("p").text("kid"), b);
                out.push(match form {
                    0 => add(t("div"), a).child(kid).number(0),
                    1 => add(t("form"), a).child(kid).number(1),
                    _ => add(t("div"), a).child(t("p").child(kid)).number(0),
                });
            }
        }
    }
    out
}

/// Ids that are not those of `IdGen`.
pub fn numbered(nodes: usize, ids: usize) -> Family {
    let all: Vec<usize> = (0..ids).collect();
    let mut out = vec![];
    for ids in arrangements(&all, nodes).into_iter().filter(|a| a.len() == nodes) {
        for s in shapes(nodes) {
            for mark in ["x", "y"] {
                let mut s = s.clone().ids(&ids);
                fn go(e: &mut T, n: &mut usize, mark: &str) {
                    e.text = Some(format!("{mark}{n}"));
                    e.listeners = vec![(format!("l{n}"), "click".into())];
                    *n += 1;
                    e.children.iter_mut().for_each(|c| go(c, n, mark));
                }
                go(&mut s, &mut 0, mark);
                out.push(s);
            }
        }
    }
    out
}

pub fn keyed_lists(keys: &[&str], n: usize) -> Family {
    let mut out = vec![];
    for a in arrangements(keys, n) {
        for deep in [false, true] {
            for ids in 0..3 {
                let kid = |k: &str| {
                    let e = t("p").key(k).text(k).on(k, "click");
                    if deep {
                        e.child(t("b").text(&format!("in {k}")))
                    } else {
                        e
                    }
                };
                let mut root = t("div").with(a.iter().map(|k| kid(k)).collect());
                match ids {
                    0 => root = root.number(0),
                    1 => root = root.number(3),
                    _ => {
                        // an id that belongs to the key
                        for e in &mut root.children {
                            let n = 10 * (1 + keys.iter().position(|k| Some(k.to_string()) == e.key).unwrap());
                            e.id = n;
                            for c in &mut e.children {
                                c.id = n + 1;
                            }
                        }
                    }
                }
                if a.is_empty() && (deep || ids == 2) {
                    continue;
                }
                out.push(root);
            }
        }
    }
    out
}

pub fn half_keyed() -> Family {
    let kids: Vec<T> = vec![t("p").key("a").text("a"), t("p").key("b").text("b"), t("p").text("none"), t("div").text("div")];
    arrangements(&kids, 3).into_iter().map(|k| t("div").with(k).number(0)).collect()
}

pub fn nested_keys() -> Family {
    let inner: Vec<Vec<T>> = arrangements(&["x", "y"], 2).into_iter().map(|a| a.iter().map(|k| t("b").key(k).text(k)).collect()).collect();
    let mut out = vec![];
    for a in arrangements(&["a", "b"], 2) {
        let mut made: Vec<Vec<T>> = vec![vec![]];
        for k in &a {
            made = made.iter().flat_map(|m| inner.iter().map(move |i| [m.clone(), vec![t("p").key(k).text(k).with(i.clone())]].concat())).collect();
        }
        out.extend(made.into_iter().map(|m| t("div").with(m).number(0)));
    }
    out
}

/// Renderings with many, or deeply nested, elements, many attributes or listeners, and ids of many digits.
pub fn big() -> Family {
    let mut out = vec![];
    let name = |i: usize| format!("n{i}");
    for n in [1usize, 9, 11, 40] {
        for mark in ["x", "y"] {
            // nested, the mark at the bottom
            let mut d = t("b").text(mark).on(mark, "click");
            for i in 0..n {
                d = t("p").attr("depth", &i.to_string()).child(t("i").text("before")).child(d);
            }
            out.push(d.number(0));
        }
        // next to each other, one of which is different
        for odd in [0, n / 2, n - 1] {
            out.push(t("div").with((0..n).map(|i| t("p").text(if i == odd { "odd" } else { "even" }).on(&name(i), "click")).collect()).number(0));
        }
        // many attributes, the last of which may be different
        for (tag, last) in [("div", "0"), ("div", "1"), ("section", "1")] {
            out.push((0..n).fold(t(tag).text("t"), |e, i| e.attr(&format!("data-{i}"), if i + 1 == n { last } else { "0" })).child(t("p")).number(0));
        }
        // many listeners
        for of in [["click", "click", "input"], ["click", "submit", "input"]] {
            out.push((0..n).fold(t("div"), |e, i| e.on(&name(i), of[i % 3])).child(t("p").on("inner", "click")).number(0));
        }
    }
    // ids
    for from in [8, 98, 65_534, 4_294_967_000] {
        out.push(t("div").with((0..4).map(|i| t("p").text(&name(i)).child(t("b"))).collect()).number(from));
    }
    out
}

/// Lists of `n` rows with keys in every order; the ids belong to the rows, or to the places.
pub fn permuted(n: usize, with_key: bool) -> T {
    let mut left: Vec<usize> = (0..n).collect();
    let order: Vec<usize> = (0..n).map(|_| left.remove(choose(left.len()))).collect();
    row_list(&order, with_key)
}

pub fn row_list(order: &[usize], with_key: bool) -> T {
    let mut l = t("ul").with(order.iter().map(|k| t("li").key(&format!("k{k}")).text(&format!("row {k}")).child(t("b").attr("of", &k.to_string()))).collect());
    if !with_key {
        return l.number(0);
    }
    l.id = 1000;
    for (c, k) in l.children.iter_mut().zip(order) {
        c.id = 2 * k;
        c.children[0].id = 2 * k + 1;
    }
    l
}

/// From a list of rows in order to the same rows in any other, some of them removed or new.
pub fn permutations(n: usize, judge: fn(&[T])) -> Scenario {
    scenario("permutations", format!("{n} rows with keys, brought into every order, any one of them removed or all there, ids stay with the keys or go with the places"), Config::bound(0), move || {
        let with_key = choose(2) == 1;
        let all: Vec<usize> = (0..n).collect();
        let gone = choose(n + 1);
        let back = choose(2) == 1;
        let mut b = permuted(n, with_key);
        b.children.retain(|c| c.key != Some(format!("k{gone}")));
        let a = row_list(&all, with_key);
        judge(&if back { [b, a] } else { [a, b] });
    })
}

/// One letter of a long word changes, or the word gets longer or shorter there: a text, an attribute,
/// its name, a key, the name of a listener or a tag.
pub fn long_words(judge: fn(&[T])) -> Scenario {
    scenario("long-words", "one letter of a word of up to a thousand letters changes, goes or is added, wherever a word can be", Config::bound(0), move || {
        let n = *pick(&[1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000]);
        let at = *pick(&[0, n / 3, n / 2, n - 1]);
        let old: String = (0..n).map(|i| (b'a' + (i % 7) as u8) as char).collect();
        let mut new = old.clone();
        match choose(3) {
            0 => new.replace_range(at..at + 1, "z"),
            1 => new.insert(at, 'z'),
            _ => drop(new.remove(at)),
        }
        let place = choose(9);
        let tree = |w: &str| {
            match place {
                0 => t("p").text(w),
                1 => t("p").attr("title", w),
                2 => t("div").child(t("p").attr(&format!("data-{w}"), "x")),
                3 => t("ul").child(t("li").key("other").text("o")).child(t("li").key(w).text("x")),
                4 => t("p").on(w, "click").child(t("b").on(&format!("2{w}"), "input")),
                5 => t("p").child(t(&format!("x-{w}")).text("x").attr("a", "b")),
                6 => t("div").child(t("p").attr("lang", "a").attr("title", w).text("x")).child(t("p").text(w)),
                7 => t("div").child(t("p").text("x").child(t("b").text(w))),
                _ => t("div").text(w).child(t("p")),
            }
            .number(0)
        };
        judge(&if choose(2) == 0 { [tree(&old), tree(&new)] } else { [tree(&new), tree(&old)] });
    })
}

/// Hundreds of renderings, of two kinds.
pub fn long_histories(judge: fn(&[T])) -> Scenario {
    scenario("long-histories", "up to three hundred renderings of two kinds, one after another", Config::bound(0), move || {
        let forms = [
            t("div").number(0),
            t("div").text("x").attr("a", "b").on("l", "click").number(3),
            row_list(&[0, 1, 2, 3], true),
            row_list(&[3, 1, 0], true),
            t("p").child(t("b").text("y")).child(t("i").on("m", "input").attr("a", "c")).number(0),
        ];
        let n = *pick(&[16usize, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 300]);
        let (a, b) = (pick(&forms), pick(&forms));
        let trees: Vec<T> = (0..n).map(|i| if i % 2 == 0 { a.clone() } else { b.clone() }).collect();
        judge(&trees);
    })
}

/// One more or fewer of something among many: children, listeners of the element that holds them or of
/// one of them.
pub fn wide(judge: fn(&[T])) -> Scenario {
    scenario("wide", "an element with up to forty children, which has or has not a listener, an attribute and a text, as has one of them; children are added or removed at the end", Config::bound(0), move || {
        let n = *pick(&[1usize, 2, 3, 5, 8, 9, 17, 40]);
        let odd = *pick(&[0, n / 2, n - 1]);
        let keys = choose(2) == 1;
        let rest = choose(2) == 1;
        let mut tree = |n: usize| {
            let (outer, inner) = (choose(4), choose(4));
            let dress = |e: T, how: usize, name: &str| match how {
                0 => e,
                1 => e.on(name, "click"),
                2 => e.on(name, "click").attr("a", "b"),
                _ => e.text("x").on(&format!("{name}-submit"), "submit").on(name, "click"),
            };
            let kid = |i: usize| {
                let e = t("p").attr("i", &i.to_string());
                let e = if keys { e.key(&format!("k{i}")) } else { e };
                if i == odd { dress(e, inner, "inner") } else if rest { e.on(&format!("l{i}"), "input") } else { e }
            };
            dress(t("div"), outer, "outer").with((0..n).map(kid).collect()).number(0)
        };
        let a = tree(n);
        let b = match choose(3) {
            0 => tree(n),
            1 => tree(n + 1),
            _ => tree(n - 1),
        };
        judge(&[a, b]);
    })
}

/// Long lists of rows with keys, in another order.
pub fn rows(judge: fn(&[T])) -> Scenario {
    scenario("rows", "long lists of keyed rows: one is moved anywhere, one is removed, or all turned round; ids stay with the keys or go with the places", Config::bound(0), move || {
        let n = *pick(&[1usize, 2, 3, 8, 13, 17, 33]);
        let with_key = choose(2) == 1;
        let mut keys: Vec<usize> = (0..n).collect();
        let a = row_list(&keys, with_key);
        match choose(3) {
            0 => {
                let step = if n > 13 { 5 } else { 1 };
                let (from, to) = (choose(n.div_ceil(step)) * step, choose(n.div_ceil(step)) * step);
                let gone = if n > 13 { *pick(&[0, 1, n / 2, n]) } else { choose(n + 1) };
                let k = keys.remove(from);
                keys.insert(to, k);
                keys.retain(|k| *k + 1 != gone);
            }
            1 => keys.reverse(),
            _ => {
                let by = choose(n);
                keys.rotate_left(by);
            }
        }
        let b = row_list(&keys, with_key);
        judge(&if choose(2) == 0 { [a, b] } else { [b, a] });
    })
}

/// Lists of up to three rows with keys, any of which comes, goes or moves; each row holds some more.
pub fn rich_rows(judge: fn(&[T])) -> Scenario {
    scenario("rich-rows", "up to three rows with keys, in any order, come, go and move; each holds up to nine elements", Config::bound(0), move || {
        let kids = *pick(&[0usize, 1, 2, 3, 4, 5, 8, 9]);
        let inner_keys = choose(2) == 1;
        let style = choose(3);
        let list = || {
            let mut left = vec!["a", "b", "c"];
            let mut rows = vec![];
            for _ in 0..choose(4) {
                let k = left.remove(choose(left.len()));
                let inner = |i: usize| {
                    let e = t("b").text(&format!("{k}{i}"));
                    if inner_keys { e.key(&format!("i{i}")) } else { e }
                };
                let row = match style {
                    0 => t("li").key(k),
                    1 => t("li").key(k).text(k).attr("of", k),
                    _ => t("li").key(k).on(k, "click"),
                };
                rows.push(row.with((0..kids).map(inner).collect()));
            }
            t("ul").with(rows).number(0)
        };
        let (a, b) = (list(), list());
        judge(&[a, b]);
    })
}

/// Every short text over the letters that mean something somewhere on the way to the page.
pub fn spelled(n: usize, judge: fn(&[T])) -> Scenario {
    scenario("spelled", format!("every text of up to {n} symbols that may mean something on the way, as a text, an attribute, a key or the name of a listener; created, and put in place of another"), Config::bound(0), move || {
        const A: &[&str] = &["+", " ", "a", "<", "&", "\"", "\\", "\n", "é", "\0", "'", "/", ",", "u"];
        let len = choose(n + 1);
        let w: String = (0..len).map(|_| *pick(A)).collect();
        let place = choose(4);
        let tree = |w: &str| {
            match place {
                0 => t("p").text(w).child(t("b").text("kid")),
                1 => t("p").attr("title", w),
                2 => t("ul").child(t("li").key("other").text("o")).child(t("li").key(w).text("x")),
                _ => t("p").on(w, "click").child(t("b").on("kid", "input")),
            }
            .number(0)
        };
        let old = tree("was");
        judge(&if choose(2) == 0 { [old, tree(&w)] } else { [tree(&w), old] });
    })
}

pub const STRANGE: &[&str] = &["", "+", "a+b+c", "\"", "\\", "<b>x</b>", "&amp;", "\n\t", "é", "\u{2028}", "\u{1F600}", "'", "null", " x ", "</script>", "\u{7f}\u{1}"];

pub fn strange() -> Family {
    let mut out = vec![];
    for s in STRANGE {
        out.push(t("p").text(s).child(t("b").text("kid")));
        out.push(t("p").attr("title", s));
        if !s.is_empty() {
            out.push(t("p").on(s, "click").on(&format!("{s}2"), "input"));
        }
        out.push(t("p").child(t("p").text("x").attr("a", s).attr("b", "c")));
    }
    out.into_iter().map(|t| t.number(0)).collect()
}

/// Words that a careless comparison takes for one another.
const ALIKE: &[&str] = &["", "a", "A", "b", "aa", "ab", "ba", "aab", "abb", " a", "a ", "a b", "á", "a\u{301}", "0", "00", "1", "01", "10", "true", "ß", "ss"];

/// One element (and what is in it) in which one word differs: its text, an attribute, the name of a
/// listener, the key or the text of a child.
pub fn alike() -> Family {
    let mut out = vec![];
    for w in ALIKE {
        out.push(t("p").text(w));
        out.push(t("p").attr("title", w));
        out.push(t("p").attr("lang", w).attr("title", "a"));
        out.push(t("p").child(t("b").attr("title", w).text("x")));
        out.push(t("p").child(t("b").key(w).text("x")));
        out.push(t("p").child(t("b").key(w).text(w)).child(t("b").key("other")));
        out.push(t("p").on(w, "click"));
        out.push(t("p").child(t("b").on(w, "input").on("other", "click")));
    }
    for w in ["a", "b", "aa", "ab", "ba", "a-b", "b-a", "data-a", "data-b", "a_b", "a.b"] {
        out.push(t("p").attr(w, "x"));
        out.push(t("p").attr(w, "x").attr("c", "x"));
    }
    for w in ["b", "p", "h1", "h2", "dl", "ol", "ul", "em", "s", "span", "a"] {
        out.push(t(w).text("x"));
        out.push(t("div").child(t(w).attr("title", "x")).child(t("p")));
    }
    out.into_iter().map(|t| t.number(0)).collect()
}

/// Words next to each other: two attributes, two children, two listeners.
pub fn alike_pairs(step: usize) -> Family {
    let mut out = vec![];
    for (i, v) in ALIKE.iter().enumerate() {
        for w in ALIKE.iter().skip(i % step).step_by(step) {
            out.push(t("p").attr("a", v).attr("b", w));
            if v != w {
                out.push(t("p").child(t("b").key(v).text("x")).child(t("b").key(w).text("y")));
                out.push(t("p").child(t("b").key(v).on(v, "click")).child(t("b").key(w).on(w, "click")));
            }
        }
    }
    out.into_iter().map(|t| t.number(0)).collect()
}

fn v01(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    let mut out = vec![
        slides("shapes", "trees of up to four elements, with and without text", 2, plain(4), false),
        slides("shapes-of-three", "trees of up to three elements", 3, plain(3), false),
        slides("element", "tag names, attributes, texts, ids of an element with and without a child", 2, single(), false),
        slides("ids", "trees of three elements with ids in any order", 2, numbered(3, if th { 5 } else { 4 }), false),
        slides("keys", "children with keys, added, removed and moved", 2, keyed_lists(&["a", "b", "c", "d"], if th { 4 } else { 3 }), false),
        slides("keys-of-three", "children with keys, added, removed and moved", 3, keyed_lists(&["a", "b", "c"], if th { 3 } else { 2 }), false),
        slides("half-keyed", "children of which some have keys", 2, half_keyed(), false),
        slides("nested-keys", "children with keys that have children with keys", 2, nested_keys(), false),
        slides("strange-texts", "texts, values and names that mean something in HTML, JSON or the protocol", 2, strange(), false),
        slides("alike", "words that differ in case, order, length or blanks, in every place where a word can be", 2, alike(), false),
        slides("alike-pairs", "two such words next to each other", 2, alike_pairs(if th { 3 } else { 5 }), false),
        slides("alike-keys", "children whose keys are alike, added, removed and moved", 2, keyed_lists(&["k", "K", "kk", "k "], if th { 4 } else { 3 }), false),
        slides("alike-keys-of-three", "children whose keys are alike, added, removed and moved", 3, keyed_lists(&["", "0", "00"], 2), false),
        slides("big", "many, or deeply nested, elements, many attributes and listeners, ids of many digits", 2, big(), false),
        slides("marked", "trees of up to three elements with every mark", 2, crate::apply::marked(3, if th { 6 } else { 5 }), false),
        permutations(if th { 7 } else { 6 }, |t| judge(t, false)),
        long_words(|t| judge(t, false)),
        rows(|t| judge(t, false)),
        wide(|t| judge(t, false)),
        rich_rows(|t| judge(t, false)),
        spelled(if th { 4 } else { 3 }, |t| judge(t, false)),
        long_histories(|t| judge(t, false)),
        scenario("sizes", "long lists and long texts", Config::bound(0), move || {
            let list = |n: usize, len: usize, keys: bool| {
                let kid = |i: usize| {
                    let e = t("p").text(&"x".repeat(len)).attr("i", &i.to_string());
                    if keys { e.key(&format!("k{}", i * 7 % 31)) } else { e }
                };
                t("div").with((0..n).map(kid).collect()).number(0)
            };
            let keys = choose(2) == 1;
            let sizes: &[(usize, usize)] = &[(0, 0), (1, 3), (2, 120), (1, 65400), (1, 70000), (7, 1), (29, 1), (31, 2)];
            let (a, b) = (pick(sizes), pick(sizes));
            note(|| format!("from {a:?} to {b:?}, keys: {keys}"));
            judge(&[list(a.0, a.1, keys), list(b.0, b.1, keys)], false);
        }),
    ];
    if th {
        out.push(slides("shapes-of-five", "trees of five elements without text", 2, (4..=6).flat_map(shapes).map(|t| t.number(0)).collect(), false));
        out.push(slides("shapes-of-four-in-a-row", "trees of up to three elements", 4, plain(3).into_iter().step_by(2).collect(), false));
        out.push(slides("ids-of-four", "trees of four elements with ids in any order", 2, numbered(4, 4), false));
        out.push(slides("shapes-in-a-row", "trees of up to four elements", 3, plain(4).into_iter().step_by(3).collect(), false));
    }
    out
}

// ---------------------------------------------------------------------------------------------
// events

/// A server for one client of this component.
fn serve<C: Component<D, In> + 'static, D: Serialize + serde::de::DeserializeOwned + 'static>(opts: Opts, data: D, then: impl FnOnce(puck::lunatic::Process<In>) + 'static) {
    forget();
    host::new_world(opts);
    host::server("server", move || {
        let l = TcpListener::bind(std::net::SocketAddr::from(([127, 0, 0, 1], PORT))).unwrap();
        let (stream, _) = l.accept().unwrap();
        let p = manage::<C, D, In>(data, WebSocket::new(stream));
        then(p);
        net::park();
    });
}

/// A client message of the alphabet: its frame, and what the component should be asked to do.
fn brief_list(l: &[String]) -> String {
    format!("{:?}", l.iter().map(|x| x.chars().take(60).collect::<String>()).collect::<Vec<_>>())
}

fn client_messages() -> Vec<(Vec<u8>, Option<&'static str>)> {
    let text = |s: &str, w: Option<&'static str>| (f(1, s.as_bytes()).bytes(), w);
    vec![
        text(r#"{"listener":"c"}"#, Some("click c")),
        text(r#"{"listener":"i","payload":{"value":"x"}}"#, Some("input i x")),
        text(r#"{"listener":"s"}"#, Some("submit s")),
        text(r#"{"listener":"c","payload":{"value":"x"}}"#, Some("click c")),
        text(r#" { "payload" : { "value" : "\u00e9\n" } , "listener" : "i" } "#, Some("input i é\n")),
        text(r#"{"listener":"i","payload":{"value":""}}"#, Some("input i ")),
        text(r#"{"listener":"i"}"#, None),
        text(r#"{"listener":"i","payload":null}"#, None),
        text(r#"{"listener":"i","payload":{}}"#, None),
        text(r#"{"listener":"i","payload":{"value":1}}"#, None),
        text(r#"{"listener":"zz"}"#, None),
        text(r#"{"listener":"C"}"#, None),
        text(r#"{"listener":" c"}"#, None),
        text(r#"{"listener":"c "}"#, None),
        text(r#"{"listener":"cc"}"#, None),
        text(r#"{"listener":"c\u0000"}"#, None),
        text(r#"{"listener":"\u0063"}"#, Some("click c")),
        text(r#"{"listener":""}"#, None),
        text(r#"{"listener":1}"#, None),
        text(r#"{"payload":{"value":"x"}}"#, None),
        text(r#"{"listener":"c""#, None),
        text("", None),
        text("[]", None),
        text("null", None),
        text("\"c\"", None),
        text("click", None),
        (f(2, br#"{"listener":"c"}"#).bytes(), None),
        (f(9, b"ping").bytes(), None),
        (f(10, b"pong").bytes(), None),
        ([part(1, br#"{"listener""#).bytes(), f(0, br#":"c"}"#).bytes()].concat(), Some("click c")),
    ]
}

fn v02(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    vec![
        slides("listeners", "an element and its child with listeners", 2, if th { listening() } else { listening().into_iter().step_by(2).collect() }, true),
        slides("listeners-of-three", "an element and its child with listeners", 3, listening().into_iter().step_by(if th { 3 } else { 11 }).collect(), true),
        slides("listeners-and-ids", "three elements with listeners and ids in any order", 2, numbered(3, 4), true),
        slides("listeners-and-keys", "children with keys and listeners", 2, keyed_lists(&["a", "b", "c"], 3), true),
        slides("alike-names", "names that differ in case, order, length or blanks", 2, alike().into_iter().filter(|t| events(t).iter().any(|e| !e.2.is_empty())).collect(), true),
        slides("alike-keys-and-names", "children whose keys and listeners are alike", 2, keyed_lists(&["k", "K", "kk"], 3), true),
        slides("big", "many, or deeply nested, elements, many attributes and listeners, ids of many digits", 2, if th { big() } else { big().into_iter().step_by(2).collect() }, true),
        slides("marked", "trees of up to three elements with every mark", 2, crate::apply::marked(3, if th { 6 } else { 5 }), true),
        slides("strange-names", "names and values that mean something in HTML, JSON or the protocol", 2, strange(), true),
        long_words(|t| judge(t, true)),
        rows(|t| judge(t, true)),
        wide(|t| judge(t, true)),
        rich_rows(|t| judge(t, true)),
        spelled(if th { 4 } else { 3 }, |t| judge(t, true)),
        long_histories(|t| judge(t, true)),
        scenario("client-messages", "whatever a client sends, the handlers it names in a well-formed way are called, and nothing else", Config::bound(0), move || {
            let all = client_messages();
            let n = if th { 3 } else { 2 };
            let ms: Vec<_> = (0..n).map(|_| pick(&all).clone()).collect();
            let root = t("div").on("c", "click").child(t("input").on("i", "input")).child(t("form").on("s", "submit")).number(0);
            forget();
            host::new_world(fixed());
            let conn = host::scripted_conn(&ms.iter().flat_map(|m| m.0.clone()).collect::<Vec<u8>>(), false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                manage::<Slides, Vec<T>, In>(vec![root], ws);
                net::park();
            });
            host::run();
            no_traps();
            let want: Vec<&str> = ms.iter().filter_map(|m| m.1).collect();
            note(|| format!("{:?}", ms.iter().map(|m| String::from_utf8_lossy(&m.0).into_owned()).collect::<Vec<_>>()));
            ensure!(log() == want, "the component was asked to {:?} instead of {want:?}", log());
            outcome(&want);
        }),
        scenario("long-messages", "messages of up to 70 000 bytes, of which those that name a handler are heard and no others, and what comes after them", Config::bound(0), || {
            let n = *pick(&[30usize, 63, 64, 65, 120, 125, 126, 127, 128, 200, 255, 256, 257, 1_000, 4_096, 8_192, 65_535, 65_536, 70_000]);
            let x = (pick(&["x", "é", " ", "["]) as &str).repeat(n);
            let (message, want) = match choose(10) {
                0 => (x.clone(), None),
                1 => (format!("{{\"listener\":\"{x}\"}}"), None),
                2 => (format!("{{\"listener\":\"c{x}\"}}"), None),
                3 => (format!("{{\"listener\":\"c\",\"payload\":{{\"value\":\"{x}\"}}}}"), Some("click c".to_string())),
                4 => (format!("{{\"listener\":\"i\",\"payload\":{{\"value\":\"{x}\"}}}}"), Some(format!("input i {x}"))),
                5 => (format!("{{\"listener\":\"c\"}}{}", " ".repeat(n)), Some("click c".to_string())),
                6 => (format!("{{\"listener\":\"c\"}}{x}y"), None),
                7 => (format!("{{\"listener\":\"i\",\"payload\":\"{x}\"}}"), None),
                8 => (format!("{}{{\"listener\":\"s\"}}", "\n".repeat(n)), Some("submit s".to_string())),
                _ => (format!("{{\"listener\":\"i\",\"payload\":{}", "[".repeat(n)), None),
            };
            let times = *pick(&[1usize, 3]);
            let after = f(1, br#"{"listener":"c"}"#).bytes();
            let input: Vec<u8> = (0..times).flat_map(|_| [f(1, message.as_bytes()).bytes(), after.clone()].concat()).collect();
            let root = t("div").on("c", "click").child(t("input").on("i", "input")).child(t("form").on("s", "submit")).number(0);
            forget();
            host::new_world(fixed());
            let conn = host::scripted_conn(&input, false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                manage::<Slides, Vec<T>, In>(vec![root], ws);
                net::park();
            });
            host::run();
            no_traps();
            let want: Vec<String> = (0..times).flat_map(|_| want.iter().cloned().chain(["click c".to_string()])).collect();
            let got = log();
            ensure!(got == want, "the component was asked to {} instead of {}", brief_list(&got), brief_list(&want));
            outcome(&want);
        }),
        scenario("stale", "a message for a listener that is no longer there is ignored, one for a listener which appeared is heard", Config::bound(0), move || {
            let names = ["c", "d", "e"];
            let form = |set: usize| {
                let mut e = t("div").text("x");
                for (i, n) in names.iter().enumerate() {
                    if set >> i & 1 == 1 {
                        e = e.child(t("p").on(n, "click"));
                    }
                }
                e.number(0)
            };
            let sets: Vec<usize> = (0..3).map(|_| choose(8)).collect();
            let msgs: Vec<usize> = (0..if th { 4 } else { 3 }).map(|_| choose(3)).collect();
            let mut at = 0;
            let mut want = vec![];
            for m in &msgs {
                if sets[at] >> m & 1 == 1 {
                    want.push(format!("click {}", names[*m]));
                    at = (at + 1).min(2);
                }
            }
            let trees: Vec<T> = sets.iter().map(|s| form(*s)).collect();
            let last = trees[at].clone();
            forget();
            host::new_world(fixed());
            let input: Vec<u8> = msgs.iter().flat_map(|m| f(1, format!("{{\"listener\":\"{}\"}}", names[*m]).as_bytes()).bytes()).collect();
            let conn = host::scripted_conn(&input, false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                manage::<Slides, Vec<T>, In>(trees, ws);
                net::park();
            });
            host::run();
            no_traps();
            ensure!(log() == want, "the component was asked to {:?} instead of {want:?}", log());
            let (mut b, _, now) = page(&texts(&host::written(conn, 1)));
            shows(&last, &now);
            hears(&mut b, &last);
            outcome(&(sets, want));
        }),
        scenario("values", format!("every value of up to {} symbols, and long ones, typed in on the page: the component hears it as it is", if th { 4 } else { 3 }), Config::bound(0), move || {
            const A: &[&str] = &["+", " ", "a", "<", "&", "\"", "\\", "\n", "\r", "é", "\0", "\u{2028}", "\u{1F600}", "{", "1"];
            const LONG: &[usize] = &[63, 64, 65, 124, 125, 126, 127, 128, 255, 256, 257, 1000, 4096, 65_535, 65_536, 70_000];
            let value = match choose(if th { 6 } else { 5 }) {
                0 => (pick(&["x", "é", " ", "\""]) as &str).repeat(*pick(LONG)),
                n => (0..n - 1).map(|_| *pick(A)).collect(),
            };
            let around = choose(2) == 1;
            let on = |e: T| e.on("i", "input").on("j", "input");
            let tree = if around { on(t("div")).child(t("input")) } else { t("div").child(on(t("input"))) }.number(0);
            let (mut b, _, _) = page(&messages(&[tree.clone()]));
            let sent = match b.fire(&[0, 0], "input", Some(&value)) {
                Ok(d) => d.sent,
                Err(x) => fail_key("script", format!("the page fails when {value:?} is typed: {x}")),
            };
            forget();
            host::new_world(fixed());
            let conn = host::scripted_conn(&sent.iter().flat_map(|m| f(1, m.as_bytes()).bytes()).collect::<Vec<u8>>(), false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                manage::<Slides, Vec<T>, In>(vec![tree], ws);
                net::park();
            });
            host::run();
            no_traps();
            let want = [format!("input i {value}"), format!("input j {value}")];
            ensure!(log() == want, "the component was asked to {:?} instead of {want:?}", log());
            outcome(&(value, around));
        }),
        scenario("round-trip", "a user does something on the page, the component hears it and the page shows what it renders then", Config::bound(0), move || {
            let a: Family = plain(3);
            let set: &[&[(&str, &str)]] = &[&[("c", "click")], &[("i", "input")], &[("s", "submit")], &[("c", "click"), ("i", "input")], &[("c", "click"), ("d", "click")], &[]];
            let dress = |mut t: T, s: &[(&str, &str)], at: usize| {
                fn nth(t: &mut T, n: &mut usize, s: &[(&str, &str)]) {
                    if *n == 0 {
                        t.listeners = s.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                    }
                    *n = n.wrapping_sub(1);
                    t.children.iter_mut().for_each(|c| nth(c, n, s));
                }
                let at = at % t.size();
                nth(&mut t, &mut { at }, s);
                t
            };
            let trees = vec![dress(pick(&a).clone(), pick(set) as &[(&str, &str)], choose(2)), dress(a[(choose(4) * 5 + 3) % a.len()].clone(), *pick(set), 1)];
            let what = choose(3);
            let t2 = trees.clone();
            serve::<Slides, Vec<T>>(Opts { seg: Seg::Front, ..fixed() }, trees, |_| ());
            let want = host::cell(vec![]);
            let w2 = want.clone();
            host::client("browser", move || {
                let c = net::connect(PORT);
                let (mut b, url) = Browser::open(HREF);
                ensure!(url.as_deref() == Ok("ws://localhost:8081/ws"), "the page connects to {url:?}");
                let mut read = 0;
                let mut at = 0;
                for _ in 0..3 {
                    net::quiesce();
                    let got = host::written(c.conn, 1);
                    for m in texts(&got[read..]) {
                        match b.receive(&m) {
                            Ok(p) => shows_eventually(&mut at, &t2, &p.body),
                            Err(e) => fail_key("script", format!("the page fails on {m}: {e}")),
                        }
                    }
                    let _ = c.recv_exact(got.len() - read);
                    read = got.len();
                    let now = if w2.borrow().is_empty() { &t2[0] } else { &t2[1] };
                    // something that is heard
                    let evs: Vec<_> = events(now).into_iter().filter(|(_, _, h)| !h.is_empty()).collect();
                    if evs.is_empty() {
                        break;
                    }
                    let (path, e, heard) = &evs[what % evs.len()];
                    let d = match b.fire(path, e, (*e == "input").then_some(VALUE)) {
                        Ok(d) => d,
                        Err(x) => fail_key("script", format!("the page fails when a {e} happens: {x}")),
                    };
                    for m in &d.sent {
                        c.send(&f(1, m.as_bytes()).bytes());
                    }
                    // the first of several listeners may make the others disappear
                    let mut live = now;
                    for h in heard {
                        if live.listeners_named(h) {
                            w2.borrow_mut().push(if *e == "input" { format!("{e} {h} {VALUE}") } else { format!("{e} {h}") });
                            live = &t2[1];
                        }
                    }
                }
                net::quiesce();
                let got = host::written(c.conn, 1);
                for m in texts(&got[read..]) {
                    let _ = b.receive(&m);
                }
                let now = if w2.borrow().is_empty() { &t2[0] } else { &t2[1] };
                match b.receive("[]") {
                    Ok(p) => shows(now, &p.body),
                    Err(e) => fail_key("script", e),
                }
                net::park();
            });
            host::run();
            no_traps();
            let want = want.borrow();
            ensure!(log() == *want, "the component was asked to {:?} instead of {want:?}", log());
            outcome(&*want);
        }),
    ]
}

impl T {
    fn listeners_named(&self, n: &str) -> bool {
        self.listeners.iter().any(|(x, _)| x == n) || self.children.iter().any(|c| c.listeners_named(n))
    }
}

fn shows_eventually(at: &mut usize, trees: &[T], body: &[Dom]) {
    // a page shows the renderings in order
    while *at < trees.len() {
        if body.len() == 1 && same(&trees[*at], &body[0]).is_ok() {
            return;
        }
        *at += 1;
    }
    fail_key("page", format!("the page shows {}, which is none of the renderings still to come", dom::show(body)));
}

// ---------------------------------------------------------------------------------------------
// updates

/// The frames the server sent: all of them whole.
pub fn frames(sent: &[u8]) -> Vec<(u8, Vec<u8>)> {
    match server_frames(sent) {
        Ok((f, [])) => f,
        Ok((f, rest)) => fail_key("frames", format!("after {} frames the server sent part of a frame: {rest:?}", f.len())),
        Err(e) => fail_key("frames", format!("the server sent a malformed frame: {e}")),
    }
}

/// The pages that these messages paint are what a journal shows after more and more of the log, the
/// last one after all of it.
fn follows(msgs: &[String], log: &[String]) {
    follows_as(msgs, log, &journal)
}

/// What a page says to these messages; the same messages make the same page.
fn paints(msgs: &[String]) -> Vec<serde_json::Value> {
    static KNOWN: std::sync::Mutex<std::collections::BTreeMap<Vec<String>, Vec<serde_json::Value>>> = std::sync::Mutex::new(std::collections::BTreeMap::new());
    if let Some(p) = KNOWN.lock().unwrap().get(msgs) {
        return p.clone();
    }
    let (mut b, url) = Browser::open(HREF);
    ensure!(url.is_ok(), "the page does not open its WebSocket: {url:?}");
    let out: Vec<_> = b.ask(msgs.iter().map(|m| dom::message(m)).collect());
    let mut known = KNOWN.lock().unwrap();
    if known.len() < 20_000 {
        known.insert(msgs.to_vec(), out.clone());
    }
    out
}

pub fn follows_as(msgs: &[String], log: &[String], shown: &dyn Fn(&[String]) -> T) {
    let out = paints(msgs);
    let mut at = 0;
    for (r, m) in out.iter().zip(msgs) {
        let p = match dom::painted(r) {
            Ok(p) => p,
            Err(e) => fail_key("script", format!("the page fails on {m}: {e}")),
        };
        while p.body.len() != 1 || same(&shown(&log[..at]), &p.body[0]).is_err() {
            at += 1;
            if at > log.len() {
                fail_key("page", format!("after {log:?} the page shows {}", dom::show(&p.body)));
            }
        }
    }
    if at != log.len() {
        fail_key("page", format!("after {log:?} the page still shows {:?}", &log[..at]));
    }
}

/// Is `part` what remains of `all` without the others?
fn in_order(log: &[String], part: &[&str]) -> bool {
    log.iter().filter(|x| part.contains(&x.as_str())).map(|x| x.as_str()).eq(part.iter().copied())
}

fn v03(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    fn judge(want: &[Vec<&str>], conn: usize) {
        no_traps();
        let log = log();
        let n: usize = want.iter().map(|w| w.len()).sum();
        ensure!(log.len() == n, "{} updates were made instead of {n}: {log:?}", log.len());
        for w in want {
            ensure!(in_order(&log, w), "the updates {w:?} were made in the order {log:?}");
        }
        let sent: Vec<String> = frames(&host::written(conn, 1)).into_iter().filter(|f| f.0 == 1).map(|f| String::from_utf8(f.1).unwrap()).collect();
        follows(&sent, &log);
        outcome(&log);
    }
    fn event(i: usize) -> (Vec<u8>, &'static str) {
        const W: [&str; 3] = ["input i e0", "input i e1", "input i e2"];
        (f(1, format!("{{\"listener\":\"i\",\"payload\":{{\"value\":\"e{i}\"}}}}").as_bytes()).bytes(), W[i])
    }
    vec![
        scenario("events-and-processes", "a client, the process that started the component and another process send at the same time, in every interleaving", Config::bound(0), move || {
            const PLANS: &[(usize, usize, usize)] = &[(1, 1, 0), (2, 1, 0), (1, 2, 0), (0, 1, 1), (0, 2, 1), (1, 1, 1), (2, 2, 0), (1, 2, 1), (2, 1, 1), (3, 1, 0), (2, 2, 1), (3, 2, 1), (2, 2, 2), (3, 3, 1), (3, 3, 2)];
            let (c, n, o) = PLANS[choose(if th { PLANS.len() } else { 11 })];
            const N: [&str; 3] = ["n0", "n1", "n2"];
            const O: [&str; 3] = ["o0", "o1", "o2"];
            serve::<Journal, ()>(Opts { sched: Sched::Full, horizon: 10_000, ..Opts::default() }, (), move |p| {
                if o > 0 {
                    let p = p.clone();
                    puck::lunatic::Process::spawn((p, o as u32), |(p, o): (puck::lunatic::Process<In>, u32), _: puck::lunatic::Mailbox<()>| {
                        for i in 0..o {
                            p.send(In::Note(format!("o{i}")));
                        }
                    });
                }
                for i in 0..n {
                    p.send(In::Note(N[i].into()));
                }
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                for i in 0..c {
                    s.send(&event(i).0);
                }
                net::park();
            });
            host::run();
            judge(&[(0..c).map(|i| event(i).1).collect(), N[..n].to_vec(), O[..o].to_vec()], *conn.borrow());
        }),
        scenario("itself", "a component that sends messages to itself while others arrive, in every interleaving", Config::bound(0), move || {
            let (c, n) = [(0, 1), (1, 1), (1, 0), (2, 1), (3, 1), (5, 1)][choose(if th { 6 } else { 4 })];
            serve::<Journal, ()>(Opts { sched: Sched::Full, horizon: 10_000, ..Opts::default() }, (), move |p| {
                p.send(In::Ask("a0".into()));
                for _ in 0..n {
                    p.send(In::Ask("a1".into()));
                }
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                for i in 0..c {
                    s.send(&event(i).0);
                }
                net::park();
            });
            host::run();
            let asks = ["ask a0", "ask a1"];
            let answers = ["a0", "a1"];
            let log = log();
            for (q, a) in asks.iter().zip(&answers).take(n + 1) {
                let at = |x: &str| log.iter().position(|l| l == x);
                ensure!(at(q) < at(a), "{a} comes before {q} in {log:?}");
            }
            judge(&[asks[..n + 1].to_vec(), answers[..n + 1].to_vec(), (0..c).map(|i| event(i).1).collect()], *conn.borrow());
        }),
        scenario("segments", "events cut anywhere on the way, with pings in between", Config::bound(if th { 3 } else { 2 }), move || {
            let input = [event(0).0, f(9, b"?").bytes(), event(1).0, event(2).0].concat();
            forget();
            host::new_world(Opts { seg: Seg::Dev, ..fixed() });
            let conn = host::scripted_conn(&input, false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                manage::<Journal, (), In>((), ws);
                net::park();
            });
            host::run();
            judge(&[(0..3).map(|i| event(i).1).collect()], conn);
        }),
        scenario("segments-concurrent", "events and renderings cut anywhere on the way, as messages arrive, in every interleaving", Config::bound(if th { 2 } else { 1 }), move || {
            let pieces = choose(2) == 1;
            serve::<Journal, ()>(Opts { sched: Sched::Full, seg: Seg::Dev, short_writes: true, horizon: 10_000, ..Opts::default() }, (), move |p| {
                p.send(In::Note("n0".into()));
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                let all = [event(0).0, event(1).0].concat();
                if pieces {
                    s.send(&all[..20]);
                    s.send(&all[20..60]);
                    s.send(&all[60..]);
                } else {
                    s.send(&all);
                }
                net::park();
            });
            host::run();
            judge(&[(0..2).map(|i| event(i).1).collect(), vec!["n0"]], *conn.borrow());
        }),
        scenario("many", "long histories of updates", Config::bound(0), move || {
            let n = pick(&[0usize, 1, 2, 3, 9, 10, 11, 40, 63, 64, 65, 130, 256, 300]).to_owned();
            forget();
            host::new_world(fixed());
            let conn = host::scripted_conn(&[], false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                let p = manage::<Journal, (), In>((), ws);
                for i in 0..n {
                    p.send(In::Note(format!("m{i}")));
                }
                net::park();
            });
            host::run();
            let want: Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
            judge(&[want.iter().map(|x| x.as_str()).collect()], conn);
        }),
    ]
}

// ---------------------------------------------------------------------------------------------
// life and death

/// How a client leaves.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Leave {
    CloseFrame,
    Close,
    Reset,
    HalfFrame,
    BadFrame,
    ShutdownWrite,
}

/// Take a subsequence out of what was sent, in some way that makes sense of the rest.
fn without(sent: &[u8], part: &[u8], ok: &dyn Fn(&[u8]) -> Option<Vec<String>>) -> Option<Vec<String>> {
    fn go(head: Vec<u8>, tail: &[u8], part: &[u8], ok: &dyn Fn(&[u8]) -> Option<Vec<String>>) -> Option<Vec<String>> {
        let Some(b) = part.first() else { return ok(&[&head, tail].concat()) };
        for i in (0..tail.len()).filter(|i| tail[*i] == *b) {
            let found = go([&head, &tail[..i]].concat(), &tail[i + 1..], &part[1..], ok);
            if found.is_some() {
                return found;
            }
        }
        None
    }
    go(vec![], sent, part, ok)
}

fn v04(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    /// After the client has left: nothing is left of the component.
    fn gone(conn: usize) {
        no_traps();
        let (made, dropped) = MADE.with(|m| *m.borrow());
        ensure!(made <= 1 && dropped == made, "{made} components were made and {dropped} dropped");
        let left: Vec<_> = host::procs().into_iter().filter(|p| !p.client && p.name != "server" && matches!(p.status, host::Status::Waiting(_))).collect();
        if left.len() > 1 {
            fail_key("left", format!("{} processes are left after the client has gone: {:?}", left.len(), left.iter().map(|p| (&p.name, &p.status)).collect::<Vec<_>>()));
        }
        ensure!(host::is_closed(conn, 1), "the server does not let go of the connection");
        if left.len() == 1 {
            fail_key("one-process-left", "the process that `manage` returns is left after the client has gone");
        }
    }
    fn leave(s: &mut net::Sock, how: Leave) {
        match how {
            Leave::CloseFrame => {
                s.send(&f(8, b"").bytes());
                s.recv_to_end();
                s.close();
            }
            Leave::Close => s.close(),
            Leave::Reset => s.reset(),
            Leave::HalfFrame => {
                let b = f(1, b"{\"listener\":\"c\"}").bytes();
                s.send(&b[..b.len() / 2]);
                s.close();
            }
            Leave::BadFrame => {
                s.send(&[0xff, 0x80, 0, 0, 0, 0]);
                s.recv_to_end();
                s.close();
            }
            Leave::ShutdownWrite => {
                s.shutdown_write();
                s.recv_to_end();
                s.close();
            }
        }
    }
    const HOW: &[Leave] = &[Leave::CloseFrame, Leave::Close, Leave::Reset, Leave::HalfFrame, Leave::BadFrame, Leave::ShutdownWrite];
    vec![
        scenario("leaving", "a client leaves in some way while the component starts, works and is sent messages, in every interleaving", Config::bound(0), move || {
            let how = *pick(HOW);
            let (events, notes) = [(0, 0), (1, 0), (0, 1), (1, 1), (2, 1), (2, 2), (3, 3)][choose(if th { 7 } else { 5 })];
            note(|| format!("{how:?}, {events} events, {notes} messages"));
            serve::<Journal, ()>(Opts { sched: Sched::Full, horizon: 3_000, ..Opts::default() }, (), move |p| {
                for i in 0..notes {
                    p.send(In::Note(format!("n{i}")));
                }
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let mut s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                for _ in 0..events {
                    s.send(&f(1, b"{\"listener\":\"c\"}").bytes());
                }
                leave(&mut s, how);
            });
            host::run();
            outcome(&(how, log()));
            gone(*conn.borrow());
        }),
        scenario("cut", "a client leaves in the middle of a conversation, after every byte", Config::bound(0), move || {
            let conversation = [
                f(1, b"{\"listener\":\"c\"}").bytes(), f(9, b"?").bytes(), part(1, b"{\"listener\"").bytes(), f(9, b"").bytes(), f(0, b":\"c\"}").bytes(),
                f(1, &[b' '; 130]).bytes(), f(8, b"").bytes(),
            ].concat();
            let n = choose(conversation.len() + 1);
            let reset = choose(2) == 1;
            serve::<Journal, ()>(Opts { seg: Seg::Front, ..fixed() }, (), |p| p.send(In::Note("n".into())));
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let mut s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                s.send(&conversation[..n]);
                net::quiesce();
                if reset { s.reset() } else { s.close() }
            });
            host::run();
            frames(&host::written(*conn.borrow(), 1));
            outcome(&(n, reset, log()));
            gone(*conn.borrow());
        }),
        scenario("faults", "reads and writes fail anywhere", Config::bound(if th { 3 } else { 2 }), move || {
            let script = [f(1, b"{\"listener\":\"c\"}").bytes(), f(9, b"?").bytes(), f(1, b"{\"listener\":\"c\"}").bytes()].concat();
            forget();
            host::new_world(Opts { write_errors: true, read_errors: true, ..fixed() });
            let conn = host::scripted_conn(&script, true);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                let p = manage::<Journal, (), In>((), ws);
                p.send(In::Note("n".into()));
                net::park();
            });
            host::run();
            outcome(&log());
            gone(conn);
        }),
        scenario("faults-concurrent", "reads and writes fail anywhere, as the component works and is sent messages, in every interleaving", Config::bound(if th { 3 } else { 2 }), move || {
            let (events, notes) = [(1, 1), (2, 1), (1, 2)][choose(3)];
            serve::<Journal, ()>(Opts { sched: Sched::Full, write_errors: true, read_errors: true, horizon: 3_000, ..Opts::default() }, (), move |p| {
                for i in 0..notes {
                    p.send(In::Note(format!("n{i}")));
                }
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let mut s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                for _ in 0..events {
                    s.send(&f(1, b"{\"listener\":\"c\"}").bytes());
                    s.send(&f(9, b"?").bytes());
                }
                s.shutdown_write();
                s.recv_to_end();
                s.close();
            });
            host::run();
            outcome(&log());
            gone(*conn.borrow());
        }),
        scenario("pings", "pongs and renderings are sent at the same time, in every interleaving: every frame arrives whole, every ping is answered once", Config::bound(0), move || {
            let (pings, notes) = [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2), (3, 3), (4, 4)][choose(if th { 7 } else { 5 })];
            serve::<Journal, ()>(Opts { sched: Sched::Full, horizon: 10_000, ..Opts::default() }, (), move |p| {
                for i in 0..notes {
                    p.send(In::Note(format!("n{i}")));
                }
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                for i in 0..pings {
                    s.send(&f(9, format!("p{i}").as_bytes()).bytes());
                }
                net::park();
            });
            host::run();
            no_traps();
            let fs = frames(&host::written(*conn.borrow(), 1));
            let pongs: Vec<String> = fs.iter().filter(|f| f.0 == 10).map(|f| String::from_utf8_lossy(&f.1).into_owned()).collect();
            ensure!(pongs == (0..pings).map(|i| format!("p{i}")).collect::<Vec<_>>(), "{pings} pings are answered by {pongs:?}");
            let msgs: Vec<String> = fs.iter().filter(|f| f.0 == 1).map(|f| String::from_utf8(f.1.clone()).unwrap()).collect();
            ensure!(fs.iter().all(|f| f.0 == 10 || f.0 == 1), "frames of other kinds: {fs:?}");
            ensure!(log().len() == notes, "{notes} messages were sent, the component has seen {:?}", log());
            follows(&msgs, &log());
            outcome(&fs.iter().map(|f| f.0).collect::<Vec<_>>());
        }),
        scenario("pings-in-pieces", "pongs and renderings are sent at the same time, some of the writes are cut short, in every interleaving", Config::bound(if th { 2 } else { 1 }), move || {
            let (pings, notes) = [(1, 1), (2, 1), (1, 2)][choose(if th { 3 } else { 2 })];
            serve::<Journal, ()>(Opts { sched: Sched::Full, short_writes: true, horizon: 10_000, ..Opts::default() }, (), move |p| {
                for i in 0..notes {
                    p.send(In::Note(format!("n{i}")));
                }
            });
            let conn = host::cell(0);
            let c2 = conn.clone();
            host::client("client", move || {
                let s = net::connect(PORT);
                *c2.borrow_mut() = s.conn;
                for _ in 0..pings {
                    s.send(&f(9, b"?!").bytes());
                }
                net::park();
            });
            host::run();
            no_traps();
            ensure!(log().len() == notes, "{notes} messages were sent, the component has seen {:?}", log());
            let sent = host::written(*conn.borrow(), 1);
            let texts = |fs: Vec<(u8, Vec<u8>)>| fs.into_iter().filter(|f| f.0 == 1).map(|f| String::from_utf8(f.1).unwrap()).collect::<Vec<_>>();
            match server_frames(&sent) {
                Ok((fs, [])) => {
                    let pongs = fs.iter().filter(|f| **f == (10, b"?!".to_vec())).count();
                    ensure!(pongs == pings && fs.iter().all(|f| f.0 == 10 || f.0 == 1), "{pings} pings are answered by {fs:?}");
                    follows(&texts(fs), &log());
                }
                // the known defect: all that is wrong is that the pongs went between the pieces of renderings, or these between the pieces of pongs
                other => {
                    let apart = without(&sent, &[0x8a, 2, b'?', b'!'].repeat(pings), &|rest| match server_frames(rest) {
                        Ok((fs, [])) if fs.iter().all(|f| f.0 == 1 && std::str::from_utf8(&f.1).is_ok()) => Some(texts(fs)),
                        _ => None,
                    });
                    let Some(msgs) = apart else { fail_key("frames", format!("the server sent malformed frames: {other:?}")) };
                    follows(&msgs, &log());
                    fail_key("pong-inside-frame", format!("a pong and a rendering are inside one another: {other:?}"));
                }
            }
            outcome(&sent);
        }),
        scenario("staying", "while the client stays, so does the component, whatever else the client sends", Config::bound(0), move || {
            let all = client_messages();
            let (a, b) = (choose(all.len()), choose(all.len()));
            let input = [&all[a].0[..], &all[b].0].concat();
            forget();
            host::new_world(fixed());
            let conn = host::scripted_conn(&input, false);
            host::server("server", move || {
                let ws = WebSocket::new(TcpStream::__from_id(host::adopt(conn, 1)));
                let p = manage::<Journal, (), In>((), ws);
                net::quiesce();
                p.send(In::Note("late".into()));
                net::park();
            });
            host::run();
            no_traps();
            ensure!(log().last().map(|s| s.as_str()) == Some("late"), "the component no longer works: {:?}", log());
            ensure!(MADE.with(|m| *m.borrow()) == (1, 0), "the component is gone");
            ensure!(!host::is_closed(conn, 1), "the server has closed the connection");
            frames(&host::written(conn, 1));
            outcome(&log());
        }),
    ]
}
