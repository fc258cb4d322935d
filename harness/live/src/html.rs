//! From malvolio's tags to elements: `wrap`, `WrappedBodyNode`, `into_element`.

use crate::live;
use crate::tree::*;
use malvolio::prelude as m;
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, ensure, fail_key, note, outcome, pick, Config};
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::ListenerRef;
use puck_liveview::html::id::IdGen;
use puck_liveview::html::{IntoWrappedBodyNode, WrappedBodyNode};
use std::collections::{BTreeMap, BTreeSet};

pub fn check() -> Check {
    Check {
        property: "V05",
        assumptions: vec![
            "malvolio 0.3.1 from crates.io stands for the unpublished revision the repository asks for",
            "every kind of tag except text nodes (a recorded finding), in trees of at most five elements; br, img, input and noscript hold no elements",
            "harness/live/dom.js stands for the browser",
        ],
        scenarios: v05,
    }
}

const KINDS: &[&str] = &["h1", "h2", "h3", "h4", "h5", "h6", "p", "form", "br", "div", "a", "input", "label", "select", "noscript", "img"];

/// May this tag hold elements?
fn holds(kind: &str) -> bool {
    !["br", "img", "input", "noscript"].contains(&kind)
}

fn has_text(kind: &str) -> bool {
    !["form", "br", "div", "input", "select", "img"].contains(&kind)
}

/// A tag of this kind, with `n` attributes whose values say `mark`; `within`: malvolio's own children.
fn tag(kind: &str, n: usize, mark: &str, text: &str, within: &[m::BodyNode]) -> (WrappedBodyNode, Vec<(String, String)>) {
    let v = |i: usize| format!("{mark}{i}");
    let raw: Vec<(String, String)> = (0..n).map(|i| (["title", "lang"][i].to_string(), v(i))).collect();
    let named = |names: &[&str]| -> Vec<(String, String)> { (0..n).map(|i| (names[i].to_string(), v(i))).collect() };
    macro_rules! raw {
        ($t:expr) => {{
            let mut t = $t;
            for (k, v) in &raw {
                t = t.raw_attribute(k.clone(), v.clone());
            }
            (t.wrap(), raw)
        }};
    }
    match kind {
        "h1" => raw!(m::H1::new(text)),
        "h2" => raw!(m::H2::new(text)),
        "h3" => raw!(m::H3::new(text)),
        "h4" => raw!(m::H4::new(text)),
        "h5" => raw!(m::H5::new(text)),
        "h6" => raw!(m::H6::new(text)),
        "label" => raw!(m::Label::new(text)),
        "p" => {
            let mut t = m::P::with_text(text).children(within.to_vec());
            if n > 0 {
                t = t.attribute(m::Class::from(std::borrow::Cow::from(v(0))));
            }
            (t.wrap(), named(&["class", ""]).into_iter().take(1).collect())
        }
        "div" => raw!(m::Div::new().children(within.to_vec())),
        "form" => {
            let mut t = m::Form::new().children(within.to_vec());
            let names = ["action", "method"];
            if n > 0 {
                t = t.attribute(m::Action::new(v(0)));
            }
            let mut at = named(&names);
            if n > 1 {
                t = t.attribute(m::Method::Post);
                at[1].1 = "post".into();
            }
            (t.wrap(), at)
        }
        "br" => (m::Br.wrap(), vec![]),
        "a" => {
            let mut t = m::A::new().text(text.to_string());
            if n > 0 {
                t = t.attribute(m::Href::new(v(0)));
            }
            if n > 1 {
                t = t.attribute(m::Style::new(v(1)));
            }
            (t.wrap(), named(&["href", "style"]))
        }
        "input" => {
            let mut t = m::Input::new();
            if n > 0 {
                t = t.attribute(m::Value::new(v(0)));
            }
            let mut at = named(&["value", "type"]);
            if n > 1 {
                t = t.attribute(m::Type::Password);
                at[1].1 = "password".into();
            }
            (t.wrap(), at)
        }
        "select" => {
            let mut t = m::Select::new();
            if n > 0 {
                t = t.attribute(m::Name::new(v(0)));
            }
            if n > 1 {
                t = t.raw_attribute("title", v(1));
            }
            (t.wrap(), named(&["name", "title"]))
        }
        "noscript" => (malvolio::tags::noscript::NoScript::new(text.to_string()).wrap(), vec![]),
        "img" => {
            let mut t = m::Img::new();
            if n > 0 {
                t = t.attribute(m::Src::new(v(0)));
            }
            if n > 1 {
                t = t.attribute(m::Alt::new(v(1)));
            }
            (m::BodyNode::Img(t).wrap(), named(&["src", "alt"]))
        }
        _ => unreachable!(),
    }
}

/// The tree that `want` (whose tags are kinds, and whose attributes are the number of `attrs`) asks for,
/// both ways.
fn build(spec: &T, children_at_once: bool) -> (WrappedBodyNode, T) {
    let text = spec.text.clone().unwrap_or_default();
    let n = spec.attrs.len();
    let (mut w, attrs) = tag(&spec.tag, n, spec.attrs.first().map(|a| a.1.as_str()).unwrap_or(""), &text, &[]);
    let mut want = t(&spec.tag);
    want.attrs = attrs;
    want.text = (has_text(&spec.tag) && !text.is_empty()).then_some(text);
    want.listeners = spec.listeners.clone();
    for (name, event) in &spec.listeners {
        w = w.listener(ListenerRef::new(name, event));
    }
    let mut kids = vec![];
    for c in &spec.children {
        let (k, kt) = build(c, children_at_once);
        want.children.push(kt);
        if children_at_once { kids.push(k) } else { w = w.child(k) }
    }
    if children_at_once {
        w = w.children(kids);
    }
    (w, want)
}

fn compare(want: &T, got: &Element, ids: &mut BTreeSet<usize>) -> Result<(), String> {
    let what = want.brief();
    if got.name != want.tag {
        return Err(format!("{what} becomes a <{}>", got.name));
    }
    let a: BTreeMap<&str, &str> = got.attributes.iter().map(|(k, v)| (&**k, &**v)).collect();
    let wa: BTreeMap<&str, &str> = want.attrs.iter().map(|(k, v)| (&**k, &**v)).collect();
    if a != wa {
        return Err(format!("{what} gets the attributes {a:?}"));
    }
    let l: Vec<String> = got.listeners.iter().map(|l| format!("{l:?}")).collect();
    let wl: Vec<String> = want.listeners.iter().map(|(n, e)| format!("{:?}", ListenerRef::new(n, e))).collect();
    if l != wl {
        return Err(format!("{what} gets the listeners {l:?}"));
    }
    let (x, wx) = (got.text.as_deref().unwrap_or(""), want.text.as_deref().unwrap_or(""));
    if x != wx {
        return Err(format!("{what} gets the text {x:?}"));
    }
    if !ids.insert(got.id) {
        return Err(format!("two elements have the id {}", got.id));
    }
    if got.children.len() != want.children.len() {
        return Err(format!("{what} gets {} children", got.children.len()));
    }
    want.children.iter().zip(&got.children).try_for_each(|(w, g)| compare(w, g, ids))
}

/// The element as a rendering (with the ids it got).
fn with_ids(want: &T, got: &Element) -> T {
    let mut t = want.clone();
    t.id = got.id;
    t.key = got.key.clone();
    t.children = want.children.iter().zip(&got.children).map(|(w, g)| with_ids(w, g)).collect();
    t
}

fn convert(spec: &T, at_once: bool, gen: &mut IdGen, ids: &mut BTreeSet<usize>) -> T {
    let (w, want) = build(spec, at_once);
    let el = w.into_element(gen);
    if let Err(e) = compare(&want, &el, ids) {
        fail_key("element", e);
    }
    with_ids(&want, &el)
}

fn dress(t: &mut T, n: usize, attrs: usize, listeners: usize, text: bool) {
    t.attrs = (0..attrs).map(|_| (String::new(), format!("v{n}-"))).collect();
    t.listeners = [("l", "click"), ("m", "input"), ("l2", "click")][..listeners].iter().map(|(a, b)| (format!("{a}{n}"), b.to_string())).collect();
    t.text = text.then(|| format!("text {n}"));
}

fn v05(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    vec![
        scenario("kinds", "every kind of tag inside every kind that holds elements, with up to two attributes and three listeners each", Config::bound(0), || {
            let outer = *pick(KINDS);
            let inner = if holds(outer) { choose(KINDS.len() + 1) } else { 0 };
            let mut e = t(outer);
            dress(&mut e, 0, choose(3), choose(4), choose(2) == 1);
            if inner > 0 {
                let mut k = t(KINDS[inner - 1]);
                dress(&mut k, 1, choose(3), choose(4), choose(2) == 1);
                let mut last = t("p");
                dress(&mut last, 2, 0, 1, true);
                e = e.with(vec![k, last]);
            }
            let at_once = choose(2) == 1;
            note(|| e.brief());
            let t = convert(&e, at_once, &mut IdGen::new(), &mut BTreeSet::new());
            outcome(&t.brief());
        }),
        scenario("trees", "every tree of a few elements of some kinds; two trees from one generator have no id in common", Config::bound(0), move || {
            fn plant(s: &mut T, n: &mut usize, kinds: &[&str]) {
                let k = if s.children.is_empty() { *pick(kinds) } else { *pick(&kinds[..2]) };
                s.tag = k.into();
                dress(s, *n, *n % 2, 1, *n % 3 > 0);
                *n += 1;
                s.children.iter_mut().for_each(|c| plant(c, n, kinds));
            }
            let all: Vec<T> = (1..=if th { 5 } else { 4 }).flat_map(shapes).collect();
            let mut s = pick(&all).clone();
            plant(&mut s, &mut 0, &["div", "a", "br", "noscript", "h1", "select"]);
            note(|| s.brief());
            let mut gen = IdGen::new();
            let mut ids = BTreeSet::new();
            let one = convert(&s, false, &mut gen, &mut ids);
            let two = convert(&s, true, &mut gen, &mut ids);
            outcome(&(one.brief(), two.brief()));
        }),
        scenario("painted", "what is built from malvolio's tags is what the page shows, and its listeners are heard", Config::bound(0), || {
            let kinds: Vec<&str> = KINDS.to_vec();
            let show = |i: usize| {
                let mut e = t("div");
                dress(&mut e, 0, 1, 1, false);
                let mut k = t(kinds[i]);
                dress(&mut k, 1, 2, 2, true);
                if holds(kinds[i]) {
                    let mut g = t("p");
                    dress(&mut g, 2, 1, 1, true);
                    k = k.child(g);
                }
                let mut last = t("h2");
                dress(&mut last, 3, 1, 1, true);
                e.with(vec![k, last])
            };
            let (a, b) = (choose(kinds.len()), choose(kinds.len()));
            let trees: Vec<T> = [a, b].iter().map(|i| convert(&show(*i), false, &mut IdGen::new(), &mut BTreeSet::new())).collect();
            note(|| format!("{} then {}", trees[0].brief(), trees[1].brief()));
            live::judge(&trees, true);
        }),
        scenario("malvolio-children", "what was put into a tag before it was wrapped stays in it", Config::bound(0), || {
            let kind = *pick(&["div", "form", "p"]);
            let (n, more) = (1 + choose(2), choose(3));
            let within: Vec<m::BodyNode> = (0..n).map(|i| if i == 0 { m::H1::new("inside").into() } else { m::Br.into() }).collect();
            let (mut w, attrs) = tag(kind, 1, "x", "text", &within);
            for _ in 0..more {
                w = w.child(m::H2::new("after").wrap());
            }
            let el = w.into_element(&mut IdGen::new());
            let mut want = t(kind);
            want.attrs = attrs;
            want.text = has_text(kind).then(|| "text".to_string());
            let mut without = want.clone();
            want.children = (0..n).map(|i| if i == 0 { t("h1").text("inside") } else { t("br") }).collect();
            let after: Vec<T> = (0..more).map(|_| t("h2").text("after")).collect();
            want.children.extend(after.clone());
            without.children = after;
            outcome(&(kind, n, more));
            if let Err(e) = compare(&want, &el, &mut BTreeSet::new()) {
                match compare(&without, &el, &mut BTreeSet::new()) {
                    Ok(()) => fail_key("malvolio-children", format!("{e}: what was put into the <{kind}> before it was wrapped is lost")),
                    Err(_) => fail_key("element", e),
                }
            }
        }),
        scenario("text-nodes", "a text node is an element's text", Config::bound(0), || {
            let alone = choose(2) == 0;
            let node = || malvolio::text::Text::new("words").wrap();
            let r = std::panic::catch_unwind(|| if alone { node().into_element(&mut IdGen::new()) } else { m::Div::new().wrap().child(node()).into_element(&mut IdGen::new()) });
            match r {
                Err(_) => fail_key("text-node", "a text node makes into_element panic"),
                Ok(e) => ensure!(format!("{e:?}").contains("words"), "the text node is lost: {e:?}"),
            }
            outcome(&alone);
        }),
        scenario("builder", "every sequence of up to four calls of child, children and listener: everything that was given is there, in order", Config::bound(0), move || {
            let kind = *pick(&["div", "form", "p", "h1", "h6", "label", "a", "select"]);
            let (mut w, attrs) = tag(kind, 1, "x", "text", &[]);
            let mut want = t(kind);
            want.attrs = attrs;
            want.text = has_text(kind).then(|| "text".to_string());
            let mut n = 0;
            let mut new = || {
                n += 1;
                let (w, attrs) = tag(if n % 2 == 0 { "p" } else { "h2" }, 1, &format!("k{n}-"), &format!("text {n}"), &[]);
                let mut k = t(if n % 2 == 0 { "p" } else { "h2" }).text(&format!("text {n}"));
                k.attrs = attrs;
                (w, k)
            };
            let mut calls = vec![];
            for i in 0..1 + choose(if th { 5 } else { 4 }) {
                let call = choose(7);
                calls.push(call);
                match call {
                    0 => {
                        let (k, kt) = new();
                        w = w.child(k);
                        want.children.push(kt);
                    }
                    1..=3 => {
                        let (ks, kts): (Vec<_>, Vec<_>) = (0..call - 1).map(|_| new()).unzip();
                        w = w.children(ks);
                        want.children.extend(kts);
                    }
                    c => {
                        let (name, event) = [(format!("l{i}"), "click"), (format!("l{i}"), "input"), ("l".into(), "click")][c - 4].clone();
                        w = w.listener(ListenerRef::new(&name, event));
                        want.listeners.push((name, event.into()));
                    }
                }
            }
            note(|| format!("{kind}: {calls:?}"));
            let el = w.into_element(&mut IdGen::new());
            if let Err(e) = compare(&want, &el, &mut BTreeSet::new()) {
                fail_key("element", e);
            }
            outcome(&(kind, calls));
        }),
        scenario("wide", "every kind that holds elements with up to 300 of them and up to 40 listeners", Config::bound(0), || {
            let kinds: Vec<&str> = KINDS.iter().copied().filter(|k| holds(k)).collect();
            let (kind, inner) = (*pick(&kinds), *pick(&["br", "div", "h1", "p"]));
            let n = *pick(&[0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 20, 32, 33, 64, 65, 100, 128, 256, 300]);
            let listeners = *pick(&[0usize, 1, 4, 5, 8, 9, 16, 17, 40]);
            let mut e = t(kind);
            dress(&mut e, 0, 2, 0, true);
            e.listeners = (0..listeners).map(|i| (format!("l{i}"), ["click", "input", "submit"][i % 3].to_string())).collect();
            let kid = |i: usize| {
                let mut k = t(inner);
                dress(&mut k, i + 1, 1, 1, true);
                k
            };
            let e = e.with((0..n).map(kid).collect());
            let at_once = choose(2) == 1;
            convert(&e, at_once, &mut IdGen::new(), &mut BTreeSet::new());
            outcome(&(kind, inner, n, listeners));
        }),
        scenario("deep", "elements of every two kinds inside each other, up to sixty deep", Config::bound(0), || {
            let kinds: Vec<&str> = KINDS.iter().copied().filter(|k| holds(k)).collect();
            let (a, b) = (*pick(&kinds), *pick(&kinds));
            let n = *pick(&[2usize, 3, 4, 5, 8, 9, 16, 17, 33, 60]);
            let mut e = t("br");
            for i in 0..n {
                let mut x = t(if i % 2 == 0 { a } else { b });
                dress(&mut x, i, 1, 1, i % 3 == 0);
                let mut last = t("h2");
                dress(&mut last, i, 0, 0, true);
                e = x.with(vec![e, last]);
            }
            convert(&e, choose(2) == 1, &mut IdGen::new(), &mut BTreeSet::new());
            outcome(&(a, b, n));
        }),
        scenario("texts", "every kind with a text, or attributes, that mean something on the way to the page, or are long", Config::bound(0), || {
            let kind = *pick(KINDS);
            // malvolio itself takes markup out of texts
            let strange: Vec<&str> = live::STRANGE.iter().copied().filter(|s| !s.contains(['<', '&'])).collect();
            let text = match choose(strange.len() + 5) {
                i if i < strange.len() => strange[i].to_string(),
                i => "x y".repeat([30, 90, 400, 3_000, 30_000][i - strange.len()]),
            };
            let mut e = t(kind);
            e.text = (choose(2) == 0).then(|| text.clone());
            e.attrs = (0..choose(3)).map(|_| (String::new(), text.clone())).collect();
            convert(&e, true, &mut IdGen::new(), &mut BTreeSet::new());
            outcome(&(kind, text));
        }),
        scenario("ids", "ids are unique however often a generator is used", Config::bound(0), || {
            let n = match choose(44) {
                40 => 300,
                41 => 1_500,
                42 => 5_000,
                43 => 70_000,
                n => n + 1,
            };
            let mut gen = IdGen::new();
            let mut seen = BTreeSet::new();
            for i in 0..n {
                let el = m::Div::new().wrap().children((0..i % 5).map(|_| m::Br.wrap())).into_element(&mut gen);
                fn go(e: &Element, seen: &mut BTreeSet<usize>) {
                    ensure!(seen.insert(e.id), "two elements have the id {}", e.id);
                    e.children.iter().for_each(|c| go(c, seen));
                }
                go(&el, &mut seen);
            }
            outcome(&n);
        }),
    ]
}

