//! Renderings as data, what the page should look like, and families of renderings.
use crate::dom::Dom;
use puck_liveview::dom::element::Element;
use puck_liveview::dom::listener::ListenerRef;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub type Listens = (String, String);

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct T {
    pub id: usize,
    pub tag: String,
    pub attrs: Vec<(String, String)>,
    /// Name of the listener, name of the event.
    pub listeners: Vec<Listens>,
    pub text: Option<String>,
    pub key: Option<String>,
    pub children: Vec<T>,
}

pub fn t(tag: &str) -> T {
    T { tag: tag.into(), ..T::default() }
}

impl T {
    pub fn id(mut self, id: usize) -> T {
        self.id = id;
        self
    }
    pub fn attr(mut self, k: &str, v: &str) -> T {
        self.attrs.push((k.into(), v.into()));
        self
    }
    pub fn on(mut self, name: &str, event: &str) -> T {
        self.listeners.push((name.into(), event.into()));
        self
    }
    pub fn text(mut self, x: &str) -> T {
        self.text = Some(x.into());
        self
    }
    pub fn key(mut self, x: &str) -> T {
        self.key = Some(x.into());
        self
    }
    pub fn child(mut self, c: T) -> T {
        self.children.push(c);
        self
    }
    pub fn with(mut self, c: Vec<T>) -> T {
        self.children.extend(c);
        self
    }

    /// Ids in document order, as `IdGen` gives them out.
    pub fn number(mut self, from: usize) -> T {
        fn go(t: &mut T, n: &mut usize) {
            t.id = *n;
            *n += 1;
            for c in &mut t.children {
                go(c, n);
            }
        }
        go(&mut self, &mut { from });
        self
    }

    /// Ids in document order, from this list.
    pub fn ids(mut self, ids: &[usize]) -> T {
        fn go(t: &mut T, n: &mut std::slice::Iter<usize>) {
            t.id = *n.next().unwrap();
            for c in &mut t.children {
                go(c, n);
            }
        }
        go(&mut self, &mut ids.iter());
        self
    }

    pub fn size(&self) -> usize {
        1 + self.children.iter().map(|c| c.size()).sum::<usize>()
    }

    pub fn element(&self) -> Element {
        Element {
            id: self.id,
            name: self.tag.clone().into(),
            attributes: self.attrs.iter().map(|(k, v)| (k.clone().into(), v.clone().into())).collect(),
            listeners: self.listeners.iter().map(|(n, e)| ListenerRef::new(n, e)).collect(),
            children: self.children.iter().map(|c| c.element()).collect(),
            text: self.text.clone().map(|x| x.into()),
            key: self.key.clone(),
        }
    }

    pub fn brief(&self) -> String {
        let mut s = format!("<{} {}", self.tag, self.id);
        for (k, v) in &self.attrs {
            s += &format!(" {k}={v:?}");
        }
        for (n, e) in &self.listeners {
            s += &format!(" on{e}={n:?}");
        }
        if let Some(k) = &self.key {
            s += &format!(" key {k}");
        }
        s += ">";
        if let Some(x) = &self.text {
            s += &format!("{x:?}");
        }
        for c in &self.children {
            s += &c.brief();
        }
        s + "</>"
    }
}

/// Is the page what this rendering says?
pub fn same(want: &T, got: &Dom) -> Result<(), String> {
    let Dom::El { tag, attrs, children, .. } = got else { return Err(format!("a text instead of <{}>", want.tag)) };
    if *tag != want.tag {
        return Err(format!("the element {} is a <{tag}> instead of a <{}>", want.id, want.tag));
    }
    let mut a: BTreeMap<String, String> = want.attrs.iter().cloned().collect();
    a.insert("id".into(), want.id.to_string());
    if *attrs != a {
        return Err(format!("the element {} has the attributes {attrs:?} instead of {a:?}", want.id));
    }
    let mut kids = children.iter().peekable();
    let text = want.text.clone().unwrap_or_default();
    let got_text = match kids.peek() {
        Some(Dom::Text(t)) => {
            kids.next();
            t.clone()
        }
        _ => String::new(),
    };
    if text != got_text {
        return Err(format!("the element {} has the text {got_text:?} instead of {text:?}", want.id));
    }
    let kids: Vec<&Dom> = kids.collect();
    if kids.len() != want.children.len() {
        return Err(format!("the element {} has {} children instead of {}", want.id, kids.len(), want.children.len()));
    }
    want.children.iter().zip(kids).try_for_each(|(w, g)| same(w, g))
}

fn keyed(t: &T) -> bool {
    t.children.iter().all(|c| c.key.is_some())
}

fn unkeyed(t: &T) -> bool {
    t.children.iter().all(|c| c.key.is_none())
}

/// Do the elements that stay from `a` to `b` (same key, or same place where nothing has a key; same
/// tag name) keep their nodes?
pub fn nodes_stay(a: &T, da: &Dom, b: &T, db: &Dom) -> Result<(), String> {
    let (Dom::El { serial: sa, children: ca, .. }, Dom::El { serial: sb, children: cb, .. }) = (da, db) else { return Ok(()) };
    if a.tag != b.tag {
        return Ok(());
    }
    if sa != sb {
        return Err(format!("the element {} (now {}) was replaced by a new node", a.id, b.id));
    }
    let els = |c: &[Dom]| -> Vec<Dom> { c.iter().filter(|d| matches!(d, Dom::El { .. })).cloned().collect() };
    let (ca, cb) = (els(ca), els(cb));
    if keyed(a) && keyed(b) {
        for (x, dx) in a.children.iter().zip(&ca) {
            for (y, dy) in b.children.iter().zip(&cb) {
                if x.key == y.key {
                    nodes_stay(x, dx, y, dy)?;
                }
            }
        }
    } else if unkeyed(a) && unkeyed(b) {
        for ((x, dx), (y, dy)) in a.children.iter().zip(&ca).zip(b.children.iter().zip(&cb)) {
            nodes_stay(x, dx, y, dy)?;
        }
    }
    Ok(())
}

/// Everything that can happen on the page: element (path below the body), event, and the listeners
/// that should hear it: those of the element and of everything around it.
pub fn events(t: &T) -> Vec<(Vec<usize>, &'static str, Vec<String>)> {
    fn go(t: &T, path: &mut Vec<usize>, around: &mut Vec<Vec<Listens>>, out: &mut Vec<(Vec<usize>, &'static str, Vec<String>)>) {
        around.push(t.listeners.clone());
        for e in ["click", "submit", "input"] {
            out.push((path.clone(), e, around.iter().rev().flatten().filter(|(_, x)| x == e).map(|(n, _)| n.clone()).collect()));
        }
        for (i, c) in t.children.iter().enumerate() {
            path.push(i);
            go(c, path, around, out);
            path.pop();
        }
        around.pop();
    }
    let mut out = vec![];
    go(t, &mut vec![0], &mut vec![], &mut out);
    out
}

/// All ordered trees of `n` nodes.
pub fn shapes(n: usize) -> Vec<T> {
    fn forests(n: usize) -> Vec<Vec<T>> {
        if n == 0 {
            return vec![vec![]];
        }
        let mut out = vec![];
        for k in 1..=n {
            for first in shapes(k) {
                for rest in forests(n - k) {
                    let mut f = vec![first.clone()];
                    f.extend(rest);
                    out.push(f);
                }
            }
        }
        out
    }
    forests(n - 1).into_iter().map(|c| t("div").with(c)).collect()
}

/// All trees got by giving each node one of these forms (in document order).
pub fn dressed(shape: &T, forms: &[fn(T) -> T]) -> Vec<T> {
    let mut kids: Vec<Vec<T>> = vec![vec![]];
    for c in &shape.children {
        let cs = dressed(c, forms);
        kids = kids.iter().flat_map(|k| cs.iter().map(move |c| [k.clone(), vec![c.clone()]].concat())).collect();
    }
    kids.iter().flat_map(|k| forms.iter().map(move |f| f(t("div")).with(k.clone()))).collect()
}

/// All ordered selections of at most `n` of these.
pub fn arrangements<X: Clone + PartialEq>(xs: &[X], n: usize) -> Vec<Vec<X>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..n {
        let mut next = vec![];
        for l in &last {
            for x in xs {
                if !l.contains(x) {
                    next.push([l.clone(), vec![x.clone()]].concat());
                }
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}
