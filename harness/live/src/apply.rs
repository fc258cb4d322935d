//! Changesets: `old.diff(Some(&new))`, applied to `old`, gives `new`.
use crate::live::*;
use crate::tree::*;
use mc::report::{scenario, Check, Scenario, Tier};
use mc::{choose, fail_key, note, outcome, pick, Config};
use puck_liveview::dom::element::Element;

pub fn check() -> Check {
    Check {
        property: "V06",
        assumptions: vec!["renderings give every element its own id, siblings different keys, and no attribute named id", "the listed families of renderings; sequences of two to four renderings"],
        scenarios,
    }
}

/// Without the keys, which a page does not know, and with the listeners in the order of their names.
fn plainly(e: &Element) -> Element {
    let mut e = e.clone();
    fn go(e: &mut Element) {
        e.key = None;
        e.listeners.sort_by(|a, b| (a.listener_name(), a.js_event()).cmp(&(b.listener_name(), b.js_event())));
        e.children.iter_mut().for_each(go);
    }
    go(&mut e);
    e
}

/// What a page shows after `trees` were rendered one after another.
fn judge(trees: &[T]) {
    note(|| trees.iter().map(|t| t.brief()).collect::<Vec<_>>().join("\n"));
    let els: Vec<Element> = trees.iter().map(|t| t.element()).collect();
    let mut page = els[0].clone();
    let mut ops = 0u64;
    for w in els.windows(2) {
        let cs = w[0].diff(Some(&w[1]));
        cs.apply(&mut page);
        let n = cs.into_iter().count();
        if w[0] == w[1] && n != 0 {
            fail_key("nothing-to-do", format!("{n} operations lead from a rendering to the same one"));
        }
        ops += n as u64;
        // what is on the page has no keys: nothing depends on them being right
        let (got, want) = (plainly(&page), plainly(&w[1]));
        if got != want {
            fail_key("apply", format!("the changeset leads to {got:?} instead of {want:?}"));
        }
    }
    outcome(&(ops, trees.len()));
}

fn pairs(name: &'static str, about: &'static str, n: usize, f: Vec<T>) -> Scenario {
    scenario(name, format!("{about}: all sequences of {n} of {} renderings", f.len()), Config::bound(0), move || {
        let trees: Vec<T> = (0..n).map(|_| pick(&f).clone()).collect();
        judge(&trees);
    })
}

/// Every tree of these shapes whose elements are given every mark in turn: tag, text, key (different
/// from those of its siblings), attribute, listener.
pub fn marked(nodes: usize, forms: usize) -> Vec<T> {
    const FORMS: &[fn(T) -> T] = &[
        |t| t,
        |t| t.key("a"),
        |t| t.key("b").text("x"),
        |mut t| {
            t.tag = "p".into();
            t
        },
        |t| t.text("x").attr("a", "x").on("l", "click"),
        |t| t.key("c").attr("a", "y").on("l", "input"),
    ];
    fn fine(t: &T) -> bool {
        let k: Vec<&String> = t.children.iter().filter_map(|c| c.key.as_ref()).collect();
        (0..k.len()).all(|i| !k[..i].contains(&k[i])) && t.children.iter().all(fine)
    }
    (1..=nodes).flat_map(shapes).flat_map(|s| dressed(&s, &FORMS[..forms])).filter(fine).map(|t| t.number(0)).collect()
}

/// The ids of `marked` trees, backwards or shifted.
fn renumbered(nodes: usize, forms: usize) -> Vec<T> {
    marked(nodes, forms)
        .into_iter()
        .flat_map(|t| {
            let n = t.size();
            let back: Vec<usize> = (0..n).rev().collect();
            [t.clone(), t.clone().ids(&back), t.number(1)]
        })
        .collect()
}

fn scenarios(tier: Tier) -> Vec<Scenario> {
    let th = tier == Tier::Thorough;
    let mut out = vec![
        pairs("shapes", "trees of up to five elements, with and without text", 2, plain(if th { 5 } else { 4 })),
        pairs("shapes-of-three", "trees of up to three elements", 3, plain(3)),
        pairs("shapes-of-six", "trees of up to six elements", 2, (1..=6).flat_map(shapes).map(|t| t.number(0)).collect()),
        pairs("element", "tag names, attributes, texts, ids of an element with and without a child", 2, single()),
        pairs("listeners", "listeners of an element and one in it", 2, listening()),
        pairs("ids", "trees of three elements with ids in any order", 2, numbered(3, 5)),
        pairs("ids-of-four", "trees of four elements with ids in any order", 2, numbered(4, 4)),
        pairs("marked", "trees of up to three elements with every mark", 2, marked(3, 6)),
        pairs("marked-renumbered", "trees of up to three elements with every mark, ids in three orders", 2, renumbered(3, if th { 6 } else { 4 })),
        pairs("marked-of-three", "trees of up to three elements with marks, one after another", 3, marked(3, 3)),
        pairs("keys", "children with keys, added, removed and moved", 2, keyed_lists(&["a", "b", "c", "d", "e"], if th { 5 } else { 4 })),
        pairs("keys-of-three", "children with keys, added, removed and moved", 3, keyed_lists(&["a", "b", "c"], 3)),
        pairs("half-keyed", "children of which some have keys", 2, half_keyed()),
        pairs("nested-keys", "children with keys that have children with keys", 2, nested_keys()),
        pairs("alike", "words that differ in case, order, length or blanks, in every place where a word can be", 2, alike()),
        pairs("alike-pairs", "two such words next to each other", 2, alike_pairs(1)),
        pairs("strange-texts", "texts, values and names that mean something in HTML, JSON or the protocol", 2, strange()),
        pairs("big", "many, or deeply nested, elements, many attributes and listeners, ids of many digits", 2, big()),
        permutations(if th { 8 } else { 7 }, judge),
        long_words(judge),
        long_histories(judge),
        rows(judge),
        wide(judge),
        rich_rows(judge),
        spelled(if th { 4 } else { 3 }, judge),
    ];
    if th {
        out.push(pairs("marked-of-four", "trees of up to four elements with marks", 2, marked(4, 3)));
        out.push(pairs("marked-three-deep", "trees of up to three elements with marks, one after another", 3, marked(3, 4).into_iter().step_by(2).collect()));
        out.push(pairs("ids-of-five", "trees of four elements with ids in any order out of five", 2, numbered(4, 5).into_iter().step_by(3).collect()));
        out.push(pairs("shapes-of-seven", "trees of up to seven elements", 2, (1..=7).flat_map(shapes).map(|t| t.number(0)).collect()));
        out.push(pairs("four-in-a-row", "trees of up to three elements", 4, plain(3)));
    }
    out
}
