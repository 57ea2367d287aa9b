//! C38: a click asks for the source of what is clicked.
use super::c28::node;
use crate::fw::*;
use crate::util::*;
use serde_json::{json, Value};

pub fn check() -> Check {
    Check {
        id: "C38",
        enumerate,
        run,
        rule: "a state is a page (a tree of elements: pages, groups, texts, images, shapes, and others), a transition a click on one of its \
               elements; for every tree within the bounds and every element the code of typst-dom must send the location that belongs to the \
               path from the page to the element, and nothing if there is none",
        assumptions: &["node runs the code, bundled from /repo's current tree by esbuild, on a small DOM; the session that knows the locations is a stand-in"],
        hang_s: 120,
    }
}

struct El {
    kind: char,
    parent: Option<usize>,
    kids: Vec<usize>,
}

fn parse(tree: &str) -> Vec<El> {
    let (mut v, mut stack): (Vec<El>, Vec<usize>) = (vec![], vec![]);
    for c in tree.chars() {
        match c {
            '(' => stack.push(v.len() - 1),
            ')' => drop(stack.pop()),
            kind => {
                let (n, parent) = (v.len(), stack.last().copied());
                if let Some(p) = parent {
                    v[p].kids.push(n);
                }
                v.push(El { kind, parent, kids: vec![] });
            }
        }
    }
    v
}

/// What stands for an element among those next to it: itself, or what it wraps.
fn stands(v: &[El], mut e: usize) -> Option<usize> {
    loop {
        if v[e].kind != 'n' {
            return Some(e);
        }
        match v[e].kids[..] {
            [k] => e = k,
            _ => return None,
        }
    }
}

fn code(k: char) -> usize {
    "tgisp".find(k).unwrap()
}

/// The message for a click on `e`.
fn want(v: &[El], e: usize) -> Option<String> {
    let mut chain = vec![];
    let mut at = Some(e);
    while let Some(i) = at {
        if v[i].kind != 'n' {
            chain.insert(0, i);
        }
        at = v[i].parent;
    }
    if v[*chain.first()?].kind != 'p' {
        return None;
    }
    let mut path = vec![];
    for (k, &i) in chain.iter().enumerate() {
        let near: Vec<usize> = match k {
            0 => match v[i].parent {
                Some(p) => v[p].kids.clone(),
                None => (0..v.len()).filter(|j| v[*j].parent.is_none()).collect(),
            },
            _ => v[chain[k - 1]].kids.clone(),
        };
        let n = near.into_iter().filter_map(|j| stands(v, j)).position(|j| j == i)?;
        // the group of the page is left out
        if k != 1 {
            path.extend([code(v[i].kind), n]);
        }
    }
    // see click.mjs
    if path.len() % 4 == 2 && path.last() == Some(&3) {
        return None;
    }
    Some(path.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "))
}

fn verdict(tree: &str, uses: i64, got: &Value) -> Result<(), String> {
    let v = parse(tree);
    let Some(got) = got.as_array() else { return Err(format!("{tree}: {got}")) };
    for (e, got) in got.iter().enumerate() {
        let w = want(&v, e).filter(|_| uses > 0).map_or(String::new(), |w| format!("srclocation {w}"));
        if got.as_str() != Some(w.as_str()) {
            return Err(format!("in {tree}, a click on element {e} sends {got}, not {w:?}"));
        }
    }
    Ok(())
}

fn run(_: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    let uses = parts[1].parse().unwrap();
    verdict(parts[0], uses, &node(std::iter::once(json!(["click", parts[0], uses])))[0])
}

/// Every forest with `n` elements of `kinds`.
fn forests(kinds: &str, n: usize) -> Vec<String> {
    let mut by: Vec<Vec<String>> = vec![vec![String::new()]];
    for n in 1..=n {
        let mut v = vec![];
        for first in 1..=n {
            for k in kinds.chars() {
                for ch in &by[first - 1] {
                    for rest in &by[n - first] {
                        v.push(if ch.is_empty() { format!("{k}{rest}") } else { format!("{k}({ch}){rest}") });
                    }
                }
            }
        }
        by.push(v);
    }
    by.concat()
}

fn sweep(ctx: &mut Ctx, what: &str, trees: Vec<String>, uses: i64) {
    let mine: Vec<&String> = trees.iter().filter(|_| ctx.turn()).collect();
    let got = node(mine.iter().map(|t| json!(["click", t, uses])));
    for (t, got) in mine.iter().zip(got) {
        let n = t.chars().filter(|c| c.is_alphabetic()).count() as u64;
        let mut obs = Obs { states: 1, transitions: n, traces: n, outcome: None };
        obs.outcome(&got);
        ctx.record("click", &[t, &uses.to_string()], obs, verdict(t, uses, &got));
    }
    ctx.bound(format!("{what}: every click in each of {} pages", trees.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let page = |f: &String| format!("p(g({f}))");
    let f = |k, n| forests(k, n);
    sweep(ctx, "groups, texts and others", f("gtn", if q { 5 } else { 6 }).iter().map(page).collect(), 1);
    sweep(ctx, "all kinds", f("gtisn", if q { 4 } else { 5 }).iter().map(page).collect(), 1);
    sweep(ctx, "two pages", f("gtn", 2).iter().flat_map(|a| f("gtn", 2).into_iter().map(move |b| format!("p(g({a}))p(g({b}))"))).collect(), 1);
    sweep(ctx, "others next to pages", f("pn", 4).iter().map(|x| format!("np(g(t))n(p(g(t))){x}p(g(t(n)))")).collect(), 1);
    sweep(ctx, "what is below a page", f("gtn", 4).iter().map(|x| format!("p({x})")).collect(), 1);
    sweep(ctx, "without a page", f("gtn", 3), 1);
    sweep(ctx, "long rows", (0..40).map(|n| format!("p(g({}n(t)s))", "tn".repeat(n))).collect(), 1);
    for u in [2, 3, -1, -2] {
        sweep(ctx, "used again, or disposed of", f("gtn", 2).iter().map(page).collect(), u);
    }
}
