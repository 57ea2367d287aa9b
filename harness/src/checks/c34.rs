//! C34: the outline of a preview shows the headings and the pages.
use super::c28::node;
use crate::fw::*;
use crate::util::*;
use serde_json::{json, Value};

pub fn check() -> Check {
    Check {
        id: "C34",
        enumerate,
        run,
        rule: "a state is an outline (a tree of headings with their pages) and a number of pages; a transition updates the page to it with \
               the code of typst-dom; after each one of every history within the bounds the page must show the headings, nested and in \
               order, and every page once, in order, between the headings that it comes between, as an outline built anew does",
        assumptions: &["node runs the code, bundled from /repo's current tree by esbuild, on a small DOM with live collections", "what creates a page and puts it in its place is the check's own, written after typst-doc"],
        hang_s: 120,
    }
}

/// The headings of an outline: title, page, what is below.
type Item = (&'static str, bool, u64, Vec<Item2>);
#[derive(Clone)]
pub struct Item2(Item);

fn items_json(v: &[Item2]) -> Value {
    v.iter()
        .map(|Item2((t, span, p, ch))| {
            let mut o = json!({"title": t, "children": items_json(ch)});
            if *p > 0 {
                o["position"] = json!({"page_no": p, "x": 0, "y": 0});
            }
            if *span {
                o["span"] = json!(format!("s{t}"));
            }
            o
        })
        .collect()
}

/// The pages and headings in the order in which they show, and the headings in their nesting.
fn want(v: &[Item2], level: u32, next: &mut u64, pages: u64, flat: &mut String, nest: &mut String) {
    for Item2((t, span, p, ch)) in v {
        while *next < *p && *next <= pages {
            flat.push_str(&format!("p{next};"));
            *next += 1;
        }
        let h = format!("{level}<{}{t}>", if *span { "↬ " } else { " " });
        flat.push_str(&h);
        nest.push_str(&format!("[{h}"));
        want(ch, level + 1, next, pages, flat, nest);
        nest.push(']');
    }
}

fn wants(pages: u64, v: &[Item2]) -> (String, String) {
    let (mut flat, mut nest, mut next) = (String::new(), String::new(), 1);
    want(v, 1, &mut next, pages, &mut flat, &mut nest);
    while next <= pages {
        flat.push_str(&format!("p{next};"));
        next += 1;
    }
    (flat, nest)
}

fn no_pages(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.split('p');
    o.push_str(it.next().unwrap());
    for x in it {
        o.push_str(x.split_once(';').map_or(x, |x| x.1));
    }
    o
}

fn verdict(parts: &[&str], got: &Value) -> Result<(), String> {
    let Some(got) = got.as_array() else {
        return Err(format!("the update fails: {got}\nhistory: {parts:#?}"));
    };
    for (i, (p, got)) in parts.chunks(3).zip(got).enumerate() {
        let have = got[0].as_str().unwrap_or("?");
        let flat: String = have.chars().filter(|c| !"[]".contains(*c)).collect();
        if flat != p[1] || no_pages(have) != p[2] || got[0] != got[1] {
            let w = format!("want the order {}\nand the nesting {}\nanew {}", p[1], p[2], got[1]);
            return Err(format!("after update {i} the outline shows {have}\n{w}\nhistory: {:#?}", parts.iter().step_by(3).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

fn request(parts: &[&str]) -> Value {
    let mut v = vec![json!("outline")];
    v.extend(parts.iter().step_by(3).map(|p| serde_json::from_str::<Value>(p).unwrap()));
    Value::Array(v)
}

fn run(_: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    verdict(parts, &node(std::iter::once(request(parts)))[0])
}

/// Every forest of `n` headings, as the depth of each one.
fn forests(n: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v
            .into_iter()
            .flat_map(|f: Vec<usize>| {
                let hi = f.last().map_or(0, |d| d + 1);
                (0..=hi).map(move |d| [f.clone(), vec![d]].concat())
            })
            .collect();
    }
    v
}
fn build(depths: &[usize], heads: &[(&'static str, bool, u64)], i: &mut usize, d: usize) -> Vec<Item2> {
    let mut v = vec![];
    while *i < depths.len() && depths[*i] == d {
        let (t, s, p) = heads[*i];
        *i += 1;
        let ch = build(depths, heads, i, d + 1);
        v.push(Item2((t, s, p, ch)));
    }
    v
}

/// Every outline of up to `n` headings with these titles, on up to `pages` pages.
fn outlines(n: usize, pages: u64, titles: &[(&'static str, bool)]) -> Vec<(u64, Vec<Item2>)> {
    let mut v = vec![];
    for pages in 0..=pages {
        for k in 0..=n {
            for f in forests(k) {
                seqs(titles.len(), k, k, |t| {
                    seqs(pages as usize + 1, k, k, |p| {
                        // no page, or pages in order
                        let set: Vec<usize> = p.iter().copied().filter(|p| *p > 0).collect();
                        if set.windows(2).all(|w| w[0] <= w[1]) {
                            let heads: Vec<_> = t.iter().zip(p).map(|(t, p)| (titles[*t].0, titles[*t].1, *p as u64)).collect();
                            v.push((pages, build(&f, &heads, &mut 0, 0)));
                        }
                    })
                });
            }
        }
    }
    v
}

fn sweep(ctx: &mut Ctx, what: &str, n: usize, pages: u64, titles: &[(&'static str, bool)], steps: usize) {
    let all: Vec<[String; 3]> = outlines(n, pages, titles)
        .into_iter()
        .map(|(p, items)| {
            let (a, b) = wants(p, &items);
            [json!([p, items_json(&items)]).to_string(), a, b]
        })
        .collect();
    let mut pending: Vec<Vec<usize>> = vec![];
    let flush = |ctx: &mut Ctx, pending: &mut Vec<Vec<usize>>| {
        let parts: Vec<Vec<&str>> = pending.drain(..).map(|v| v.iter().flat_map(|i| all[*i].iter().map(|s| &s[..])).collect()).collect();
        let got = node(parts.iter().map(|p| request(p)));
        for (p, got) in parts.iter().zip(got) {
            let mut obs = Obs { states: steps as u64, transitions: steps as u64, traces: 1, outcome: None };
            obs.outcome(&got);
            ctx.record("outline", p, obs, verdict(p, &got));
        }
    };
    seqs(all.len(), steps, steps, |v| {
        if ctx.turn() {
            pending.push(v.to_vec());
            if pending.len() == 5000 {
                flush(ctx, &mut pending);
            }
        }
    });
    flush(ctx, &mut pending);
    ctx.bound(format!("{what}: every history of {steps} of the {} outlines of up to {n} headings with {} titles on up to {pages} pages", all.len(), titles.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let (a, b, c) = (("A", false), ("B", false), ("A", true));
    sweep(ctx, "one", if q { 3 } else { 4 }, 3, &[a, b, c], 1);
    sweep(ctx, "two", 2, 2, &[a, b, c][..if q { 2 } else { 3 }], 2);
    sweep(ctx, "three", if q { 1 } else { 2 }, if q { 2 } else { 1 }, &[a, b], 3);
    if !q {
        sweep(ctx, "two", 3, 2, &[a], 2);
        sweep(ctx, "four", 1, 1, &[a, b, c], 4);
    }
}
