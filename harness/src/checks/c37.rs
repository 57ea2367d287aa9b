//! C37: a preview comes to show the last state of the document, whatever happens when.
//!
//! The preview of typst-dom runs under a scheduler (harness/dom/doc.mjs) that decides when animation frames, timers and the
//! drawing of pages happen. Every history of updates, changes of the view and such events within the bounds is executed from
//! the start; once nothing is left to do, what the preview shows is compared with the document, page by page.
use super::c28::node;
use crate::fw::*;
use crate::util::*;
use serde_json::json;

pub fn check() -> Check {
    Check {
        id: "C37",
        enumerate,
        run,
        rule: "an execution is a history of updates (new documents, changes, updates and drawings that fail), changes of the view (resizes, \
               scrolling, zooming, pages of a presentation, colours, cursors, outlines) and events (a frame, a timer, a page drawn), which \
               a scheduler runs on the code of typst-dom; every history within the bounds in which each event is possible is run; none may \
               apply an update twice, out of order or while a page is drawn, and at rest the preview must show the last document, page by \
               page, at its place and scale",
        assumptions: &[
            "node runs the code, bundled from /repo's current tree by esbuild, on a small DOM with live collections, with frames, timers and drawings as the scheduler says",
            "the renderer is a stand-in that writes patches as the real one does and draws a page at once when the scheduler says so; timers happen in the order of their times",
        ],
        hang_s: 300,
    }
}

/// Histories to be run by the driver for `kind`: configuration, actions, prefix, how much further.
pub struct Work {
    pub kind: &'static str,
    pub units: Vec<(&'static str, &'static str, String, usize)>,
}

impl Work {
    pub fn new(kind: &'static str) -> Work {
        Work { kind, units: vec![] }
    }

    /// Every history of up to `depth` of `actions`.
    pub fn sweep(&mut self, ctx: &mut Ctx, config: &'static str, actions: &'static str, depth: usize) {
        let a: Vec<char> = actions.chars().collect();
        let k = 2.min(depth - 1);
        if ctx.turn() {
            self.units.push((config, actions, String::new(), k - 1));
        }
        seqs(a.len(), k, k, |s| {
            if ctx.turn() {
                self.units.push((config, actions, s.iter().map(|i| a[*i]).collect(), depth - k));
            }
        });
        ctx.bound(format!("{config}: every history of up to {depth} of the actions {actions}"));
    }

    pub fn run(&self, ctx: &mut Ctx) {
        let got = node(self.units.iter().map(|(c, a, p, d)| json!([self.kind, [c, a, p, d]])));
        for ((c, _, p, _), got) in self.units.iter().zip(got) {
            let n = |i: usize| got[i].as_u64().unwrap_or(0);
            let mut obs = Obs { states: n(0), transitions: n(1), traces: n(0), outcome: None };
            obs.outcome(&got[2]);
            let Some(bad) = got[3].as_array() else {
                ctx.record(c, &[c, p], obs, Err(format!("the driver says {got}")));
                continue;
            };
            ctx.record(c, &[c, p], obs, Ok(()));
            for b in bad {
                let s = b[0].as_str().unwrap_or("");
                let obs = Obs { states: 0, transitions: 0, traces: 0, outcome: None };
                ctx.record(c, &[c, s], obs, Err(format!("{c} after {s:?}: {}", b[1].as_str().unwrap_or("?"))));
            }
        }
    }
}

/// Runs one history.
pub fn one(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    let got = &node(std::iter::once(json!([kind, [parts[0], "", parts[1], 0]])))[0];
    let Some(g) = got.as_array() else { return Err(format!("the driver says {got}")) };
    match g[3].as_array().and_then(|b| b.first()) {
        Some(b) => Err(format!("{} after {:?}: {}", parts[0], parts[1], b[1].as_str().unwrap_or("?"))),
        None => Ok(()),
    }
}

fn run(_: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    one("doc", parts, obs)
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let mut w = Work::new("doc");
    let d = |a, b| if q { a } else { b };
    w.sweep(ctx, "doc", "DNBVFTZ", d(5, 6));
    w.sweep(ctx, "partial", "DNVSFTRX", d(6, 7));
    w.sweep(ctx, "slide", "DNV123FT", d(5, 6));
    w.sweep(ctx, "canvas", "DNBVFTRX", d(6, 7));
    w.sweep(ctx, "content", "DNFTRoO", d(5, 6));
    w.sweep(ctx, "color", "DVFTkKcC", d(4, 5));
    w.sweep(ctx, "zoom", "DFTud", d(6, 7));
    w.sweep(ctx, "gone", "DFudx", d(5, 6));
    w.sweep(ctx, "zooms", "ud", d(8, 12));
    for c in ["u", "d"] {
        for n in 5..24 {
            if ctx.turn() {
                w.units.push(("zooms", "ud", c.repeat(n), 2));
            }
        }
    }
    ctx.bound("zooms: up to 23 steps one way, and every 2 steps after each");
    w.run(ctx);
}
