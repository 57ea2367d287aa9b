//! C28: a patch brings the page to the document that it describes.
//!
//! The states are documents: trees of `<g>` elements, which carry the hash of their content, and of other elements. The
//! transitions are updates from one document to another one, each written down in every way in which a server may: an element
//! in full, reused as it is, or reused from another one and changed. They run, as histories, on the code of typst-dom (in
//! node, with a small DOM); after each update the page must show the document that was described, and nothing else.
use crate::fw::*;
use crate::util::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::rc::Rc;

pub fn check() -> Check {
    Check {
        id: "C28",
        enumerate,
        run,
        rule: "a state is a document (a tree of <g> elements with the hash of their content, and others); a transition is an update to \
               another document, in every encoding (each element in full, reused, or reused from another one and changed), which the \
               code of typst-dom applies to the page; after each one of every history within the bounds the page must show exactly \
               the document that the update describes",
        assumptions: &[
            "node runs the code, bundled from /repo's current tree by esbuild, on a small DOM with live collections",
            "what the server writes is consistent: equal hashes mean equal content, an element reused as it is was there",
        ],
        hang_s: 120,
    }
}

/// An element.
#[derive(Clone, PartialEq, Debug)]
pub enum Node {
    /// not a `<g>`
    Other(&'static str),
    G(Rc<Gel>),
}
#[derive(PartialEq, Debug)]
pub struct Gel {
    tid: String,
    bad: bool,
    attr: &'static str,
    kids: Vec<Node>,
}

fn g(kids: Vec<Node>) -> Node {
    ga("", kids)
}
/// A `<g>` with an attribute that is not part of its hash.
fn ga(attr: &'static str, kids: Vec<Node>) -> Node {
    let mut c = String::new();
    kids.iter().for_each(|k| full(k, &mut c));
    Node::G(Rc::new(Gel { tid: format!("h{:x}", hash(&c) & 0xffffff), bad: false, attr, kids }))
}
/// A `<g>` whose hash does not tell its content.
fn bad(tid: &str, kids: Vec<Node>) -> Node {
    Node::G(Rc::new(Gel { tid: tid.into(), bad: true, attr: "", kids }))
}

fn open(e: &Gel, reuse: Option<&str>, out: &mut String) {
    write!(out, "<g data-tid=\"{}\"", e.tid).unwrap();
    if e.bad {
        out.push_str(" data-bad-equality=\"1\"");
    }
    if !e.attr.is_empty() {
        write!(out, " transform=\"{}\"", e.attr).unwrap();
    }
    if let Some(r) = reuse {
        write!(out, " data-reuse-from=\"{r}\"").unwrap();
    }
    out.push('>');
}
fn full(n: &Node, out: &mut String) {
    match n {
        Node::Other(s) => write!(out, "<path d=\"{s}\"></path>").unwrap(),
        Node::G(e) => {
            open(e, None, out);
            e.kids.iter().for_each(|k| full(k, out));
            out.push_str("</g>");
        }
    }
}
/// What the page shows, with the attributes in the order of their names.
fn shown(n: &Node, out: &mut String) {
    match n {
        Node::Other(s) => write!(out, "<path d=\"{s}\"></path>").unwrap(),
        Node::G(e) => {
            out.push_str("<g");
            if e.bad {
                out.push_str(" data-bad-equality=\"1\"");
            }
            write!(out, " data-tid=\"{}\"", e.tid).unwrap();
            if !e.attr.is_empty() {
                write!(out, " transform=\"{}\"", e.attr).unwrap();
            }
            out.push('>');
            e.kids.iter().for_each(|k| shown(k, out));
            out.push_str("</g>");
        }
    }
}

/// Every way to write the elements `to` as an update of an element whose children are `from`.
fn encodings(from: &[Node], to: &[Node]) -> Vec<String> {
    let mut have: BTreeMap<&str, Vec<&Rc<Gel>>> = BTreeMap::new();
    for n in from {
        if let Node::G(e) = n {
            have.entry(&e.tid).or_default().push(e);
        }
    }
    let mut out = vec![];
    enc(&have, &mut BTreeMap::new(), to, String::new(), &mut out);
    out
}
fn enc<'a>(have: &BTreeMap<&'a str, Vec<&'a Rc<Gel>>>, used: &mut BTreeMap<&'a str, usize>, to: &[Node], pre: String, out: &mut Vec<String>) {
    let Some((n, rest)) = to.split_first() else {
        return out.push(pre);
    };
    let mut s = pre.clone();
    full(n, &mut s);
    // in full
    enc(have, used, rest, s, out);
    let Node::G(e) = n else { return };
    // reused from what is not there, hence in full
    let mut s = pre.clone();
    open(e, Some("gone"), &mut s);
    e.kids.iter().for_each(|k| full(k, &mut s));
    s.push_str("</g>");
    enc(have, used, rest, s, out);
    for (tid, els) in have {
        let u = used.get(tid).copied().unwrap_or(0);
        used.insert(tid, u + 1);
        let mut s = pre.clone();
        open(e, Some(tid), &mut s);
        if *tid == e.tid && !e.bad {
            // as it is
            s.push_str("</g>");
            enc(have, used, rest, s, out);
        } else {
            let base = match els.get(u) {
                Some(b) => Some(*b),
                // a copy of the first one
                None if *tid == e.tid => Some(els[0]),
                None => None,
            };
            let kids = match base {
                Some(b) => encodings(&b.kids, &e.kids),
                None => {
                    let mut f = String::new();
                    e.kids.iter().for_each(|k| full(k, &mut f));
                    vec![f]
                }
            };
            for k in kids {
                enc(have, used, rest, format!("{s}{k}</g>"), out);
            }
        }
        used.insert(tid, u);
    }
}

const NO_HEAD: &str = "<defs class=\"glyph\"></defs><defs class=\"clip-path\"></defs><style></style>";
const LATER: &str = "<defs class=\"glyph\"></defs><defs class=\"clip-path\"></defs><style data-reuse=\"1\"></style>";

fn page(head: &str, width: &str, body: &str) -> String {
    format!("<svg class=\"typst-doc\"{width}>{head}{body}</svg>")
}
fn want(attrs: &str, doc: &[Node]) -> String {
    let mut s = format!("<svg class=\"typst-doc\"{attrs}>");
    doc.iter().for_each(|n| shown(n, &mut s));
    s + "</svg>"
}

/// Every history that starts with `docs[0]` and goes on to `docs[1]`, ..
fn histories(docs: &[&[Node]], mut f: impl FnMut(Vec<(String, String)>)) {
    let mut first = String::new();
    docs[0].iter().for_each(|n| full(n, &mut first));
    let mut all = vec![vec![(page(NO_HEAD, "", &first), want("", docs[0]))]];
    for w in docs.windows(2) {
        let encs = encodings(w[0], w[1]);
        let to = want("", w[1]);
        let last = std::ptr::eq(w, &docs[docs.len() - 2..]);
        let mut next = vec![];
        for h in &all {
            for e in &encs {
                let mut h = h.clone();
                h.push((page(LATER, "", e), to.clone()));
                if last {
                    f(h);
                } else {
                    next.push(h);
                }
            }
        }
        all = next;
    }
}

struct Batch {
    kind: &'static str,
    pending: Vec<Vec<(String, String)>>,
}
impl Batch {
    fn add(&mut self, ctx: &mut Ctx, h: Vec<(String, String)>) {
        if ctx.turn() {
            self.pending.push(h);
            if self.pending.len() >= 4000 {
                self.flush(ctx);
            }
        }
    }
    fn flush(&mut self, ctx: &mut Ctx) {
        let got = node(self.pending.iter().map(|h| request(h.iter().map(|s| &s.0[..]))));
        for (h, got) in self.pending.drain(..).zip(got) {
            let parts: Vec<&str> = h.iter().flat_map(|(p, w)| [&p[..], &w[..]]).collect();
            let mut obs = Obs { states: h.len() as u64, transitions: h.len() as u64, traces: 1, outcome: None };
            obs.outcome(&h.last().unwrap().1);
            let r = verdict(self.kind, &parts, &got);
            ctx.record(self.kind, &parts, obs, r);
        }
    }
}

fn request<'a>(patches: impl Iterator<Item = &'a str>) -> Value {
    let mut v = vec![json!("svg")];
    v.extend(patches.map(|p| json!(p)));
    Value::Array(v)
}

fn verdict(kind: &str, parts: &[&str], got: &Value) -> Result<(), String> {
    let Some(got) = got.as_array() else {
        return Err(format!("{kind}: the update fails: {got}\nupdates: {parts:#?}"));
    };
    for (i, (pw, got)) in parts.chunks(2).zip(got).enumerate() {
        let have = if kind == "head" { &got[1] } else { &got[0] };
        if have.as_str() != Some(pw[1]) {
            return Err(format!(
                "after update {i} the page does not show what it describes\nupdates: {:#?}\nwant {}\ngot  {}",
                parts.iter().step_by(2).collect::<Vec<_>>(),
                pw[1],
                have.as_str().unwrap_or("?")
            ));
        }
        if got[2] != json!(2) {
            return Err(format!("after update {i} the body of the page has {} children\nupdates: {:#?}", got[2], parts.iter().step_by(2).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// The answers of the code under test to `reqs`.
pub fn node(reqs: impl Iterator<Item = Value>) -> Vec<Value> {
    use std::io::{BufRead, BufReader, Write};
    let dir = std::env::current_exe().unwrap().parent().unwrap().join("dom");
    let reqs: Vec<String> = reqs.map(|r| r.to_string()).collect();
    let mut ch = std::process::Command::new("node")
        .arg(verif_dir().join("harness/dom/driver.mjs"))
        .arg(dir.join("code.mjs"))
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .spawn()
        .expect("node does not run");
    let mut inp = ch.stdin.take().unwrap();
    let out = BufReader::new(ch.stdout.take().unwrap());
    let n = reqs.len();
    let w = std::thread::spawn(move || {
        for r in reqs {
            if writeln!(inp, "{r}").is_err() {
                break;
            }
        }
    });
    let got: Vec<Value> = out.lines().map_while(Result::ok).map(|l| serde_json::from_str(&l).unwrap_or(Value::Null)).collect();
    w.join().unwrap();
    let st = ch.wait().unwrap();
    assert!(st.success() && got.len() == n, "check error: the driver in node ends with {st}, {} of {n} answers", got.len());
    got
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    let got = node(std::iter::once(request(parts.iter().step_by(2).copied())));
    verdict(kind, parts, &got[0])
}

/// The documents with `lo` to `hi` of `items`.
fn docs(items: &[Node], lo: usize, hi: usize) -> Vec<Vec<Node>> {
    let mut v = vec![];
    seqs(items.len(), lo, hi, |s| v.push(s.iter().map(|i| items[*i].clone()).collect()));
    v
}

fn sweep(ctx: &mut Ctx, kind: &'static str, what: &str, items: &[Node], len: usize, steps: usize) {
    let docs = docs(items, 0, len);
    let mut b = Batch { kind, pending: vec![] };
    seqs(docs.len(), steps + 1, steps + 1, |v| {
        let d: Vec<&[Node]> = v.iter().map(|i| &docs[*i][..]).collect();
        histories(&d, |h| b.add(ctx, h));
    });
    b.flush(ctx);
    ctx.bound(format!(
        "{what}: every history of {steps} updates over the {} documents with up to {len} of {} elements, in every encoding",
        docs.len(),
        items.len()
    ));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let n = |s| Node::Other(s);
    let a = || g(vec![n("1")]);
    let b = || g(vec![n("2")]);
    let e = || g(vec![]);
    // sequences
    sweep(ctx, "seq", "sequences", &[n("0"), a(), b()], 3, 1);
    sweep(ctx, "seq", "sequences of three kinds", &[a(), b(), g(vec![n("3")])], 3, 1);
    moves(ctx, &[0, 1, 2, 3, 4], if q { 4 } else { 6 });
    moves(ctx, &[0, 1, 0, 2, 1, 0], if q { 4 } else { 6 });
    long(ctx, 12, if q { 2 } else { 4 });
    if !q {
        sweep(ctx, "seq", "sequences with others", &[n("0"), a(), b()], 4, 1);
    }
    // trees
    let inner = [n("0"), a(), b()];
    let trees: Vec<Node> = docs(&inner, 0, 2).into_iter().map(g).collect();
    sweep(ctx, "tree", "trees", &trees, if q { 1 } else { 2 }, 1);
    let few = [g(vec![a(), n("0"), b()]), g(vec![b(), b()]), g(vec![g(vec![a(), b()]), n("1")]), n("0"), e()];
    sweep(ctx, "tree", "deeper trees", &few, 2, 1);
    // longer histories
    sweep(ctx, "history", "sequences", &[a(), b(), n("0")], 1, if q { 3 } else { 4 });
    sweep(ctx, "history", "trees", &[g(vec![a(), b()]), g(vec![b(), n("0")]), n("0")], 1, if q { 2 } else { 3 });
    if !q {
        sweep(ctx, "history", "sequences", &[a(), b(), n("0")], 2, 2);
        sweep(ctx, "history", "trees", &[g(vec![a(), b()]), g(vec![b(), n("0"), a()]), n("0")], 1, 4);
    }
    // attributes that the hash does not cover
    let at = [a(), ga("x", vec![n("1")]), ga("y", vec![n("1")]), ga("x", vec![n("2")]), ga("y", vec![ga("x", vec![n("1")]), n("0")])];
    sweep(ctx, "attr", "attributes", &at, 2, 1);
    sweep(ctx, "attr", "attributes", &at[..4], 1, if q { 2 } else { 3 });
    // hashes that do not tell
    let bads = [bad("s", vec![a()]), bad("s", vec![b(), n("0")]), bad("s", vec![]), a(), bad("t", vec![a(), bad("s", vec![n("7")])])];
    sweep(ctx, "bad", "bad equality", &bads, 2, 1);
    sweep(ctx, "bad", "bad equality", &bads, 1, if q { 2 } else { 3 });
    root(ctx);
    head(ctx);
}

/// Elements that move: from `from` to every sequence of up to `hi` of its elements, reused as they are, and a new one.
fn moves(ctx: &mut Ctx, from: &[usize], hi: usize) {
    let kinds = from.iter().max().unwrap() + 2;
    let mut b = Batch { kind: "moves", pending: vec![] };
    seqs(kinds, 0, hi, |v| moved(ctx, &mut b, from, v));
    b.flush(ctx);
    ctx.bound(format!("every update from {from:?} to up to {hi} of its {} elements and a new one", kinds - 1));
}

/// Many elements, of which some go, one comes, and one moves.
fn long(ctx: &mut Ctx, n: usize, gone: usize) {
    let from: Vec<usize> = (0..n).collect();
    let mut b = Batch { kind: "moves", pending: vec![] };
    for gone_bits in 0u32..1 << n {
        if gone_bits.count_ones() as usize > gone {
            continue;
        }
        let left: Vec<usize> = from.iter().copied().filter(|i| gone_bits >> i & 1 == 0).collect();
        for at in 0..=left.len() {
            let mut v = left.clone();
            v.insert(at, n);
            moved(ctx, &mut b, &from, &v);
            if at == left.len() || gone_bits.count_ones() as usize + 1 > gone {
                continue;
            }
            for to in 0..left.len() {
                let mut v = left.clone();
                let x = v.remove(at);
                v.insert(to, x);
                moved(ctx, &mut b, &from, &v);
            }
        }
    }
    b.flush(ctx);
    ctx.bound(format!("every update of {n} elements where up to {gone} go and one comes, or up to {} go and one moves", gone - 1));
}

const NAMES: &[&str] = &["10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23"];
fn moved(ctx: &mut Ctx, b: &mut Batch, from: &[usize], v: &[usize]) {
    let el = |i: usize| g(vec![Node::Other(NAMES[i])]);
    let old: Vec<Node> = from.iter().map(|i| el(*i)).collect();
    let mut first = String::new();
    old.iter().for_each(|n| full(n, &mut first));
    let new: Vec<Node> = v.iter().map(|i| el(*i)).collect();
    let mut s = String::new();
    for (i, n) in v.iter().zip(&new) {
        match n {
            Node::G(e) if from.contains(i) => {
                open(e, Some(&e.tid), &mut s);
                s.push_str("</g>");
            }
            _ => full(n, &mut s),
        }
    }
    b.add(ctx, vec![(page(NO_HEAD, "", &first), want("", &old)), (page(LATER, "", &s), want("", &new))]);
}

/// The attributes of the document itself.
fn root(ctx: &mut Ctx) {
    let alpha = ["", " height=\"5\"", " width=\"1\"", " width=\"2\"", " height=\"5\" width=\"1\"", " height=\"6\" width=\"1\""];
    let mut b = Batch { kind: "root", pending: vec![] };
    let hi = if ctx.quick() { 3 } else { 4 };
    seqs(alpha.len(), 1, hi, |v| {
        let h = v.iter().enumerate().map(|(i, k)| {
            let body = [Node::Other(["0", "1"][i % 2])];
            let mut s = String::new();
            full(&body[0], &mut s);
            (page(if i == 0 { NO_HEAD } else { LATER }, alpha[*k], &s), want(alpha[*k], &body))
        });
        b.add(ctx, h.collect());
    });
    b.flush(ctx);
    ctx.bound(format!("every history of 1 to {hi} documents with {} sets of attributes", alpha.len()));
}

/// The glyphs, clips and styles that documents share.
fn head(ctx: &mut Ctx) {
    let defs = ["", "<path id=\"p\"></path>", "<path id=\"q\"></path><path id=\"r\"></path>"];
    let styles: [(&str, &[&str]); 5] = [
        ("<style data-reuse=\"1\">", &[]),
        ("<style>", &[]),
        ("<style>", &["a { x: 1 }"]),
        ("<style>", &["b { y: 2 }", "a { x: 1 }"]),
        ("<style data-reuse=\"1\">", &["c { z: 3 }"]),
    ];
    let n = defs.len() * defs.len() * styles.len();
    let hi = 3;
    let mut b = Batch { kind: "head", pending: vec![] };
    seqs(n, 1, if ctx.quick() { 2 } else { hi }, |v| {
        let (mut gl, mut cl) = (String::new(), String::new());
        let mut st: std::collections::BTreeSet<&str> = Default::default();
        let h = v.iter().enumerate().map(|(i, k)| {
            let (d, c, (s, rules)) = (defs[k % 3], defs[k / 3 % 3], styles[k / 9]);
            gl.push_str(d);
            cl.push_str(c);
            // the first one brings its style; later ones may say that it is reused
            if i == 0 || !s.contains("data-reuse") {
                st.extend(rules);
            }
            let head = format!("<defs class=\"glyph\">{d}</defs><defs class=\"clip-path\">{c}</defs>{s}{}</style>", rules.join(" "));
            let rules: Vec<&str> = st.iter().copied().collect();
            let w = format!("<defs class=\"glyph\">{gl}</defs>\n<defs class=\"clip-path\">{cl}</defs>\nstyle {}", rules.join(" "));
            (page(&head, "", "<path d=\"0\"></path>"), w)
        });
        let h: Vec<_> = h.collect();
        b.add(ctx, h);
    });
    b.flush(ctx);
    ctx.bound(format!("every history of 1 to {} headers of {n} (3 sets of glyphs, 3 of clips, 5 styles)", if ctx.quick() { 2 } else { hi }));
}
