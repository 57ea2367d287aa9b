//! C04: a command or environment takes exactly the arguments of its pattern.
use crate::fw::*;
use crate::globm::{self, Nfa};
use crate::util::*;
use mitex_parser::syntax::{SyntaxKind, SyntaxNode};
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpecItem, ContextFeature, EnvShape};
use std::cell::RefCell;
use std::collections::{HashMap, VecDeque};

pub fn check() -> Check {
    Check {
        id: "C04",
        enumerate,
        run,
        rule: "a state is what follows a command or \\begin with what its pattern still takes; transitions take one more argument; the \
               argument nodes of the real syntax tree are compared with what the model has taken at the end",
        assumptions: &["glob patterns are deterministic (C05)", "infix and greedy commands are not among the arguments (C16)"],
        hang_s: 30,
    }
}

/// Patterns: a number n takes up to n terms, n-m is a range, 0 and - are none, the others are globs.
const PATS: &[&str] = &[
    "1", "2", "3", "0", "-", "1-2", "0-3", "t", "tt", "b", "p", "{,b}t", "{,b}tt", "t{,b}", "{,b}{,p}", "{b,p}t", "b*", "{,b}t{,p}", "{,b}{,p}t", "[tb]t", "tb", "{b,tp}",
    "{,b}t{,b}t", "*",
];

fn pattern(p: &str) -> ArgPattern {
    if p == "-" {
        return ArgPattern::None;
    }
    if let Ok(n) = p.parse() {
        return ArgPattern::FixedLenTerm { len: n };
    }
    if let Some((a, b)) = p.split_once('-') {
        return ArgPattern::RangeLenTerm { min: a.parse().unwrap(), max: b.parse().unwrap() };
    }
    ArgPattern::Glob { pattern: p.into() }
}

fn spec_of(p: &str) -> CommandSpec {
    let cmd = |pattern| CommandSpecItem::Cmd(CmdShape { args: ArgShape::Right { pattern }, alias: None });
    let mut m = rustc_hash::FxHashMap::default();
    m.insert("!".to_string(), cmd(pattern(p)));
    m.insert("|".to_string(), cmd(ArgPattern::FixedLenTerm { len: 1 }));
    m.insert("<".to_string(), CommandSpecItem::Cmd(CmdShape { args: ArgShape::Left1, alias: None }));
    m.insert("w".to_string(), CommandSpecItem::Env(EnvShape { args: pattern(p), ctx_feature: ContextFeature::None, alias: None }));
    CommandSpec::new(m)
}

thread_local! {
    static SPECS: RefCell<HashMap<String, CommandSpec>> = Default::default();
    static NFAS: RefCell<HashMap<String, Nfa>> = Default::default();
}

#[derive(Clone, Debug)]
enum Unit {
    Ch(char),
    Term(&'static str),
    /// a command with one argument
    Cmd1,
    Curly(&'static str),
    Br(u8, &'static str),
    Triv,
    Stop,
}
use Unit::*;

/// The pieces, and what they are for a command in front of them.
fn pieces() -> Vec<(&'static str, Vec<Unit>)> {
    let t = |s: &'static str| (s, vec![Term(s)]);
    vec![
        ("{b}", vec![Curly("{b}")]),
        ("[b]", vec![Br(b'b', "[b]")]),
        ("(b)", vec![Br(b'p', "(b)")]),
        ("c", vec![Ch('c')]),
        ("dé", vec![Ch('d'), Ch('é')]),
        (" ", vec![Triv]),
        ("&", vec![Stop]),
        ("^", vec![Stop]),
        ("\\|", vec![Cmd1]),
        ("{}", vec![Curly("{}")]),
        ("%c\n", vec![Triv]),
        t("\\\\"),
        t("\\?"),
        t(","),
        ("_", vec![Stop]),
        t("*"),
        t("'"),
        ("[\\!x]", vec![Br(b'b', "[\\!x]")]),
        ("({c}[)", vec![Br(b'p', "({c}[)")]),
        t("\\begin{m}a&b\\end{m}"),
        t("\\left(a\\right]"),
        t("\\(b\\)"),
        t("\\<"),
        t("/"),
        t("~"),
        ("\\iffalse q}\\fi ", vec![Triv]),
        ("[{]}%]\n]", vec![Br(b'b', "[{]}]")]),
        ("\n", vec![Triv]),
    ]
}

enum Pat {
    AtMost(usize),
    Glob(String, Vec<u8>),
}
impl Pat {
    fn take(&mut self, c: u8) -> bool {
        match self {
            Pat::AtMost(n) => {
                let r = *n > 0;
                *n = n.saturating_sub(1);
                r
            }
            Pat::Glob(p, w) => {
                w.push(c);
                let r = NFAS.with(|n| {
                    let mut n = n.borrow_mut();
                    let n = n.entry(p.clone()).or_insert_with(|| {
                        let n = Nfa::new(&globm::parse(p).unwrap());
                        assert!(n.deterministic(), "{p}");
                        n
                    });
                    n.prefix(w)
                });
                if !r {
                    w.pop();
                }
                r
            }
        }
    }
}

/// What remains of a bracket that was no argument is read again, token by token.
fn inner(s: &str) -> Option<Vec<Unit>> {
    Some(match s {
        "[b]" => vec![Term("["), Ch('b'), Term("]")],
        "(b)" => vec![Term("("), Ch('b'), Term(")")],
        _ => return None,
    })
}

/// The arguments taken, or none if that is outside of the model.
fn args(q: &mut VecDeque<Unit>, pat: &mut Pat, obs: &mut (u64, u64)) -> Option<Vec<String>> {
    let mut r = vec![];
    loop {
        obs.0 += 1;
        let Some(u) = q.front().cloned() else { return Some(r) };
        match u {
            Triv => {
                q.pop_front();
            }
            Stop => return Some(r),
            Br(k, s) => {
                if matches!(pat, Pat::Glob(..)) && pat.take(k) {
                    q.pop_front();
                    obs.1 += 1;
                    r.push(s.to_string());
                    continue;
                }
                // no bracket is expected: a character like others
                if !pat.take(b't') {
                    return Some(r);
                }
                q.pop_front();
                for u in inner(s)?.into_iter().rev() {
                    q.push_front(u);
                }
                let Some(Term(t)) = q.pop_front() else { unreachable!() };
                obs.1 += 1;
                r.push(t.to_string());
            }
            Ch(_) | Term(_) | Curly(_) | Cmd1 => {
                if !pat.take(b't') {
                    return Some(r);
                }
                q.pop_front();
                obs.1 += 1;
                r.push(match u {
                    Ch(c) => c.to_string(),
                    Term(s) | Curly(s) => s.to_string(),
                    _ => {
                        let a = args(q, &mut Pat::AtMost(1), obs)?;
                        format!("\\|{}", a.concat())
                    }
                });
            }
        }
    }
}

fn model(p: &str, units: impl Iterator<Item = Unit>, obs: &mut (u64, u64)) -> Option<Vec<String>> {
    let mut pat = match pattern(p) {
        ArgPattern::None => Pat::AtMost(0),
        ArgPattern::FixedLenTerm { len: n } | ArgPattern::RangeLenTerm { max: n, .. } => Pat::AtMost(n as usize),
        _ => Pat::Glob(p.to_string(), vec![]),
    };
    args(&mut units.collect(), &mut pat, obs)
}

fn text(n: &SyntaxNode) -> String {
    use SyntaxKind::*;
    n.descendants_with_tokens()
        .filter_map(|e| e.into_token())
        .filter(|t| !matches!(t.kind(), TokenWhiteSpace | TokenLineBreak | TokenComment) && !t.parent_ancestors().any(|n| n.kind() == ItemBlockComment))
        .map(|t| {
            let env = t.parent().map(|p| p.kind());
            match (t.kind(), env) {
                (ClauseCommandName, _) if !t.text().starts_with('\\') => match env {
                    Some(ItemBegin) => format!("\\begin{{{}}}", t.text()),
                    Some(ItemEnd) => format!("\\end{{{}}}", t.text()),
                    _ => t.text().to_string(),
                },
                (TokenCommandSym, Some(ItemBegin)) => format!("\\begin{{{}}}", t.text()),
                (TokenCommandSym, Some(ItemEnd)) => format!("\\end{{{}}}", t.text()),
                _ => t.text().to_string(),
            }
        })
        .collect()
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let (p, s, want) = (parts[0], parts[1], parts[2]);
    obs.traces += 1;
    obs.outcome((p, want));
    let sp = SPECS.with(|m| m.borrow_mut().entry(p.into()).or_insert_with(|| spec_of(p)).clone());
    let tree = if kind.starts_with("macro") { mitex_parser::parse(s, sp) } else { mitex_parser::parse_without_macro(s, sp) };
    let node = if kind.ends_with("env") {
        tree.descendants().find(|n| n.kind() == SyntaxKind::ItemBegin && n.first_token().is_some_and(|t| t.text() == "w"))
    } else {
        tree.descendants_with_tokens().filter_map(|e| e.into_token()).find(|t| t.text() == "\\!").and_then(|t| t.parent())
    };
    let node = node.ok_or_else(|| format!("the construct is not in the tree\n{tree:#?}"))?;
    let got: Vec<String> = node.children().filter(|c| c.kind() == SyntaxKind::ClauseArgument).map(|c| text(&c)).collect();
    let got = got.join(" | ");
    if got != want {
        return Err(format!("pattern {p:?} takes {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn sweep(ctx: &mut Ctx, kind: &str, np: usize, lo: usize, hi: usize, wraps: &[(&str, &str)]) {
    let ps = pieces();
    let ps = &ps[..np.min(ps.len())];
    for p in PATS {
        for (pre, post) in wraps {
            seqs(ps.len(), lo, hi, |v| {
                if !ctx.turn() {
                    return;
                }
                let mut s = pre.to_string();
                for i in v {
                    s.push_str(ps[*i].0);
                }
                s.push_str(post);
                let mut o = (0, 0);
                let units = v.iter().flat_map(|i| ps[*i].1.iter().cloned());
                let Some(a) = model(p, units.clone(), &mut o) else {
                    // brackets of other content as single terms: only that it is parsed
                    ctx.record(kind, &[p, &s], Obs::default(), Ok(()));
                    return;
                };
                if kind.ends_with("env") {
                    // \end is no argument in correct texts: the arguments end before the body does
                    let sure = model(p, units.chain([Term("\\end")]), &mut o);
                    if sure.map_or(true, |b| b != a) {
                        ctx.record(kind, &[p, &s], Obs::default(), Ok(()));
                        return;
                    }
                }
                ctx.states += o.0;
                ctx.transitions += o.1;
                ctx.exec(kind, &[p, &s, &a.join(" | ")]);
            });
        }
    }
    ctx.bound(format!("{kind}: {} patterns, every sequence of {lo} to {hi} of {} pieces behind, in {} contexts", PATS.len(), ps.len(), wraps.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let root = [("\\!", "")];
    let others = [("{a\\!", "}x"), ("\\left(\\!", "\\right)x"), ("\\begin{e}y&\\!", "\\end{e}x"), ("$\\!", "$x"), ("{}^\\!", "")];
    let env = [("\\begin{w}", "\\end{w}z"), ("{\\begin{w}", "\\end{w}}z")];
    let (a, b) = if q { (3, 5) } else { (4, 6) };
    sweep(ctx, "cmd", 99, 0, a, &root);
    sweep(ctx, "cmd", 10, a + 1, b, &root);
    sweep(ctx, "macro cmd", 24, 0, a - 1, &root);
    sweep(ctx, "cmd", 99, 0, a - 1, &others);
    sweep(ctx, "cmd", 10, 0, a, &others);
    sweep(ctx, "env", 99, 0, a, &env);
    sweep(ctx, "macro env", 24, 0, a - 1, &env);
}
