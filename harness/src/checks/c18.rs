//! C18: what cannot be translated is reported, and named; what is not looked at is not.
use crate::fw::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C18",
        enumerate,
        run,
        rule: "a state is the stack of what is open (groups, arguments, environments, formulas, branches, bodies of macros), whether it is \
               looked at, and the faults that were; transitions are the pieces of a text, good and bad; every closed sequence of pieces \
               within the bounds is converted, and the answer compared with the faults in it",
        assumptions: &["of several faults, any may be the one that is named"],
        hang_s: 30,
    }
}

/// `parts`: the source, then the errors of which one is to be reported.
fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    let got = if kind == "math" { math(parts[0]) } else { text(parts[0]) };
    let r = match &got {
        Ok(o) if parts.len() > 1 => Err(format!("{:?} is to be rejected ({}), but gives {o:?}", parts[0], parts[1..].join(", or "))),
        Ok(_) => Ok(()),
        Err(e) if parts.len() == 1 => Err(format!("{:?} has nothing wrong, but is rejected: {e}", parts[0])),
        Err(e) if parts[1..].iter().any(|f| e.strip_prefix("error: ").unwrap_or(e) == *f) => Ok(()),
        Err(e) => Err(format!("{:?} is rejected for {e:?}, and not for what is wrong in it: {}", parts[0], parts[1..].join(", or "))),
    };
    obs.outcome = Some(hash(&got));
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum M {
    Text,
    Math,
    /// in the same mode as what is around it
    Same,
}

/// What opens, parts, and closes.
#[derive(Clone, Copy, PartialEq, Debug)]
struct Frame {
    at: M,
    inside: M,
    open: &'static str,
    mid: &'static str,
    close: &'static str,
    what: What,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Plain,
    List,
    Figure,
    Caption,
    /// the part that is looked at: before the middle, after it
    If(bool, bool),
    Macro,
    Formula,
}
use What::*;

const fn f(at: M, inside: M, open: &'static str, mid: &'static str, close: &'static str) -> Frame {
    Frame { at, inside, open, mid, close, what: Plain }
}
const fn g(at: M, inside: M, open: &'static str, mid: &'static str, close: &'static str, what: What) -> Frame {
    Frame { at, inside, open, mid, close, what }
}
use M::{Math, Same, Text as Txt};

const GROUP: Frame = f(Same, Same, "{", "", "}");
const BOLD: Frame = f(Txt, Txt, "\\textbf{", "", "}");
const QUOTE: Frame = f(Txt, Txt, "\\begin{quote}", "", "\\end{quote}");
const LIST: Frame = g(Txt, Txt, "\\begin{itemize}\\item ", "\\item ", "\\end{itemize}", List);
const INLINE: Frame = g(Txt, Math, "\\(", "", "\\)", Formula);
const DOLLAR: Frame = g(Txt, Math, "{$", "", "$}", Formula);
const EQUATION: Frame = f(Txt, Math, "\\begin{equation}", "", "\\end{equation}");
const IFFALSE: Frame = g(Same, Same, "\\iffalse ", "\\else ", "\\fi ", If(false, true));
const IFTRUE: Frame = g(Same, Same, "\\iftrue ", "\\else ", "\\fi ", If(true, false));
const MACRO: Frame = g(Same, Same, "\\newcommand{\\m}{", "", "}", Macro);
const FRAC: Frame = f(Math, Math, "\\frac{", "}{", "}");
const SUP: Frame = f(Math, Math, "x^{", "", "}");
const LR: Frame = f(Math, Math, "\\left(", "\\middle|", "\\right)");
const MATRIX: Frame = f(Math, Math, "\\begin{matrix}", "&", "\\end{matrix}");
const TEXT: Frame = f(Math, Txt, "\\text{", "", "}");

#[derive(Clone, Copy, PartialEq)]
enum P {
    /// (mode, source)
    Good(M, &'static str),
    /// (mode, source, the error)
    Bad(M, &'static str, &'static str),
    /// only where nothing is open
    Stray(&'static str, &'static str),
    Item,
    Open(Frame),
    Mid,
    Close,
    /// uses the macro
    Use,
    /// in a comment
    Comment(&'static str),
}
use P::*;

#[derive(Clone)]
struct In {
    frame: Frame,
    math: bool,
    dead: bool,
    mids: usize,
    faults: Vec<&'static str>,
}
impl In {
    /// there is one more argument
    fn needs_mid(&self) -> bool {
        self.frame.mid.contains('{') && self.mids == 0
    }
}
#[derive(Clone)]
struct State {
    stack: Vec<In>,
    /// the faults in the body of \m
    mac: Option<Vec<&'static str>>,
    faults: Vec<&'static str>,
    math: bool,
    tex: String,
    captions: usize,
}
impl State {
    fn new(math: bool) -> State {
        State { stack: vec![], mac: None, faults: vec![], math, tex: String::new(), captions: 0 }
    }
    fn mode(&self) -> bool {
        self.stack.last().map_or(self.math, |i| i.math)
    }
    fn dead(&self) -> bool {
        self.stack.last().is_some_and(|i| i.dead)
    }
    fn fault(&mut self, e: &'static str) {
        if self.dead() {
            return;
        }
        // (a body is looked at when it is used)
        match self.stack.iter_mut().rev().find(|i| i.frame.what == Macro) {
            Some(i) => i.faults.push(e),
            None => self.faults.push(e),
        }
    }
    fn has(&self, w: What) -> bool {
        self.stack.iter().any(|i| i.frame.what == w)
    }
    fn write(&mut self, s: &str) {
        self.tex.push_str(s);
    }
}

fn fits(m: M, math: bool) -> bool {
    m == Same || (m == Math) == math
}

fn step(s: &State, p: P, depth: usize) -> Option<State> {
    let mut n = s.clone();
    match p {
        Good(m, t) => {
            if !fits(m, s.mode()) {
                return None;
            }
            n.write(t);
        }
        Bad(m, t, e) => {
            if !fits(m, s.mode()) {
                return None;
            }
            // (no stray one there)
            if matches!(t, "\\fi " | "\\else ") && s.stack.iter().any(|i| matches!(i.frame.what, If(..) | Macro)) {
                return None;
            }
            n.fault(e);
            n.write(t);
        }
        Stray(t, e) => {
            if !s.stack.is_empty() {
                return None;
            }
            n.fault(e);
            n.write(t);
        }
        Item => {
            if s.has(List) || s.mode() {
                return None;
            }
            n.fault(ITEM);
            n.write("\\item x");
        }
        Comment(t) => n.write(t),
        Open(f) => {
            if !fits(f.at, s.mode()) || s.stack.len() >= depth {
                return None;
            }
            match f.what {
                // (a second definition is an error of its own)
                Macro if s.has(Macro) || s.mac.is_some() => return None,
                Caption if s.stack.last().map(|i| i.frame.what) != Some(Figure) || s.captions > 0 => return None,
                Figure if s.has(Figure) || s.has(Macro) => return None,
                _ => {}
            }
            n.captions += (f.what == Caption) as usize;
            let dead = s.dead() || matches!(f.what, If(false, _));
            let math = match f.inside {
                Same => s.mode(),
                m => m == Math,
            };
            n.write(f.open);
            n.stack.push(In { frame: f, math, dead, mids: 0, faults: vec![] });
        }
        Mid => {
            let i = n.stack.last_mut()?;
            if i.frame.mid.is_empty() || i.mids > 0 {
                return None;
            }
            i.mids += 1;
            let t = i.frame.mid;
            if let If(_, live) = i.frame.what {
                let outer = s.stack.len() > 1 && s.stack[s.stack.len() - 2].dead;
                i.dead = outer || !live;
            }
            n.write(t);
        }
        Close => {
            let i = n.stack.last()?;
            if i.needs_mid() {
                return None;
            }
            let i = n.stack.pop()?;
            if i.frame.what == Macro && !i.dead {
                n.mac = Some(i.faults.clone());
            }
            if i.frame.what == Figure {
                n.captions = 0;
            }
            n.write(i.frame.close);
        }
        Use => {
            if s.has(Macro) && !s.dead() {
                return None;
            }
            match (&s.mac, s.dead()) {
                (_, true) => {}
                (Some(v), _) => {
                    let list = s.has(List);
                    for e in v.clone().into_iter().filter(|e| !(list && *e == ITEM)) {
                        n.fault(e);
                    }
                }
                // not defined here
                (None, _) => n.fault("unknown command: \\m"),
            }
            n.write("\\m ");
        }
    }
    Some(n)
}

fn sweep(ctx: &mut Ctx, name: &str, math: bool, alpha: &[P], len: usize, depth: usize) {
    let mut count = 0u64;
    fn rec(ctx: &mut Ctx, alpha: &[P], s: &State, left: usize, depth: usize, count: &mut u64) {
        // a formula has to end; groups and environments need not, here
        // (a `$` with nothing after it is an empty formula to mitex, as its tests say)
        let loose = s.has(Formula) && (s.tex.ends_with('x') || s.stack.iter().all(|i| i.frame != DOLLAR)) && s.stack.iter().all(|i| matches!(i.frame.what, Plain | List | Formula));
        if s.stack.is_empty() || loose {
            *count += 1;
            if ctx.turn() {
                let mut s = s.clone();
                if loose {
                    s.fault("formula is not valid");
                }
                let mut parts = vec![s.tex.as_str()];
                for f in &s.faults {
                    if !parts[1..].contains(f) {
                        parts.push(f);
                    }
                }
                ctx.exec(if s.math { "math" } else { "text" }, &parts);
            }
        }
        if left == 0 {
            return;
        }
        let least = |s: &State| s.stack.iter().map(|i| 1 + i.needs_mid() as usize).sum::<usize>();
        for p in alpha {
            if let Some(n) = step(s, *p, depth) {
                if least(&n) < left {
                    rec(ctx, alpha, &n, left - 1, depth, count);
                }
            }
        }
    }
    rec(ctx, alpha, &State::new(math), len, depth, &mut count);
    ctx.bound(format!("{name}: all {count} closed sequences of up to {len} of {} pieces, up to {depth} deep", alpha.len()));
}

const ITEM: &str = "item command outside of itemize or enumerate";
const FOO: P = Bad(Same, "\\foo ", "unknown command: \\foo");
const BAR: P = Bad(Same, "\\bax{x}", "unknown command: \\bax");
const ENV: P = Bad(Same, "\\begin{nope}x\\end{nope}", "unknown environment: \\nope");
const X: P = Good(Same, "x");

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let core = [X, FOO, Comment("%\\foo}\n"), Open(GROUP), Open(BOLD), Open(INLINE), Open(IFFALSE), Open(MACRO), Mid, Close, Use];
    sweep(ctx, "core (text)", false, &core, if q { 7 } else { 9 }, 3);
    let cmath = [X, FOO, Open(GROUP), Open(FRAC), Open(SUP), Open(IFFALSE), Open(MACRO), Mid, Close, Use];
    sweep(ctx, "core (math)", true, &cmath, if q { 7 } else { 9 }, 3);
    let stray = [
        X, FOO, Open(GROUP), Open(BOLD), Open(LIST), Open(QUOTE), Close, Mid, Item, Comment("%}\n"), Open(IFFALSE),
        Stray("}", "error unexpected: \"}\""), Stray("\\end{quote}", "error unexpected: \"quote\""),
        Bad(Same, "\\fi ", "unknown command: \\fi"),
    ];
    sweep(ctx, "strays", false, &stray, if q { 5 } else { 6 }, 3);
    let more = [
        X, FOO, BAR, ENV, Item, Mid, Close, Use,
        Open(GROUP), Open(BOLD), Open(QUOTE), Open(LIST), Open(INLINE), Open(DOLLAR), Open(EQUATION), Open(IFFALSE), Open(IFTRUE), Open(MACRO),
        Open(FRAC), Open(SUP), Open(LR), Open(MATRIX), Open(TEXT),
        Open(g(Txt, Txt, "\\begin{figure}", "", "\\end{figure}", Figure)),
        Open(g(Txt, Txt, "\\caption{", "", "}", Caption)),
        Open(f(Txt, Txt, "\\section{", "", "}")),
        Open(f(Txt, Txt, "\\footnote{", "", "}")),
        Open(f(Txt, Txt, "\\begin{tabular}{c}", "\\\\ ", "\\end{tabular}")),
        Open(g(Txt, Txt, "\\begin{enumerate}\\item x", "\\item ", "\\end{enumerate}", List)),
        Open(f(Txt, Math, "\\begin{align}", "\\\\ ", "\\end{align}")),
        Open(g(Txt, Math, "\\[", "", "\\]", Formula)),
        Open(f(Math, Math, "\\sqrt[", "]{", "}")),
        Open(f(Math, Math, "\\hat{", "", "}")),
        Open(f(Math, Math, "\\mathbf{", "", "}")),
        Open(f(Math, Math, "{x\\over ", "", "}")),
        Open(f(Math, Math, "{\\displaystyle ", "", "}")),
        Open(f(Math, Math, "x_{", "", "}")),
        Open(f(Math, Math, "\\begin{cases}", "\\\\ ", "\\end{cases}")),
        Open(f(Math, Math, "\\begin{array}{c}", "\\\\ ", "\\end{array}")),
        Open(f(Math, Math, "\\substack{", "\\\\ ", "}")),
        Open(f(Math, Math, "\\underbrace{", "}_{", "}")),
        Open(f(Math, Math, "\\textcolor{red}{", "", "}")),
        Open(f(Math, Math, "\\operatorname{", "", "}")),
        Open(f(Math, Math, "(", "", ")")),
    ];
    for m in [false, true] {
        sweep(ctx, if m { "all pieces (math)" } else { "all pieces (text)" }, m, &more, if q { 5 } else { 6 }, 3);
    }
    let kinds: Vec<P> = [
        Bad(Same, "\\1", "unknown command: \\1"),
        Bad(Same, "\\é", "unknown command: \\é"),
        Bad(Same, "\\foo@bar ", "unknown command: \\foo@bar"),
        Bad(Same, "\\foo*{x}", "unknown command: \\foo"),
        Bad(Same, "\\foo1", "unknown command: \\foo"),
        Bad(Same, "\\Frac{x}{x}", "unknown command: \\Frac"),
        Bad(Same, "\\fracx ", "unknown command: \\fracx"),
        Bad(Same, "\\begin{quote*}x\\end{quote*}", "unknown environment: \\quote*"),
        Bad(Same, "\\begin{nope*}x\\end{nope*}", "unknown environment: \\nope*"),
        Bad(Same, "\\begin{Matrix}x&x\\\\x\\end{Matrix}", "unknown environment: \\Matrix"),
        Bad(Same, "\\begin{frac}x\\end{frac}", "unknown environment: \\frac"),
        Bad(Same, "\\matrix ", "unknown command: \\matrix"),
        Bad(Txt, "\\begin{tabular}{cx}x\\end{tabular}", "unknown alignment: x"),
        Bad(Same, "\\else ", "unknown command: \\else"),
        Good(Same, "\\%"), Good(Same, "\\alpha "), Good(Same, "\\{x\\}"), Good(Same, "%\\begin{nope}\n"),
    ]
    .into_iter()
    .chain(more)
    .collect();
    for m in [false, true] {
        sweep(ctx, "kinds", m, &kinds, if q { 4 } else { 5 }, 3);
    }
    let deep = [FOO, Open(GROUP), Open(INLINE), Open(TEXT), Open(FRAC), Open(LIST), Open(IFFALSE), Open(IFTRUE), Mid, Close];
    sweep(ctx, "deep", false, &deep, if q { 8 } else { 10 }, 5);
}
