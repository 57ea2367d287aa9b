//! C10: translation is compositional.
use crate::fw::*;
use crate::gram::*;
use crate::util::*;

// sorts of lists
pub const M: u8 = 0; // math, no environment
pub const G: u8 = 1; // math in a curly group
pub const GG: u8 = 2; // greedy argument in a curly group
pub const X: u8 = 3; // body of a matrix
pub const C: u8 = 4; // body of cases
pub const A: u8 = 5; // body of an alignment
pub const S: u8 = 6; // substack argument
pub const T: u8 = 7; // text
pub const B: u8 = 8; // text inside of a bracket or command
pub const I1: u8 = 9; // item of a list
pub const I2: u8 = 10; // item of a nested list
pub const XB: u8 = 11; // bracket argument in math, no environment
pub const GP: u8 = 12; // what is between \left and \right, in a curly group
pub const TN: u8 = 13; // text argument in text mode
pub const GI: u8 = 14; // side of an infix command in a curly group
pub const SP: u8 = 15; // the same in a substack
pub const FB: u8 = 16; // formula in a text in math
pub const GR: u8 = 17; // right side of an infix command
pub const SORTS: usize = 18;
const MATH: &[u8] = &[M, G, GG, GI, GR, GP, X, C, A, S, SP, XB, FB];
const TEXT: &[u8] = &[T, B, I1, I2, TN];

pub fn wraps() -> Vec<Wrap> {
    let mut w = vec![Wrap::Plain; SORTS];
    w[G as usize] = Wrap::Zws;
    w[S as usize] = Wrap::Zws;
    w[GR as usize] = Wrap::Zws;
    w[GG as usize] = Wrap::Greedy;
    w
}

/// What stays between delimiters keeps the environment of the sort around it.
fn same(s: u8) -> u8 {
    match s {
        G | GG | GI | GR => GP,
        S => SP,
        XB => M,
        s => s,
    }
}

pub fn grammar(rich: bool) -> Gram {
    let mut g = Gram::new(wraps());
    // leaves of math
    let leaf: &[(&str, &str)] = &[
        ("a", "a "), ("é1", "é 1 "), (",", "\\,"), ("(", "\\("), ("\\alpha ", "alpha "), ("\\leq ", "<= "), ("~", "space.nobreak "),
        ("'", "'"),
    ];
    let more: &[(&str, &str)] = &[
        ("x=1", "x = 1 "), ("/", "\\/"), ("*", "\\*"), ("@", "\\@"), ("\"", "\\\""), (";", "\\;"), (")", "\\)"), ("]", "\\]"),
        ("#", "\\#"), ("\\,", "thin "), ("\\{", "\\{ "), ("\\$", "dollar "), ("\\%", "% "), ("\\ ", "thick "), ("\\sin ", "sin "),
        ("\\varepsilon ", "epsilon "), ("\\quad1", "quad 1 "), ("\\Re z", "Re z "),
    ];
    for (t, o) in leaf.iter().chain(if rich { more } else { &[] }) {
        for s in MATH {
            if !(*s == XB && *t == "]" || *s == GG && *t == "'") {
                g.add(&[*s], t, o, &[]);
            }
        }
    }
    for s in MATH {
        g.trivia(&[*s], " ", " ");
        if rich {
            g.trivia(&[*s], "%c\n", "");
            g.trivia(&[*s], "\\iffalse \\frac z\\fi ", " ");
        }
        let amp = if matches!(*s, X) { "zws ," } else { "&" };
        if !matches!(*s, GG | GI | GR | FB) {
            g.add(&[*s], "&", amp, &[]);
        }
        let nl = match *s {
            X => Some("zws ;"),
            C => Some(","),
            M | A | S | SP | XB => Some("\\ "),
            _ => None,
        };
        if let Some(nl) = nl {
            g.add(&[*s], "\\\\", nl, &[]);
        }
        let s = &[*s];
        // a group inside of a substack keeps its line breaks
        let gr = if matches!(s[0], S | SP) { S } else { G };
        g.group(s, "{①}", "①", &[gr]);
        g.add(s, "\\hat{①}", "hat(①)", &[gr]);
        g.add(s, "\\frac{①}{②}", "frac(①,②)", &[gr, gr]);
        g.add(s, "\\sqrt{①}", "mitexsqrt(①)", &[gr]);
        g.add(s, "x_{①}", "x _(①)", &[gr]);
        g.add(s, "{}^{①}", "zws ^(①)", &[gr]);
        g.add(s, "\\left[①\\right)", "lr(\\[ ①\\) )", &[same(s[0])]);
        g.group(s, "{①\\over ②}", "frac(①, ②)", &[GI, GR]);
        g.group(s, "{\\displaystyle ①}", "mitexdisplay(①)", &[GG]);
        g.add(s, "\\begin{matrix}①\\end{matrix}", "matrix(①)", &[X]);
        g.add(s, "\\begin{cases}①\\end{cases}", "cases(①)", &[C]);
        g.add(s, "\\text{①}", "#textmath[①];", &[B]);
        if !rich {
            continue;
        }
        g.add(s, "\\mathbf{①}", "mitexmathbf(①)", &[gr]);
        g.add(s, "\\dot {①}", "dot( ①)", &[gr]);
        g.add(s, "\\binom{①}\n{②}", "binom(①,②)", &[gr, gr]);
        if matches!(s[0], M | A) {
            g.add(s, "\\sqrt[①]{②}", "mitexsqrt(\\[①\\],②)", &[XB, gr]);
        }
        g.add(s, "x^{①}_{②}", "x ^(①)_(②)", &[gr, gr]);
        g.add(s, "x'_{①}", "x '_(①)", &[gr]);
        g.add(s, "\\sum\\limits_{①}^{②}", "limits(sum )_(①)^(②)", &[gr, gr]);
        g.add(s, "\\left.①\\right\\rangle ", "lr( ①chevron.r )", &[same(s[0])]);
        g.group(s, "{①\\choose ②}", "binom(①, ②)", &[GI, GR]);
        g.group(s, "{\\bf ①}", "mitexbold(①)", &[GG]);
        g.add(s, "\\substack{①}", "substack(①)", &[S]);
        g.add(s, "\\begin{aligned}①\\end{aligned}", "aligned(①)", &[A]);
        g.add(s, "\\begin{align*}①\\end{align*}", "aligned(①)", &[A]);
        g.add(s, "\\begin{array}{①}②\\end{array}", "mitexarray(arg0: ①,②)", &[G, X]);
        g.add(s, "\\operatorname*{①}", "operatornamewithlimits(①)", &[gr]);
        g.add(s, "\\textrm{①}", "#textrm[①];", &[B]);
    }
    // text
    for s in TEXT {
        let ind: &str = match *s {
            I1 => "\n  ",
            I2 => "\n    ",
            _ => "\n",
        };
        for (t, o) in [("word", "word"), ("é", "é"), (" ", " "), (",", "\\,"), ("#", "\\#"), ("a_b", "a\\_b"), ("(", "\\(")] {
            g.add(&[*s], t, o, &[]);
        }
        if rich {
            for (t, o) in [
                ("*", "\\*"), ("@", "\\@"), ("a^b", "a\\^b"), ("/", "\\/"), ("\"", "\\\""), (";", "\\;"), ("]", "\\]"), ("'", "'"), ("{}$x$", "#math.equation(block: false, $x $);"),
            ] {
                if !(*s == B && t == "]") {
                    g.add(&[*s], t, o, &[]);
                }
            }
        }
        if !matches!(*s, B) {
            // a line break sets the indent of the list it is in, and takes the blanks after it
            g.add(&[*s], "\nw", &format!("{ind}w"), &[]);
            g.add(&[*s], "\n  w", &format!("{ind}w"), &[]);
            g.add(&[*s], "\\\\", "\\ ", &[]);
        }
        let s = &[*s];
        let f = if s[0] == B { FB } else { M };
        let inner = if s[0] == T { TN } else { s[0] };
        g.add(s, "{①}", "①", &[s[0]]);
        g.add(s, "{}$x①$", "#math.equation(block: false, $x ①$);", &[f]);
        g.add(s, "\\textbf{①}", "#strong[①];", &[inner]);
        if s[0] != B {
            g.add(s, "\\[①\\]", "$ ① $", &[M]);
            g.add(s, "\\begin{align}①\\end{align}", "$ aligned(①) $", &[A]);
        }
        if rich {
            g.add(s, "\\(①\\)", "#math.equation(block: false, $①$);", &[f]);
            g.add(s, "\\emph{①}", "#emph[①];", &[inner]);
            g.add(s, "\\textit{①}", "#emph[①];", &[inner]);
            g.add(s, "\\text{①}", "#textmath[①];", &[inner]);
            if s[0] != B {
                g.add(s, "{}$$y①$$", "$ y ① $", &[M]);
                g.add(s, "\\begin{pmatrix}①\\end{pmatrix}", "$ pmatrix(①) $", &[X]);
                g.add(s, "\\begin{cases}①\\end{cases}", "$ cases(①) $", &[C]);
                g.add(s, "\\begin{quote}①\\end{quote}", "#quote(block: true)[①];", &[s[0]]);
                g.add(s, "\\section{①}", "#heading(level: 1)[①];", &[inner]);
            }
        }
    }
    for s in [T, TN] {
        g.add(&[s], "\\begin{itemize}\\item ①\\end{itemize}\nw", "\n-  ①\nw", &[I1]);
        g.add(&[s], "\\begin{enumerate}\\item ①\\item ②\\end{enumerate}%c\nw", "\n+  ①\n+  ②\nw", &[I1, I1]);
    }
    g.add(&[I1], "\\begin{itemize}\\item ①\\end{itemize}\nw", "\n  -  ①\n  w", &[I2]);
    g.add(&[I1], "\\begin{enumerate}\\item ①\\end{enumerate} w", "\n  +  ①\n  w", &[I2]);
    g
}

pub fn check() -> Check {
    Check {
        id: "C10",
        enumerate,
        run,
        rule: "a state is a derivation of a synchronous grammar, which gives a LaTeX text and its expected translation (the \
               translations of its parts put together by the rule of its outermost construct); transitions are rule applications; \
               each derivation is run on the converter and compared",
        assumptions: &["amounts of blanks that mean nothing to Typst are not compared"],
        hang_s: 30,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.traces += 1;
    obs.outcome(parts[1]);
    let tex = parts[0];
    let r = match kind {
        "math" => math(tex),
        _ => text(tex),
    };
    let out = r.map_err(|e| format!("well-formed text is rejected: {e}"))?;
    let n = if kind == "math" { norm_math } else { norm_text };
    let (a, b) = (n(&out), n(parts[1]));
    if a == b {
        return Ok(());
    }
    Err(format!("expected {b:?}\n  got      {a:?}"))
}

pub fn sweep(ctx: &mut Ctx, g: &Gram, kind: &str, sort: u8, lo: usize, hi: usize, name: &str) {
    for n in lo..=hi {
        let c = g.count(sort, n);
        for r in 0..c {
            if ctx.turn() {
                let o = g.get(sort, n, r);
                ctx.exec(kind, &[&o.tex, &o.out]);
                ctx.transitions += o.nodes;
            }
        }
    }
    ctx.bound(format!("{name}: all {} derivations of {lo} to {hi} nodes", (lo..=hi).map(|n| g.count(sort, n)).sum::<u64>()));
}

fn enumerate(ctx: &mut Ctx) {
    let mut g = grammar(true);
    let mut c = grammar(false);
    g.prepare(5);
    c.prepare(6);
    let (a, b) = if ctx.quick() { (3, 4) } else { (4, 5) };
    sweep(ctx, &g, "math", M, 0, a, "math, all constructs");
    sweep(ctx, &g, "text", T, 0, a, "text, all constructs");
    sweep(ctx, &c, "math", M, a + 1, b, "math, core constructs");
    sweep(ctx, &c, "text", T, a + 1, b, "text, core constructs");
    if let Ok(s) = std::env::var("MC_COUNT") {
        let _ = s;
        for n in 0..=5 {
            eprintln!("{n}: rich {} {} core {} {}", g.count(M, n), g.count(T, n), c.count(M, n), c.count(T, n));
        }
    }
}
