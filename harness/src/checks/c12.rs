//! C12: what a translation shows is what the source says. C30: the characters of a text.
use crate::den::*;
use crate::fw::*;
use crate::gram::*;

// sorts of lists
const M: u8 = 0; // formula
const G: u8 = 1; // argument, group, between delimiters
const X: u8 = 2; // body of a matrix
const C: u8 = 3; // body of cases
const A: u8 = 4; // body of an alignment, lines
const B: u8 = 5; // text without paragraphs, in a formula or an argument
const T: u8 = 6; // text
const I1: u8 = 7; // item of a list
const I2: u8 = 8; // item of a nested list
const K: u8 = 9; // argument in brackets
const SORTS: usize = 10;
const MATH: &[u8] = &[M, G, X, C, A, K];
const TEXT: &[u8] = &[B, T, I1, I2];

pub fn check() -> Check {
    Check {
        id: "C12",
        enumerate,
        run,
        rule: "a state is a derivation of a synchronous grammar, which gives a LaTeX text and what it means (characters, what a script \
               belongs to, numerators, cells, items, ..); transitions are rule applications; its translation is evaluated by Typst in \
               mitex's scope, and the content that comes out is compared with the meaning",
        assumptions: &["the installed Typst compiler is the judge of Typst", "styles of characters and amounts of space are not compared"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    run_one(kind, parts)
}

fn grammar(rich: bool) -> Gram {
    let mut g = Gram::new(vec![Wrap::Plain; SORTS]);
    let core: &[(&str, &str)] = &[("a", "a"), ("é1", "é1"), (",", ","), ("(", "("), ("\\alpha ", "α"), ("\\leq ", "≤"), ("-", "−")];
    let more: &[(&str, &str)] = &[
        ("x=1", "x=1"), ("/", "/"), ("*", "*"), ("@", "@"), ("\"", "\""), (";", ";"), (")", ")"), ("]", "]"), ("[", "["), ("|", "|"), ("!", "!"), (".", "."),
        ("\\#", "#"), ("\\_", "_"), ("\\&", "&"), ("\\{", "{"), ("\\}", "}"), ("\\$", "$"), ("\\%", "%"), ("\\sin ", "op(sin)"), ("\\lim ", "OP(lim)"),
        ("\\sum ", "∑"), ("\\Re ", "ℜ"), ("\\to ", "→"), ("<", "<"), (">", ">"), (":", ":"), ("+", "+"), ("\\infty ", "∞"), ("?", "?"), ("~", ""), ("\\ ", "h(0.28em)"),
        ("12", "12"), ("中", "中"), ("ab", "ab"), ("\\cdots ", "⋯"), ("\\| ", "‖"), 
    ];
    for s in MATH {
        for (t, d) in core.iter().chain(if rich { more } else { &[] }) {
            if *s == K && t.contains(['[', ']']) {
                continue;
            }
            g.add(&[*s], t, d, &[]);
        }
        g.trivia(&[*s], " ", "");
        g.trivia(&[*s], "%c\n", "");
        let o = *s;
        let s = &[o];
        match o {
            X => {
                g.add(s, "&", "¦", &[]);
                g.add(s, "\\\\", "⁏", &[]);
            }
            C => {
                g.add(s, "&", "&", &[]);
                g.add(s, "\\\\", "⁏", &[]);
            }
            A => {
                g.add(s, "&", "&", &[]);
                g.add(s, "\\\\", "↵", &[]);
            }
            _ => {}
        }
        g.add(s, "{①}", "①", &[G]);
        g.add(s, "\\hat{①}", "accent(①|\u{302})", &[G]);
        g.add(s, "\\frac{①}{②}", "frac(①|②)", &[G, G]);
        g.add(s, "\\sqrt{①}", "root(|①)", &[G]);
        g.add(s, "x_{①}", "‹x›_‹①›", &[G]);
        g.add(s, "{}^{①}", "‹›^‹①›", &[G]);
        g.add(s, "\\left[①\\right)", "lr([①))", &[G]);
        g.add(s, "{①\\over ②}", "frac(①|②)", &[G, G]);
        g.add(s, "{\\displaystyle ①}", "⦃①⦄", &[G]);
        g.add(s, "\\begin{matrix}①\\end{matrix}", "mat(none,none)⟦①⟧", &[X]);
        g.add(s, "\\begin{cases}①\\end{cases}", "cases⟦①⟧", &[C]);
        g.add(s, "\\text{①}", "①", &[B]);
        g.add(s, "\\frac{①}{②}_{③}", "‹frac(①|②)›_‹③›", &[G, G, G]);
        g.add(s, ")^{①}", "‹)›^‹①›", &[G]);
        if !rich {
            continue;
        }
        g.add(s, "12^{①}_{②}", "1‹2›_‹②›^‹①›", &[G, G]);
        g.add(s, "\\alpha_z", "‹α›_‹z›", &[]);
        g.add(s, "\\sum_{①}^{②}", "‹∑›_‹①›^‹②›", &[G, G]);
        g.add(s, "\\sum\\limits_{①}^{②}", "‹limits(∑)›_‹①›^‹②›", &[G, G]);
        g.add(s, "\\int\\nolimits_{①}", "‹scripts(∫)›_‹①›", &[G]);
        g.add(s, "\\sqrt{①}^{②}", "‹root(|①)›^‹②›", &[G, G]);
        g.add(s, "\\left(①\\right)^{②}", "‹lr((①))›^‹②›", &[G, G]);
        g.add(s, "\\left.①\\right\\rangle ", "lr(①⟩)", &[G]);
        g.add(s, "\\left|①\\right\\}", "lr(|①})", &[G]);
        g.add(s, "{①\\choose ②}", "binom(①|②)", &[G, G]);
        g.add(s, "\\binom{①}{②}", "binom(①|②)", &[G, G]);
        g.add(s, "{\\bf ①}", "⦃①⦄", &[G]);
        g.add(s, "\\mathbf{①}", "⦃①⦄", &[G]);
        g.add(s, "\\dot {①}", "accent(①|\u{307})", &[G]);
        g.add(s, "\\operatorname*{①}", "OP(⦃①⦄)", &[G]);
        g.add(s, "\\substack{①}", "①", &[A]);
        g.add(s, "\\sqrt[①]{②}", "root(①|②)", &[K, G]);
        g.add(s, "\\begin{pmatrix}①\\end{pmatrix}_{②}", "‹mat(\"(\",\")\")⟦①⟧›_‹②›", &[X, G]);
        g.add(s, "\\begin{aligned}①\\end{aligned}", "op(⦃①⦄)", &[A]);
        g.add(s, "\\begin{align}①\\end{align}", "op(⦃①⦄)", &[A]);
        g.add(s, "\\textrm{①}", "⦃①⦄", &[B]);
        g.add(s, "\\overbrace{①}^{②}", "‹limits(overbrace(①))›^‹②›", &[G, G]);
    }
    for s in TEXT {
        for (t, d) in [("word", "word"), ("é", "é"), (" ", " "), (",", ","), ("a_b", "a_b"), ("(", "("), ("'", "'"), ("\\&", "&"), ("-", "-")] {
            g.add(&[*s], t, d, &[]);
        }
        if rich {
            for (t, d) in [
                ("*", "*"), ("@", "@"), ("a^b", "a^b"), ("/", "/"), ("\"", "\""), (";", ";"), ("]", "]"), ("[", "["), ("\\#", "#"), ("\\_", "_"), ("\\{", "{"),
                ("\\$", "$"), ("\\%", "%"), ("=", "="), ("<", "<"), ("`", "`"), ("~", "\u{a0}"), ("\\ ", " "), ("1.", "1."), ("+ ", "+ "), ("{}", ""),
            ] {
                g.add(&[*s], t, d, &[]);
            }
        }
        let o = *s;
        let s = &[o];
        let inner = if matches!(o, I1 | I2) { o } else { B };
        g.add(s, "{①}", "①", &[o]);
        g.add(s, "{}$x①$", "「x①」", &[G]);
        g.add(s, "\\textbf{①}", "strong(①)", &[inner]);
        if rich {
            g.add(s, "\\(①\\)", "「①」", &[G]);
            g.add(s, "\\textit{①}", "emph(①)", &[inner]);
            g.add(s, "\\text{①}", "①", &[B]);
        }
        if o == B {
            continue;
        }
        g.add(s, "\nw", " w", &[]);
        g.add(s, "\\\\", "↵", &[]);
        g.add(s, "\\[y①\\]", "『y①』", &[G]);
        g.add(s, "\\begin{align}①\\end{align}", "『op(⦃①⦄)』", &[A]);
        if rich {
            g.add(s, "{}$$y①$$", "『y①』", &[G]);
            g.add(s, "\\begin{pmatrix}①\\end{pmatrix}", "『mat(\"(\",\")\")⟦①⟧』", &[X]);
            g.add(s, "\\begin{quote}①\\end{quote}", "quote(①)", &[o]);
            g.add(s, "\\section{①}", "heading1(①)", &[B]);
        }
    }
    g.add(&[T], "\n\nw", "¶w", &[]);
    g.add(&[T], "\\begin{itemize}\\item ①\\end{itemize}\nw", "•⦅①⦆w", &[I1]);
    g.add(&[T], "\\begin{enumerate}\\item ①\\item ②\\end{enumerate}%c\nw", "№⦅①⦆№⦅②⦆w", &[I1, I1]);
    g.add(&[I1], "\\begin{itemize}\\item ①\\end{itemize}\nw", "•⦅①⦆w", &[I2]);
    g.add(&[I1], "\\begin{enumerate}\\item ①\\end{enumerate} w", "№⦅①⦆w", &[I2]);
    g
}

fn sweep(ctx: &mut Ctx, g: &Gram, kind: &'static str, sort: u8, lo: usize, hi: usize, name: &str) {
    let mut b = DenBatch::new(kind);
    for n in lo..=hi {
        for r in 0..g.count(sort, n) {
            b.add(ctx, || {
                let o = g.get(sort, n, r);
                (o.tex, o.out)
            });
        }
    }
    b.flush(ctx);
    ctx.bound(format!("{name}: all {} derivations of {lo} to {hi} nodes", (lo..=hi).map(|n| g.count(sort, n)).sum::<u64>()));
}

fn enumerate(ctx: &mut Ctx) {
    let mut g = grammar(true);
    let mut c = grammar(false);
    g.prepare(4);
    c.prepare(5);
    if std::env::var("MC_COUNT").is_ok() {
        for n in 0..=4 {
            eprintln!("{n}: rich {} {} core {} {}", g.count(M, n), g.count(T, n), c.count(M, n), c.count(T, n));
        }
    }
    let mut k = DenBatch::new("math");
    k.add(ctx, || ("\\sqrt[{[}]{x}".into(), "root([|x)".into()));
    k.flush(ctx);
    let (a, b) = if ctx.quick() { (2, 3) } else { (3, 4) };
    sweep(ctx, &g, "math", M, 0, a, "formulas, all constructs");
    sweep(ctx, &g, "text", T, 0, a, "texts, all constructs");
    sweep(ctx, &c, "math", M, a + 1, b, "formulas, core constructs");
    sweep(ctx, &c, "text", T, a + 1, b, "texts, core constructs");
}
