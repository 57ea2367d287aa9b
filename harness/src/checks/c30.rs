//! C30: the characters of a text and of a formula arrive.
use crate::den::*;
use crate::fw::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C30",
        enumerate,
        run,
        rule: "a state is a sequence of characters, escapes and blanks between two ends (alone, in a command, an item, a cell, ..); its \
               transition is translation and evaluation by Typst in mitex's scope; the characters that the content shows are compared \
               with those of the source, for every sequence and every Unicode character within the bounds",
        assumptions: &["the installed Typst compiler is the judge of Typst", "dashes, dots and quotes may come as typographic ones"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    run_one(kind, parts)
}

type Piece = (&'static str, &'static str);
const ESC: &[Piece] = &[("\\$", "$"), ("\\&", "&"), ("\\#", "#"), ("\\%", "%"), ("\\_", "_"), ("\\{", "{"), ("\\}", "}")];

/// Nothing, but a line of it is no empty line.
const GROUP: &str = "\u{fdd0}";

/// The pieces `alpha`, in every sequence, between `pre` and `post`, which show as what is around `①` in `shows`.
fn words(ctx: &mut Ctx, kind: &'static str, alpha: &[(String, String)], lo: usize, hi: usize, pre: &str, post: &str, shows: &str) {
    let mut b = DenBatch::new(kind);
    seqs(alpha.len(), lo, hi, |v| {
        // a blank right after primes parts them, which TeX does not accept
        if v.windows(2).any(|w| kind == "math" && alpha[w[0]].0 == "'" && alpha[w[1]].0.trim().is_empty()) {
            return;
        }
        b.add(ctx, || {
            let t: String = v.iter().map(|i| alpha[*i].0.as_str()).collect();
            let d: String = v.iter().map(|i| alpha[*i].1.as_str()).collect();
            (format!("{pre}{t}{post}"), shows.replace('①', &d))
        });
    });
    b.flush(ctx);
    let around = if pre.is_empty() { String::new() } else { format!(", between {pre:?} and {post:?}") };
    ctx.bound(format!("{kind}: every sequence of {lo} to {hi} of {} characters and pieces{around}", alpha.len()));
}

fn pieces(p: &[Piece]) -> Vec<(String, String)> {
    p.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    // every character
    for (kind, hi) in [("text", 0x11_0000u32), ("math", 0x11_0000)] {
        let mut b = DenBatch::new(kind);
        let hi = if q { 0x3100 } else { hi };
        for u in 0x80..hi {
            let Some(c) = char::from_u32(u) else { continue };
            if c.is_control() || c.is_whitespace() || c == '\u{200b}' {
                continue;
            }
            let (pre, post) = if kind == "text" { ("a", "b") } else { ("", "") };
            b.add(ctx, || (format!("{pre}{c}{post}"), format!("{pre}{c}{post}")));
        }
        b.flush(ctx);
        ctx.bound(format!("{kind}: every Unicode character up to {hi:#x} but blanks and controls"));
    }
    // ASCII
    let ascii = |skip: &str| -> Vec<(String, String)> { ('!'..='~').filter(|c| !skip.contains(*c)).map(|c| (c.to_string(), c.to_string())).collect() };
    let mut tx = ascii("{}$\\%&#~");
    tx.extend(pieces(ESC));
    tx.extend(pieces(&[(" ", " "), ("\n", "\n"), ("\n\n", "\n\n"), ("\\ ", " "), ("\\\\", "↵"), ("é", "é"), ("{}", GROUP), ("~", "\u{a0}"), ("中", "中"), ("\t", " "), ("#", "#")]));
    words(ctx, "text", &tx, 0, if q { 2 } else { 3 }, "", "", "①");
    let mut ma = ascii("{}$\\%&#~^_'");
    ma.extend(pieces(ESC));
    ma.extend(pieces(&[(" ", ""), ("\n", ""), ("é", "é"), ("{}", ""), ("~", ""), ("中", "中"), ("\\alpha ", "α"), ("'", "'"), ("\\|", "‖"), ("#", "#")]));
    words(ctx, "math", &ma, 0, if q { 2 } else { 3 }, "", "", "①");
    // those with a meaning in Typst, deeper and in other places
    let mut core: Vec<(String, String)> = "`<>=-+1.a/*'\"@()[],;:|!?_^".chars().map(|c| (c.to_string(), c.to_string())).collect();
    core.extend(pieces(&[(" ", " "), ("\n", "\n"), ("\\$", "$"), ("\\#", "#"), ("\\_", "_"), ("~", "\u{a0}"), ("{}", GROUP)]));
    words(ctx, "text", &core, 3, if q { 3 } else { 4 }, "", "", "①");
    let d = 3;
    // scripts are no characters in an argument
    let plain: Vec<_> = core.iter().filter(|c| !"_^".contains(c.0.as_str())).cloned().collect();
    let nobr: Vec<_> = plain.iter().filter(|c| c.0 != "]").cloned().collect();
    for (pre, post, shows) in [
        ("\\textbf{", "}", "strong(①)"),
        ("\\begin{itemize}\\item ", "\\end{itemize}", "•⦅①⦆"),
        ("{}$x$", "", "「x」①"),
        ("\\begin{quote}", "\\end{quote}", "quote(①)"),
        ("\\[x\\]", "\\[x\\]", "『x』①『x』"),
        ("\\newcommand{\\f}[1]{<#1>}\\f{", "}", "<①>"),
        ("\\section{", "}", "heading1(①)"),
        ("z\\\\", "", "z↵①"),
    ] {
        words(ctx, "text", &plain, 1, d, pre, post, shows);
    }
    for (pre, post, shows) in [
        ("\\textbf{z}", "", "strong(z)①"),
        ("\\begin{itemize}\\item \\textcolor{red}{z}", "\\end{itemize}", "•⦅⦃z⦄①⦆"),
        ("\\begin{itemize}\\item \\textbf{z}", "\\end{itemize}", "•⦅strong(z)①⦆"),
        ("\\begin{quote}\\emph{z}", "\\end{quote}", "quote(emph(z)①)"),
        ("\\textbf{\\textcolor{red}{z}", "}", "strong(⦃z⦄①)"),
        ("\\section{\\textit{z}", "}", "heading1(emph(z)①)"),
        ("\\textcolor{red}{z}", "", "⦃z⦄①"),
    ] {
        words(ctx, "text", &plain, 1, if q { 2 } else { d }, pre, post, shows);
    }
    words(ctx, "text", &nobr, 1, d, "\\begin{enumerate}\\item[", "]b\\end{enumerate}", "№⦅[①]b⦆");
    let cm: Vec<_> = core.iter().filter(|c| !"_^".contains(c.0.as_str())).map(|c| (c.0.clone(), c.1.trim().replace(GROUP, ""))).collect();
    words(ctx, "math", &cm, 3, if q { 3 } else { 4 }, "", "", "①");
    for (pre, post, shows) in [
        ("\\frac{", "}{b}", "frac(①|b)"),
        ("x_{", "}", "‹x›_‹①›"),
        ("\\begin{matrix}", "&b\\end{matrix}", "mat(none,none)⟦①¦b⟧"),
        ("\\left(", "\\right)", "lr((①))"),
        ("{a\\over ", "}", "frac(a|①)"),
        ("x_{1}", "", "‹x›_‹1›①"),
        ("\\hat{x}", "", "accent(x|\u{302})①"),
        ("\\sin ", "", "op(sin)①"),
        ("\\text{", "}", "①"),
    ] {
        let al: Vec<_> = if pre == "\\text{" { plain.clone() } else { cm.clone() };
        words(ctx, "math", &al, 1, d, pre, post, shows);
    }
}
