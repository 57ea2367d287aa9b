//! C11: what mitex writes is well-formed Typst.
use super::c10;
use crate::fw::*;
use crate::gram::{Gram, Prod};
use crate::typst::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C11",
        enumerate,
        run,
        rule: "a state is a well-formed LaTeX text (a derivation of the grammar of C10, or a sequence of characters and commands); its \
               translation is a transition to a Typst state: the compiler evaluates it in mitex's scope and lays it out",
        assumptions: &["the installed Typst compiler is the judge of Typst"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    run_one(kind, parts[0])
}

fn sweep(ctx: &mut Ctx, g: &Gram, kind: &'static str, sort: u8, lo: usize, hi: usize, name: &str) {
    let mut b = Batch::new(kind);
    for n in lo..=hi {
        for r in 0..g.count(sort, n) {
            b.add(ctx, &g.get(sort, n, r).tex);
        }
    }
    b.flush(ctx);
    ctx.bound(format!("{name}: all {} derivations of {lo} to {hi} nodes", (lo..=hi).map(|n| g.count(sort, n)).sum::<u64>()));
}

fn atoms(ctx: &mut Ctx, kind: &'static str, alpha: &[String], lo: usize, hi: usize, pre: &str, post: &str) {
    let mut b = Batch::new(kind);
    let mut s = String::new();
    seqs(alpha.len(), lo, hi, |v| {
        s.clear();
        s.push_str(pre);
        for i in v {
            s.push_str(&alpha[*i]);
        }
        s.push_str(post);
        if kind == "math" && ["' '", "'\n'"].iter().any(|p| s.contains(p)) {
            return;
        }
        b.add(ctx, &s);
    });
    b.flush(ctx);
    ctx.bound(format!("{kind}: every sequence of {lo} to {hi} of {} characters and pieces{}", alpha.len(), if pre.is_empty() { String::new() } else { format!(" between {pre} and {post}") }));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let mut g = c10::grammar(true);
    let mut c = c10::grammar(false);
    // the columns of an array are not any text
    for p in g.prods.iter_mut().filter(|p| p.tex.contains("{array}")) {
        *p = Prod { tex: "\\begin{array}{c|rl}①\\end{array}".into(), kids: vec![c10::X], ..p.clone() };
    }
    // TeX does not accept cells and lines in \\left..\\right, nor blanks between primes
    for p in g.prods.iter_mut().chain(c.prods.iter_mut()) {
        if p.tex.starts_with("\\left") {
            p.kids = vec![c10::FB];
        }
        if p.tex == "'" {
            p.tex = "y'z".into();
        }
    }
    g.prepare(3);
    c.prepare(4);
    let (a, b) = if q { (3, 3) } else { (3, 4) };
    sweep(ctx, &g, "math", c10::M, 0, a, "math, all constructs");
    sweep(ctx, &g, "text", c10::T, 0, a, "text, all constructs");
    sweep(ctx, &c, "math", c10::M, a + 1, b, "math, core constructs");
    sweep(ctx, &c, "text", c10::T, a + 1, b, "text, core constructs");
    // characters
    let ascii: Vec<String> = (' '..='~').filter(|c| !"{}$\\%&^_".contains(*c)).map(|c| c.to_string()).collect();
    let mut tx = ascii.clone();
    tx.extend(["\n", "\n\n", "\\$", "\\&", "\\#", "\\%", "\\_", "\\{", "\\}", "\\ ", "\\\\", "é", "{}", "\u{3000}", "中", "\t"].map(String::from));
    let mut ma = ascii;
    ma.extend(["\n", "\\$", "\\&", "\\#", "\\%", "\\_", "\\{", "\\}", "\\ ", "\\\\", "é", "{}", "&", "\\,", "\\alpha ", "^2", "_a", "\\|", "'"].map(String::from));
    atoms(ctx, "text", &tx, 0, if q { 2 } else { 3 }, "", "");
    atoms(ctx, "math", &ma, 0, if q { 2 } else { 3 }, "", "");
    let core: Vec<String> = ["`", "<", ">", "=", "-", "+", "1", ".", "a", " ", "\n", "~", "/", "*", "'", "\"", "#", "@", "(", ")", "[", "]", ",", ";", ":", "|", "!", "?", "\\$", "\\_"].map(String::from).to_vec();
    let (lo, hi) = if q { (3, 3) } else { (4, 4) };
    atoms(ctx, "text", &core, lo, hi, "", "");
    atoms(ctx, "math", &core, lo, hi, "", "");
    for (pre, post) in [("\\textbf{", "}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("{}$x$", ""), ("\\begin{quote}", "\\end{quote}")] {
        atoms(ctx, "text", &core, 1, if q { 2 } else { 3 }, pre, post);
    }
    for (pre, post) in [("\\frac{", "}{b}"), ("x_{", "}"), ("\\begin{matrix}", "\\end{matrix}"), ("\\text{", "}"), ("\\left(", "\\right)"), ("{a\\over ", "}")] {
        atoms(ctx, "math", &core, 1, if q { 2 } else { 3 }, pre, post);
    }
}
