//! C17: blanks, ends of lines and comments mean what they mean in TeX.
use crate::den::*;
use crate::fw::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C17",
        enumerate,
        run,
        rule: "text: a state is that of TeX's reading of lines (at the start of a line, after a blank, within a line, in a comment), its \
               transitions are the characters; every sequence within the bounds is translated and evaluated by Typst, and shows the \
               characters, blanks and paragraphs that TeX reads. Formulas: every sequence of pieces within the bounds is translated \
               with one gap filled in each way, and compared with the one without",
        assumptions: &["the installed Typst compiler is the judge of Typst", "blanks after control words in texts are not part of it"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    if kind != "gap" {
        return run_one(kind, parts);
    }
    let (a, b) = (math(parts[0]), math(parts[1]));
    obs.states += 1;
    obs.transitions += 1;
    obs.outcome(&a);
    match (&a, &b) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(x), Ok(y)) if norm(x) == norm(y) => Ok(()),
        _ => Err(format!("{:?} gives {a:?}\n  but {:?} gives {b:?}", parts[0], parts[1])),
    }
}

/// The code of a formula without the blanks that mean nothing.
pub fn norm(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::with_capacity(s.len());
    let (mut i, mut gap, mut ident) = (0, false, false);
    while i < c.len() {
        if c[i].is_whitespace() {
            gap = true;
            i += 1;
            continue;
        }
        let word = c[i].is_alphanumeric() || c[i] == '#';
        // what keeps a parenthesis from being a call is kept
        o.push(if gap && ident && c[i] == '(' { '⎵' } else { '·' });
        gap = false;
        if c[i] == '\\' {
            o.push(c[i]);
            i += 1;
            o.push(c.get(i).map_or(' ', |c| if c.is_whitespace() { ' ' } else { *c }));
            i += 1;
        } else if word {
            while i < c.len() && (c[i].is_alphanumeric() || "#.-".contains(c[i])) {
                o.push(c[i]);
                i += 1;
            }
        } else {
            o.push(c[i]);
            i += 1;
        }
        ident = word || o.ends_with(')');
    }
    // the last comma of a call says nothing
    o.replace("·,·)", "·)")
}

#[derive(Clone, Copy, PartialEq)]
enum Eye {
    New,
    Mid,
    Skip,
    Comment,
}
/// What TeX reads: characters, blanks and paragraphs (as two line breaks).
fn reads(pieces: &[&str], obs: &mut Obs) -> Option<String> {
    let mut st = Eye::Mid;
    let mut o = String::new();
    let mut depth = 0;
    for p in pieces {
        obs.transitions += 1;
        st = match (st, *p) {
            (Eye::Comment, "\n" | "\r\n" | "\r") => Eye::New,
            (Eye::Comment, _) => Eye::Comment,
            (_, "%") => Eye::Comment,
            (Eye::New, "\n" | "\r\n" | "\r") => {
                o.push_str("\n\n");
                Eye::New
            }
            (Eye::New, " " | "\t") => Eye::New,
            (Eye::Skip, " " | "\t") => Eye::Skip,
            (Eye::Skip, "\n" | "\r\n" | "\r") => Eye::New,
            (Eye::Mid, " " | "\t") => {
                o.push(' ');
                Eye::Skip
            }
            (Eye::Mid, "\n" | "\r\n" | "\r") => {
                o.push(' ');
                Eye::New
            }
            // (they show nothing, and are no blanks)
            (_, "{" | "}" | DEF) => {
                if *p == "{" {
                    depth += 1;
                } else if *p == "}" {
                    depth -= 1;
                    if depth < 0 {
                        return None;
                    }
                }
                Eye::Mid
            }
            (_, c) => {
                o.push_str(c.trim_start_matches('\\'));
                Eye::Mid
            }
        };
    }
    obs.states += pieces.len() as u64 + 1;
    (st != Eye::Comment && depth == 0).then_some(o)
}

fn lines(ctx: &mut Ctx, alpha: &[&'static str], lo: usize, hi: usize, pre: &str, post: &str, shows: &str) {
    let mut b = DenBatch::new("text");
    let mut n = 0u64;
    seqs(alpha.len(), lo, hi, |v| {
        let p: Vec<&str> = v.iter().map(|i| alpha[*i]).collect();
        let mut obs = Obs::default();
        let Some(r) = reads(&p, &mut obs) else { return };
        n += 1;
        b.add(ctx, || (format!("{pre}{}{post}", p.concat()), shows.replace('①', &r)));
    });
    b.flush(ctx);
    ctx.bound(format!("text: every sequence of {lo} to {hi} of {} pieces of lines, between {pre:?} and {post:?}", alpha.len()));
}

/// A definition of no use.
pub const DEF: &str = "\\providecommand{\\q}{q}";

const GAPS: &[&str] = &[" ", "\t", "\n", "\r\n", "\r", "%c\r", "  ", " \n\t", "%c\n", "%\r\n", " %{\n", "%}\n  ", "\n%\\end\n%\n", "\\iffalse x\\fi "];

fn gaps(ctx: &mut Ctx, alpha: &[&str], lo: usize, hi: usize) {
    seqs(alpha.len(), lo, hi, |v| {
        // \limits after a script is an error in TeX
        if v.windows(2).any(|w| matches!(alpha[w[0]], "^" | "_") && alpha[w[1]].ends_with("\\limits ")) {
            return;
        }
        let plain: String = v.iter().map(|i| alpha[*i]).collect();
        for at in 0..=v.len() {
            // blanks between primes part them
            if at > 0 && at < v.len() && alpha[v[at - 1]] == "'" && alpha[v[at]] == "'" {
                continue;
            }
            for g in GAPS {
                if !ctx.turn() {
                    continue;
                }
                let (a, b): (String, String) = (v[..at].iter().map(|i| alpha[*i]).collect(), v[at..].iter().map(|i| alpha[*i]).collect());
                ctx.exec("gap", &[&plain, &format!("{a}{g}{b}")]);
            }
        }
    });
    ctx.bound(format!("formulas: every sequence of {lo} to {hi} of {} pieces, with every gap filled in {} ways", alpha.len(), GAPS.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let chars = &["a", "1", ".", "-", " ", "\t", "\n", "\r\n", "%"];
    lines(ctx, chars, 0, if q { 5 } else { 6 }, "", "", "①");
    let core = &["a", "/", " ", "\n", "%"];
    lines(ctx, core, 5, if q { 6 } else { 8 }, "", "", "①");
    lines(ctx, &["a", "-", " ", "\r", "%"], 1, if q { 5 } else { 7 }, "", "", "①");
    // groups and definitions on lines of their own
    lines(ctx, &["a", " ", "\n", "{", "}", "%"], 3, if q { 6 } else { 8 }, "", "", "①");
    lines(ctx, &["a", " ", "\n", "{", "}", DEF], 3, if q { 5 } else { 7 }, "", "", "①");
    lines(ctx, &["a", "-", "\n", "{", "}"], 3, if q { 5 } else { 7 }, "\\begin{itemize}\\item ", "\\item z\\end{itemize}", "•⦅①⦆•⦅z⦆");
    for (pre, post, shows) in [
        ("x", "y", "x①y"),
        ("\\textbf{", "}", "strong(①)"),
        ("\\begin{itemize}\\item ", "\\item z\\end{itemize}", "•⦅①⦆•⦅z⦆"),
        ("\\begin{enumerate}\\item z\\end{enumerate}", "", "№⦅z⦆①"),
        ("\\begin{quote}", "\\end{quote}", "quote(①)"),
        ("\\section{", "}z", "heading1(①)z"),
        ("$x$", "$y$", "「x」①「y」"),
        ("z\\\\", "z", "z↵①z"),
        ("\\newcommand{\\f}[1]{<#1>}\\f{", "}", "<①>"),
        ("{", "}", "①"),
    ] {
        lines(ctx, &["a", "-", " ", "\t", "\n", "%"], 1, if q { 4 } else { 5 }, pre, post, shows);
    }
    let m = &[
        "a", "b1", "\\alpha ", "\\frac ", "\\sqrt ", "[", "]", "{", "}", "^", "_", "'", "(", ")", "\\left(", "\\right)", "&", "\\\\", "\\begin{matrix}", "\\end{matrix}",
        "\\hat ", "\\sum\\limits ", "\\bf ", "\\over ", "/", "!", ",",
    ];
    gaps(ctx, m, 0, if q { 3 } else { 4 });
}
