//! C01: conversion is total.
use crate::fw::*;
use crate::util::*;

pub const PIECES: &[&str] = &[
    "a", "é", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "_", "'", "\"", ";", "#", "*",
    "@", "$", "$$", "\\\\", "\\", "1", "\\alpha", "\\frac", "\\sqrt", "\\limits", "\\over", "\\displaystyle", "\\text",
    "\\textbf", "\\label", "\\item", "\\includegraphics", "\\color", "\\textcolor", "\\caption", "\\left", "\\right",
    "\\(", "\\)", "\\[", "\\]", "\\begin{matrix}", "\\end{matrix}", "\\begin{figure}", "\\end{figure}",
    "\\begin{tabular}", "\\end{tabular}", "\\begin{itemize}", "\\end{itemize}", "\\begin{cases}", "\\begin{quote}",
    "\\begin{aligned}", "\\begin{array}", "\\begin", "\\end", "\\begin{x}", "\\end{x}", "\\newcommand", "\\renewcommand",
    "\\providecommand", "\\newenvironment", "{\\f}", "\\f", "[2]", "#1", "{x}", "\\iftrue", "\\iffalse", "\\iftypst", "\\if",
    "\\else", "\\fi", "\\substack", "\\hline", "\\mitexrecurse", "\\unknown", "\u{3000}",
];
/// The pieces that change the state of some parser, lexer or converter stage.
pub const CORE: &[&str] = &[
    "a", " ", "{", "}", "[", "]", "&", "^", "'", "#", "$", "\\\\", "\\frac", "\\sqrt", "\\limits", "\\over",
    "\\displaystyle", "\\label", "\\color", "\\left", "\\right", "\\begin{matrix}", "\\end{matrix}", "\\begin{x}",
    "\\end{x}", "\\newcommand", "\\newenvironment", "{\\f}", "\\f", "[1]", "#1", "{x}", "\\iftrue", "\\else", "\\fi",
];
const MACRO: &[&str] = &["\\newcommand", "{\\f}", "\\f", "{", "}", "[1]", "#1", "#", "a", "\\mitexrecurse", " "];
const MACRO_ENV: &[&str] =
    &["\\newenvironment", "{x}", "{\\f}", "[1]", "{", "}", "#1", "\\begin{x}", "\\end{x}", "a", "\\newcommand", "\\f"];
const IFS: &[&str] = &["\\iftrue", "\\iffalse", "\\iftypst", "\\if", "\\else", "\\fi", "a", "{", "}", "$"];
const ENVS: &[&str] = &[
    "\\begin{figure}", "\\begin{tabular}", "\\begin{itemize}", "\\begin{matrix}", "\\begin{cases}", "\\end{figure}",
    "\\label", "\\caption", "\\item", "{c|c}", "é", "&", "\\\\", "$", "[", "]", "\\hline",
];
const BYTES: &[&str] = &[
    "\\begin", "\\end", "%", "\n", "\r", "\t", "\u{3000}", "\u{a0}", "{", "}", "é", "a", "*", "@", "1", "\\", "\u{1f600}", "\u{301}",
    "\u{0}", "\u{2028}",
];

pub fn check() -> Check {
    Check {
        id: "C01",
        enumerate,
        run,
        rule: "a case is one source text, run in text mode, math mode, without macros and as a syntax tree; it passes if \
               every call returns (a result or an error message); states are the source texts, transitions the calls",
        assumptions: &[
            "a call that gives no answer within the hang bound counts as one that does not terminate",
            "overflow checks and debug assertions are on in the checked build",
        ],
        hang_s: 30,
    }
}

fn run(_kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let s = parts[0];
    obs.states += 1;
    let mut h = vec![];
    for (n, f) in [
        ("convert_text", mitex::convert_text as fn(&str, Option<CommandSpec>) -> Result<String, String>),
        ("convert_math", mitex::convert_math),
        ("convert_math_no_macro", mitex::convert_math_no_macro),
    ] {
        let r = guard(|| f(s, None)).map_err(|p| format!("{n}: {p}"))?;
        if let Err(e) = &r {
            if e.is_empty() {
                return Err(format!("{n}: an error without a message"));
            }
        }
        h.push(r);
        obs.transitions += 1;
        obs.traces += 1;
    }
    let t = guard(|| format!("{:?}", mitex_parser::parse(s, spec()))).map_err(|p| format!("parse: {p}"))?;
    obs.transitions += 1;
    obs.traces += 1;
    obs.outcome((h, t.len()));
    Ok(())
}

fn enumerate(ctx: &mut Ctx) {
    each_concat(ctx, "pieces", PIECES, 0, if ctx.quick() { 3 } else { 4 }, "", "");
    each_concat(ctx, "core", CORE, 4, 4, "", "");
    each_concat(ctx, "macro", MACRO, 4, if ctx.quick() { 6 } else { 7 }, "", "");
    each_concat(ctx, "menv", MACRO_ENV, 4, if ctx.quick() { 5 } else { 6 }, "\\newenvironment{x}", "");
    each_concat(ctx, "ifs", IFS, 4, if ctx.quick() { 6 } else { 7 }, "", "");
    each_concat(ctx, "envs", ENVS, 4, if ctx.quick() { 4 } else { 5 }, "", "");
    each_concat(ctx, "bytes", BYTES, 3, if ctx.quick() { 4 } else { 5 }, "", "");
    // one and two characters, every ascii pair
    for a in 0u8..128 {
        for b in 0u8..128 {
            let s = [a, b];
            ctx.case("ascii", &[std::str::from_utf8(&s).unwrap()]);
            for p in ["\\", "x^", "\\left", "\\frac", "\\newcommand{\\f}"] {
                if ctx.turn() {
                    let s = format!("{p}{}{}", a as char, b as char);
                    ctx.exec("ascii", &[&s]);
                }
            }
        }
    }
    ctx.bound("every pair of ASCII characters, alone and after a backslash, a script mark, \\left, \\frac and a definition");
    // every command and environment of the default specification, followed by each argument shape
    let sp = spec();
    let mut names: Vec<_> = sp.items().map(|(n, i)| (n.to_string(), matches!(i, mitex_spec::CommandSpecItem::Env(_)))).collect();
    names.sort();
    let tails = ["", "a", "é", "{}", "{a}", "{é", "[", "[]", "[a]", "(a)", "}", "^a", "_", "'", "&", "\\\\", "$", "\\right", "\\alpha", "#"];
    for (n, env) in &names {
        for t1 in tails {
            for t2 in tails {
                for wrap in ["@", "$@$", "{@}", "\\begin{matrix}@\\end{matrix}", "x@"] {
                    if ctx.turn() {
                        let s = if *env { format!("\\begin{{{n}}}{t1}{t2}\\end{{{n}}}") } else { format!("\\{n}{t1}{t2}") };
                        ctx.exec("spec", &[&wrap.replace('@', &s)]);
                    }
                }
            }
        }
    }
    ctx.bound(format!("{} commands and environments of the default specification x 400 pairs of arguments x 5 places", names.len()));
    // nesting
    for (o, c) in [
        ("{", "}"), ("[", "]"), ("(", ")"), ("\\frac{", "}{x}"), ("\\sqrt[", "]{x}"), ("x^{", "}"), ("\\left(", "\\right)"),
        ("\\begin{matrix}", "\\end{matrix}"), ("\\begin{itemize}\\item ", "\\end{itemize}"), ("\\text{$", "$}"), ("\\iftrue ", "\\fi "),
        ("\\iffalse ", "\\fi "), ("\\displaystyle ", ""), ("\\hat ", ""), ("x_", ""), ("x\\over ", ""), ("\\begin{figure}", "\\end{figure}"),
    ] {
        for d in [1usize, 2, 8, 32, 100, 200] {
            let whole = format!("{}a{}", o.repeat(d), c.repeat(d));
            for s in [whole, o.repeat(d), c.repeat(d), format!("{}a{}", o.repeat(d), c.repeat(d - 1))] {
                ctx.case("nest", &[&s]);
            }
        }
    }
    ctx.bound("17 constructs nested up to 200 deep, closed, open, one short");
    // cut off every document at every character
    for doc in DOCS {
        for (i, _) in doc.char_indices() {
            ctx.case("cut", &[&doc[..i]]);
            ctx.case("tail", &[&doc[i..]]);
            let mut e = i + 1;
            while !doc.is_char_boundary(e) {
                e += 1;
            }
            if ctx.turn() {
                let s = format!("{}{}", &doc[..i], &doc[e..]);
                ctx.exec("drop", &[&s]);
            }
        }
    }
    ctx.bound(format!("{} documents: every prefix, every suffix, every single deletion", DOCS.len()));
}

pub const DOCS: &[&str] = &[
    include_str!("../../docs/d1.tex"),
    include_str!("../../docs/d2.tex"),
    include_str!("../../docs/d3.tex"),
];
