//! C02: the syntax tree loses nothing.
use crate::fw::*;
use crate::reflex;
use crate::util::*;
use mitex_lexer::{CommandName, IfCommandName, Token};
use mitex_parser::syntax::{SyntaxKind, SyntaxNode};

pub fn check() -> Check {
    Check {
        id: "C02",
        enumerate,
        run,
        rule: "a state is a source text with its sequence of tokens by the reference lexer; transitions are the tokens; the leaves \
               of the real syntax tree, without and with macro expansion, are compared with them one by one",
        assumptions: &["blanks and comments (also those of \\iffalse) are not content"],
        hang_s: 30,
    }
}

pub const PIECES: &[&str] = &[
    "a", "xy", "é1", " ", "\n", "%c\n", "{", "}", "[", "]", "(", ")", ",", "~", "&", "^", "_", "'", "#", "*", "@", "$", "\\\\", "\\(", "\\)", "\\[",
    "\\]", "\\alpha", "\\frac", "\\sqrt", "\\limits", "\\over", "\\displaystyle", "\\left", "\\right", "\\text", "\\begin{matrix}",
    "\\begin{array}", "\\end{matrix}", "\\begin", "\\end", "\\iffalse", "\\iftypst", "\\fi", "\\substack", "\\hbar", "\\unknown", "/",
    "\"", ";", "\\", "\\begin {u}", "\\item",
];
const CORE: &[&str] = &[
    "ab", " ", "{", "}", "[", "]", "&", "_", "'", "$", "\\\\", "\\frac", "\\sqrt", "\\limits", "\\over", "\\bf", "\\left", "\\right",
    "\\begin{matrix}", "\\begin{array}", "\\end{matrix}", "\\iffalse", "\\fi",
];

/// Words next to each other are one: the parser splits them into characters.
fn push(v: &mut Vec<(SyntaxKind, String)>, k: SyntaxKind, t: &str) {
    match v.last_mut() {
        Some(l) if l.0 == SyntaxKind::TokenWord && k == l.0 => l.1.push_str(t),
        _ => v.push((k, t.to_string())),
    }
}
fn trivia(k: SyntaxKind) -> bool {
    use SyntaxKind::*;
    matches!(k, TokenWhiteSpace | TokenLineBreak | TokenComment)
}
fn leaves(n: &SyntaxNode) -> Vec<(SyntaxKind, String)> {
    let mut v = vec![];
    for t in n.descendants_with_tokens().filter_map(|e| e.into_token()) {
        if !trivia(t.kind()) && !t.parent_ancestors().any(|n| n.kind() == SyntaxKind::ItemBlockComment) {
            // \left and \right take the name of a command as a symbol
            let k = if t.kind() == SyntaxKind::TokenCommandSym && t.text().starts_with('\\') { SyntaxKind::ClauseCommandName } else { t.kind() };
            push(&mut v, k, t.text());
        }
    }
    v
}

fn expected(toks: &[reflex::Tok]) -> Vec<(SyntaxKind, String)> {
    use CommandName::*;
    let mut v = vec![];
    // (depth, whether it is kept): comments are not, the code for typst is
    let mut skip: Option<(usize, bool)> = None;
    for (t, s) in toks {
        match (t, &mut skip) {
            (Token::CommandName(If(i @ (IfCommandName::IfFalse | IfCommandName::IfTypst))), None) => {
                skip = Some((0, *i == IfCommandName::IfTypst));
                continue;
            }
            (Token::CommandName(If(_)), Some(d)) => d.0 += 1,
            (Token::CommandName(EndIf), Some((0, _))) => {
                skip = None;
                continue;
            }
            (Token::CommandName(EndIf), Some(d)) => d.0 -= 1,
            _ => {}
        }
        let k = SyntaxKind::from(*t);
        if !trivia(k) && skip.is_none_or(|k| k.1) {
            push(&mut v, k, s);
        }
    }
    v
}

fn run(_kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let s = parts[0];
    let toks = reflex::lex(s, &mitex_spec_gen::DEFAULT_SPEC);
    let want = expected(&toks);
    obs.states += 1;
    obs.transitions += toks.len() as u64;
    obs.traces += 1;
    let plain = mitex_parser::parse_without_macro(s, spec());
    let got = leaves(&plain);
    if got != want {
        let i = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return Err(format!("leaf {i} of the tree is {:?}, token {i} is {:?}", got.get(i), want.get(i)));
    }
    obs.outcome((got.len(), plain.descendants().count(), plain.text().len()));
    // nothing is defined: expansion changes nothing
    if !toks.iter().any(|t| matches!(t.0, Token::CommandName(CommandName::If(IfCommandName::IfTrue) | CommandName::Else))) {
        obs.traces += 1;
        let m = mitex_parser::parse(s, spec());
        if m.green() != plain.green() {
            return Err(format!("the tree with macro expansion differs\n{m:#?}\n{plain:#?}"));
        }
    }
    Ok(())
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    each_concat(ctx, "pieces", PIECES, 0, if q { 3 } else { 4 }, "", "");
    each_concat(ctx, "core", CORE, 4, if q { 4 } else { 5 }, "", "");
    // at every distance from the ends of the pages of the token buffers
    let max = if q { 360 } else { 700 };
    for n in 0..=max {
        for a in PIECES {
            for b in if q { &["b"][..] } else { CORE } {
                if ctx.turn() {
                    ctx.exec("page", &[&format!("{}{a}{b}", ",".repeat(n))]);
                }
            }
        }
    }
    ctx.bound(format!("every piece after 0 to {max} tokens"));
    // every command and environment of the specification before and after of things
    let sp = spec();
    let mut names: Vec<(&str, bool)> = sp.items().map(|i| (i.0, matches!(i.1, mitex_parser::spec::CommandSpecItem::Env(_)))).collect();
    names.sort();
    // (definitions are the subject of C06 and C07)
    names.retain(|n| !(n.0.contains("command") || n.0.contains("Command") || n.0.contains("environment")));
    let after = ["", "ab", " b", "{b}", "[b]", "(b)", "^b", "'", "&", "\\\\", "\\alpha", "}", "%c\nb"];
    for (n, env) in &names {
        for pre in ["", "a", "{a", "$a"] {
            for x in after {
                for y in after {
                    let cmd = if *env { format!("\\begin{{{n}}}") } else { format!("\\{n}") };
                    let sep = if x.starts_with(|c: char| c.is_ascii_alphabetic()) { " " } else { "" };
                    ctx.case("spec", &[&format!("{pre}{cmd}{sep}{x}{y}")]);
                }
            }
        }
    }
    ctx.bound(format!("every one of {} names of the specification with all pairs of {} following pieces, in 4 places", names.len(), after.len()));
}
