//! C29: tokens partition the source, and the lexer is a cursor over them.
use crate::fw::*;
use crate::reflex;
use crate::util::*;
use mitex_lexer::{CommandName, Lexer, MacroEngine, Token};
use std::collections::VecDeque;

pub fn check() -> Check {
    Check {
        id: "C29",
        enumerate,
        run,
        rule: "a state is what is left of the token sequence (by an independent reference lexer) after some calls of the \
               cursor; transitions are eat and consume, both applied to a clone of the real lexer, and all peeks are compared",
        assumptions: &["bytes are consumed at character boundaries, as the parser does"],
        hang_s: 30,
    }
}

pub const PIECES: &[&str] = &[
    "a", "é", "b1", " ", "\u{3000}", "\t", "\n", "\r\n", "%", "%c\n", "{", "}", "[", "]", "(", ")", ",", "~", "/", "&", "^", "_", "'",
    "\"", ";", "#", "*", "@", "$", "\\", "\\\\", "\\a", "\\operatorname", "\\if", "typst", "false", "\\else", "\\fi", "\\left",
    "\\right", "\\begin", "\\end", "{ab}", "\u{301}", "|", "-", "\u{0}", "\\newcommand",
];
const NAMES: &[&str] = &["\\begin", "\\end", "{", "}", "ab", "*", "@", "%", "\n", "\r", " ", "\u{3000}", "é", "\\", "1"];

fn model<'a>(s: &'a str) -> VecDeque<(Token, &'a str)> {
    reflex::lex(s, &mitex_spec_gen::DEFAULT_SPEC).into()
}

fn walk<'a>(l: &Lexer<'a>, m: &VecDeque<(Token, &'a str)>, depth: usize, obs: &mut Obs, trace: &mut Vec<String>) -> Result<(), String> {
    obs.states += 1;
    let f = m.front();
    let got = (l.peek(), l.peek_text(), l.peek_char());
    let want = (f.map(|t| t.0), f.map(|t| t.1), f.and_then(|t| t.1.chars().next()));
    if got != want {
        return Err(format!("after {trace:?}: the cursor is at {got:?}, expected {want:?}"));
    }
    if depth == 0 {
        return Ok(());
    }
    let mut go = |l2: Lexer<'a>, m2: VecDeque<(Token, &'a str)>, name: String, obs: &mut Obs| {
        obs.transitions += 1;
        trace.push(name);
        walk(&l2, &m2, depth - 1, obs, trace)?;
        trace.pop();
        Ok::<_, String>(())
    };
    let (mut l2, mut m2) = (l.clone(), m.clone());
    let (a, b) = (l2.eat(), m2.pop_front());
    if a != b {
        return Err(format!("after {trace:?}: eat gives {a:?}, expected {b:?}"));
    }
    go(l2, m2, "eat".into(), obs)?;
    let mut cuts = vec![0];
    if let Some((_, t)) = f {
        cuts.extend(t.char_indices().skip(1).take(2).map(|c| c.0));
        cuts.push(t.len());
        cuts.push(t.len() + 1);
    }
    for c in cuts {
        if c == 0 && f.is_some_and(|t| t.1.is_empty()) {
            continue;
        }
        let (mut l2, mut m2) = (l.clone(), m.clone());
        l2.consume_utf8_bytes(c);
        if let Some(x) = m2.pop_front() {
            if c < x.1.len() {
                m2.push_front((x.0, &x.1[c..]));
            }
        }
        if c > 0 || depth > 1 {
            go(l2, m2, format!("consume({c})"), obs)?;
        }
    }
    Ok(())
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let s = parts[0];
    let m = model(s);
    obs.traces += 1;
    obs.outcome(&m);
    // partition: nothing is lost, but what \begin and \end write around of a name
    if !m.iter().any(|t| matches!(t.0, Token::CommandName(CommandName::BeginEnvironment | CommandName::EndEnvironment))) {
        let all: String = m.iter().map(|t| t.1).collect();
        if all != s {
            return Err("check error: the reference loses text".into());
        }
    }
    let mut a = Lexer::<()>::new(s, spec());
    match kind {
        "cursor" => {
            let (skip, depth): (usize, usize) = (parts[1].parse().unwrap(), parts[2].parse().unwrap());
            let mut m = m;
            for _ in 0..skip {
                if a.eat() != m.pop_front() {
                    return Err("a token is wrong before the walk".into());
                }
            }
            walk(&a, &m, depth, obs, &mut vec![])
        }
        _ => {
            obs.states += m.len() as u64 + 1;
            obs.transitions += m.len() as u64;
            let has_macro = ["command", "environment", "DeclareRobustCommand"].iter().any(|d| s.contains(d)) || s.contains("\\if") || s.contains("\\else") || s.contains("\\fi");
            let mut b = (!has_macro).then(|| Lexer::new_with_bumper(s, spec(), MacroEngine::new(spec())));
            for (i, t) in m.iter().map(Some).chain([None, None]).enumerate() {
                let x = a.eat();
                if x.as_ref() != t {
                    return Err(format!("token {i} is {x:?}, expected {t:?}"));
                }
                if let Some(b) = &mut b {
                    let x = b.eat();
                    if x.as_ref() != t {
                        return Err(format!("with macros, token {i} is {x:?}, expected {t:?}"));
                    }
                }
            }
            Ok(())
        }
    }
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    each_concat(ctx, "tokens", PIECES, 0, if q { 4 } else { 5 }, "", "");
    each_concat(ctx, "tokens", NAMES, 0, if q { 5 } else { 7 }, "\\begin", "");
    each_concat(ctx, "tokens", NAMES, 0, if q { 5 } else { 6 }, "\\end{", "");
    // every command of the specification, with and without a star and a letter behind
    let sp = spec();
    let mut names: Vec<&str> = sp.items().map(|i| i.0).collect();
    names.sort();
    for n in &names {
        for post in ["", "*", "a", "@", " ", "1", "*a"] {
            ctx.case("tokens", &[&format!("\\{n}{post}")]);
        }
    }
    ctx.bound(format!("every one of {} names of the specification, with 7 endings", names.len()));
    // every character of the first planes alone, in a word and after a backslash
    let hi = if q { 0x3100 } else { 0x1_0000 };
    for c in (0..hi).filter_map(char::from_u32) {
        for t in [format!("{c}"), format!("a{c}b"), format!("\\{c}"), format!("\\a{c}"), format!("\\begin{{a{c}}}")] {
            ctx.case("tokens", &[&t]);
        }
    }
    ctx.bound(format!("every character below U+{hi:X}, in 5 contexts"));
    // cursor walks, also over the borders of the token pages
    let d = if q { 4 } else { 6 };
    let ds = d.to_string();
    for s in ["abc é{xy}\\frac1", "\\begin{ab}x\\end{ab}\\\\ \u{301}é", "", "é", "a%c\nbc"] {
        ctx.case("cursor", &[s, "0", &ds]);
    }
    for n in 150..=350 {
        let s: String = (0..n).map(|i| if i % 2 == 0 { "ab" } else { "}" }).collect();
        for back in 0..=4 {
            ctx.case("cursor", &[&s, &(n - back).to_string(), &ds]);
        }
        let t: String = "éa,".repeat(200);
        ctx.case("cursor", &[&t, &n.to_string(), &ds]);
        ctx.case("tokens", &[&s]);
    }
    ctx.bound(format!("cursor: every sequence of {d} calls, at every position from 150 to 350 tokens and on five short texts"));
}
