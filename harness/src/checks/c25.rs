//! C25: lists, however they are laid out and nested.
use crate::den::*;
use crate::fw::*;

pub fn check() -> Check {
    Check {
        id: "C25",
        enumerate,
        run,
        rule: "a state is the stack of open lists (its kind, whether it has an item) with that of the line (at its start, after a blank, \
               within it); transitions are the pieces of a text; every sequence of pieces within the bounds that LaTeX accepts is \
               translated and evaluated by Typst, and compared with the items, paragraphs and texts that it says",
        assumptions: &["the installed Typst compiler is the judge of Typst", "two lists next to each other and one list are not told apart"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    run_one(kind, parts)
}

#[derive(Clone, Copy, PartialEq)]
enum Env {
    Items,
    Enum,
    Quote,
}
#[derive(Clone, Copy, PartialEq)]
enum Eye {
    New,
    Mid,
    Skip,
}
#[derive(Clone)]
struct State {
    /// open environments; whether the list has an item
    open: Vec<(Env, bool)>,
    eye: Eye,
    /// there is something in the line that \\ may end
    line: bool,
    words: usize,
    tex: String,
    den: String,
}

#[derive(Clone, Copy, PartialEq)]
enum P {
    Word,
    Text(&'static str, &'static str),
    Blank,
    Line,
    Par,
    Comment,
    Break,
    Item,
    Begin(Env),
    End,
}
use P::*;

fn step(s: &State, p: P, depth: usize) -> Option<State> {
    let mut n = s.clone();
    let in_list = matches!(s.open.last(), Some((Env::Items | Env::Enum, _)));
    let no_item = matches!(s.open.last(), Some((Env::Items | Env::Enum, false)));
    let content = |n: &mut State| {
        n.eye = Eye::Mid;
        n.line = true;
    };
    match p {
        Word => {
            if no_item {
                return None;
            }
            let c = (b'a' + s.words as u8) as char;
            n.words += 1;
            n.tex.push(c);
            n.den.push(c);
            content(&mut n);
        }
        Text(t, d) => {
            // ($x$$y$ would be a display equation)
            if no_item || t.starts_with('$') && s.tex.ends_with('$') {
                return None;
            }
            n.tex.push_str(t);
            n.den.push_str(d);
            content(&mut n);
        }
        Blank => {
            n.tex.push(' ');
            if s.eye == Eye::Mid {
                n.den.push(' ');
                n.eye = Eye::Skip;
            }
        }
        Line => {
            n.tex.push('\n');
            match s.eye {
                Eye::New => {
                    n.den.push_str("\n\n");
                    n.line = false;
                }
                Eye::Mid => n.den.push(' '),
                Eye::Skip => {}
            }
            n.eye = Eye::New;
        }
        Par => {
            n.tex.push_str("\n\n");
            n.den.push_str("\n\n");
            n.eye = Eye::New;
            n.line = false;
        }
        Comment => {
            n.tex.push_str("%c\n");
            n.eye = Eye::New;
        }
        Break => {
            if !s.line || no_item {
                return None;
            }
            n.tex.push_str("\\\\");
            n.den.push('↵');
            n.eye = Eye::Mid;
        }
        Item => {
            if !in_list {
                return None;
            }
            n.tex.push_str("\\item ");
            let (e, has) = n.open.last_mut().unwrap();
            if *has {
                n.den.push('⦆');
            }
            *has = true;
            n.den.push_str(if *e == Env::Items { "•⦅" } else { "№⦅" });
            n.eye = Eye::Skip;
            n.line = false;
        }
        Begin(e) => {
            if no_item || s.open.len() >= depth {
                return None;
            }
            n.tex.push_str(match e {
                Env::Items => "\\begin{itemize}",
                Env::Enum => "\\begin{enumerate}",
                Env::Quote => "\\begin{quote}",
            });
            if e == Env::Quote {
                n.den.push_str("quote(");
            }
            n.open.push((e, false));
            n.eye = Eye::Mid;
            n.line = false;
        }
        End => {
            let (e, has) = n.open.pop()?;
            if e != Env::Quote && !has {
                return None;
            }
            n.tex.push_str(match e {
                Env::Items => "\\end{itemize}",
                Env::Enum => "\\end{enumerate}",
                Env::Quote => "\\end{quote}",
            });
            n.den.push(if e == Env::Quote { ')' } else { '⦆' });
            n.eye = Eye::Mid;
            n.line = false;
        }
    }
    Some(n)
}

fn sweep(ctx: &mut Ctx, name: &str, alpha: &[P], len: usize, depth: usize) {
    let mut b = DenBatch::new("text");
    let mut count = 0u64;
    fn rec(ctx: &mut Ctx, b: &mut DenBatch, alpha: &[P], s: &State, left: usize, depth: usize, count: &mut u64) {
        if s.open.is_empty() {
            // (that it has a list at all)
            if s.tex.contains("\\item") {
                *count += 1;
                b.add(ctx, || (s.tex.clone(), s.den.clone()));
            }
        }
        // those open are to be closed
        let least = |s: &State| s.open.iter().map(|(e, has)| 1 + (*e != Env::Quote && !*has) as usize).sum::<usize>();
        if left == 0 {
            return;
        }
        for p in alpha {
            if let Some(n) = step(s, *p, depth) {
                if least(&n) < left {
                    rec(ctx, b, alpha, &n, left - 1, depth, count);
                }
            }
        }
    }
    let s = State { open: vec![], eye: Eye::Mid, line: false, words: 0, tex: String::new(), den: String::new() };
    rec(ctx, &mut b, alpha, &s, len, depth, &mut count);
    b.flush(ctx);
    ctx.bound(format!("{name}: all {count} texts with lists of up to {len} of {} pieces, up to {depth} deep", alpha.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let core = [Word, Blank, Line, Item, Begin(Env::Items), Begin(Env::Enum), End];
    sweep(ctx, "core", &core, if q { 8 } else { 10 }, 3);
    let more = [
        Word, Blank, Line, Par, Comment, Break, Item, Begin(Env::Items), Begin(Env::Enum), Begin(Env::Quote), End, Text("$x$", "「x」"),
        Text("\\textbf{p q}", "strong(p q)"), Text("{g\nh}", "g h"), Text("\\[y\\]", "『y』"), Text("-", "-"),
    ];
    sweep(ctx, "all pieces", &more, if q { 6 } else { 7 }, 3);
    let blocks = [
        Word, Blank, Line, Item, Begin(Env::Items), Begin(Env::Enum), End,
        Text("\\begin{tabular}{cc}p&q\\\\r&s\\end{tabular}", "table[center,center]⟦p¦q⁏r¦s⟧"),
        Text("\\begin{figure}p\\caption{q}\\end{figure}", "figure(p|q)"),
        Text("\\begin{align}x&y\\\\z\\end{align}", "『op(⦃x&y↵z⦄)』"),
        Text("$\\begin{matrix}x&y\\\\z\\end{matrix}$", "「mat(none,none)⟦x¦y⁏z⟧」"),
        Text("\\begin{quote}p q\\end{quote}", "quote(p q)"),
        Text("\\includegraphics{p}", "image(\"p\")"), Text("\\textcolor{red}{p}", "⦃⟪red⟫p⦄"), Text("\\section{p}", "heading1(p)"),
    ];
    sweep(ctx, "blocks", &blocks, if q { 5 } else { 7 }, 3);
    let deep = [Word, Item, Begin(Env::Items), Begin(Env::Enum), End, Par];
    sweep(ctx, "deep", &deep, if q { 9 } else { 12 }, 5);
}
