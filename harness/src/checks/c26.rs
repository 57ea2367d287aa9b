//! C26: labels are on what they name, and references find them.
use crate::den::*;
use crate::fw::*;

pub fn check() -> Check {
    Check {
        id: "C26",
        enumerate,
        run,
        rule: "a state is the stack of open environments (kind, label, caption), what a label now names, and that of the line; transitions \
               are the pieces of a text with headings, equations, figures and labels; every sequence of pieces within the bounds that LaTeX \
               accepts, and every key within the bounds, is translated and evaluated by Typst, and compared with what has which label",
        assumptions: &[
            "the installed Typst compiler is the judge of Typst",
            "one label for an environment, or for a heading, right after it",
        ],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    run_one(kind, parts)
}

#[derive(Clone, Copy, PartialEq)]
enum Env {
    /// (its name)
    Equation(&'static str),
    Inner(&'static str),
    Figure(&'static str),
    Tabular,
    Itemize,
    Quote,
}
use Env::*;

#[derive(Clone, Copy, PartialEq)]
enum Eye {
    New,
    Mid,
    Skip,
}

#[derive(Clone)]
struct Open {
    env: Env,
    den: String,
    label: Option<String>,
    caption: Option<String>,
    item: bool,
}

#[derive(Clone)]
struct State {
    open: Vec<Open>,
    den: String,
    /// a label would name the heading before it
    head: bool,
    eye: Eye,
    words: usize,
    labels: usize,
    tex: String,
}
impl State {
    fn start() -> State {
        State { open: vec![], den: String::new(), head: false, eye: Eye::Mid, words: 0, labels: 0, tex: String::new() }
    }
    fn out(&mut self, s: &str) {
        match self.open.last_mut() {
            Some(o) => o.den.push_str(s),
            None => self.den.push_str(s),
        }
    }
    fn math(&self) -> bool {
        self.open.iter().any(|o| matches!(o.env, Equation(_)))
    }
    fn word(&mut self) -> char {
        self.words += 1;
        (b'a' + self.words as u8 - 1) as char
    }
    /// An item is to begin first
    fn no_item(&self) -> bool {
        self.open.last().is_some_and(|o| o.env == Itemize && !o.item)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum P {
    Word,
    Blank,
    Line,
    Par,
    Comment,
    Head(&'static str, u32),
    /// with this much around the key
    Label(&'static str),
    Caption { labelled: bool },
    Item,
    Text(&'static str, &'static str),
    Begin(Env),
    End,
}
use P::*;

fn name(e: Env) -> &'static str {
    match e {
        Equation(n) | Inner(n) | Figure(n) => n,
        Tabular => "tabular",
        Itemize => "itemize",
        Quote => "quote",
    }
}

fn step(s: &State, p: P, depth: usize) -> Option<State> {
    let mut n = s.clone();
    let top = s.open.last().map(|o| o.env);
    match p {
        Word => {
            if s.no_item() {
                return None;
            }
            let c = n.word();
            n.tex.push(c);
            n.out(&c.to_string());
            n.eye = Eye::Mid;
            n.head = false;
        }
        Text(t, d) => {
            if s.math() || s.no_item() || t.starts_with('$') && s.tex.ends_with('$') {
                return None;
            }
            let centering = t.starts_with("\\centering");
            // (the blanks after a command in a text are kept, and seen between words)
            if centering && !s.open.last().is_some_and(|o| matches!(o.env, Figure(_)) && o.den.trim().is_empty()) {
                return None;
            }
            n.tex.push_str(t);
            n.out(d);
            n.eye = if centering { Eye::Skip } else { Eye::Mid };
            n.head = false;
        }
        Blank => {
            n.tex.push(' ');
            if s.eye == Eye::Mid {
                n.out(" ");
                n.eye = Eye::Skip;
            }
        }
        Line => {
            if s.eye == Eye::New {
                return None;
            }
            n.tex.push('\n');
            if s.eye == Eye::Mid {
                n.out(" ");
            }
            n.eye = Eye::New;
        }
        Par => {
            if s.math() || top == Some(Tabular) || s.no_item() {
                return None;
            }
            n.tex.push_str("\n\n");
            n.out("\n\n");
            n.eye = Eye::New;
        }
        Comment => {
            n.tex.push_str("%c\n");
            n.eye = Eye::New;
        }
        Head(t, level) => {
            if !s.open.is_empty() {
                return None;
            }
            let c = n.word();
            n.tex.push_str(&format!("\\{t}{{{c}}}"));
            n.out(&format!("heading{level}({c})"));
            n.head = true;
            n.eye = Eye::Mid;
        }
        Label(around) => {
            let l = format!("l:{}", s.labels);
            n.labels += 1;
            // of what it is
            let math = s.open.iter().position(|o| matches!(o.env, Equation(_)));
            let fig = s.open.iter().rposition(|o| matches!(o.env, Figure(_)));
            let at = match (math, fig, top) {
                (Some(i), ..) => Some(i),
                (None, Some(i), Some(Figure(_))) if s.open[i].caption.is_some() => Some(i),
                (None, None, None) if s.head => None,
                _ => return None,
            };
            match at {
                Some(i) => {
                    if n.open[i].label.is_some() {
                        return None;
                    }
                    n.open[i].label = Some(l.clone());
                }
                None => {
                    // (the blanks before it mean nothing)
                    let d = n.den.trim_end_matches([' ', '\n']).to_string();
                    n.den = format!("{d}⟨{l}⟩{}", &s.den[d.len()..]);
                    n.head = false;
                }
            }
            n.tex.push_str(&format!("\\label{around}{{{l}}}"));
            n.eye = Eye::Mid;
        }
        Caption { labelled } => {
            if !matches!(top, Some(Figure(_))) || n.open.last()?.caption.is_some() || labelled && n.open.last()?.label.is_some() {
                return None;
            }
            let c = n.word();
            let l = format!("l:{}", s.labels);
            let o = n.open.last_mut()?;
            o.caption = Some(c.to_string());
            if labelled {
                o.label = Some(l.clone());
                n.labels += 1;
                n.tex.push_str(&format!("\\caption{{{c}\\label{{{l}}}}}"));
            } else {
                n.tex.push_str(&format!("\\caption{{{c}}}"));
            }
            n.eye = Eye::Mid;
        }
        Item => {
            if top != Some(Itemize) {
                return None;
            }
            n.tex.push_str("\\item ");
            let o = n.open.last_mut()?;
            o.den.push_str(if o.item { "⦆•⦅" } else { "•⦅" });
            o.item = true;
            n.eye = Eye::Skip;
        }
        Begin(e) => {
            let float = s.open.iter().any(|o| matches!(o.env, Figure(_) | Tabular));
            let ok = match e {
                Equation(_) => !s.math() && top != Some(Tabular),
                Inner(_) => s.math(),
                Figure(_) => !s.math() && !float,
                Tabular => !s.math() && top != Some(Tabular),
                Itemize | Quote => !s.math() && top != Some(Tabular),
            };
            if !ok || s.no_item() || s.open.len() >= depth {
                return None;
            }
            n.tex.push_str(&format!("\\begin{{{}}}{}", name(e), if e == Tabular { "{c}" } else { "" }));
            n.open.push(Open { env: e, den: String::new(), label: None, caption: None, item: false });
            n.eye = Eye::Mid;
            n.head = false;
        }
        End => {
            if s.no_item() {
                return None;
            }
            let o = n.open.pop()?;
            n.tex.push_str(&format!("\\end{{{}}}", name(o.env)));
            let body = &o.den;
            let label = o.label.map(|l| format!("⟨{l}⟩")).unwrap_or_default();
            let d = match o.env {
                Equation(_) => format!("『op(⦃{body}⦄)』{label}"),
                Inner("cases") => format!("cases⟦{body}⟧"),
                Inner("aligned") => format!("op(⦃{body}⦄)"),
                Inner(_) => format!("mat(none,none)⟦{body}⟧"),
                Figure(_) => format!("figure({}{})", body.trim(), o.caption.map(|c| format!("|{c}")).unwrap_or_default()) + &label,
                Tabular => format!("table[center]⟦{body}⟧"),
                Itemize => body.to_string() + "⦆",
                Quote => format!("quote({body})"),
            };
            n.out(&d);
            n.eye = Eye::Mid;
            n.head = false;
        }
    }
    Some(n)
}

fn sweep(ctx: &mut Ctx, name: &str, alpha: &[P], len: usize, depth: usize) {
    let mut b = DenBatch::new("text");
    let mut count = 0u64;
    fn rec(ctx: &mut Ctx, b: &mut DenBatch, alpha: &[P], s: &State, left: usize, depth: usize, count: &mut u64) {
        if s.open.is_empty() && s.labels > 0 {
            *count += 1;
            b.add(ctx, || (s.tex.clone(), s.den.clone()));
        }
        let least = |s: &State| s.open.iter().map(|o| 1 + (o.env == Itemize && !o.item) as usize).sum::<usize>();
        if left == 0 {
            return;
        }
        for p in alpha {
            if let Some(n) = step(s, *p, depth) {
                if least(&n) < left {
                    rec(ctx, b, alpha, &n, left - 1, depth, count);
                }
            }
        }
    }
    rec(ctx, &mut b, alpha, &State::start(), len, depth, &mut count);
    b.flush(ctx);
    ctx.bound(format!("{name}: all {count} texts with labels of up to {len} of {} pieces, up to {depth} deep", alpha.len()));
}

/// Keys: the label and the references to it.
fn keys(ctx: &mut Ctx, alpha: &[&str], len: usize) {
    let mut b = DenBatch::new("text");
    let mut count = 0u64;
    crate::util::seqs(alpha.len(), 1, len, |v| {
        let key: String = v.iter().map(|i| alpha[*i]).collect();
        if key != key.trim() || key.contains("  ") {
            return;
        }
        let k = format!("⟨{}⟩", key.replace(' ', "␣"));
        for (t, d) in [
            ("\\section{A}\\label{①}", "heading1(A)②"),
            ("\\begin{equation}x\\label{①}\\end{equation}", "『op(⦃x⦄)』②"),
            ("\\begin{figure}\\caption{x\\label{①}}\\end{figure}", "figure(|x)②"),
            ("p \\ref{①}q", "p ref②q"),
            ("\\eqref{①}", "ref②"),
            ("\\cite{①}", "cite②"),
        ] {
            if t.starts_with("\\cite") && key.contains(',') {
                continue;
            }
            count += 1;
            b.add(ctx, || (t.replace('①', &key), d.replace('②', &k)));
            // with a comment in the key, which is none of it
            if v.len() > 3 {
                continue;
            }
            for at in 0..=v.len() {
                let (l, r): (String, String) = (v[..at].iter().map(|i| alpha[*i]).collect(), v[at..].iter().map(|i| alpha[*i]).collect());
                if r.starts_with(' ') {
                    continue;
                }
                count += 1;
                b.add(ctx, || (t.replace('①', &format!("{l}%c,|\n  {r}")), d.replace('②', &k)));
            }
        }
    });
    b.flush(ctx);
    ctx.bound(format!("keys: all of up to {len} of {} characters, in labels of headings, equations and figures and in references: {count} texts", alpha.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    keys(ctx, &["a", "1", "_", "-", ":", "."], if q { 4 } else { 5 });
    keys(ctx, &["a", "1", "/", "+", "*", "'", "(", ")", "=", "@", " ", "!", "?", "-", "\"", ";", ",", "é", "图", "<", ">", "|"], if q { 2 } else { 3 });
    let eqn = Begin(Equation("equation"));
    let core = [Word, Blank, Label(""), Head("section", 1), eqn, Begin(Figure("figure")), Caption { labelled: false }, End];
    sweep(ctx, "core", &core, if q { 8 } else { 10 }, 2);
    let space = [Word, Blank, Line, Par, Comment, Label(""), Label(" "), Head("subsection", 2), eqn, End];
    sweep(ctx, "spaces", &space, if q { 6 } else { 8 }, 2);
    let more = [
        Word, Blank, Label(""), Head("subsubsection", 3), eqn, Begin(Equation("align")), Begin(Inner("matrix")), Begin(Inner("cases")), Begin(Inner("aligned")),
        Begin(Figure("table")), Begin(Tabular), Begin(Itemize), Begin(Quote), Item, Caption { labelled: true }, Caption { labelled: false }, End,
        Text("\\ref{r}", "ref⟨r⟩"), Text("$x$", "「x」"), Text("\\centering ", ""), Text("\\includegraphics[width=0.5\\textwidth]{p}", "image(width: 50%, \"p\")"),
    ];
    sweep(ctx, "all pieces", &more, if q { 5 } else { 7 }, 3);
    // what stands around the caption and the label of a figure
    let around = [
        Word, Blank, Label(""), Begin(Figure("figure")), Begin(Figure("table")), Caption { labelled: true }, Caption { labelled: false }, End,
        Text("\\begin{itemize}\\item p\\end{itemize}", "•⦅p⦆"), Text("\\begin{tabular}{c}p\\end{tabular}", "table[center]⟦p⟧"),
        Text("\\begin{quote}p\\end{quote}", "quote(p)"), Text("\\begin{equation}x\\end{equation}", "『op(⦃x⦄)』"), Text("\\(x\\)", "「x」"),
        Text("{p}", "p"), Text("\\textbf{p}", "strong(p)"), Text("\\cite{k}", "cite⟨k⟩"),
    ];
    sweep(ctx, "around", &around, if q { 6 } else { 7 }, 2);
    let deep = [Label(""), eqn, Begin(Inner("matrix")), Begin(Inner("cases")), Begin(Quote), End, Word];
    sweep(ctx, "deep", &deep, if q { 9 } else { 12 }, 4);
}
