//! C24: every command of the specification arrives at a handler.
use crate::fw::*;
use crate::globm::{self, Nfa};
use crate::typst::*;
use crate::util::*;
use mitex_spec::{ArgPattern, ArgShape, CommandSpecItem, ContextFeature};

pub fn check() -> Check {
    Check {
        id: "C24",
        enumerate,
        run,
        rule: "a state is a command or environment of the specification with a complete choice of arguments in a context; its \
               translation is a transition to a Typst state: the compiler resolves the handler in mitex-scope (or its own scope), \
               calls it and lays the result out",
        assumptions: &[
            "the installed Typst compiler is the judge of Typst",
            "arguments that are names (labels, colors, lengths) are given as such",
        ],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    run_one(kind, parts[0])
}

/// Commands which are not for users: their handling is the converter's or the macro engine's.
const INTERNAL: &[&str] = &["item", "def", "textwidth", "if", "iffalse", "iftrue", "newline", "toprule", "midrule", "bottomrule"];

/// Commands of texts.
const TEXT: &[&str] = &["section", "subsection", "subsubsection", "footnote", "emph", "centering", "textbf", "textit"];

/// What a command takes as its arguments, if that is not any content.
fn special(name: &str) -> Option<&'static [&'static [&'static str]]> {
    Some(match name {
        "cite" | "ref" | "eqref" => &[],
        "mathscr" => &[&["{A}", "{AB}", " A"]],
        "raisebox" => &[&["{1em}", "{2pt}"], &["{a}", "{\\frac{a}{b}}"]],
        "vspace" | "hspace" => &[&["{1em}", "{2pt}"]],
        "color" => &[&["{red} x", "{blue}{x}y", "[rgb]{1,0,0}x", "[gray]{0.5} x", "[HTML]{ff0000} x", "{unknown}x"]],
        "textcolor" | "colorbox" => &[&["{red}", "{blue}", "[rgb]{1,0,0}", "[RGB]{1,2,3}", "[HTML]{ff0000}", "[cmyk]{0,0,0,1}", "[gray]{0.3}", "{unknown}"], &["{x}", "{\\alpha y}"]],
        "middle" => &[&["|", "\\vert ", "{|}"]],
        "includegraphics" => &[],
        _ => return None,
    })
}

fn product(sets: &[&[&str]], pre: String, f: &mut impl FnMut(String)) {
    match sets {
        [] => f(pre),
        [s, rest @ ..] => {
            for x in *s {
                product(rest, format!("{pre}{x}"), f);
            }
        }
    }
}

/// All words of a pattern of up to `n` letters.
fn words(p: &str, n: usize) -> Vec<String> {
    let a = Nfa::new(&globm::parse(p).expect("pattern"));
    let mut r = vec![];
    seqs(globm::SIGMA.len(), 0, n, |v| {
        let w: Vec<u8> = v.iter().map(|i| globm::SIGMA[*i]).collect();
        if a.accepts(&w) {
            r.push(String::from_utf8(w).unwrap());
        }
    });
    r
}

/// Complete uses of all entries, as formulas and as texts.
pub fn uses(q: bool) -> Vec<(&'static str, String)> {
    let mut all = vec![];
    let sp = spec();
    let mut items: Vec<_> = sp.items().collect();
    items.sort_by_key(|i| i.0);
    let many: &[&str] = &["{a}", "a", "{\\alpha }", "{}", "{x_1^2}", " {\\frac{1}{2}}", "{\\text{w}}", "{a,b;c}", "\\beta "];
    let few: &[&str] = &["{a}", "{x_1}", "{}"];
    let args = if q { few } else { many };
    let mut wraps: Vec<(&str, &str)> = vec![("", ""), ("x ", "^2_3"), ("\\frac{", "}{2}"), ("\\begin{matrix}a&", "\\\\b\\end{matrix}")];
    if !q {
        wraps.extend([("\\left(", "\\right)"), ("{", "\\over b}"), ("\\hat{", "}"), ("\\displaystyle ", ""), ("\\begin{aligned}a&=", "\\\\b\\end{aligned}"), ("\\sqrt[3]{", "}"), ("\\text{a $", "$}")]);
    }
    for (name, item) in &items {
        let mut extra: Vec<String> = vec![];
        let mut b: Vec<String> = vec![];
        if INTERNAL.contains(name) {
            continue;
        }
        match item {
            CommandSpecItem::Cmd(c) => {
                if mitex_lexer_only(name) {
                    continue;
                }
                if let Some(s) = special(name) {
                    if !s.is_empty() {
                        let sets: Vec<&[&str]> = s.to_vec();
                        product(&sets, format!("\\{name}"), &mut |u| b.push(format!("{{{u}}}")));
                    }
                } else {
                match &c.args {
                    ArgShape::Right { pattern } => match pattern {
                        ArgPattern::None | ArgPattern::FixedLenTerm { len: 0 } => b.push(format!("\\{name} ")),
                        ArgPattern::FixedLenTerm { len } | ArgPattern::RangeLenTerm { max: len, .. } => {
                            let sep = if name.chars().all(|c| c.is_ascii_alphabetic()) { " " } else { "" };
                            product(&vec![args; *len as usize], format!("\\{name}{sep}"), &mut |u| b.push(u));
                        }
                        ArgPattern::Greedy => {
                            for a in args {
                                b.push(format!("{{\\{name} {a}}}"));
                                b.push(format!("{{\\{name} {a} z}}"));
                            }
                            b.push(format!("{{\\{name} }}"));
                        }
                        ArgPattern::Glob { pattern } => {
                            for w in words(&pattern.0, 3) {
                                let sets: Vec<&[&str]> = w
                                    .bytes()
                                    .map(|k| match k {
                                        b't' => args,
                                        b'b' => &["[3]", "[n]", "[]", "[\\frac{1}{2}]"] as &[&str],
                                        _ => &["(3)", "()"],
                                    })
                                    .collect();
                                product(&sets, format!("\\{name} "), &mut |u| b.push(u));
                            }
                        }
                    },
                    ArgShape::Left1 => {
                        b.push(format!("\\sum\\{name} "));
                        b.push(format!("\\int\\{name}_{{a}}^b"));
                        b.push(format!("{{A}}\\{name}_0"));
                    }
                    ArgShape::InfixGreedy => {
                        for a in args {
                            for c in args {
                                b.push(format!("{{{a}\\{name} {c}}}"));
                            }
                        }
                    }
                }
            }
            }
            CommandSpecItem::Env(e) => {
                let arg = match &e.args {
                    ArgPattern::None | ArgPattern::Glob { .. } => "",
                    _ if *name == "array" || *name == "subarray" => "{lc|r}",
                    _ => "{2}",
                };
                let bodies: &[&str] = match e.ctx_feature {
                    ContextFeature::IsMath => &["a", "a&=b", "a&=b\\\\c&=d", "a\\\\b\\\\", "", "\\frac{a}{b}", " a \n", "a,b&;c"],
                    ContextFeature::IsMatrix => &["a", "a&b", "a&b\\\\c&d", "a&\\\\&b", "a\\\\b\\\\", "", "&", "\\frac{a}{b}&x_1", "a,b&c;d\\\\e", "a&b\\\\c"],
                    ContextFeature::IsCases => &["a", "a&b", "a&b\\\\c&d", "a\\\\b\\\\", "", "a,&b;c\\\\d", "\\frac12&\\text{if}\\\\0&\\text{else}"],
                    _ => {
                        let bodies: &[&str] = match e.ctx_feature {
                            ContextFeature::IsItemize | ContextFeature::IsEnumerate => &["\\item a", "\\item a\n\\item b\n", "", "\\item \\begin{itemize}\\item x\\end{itemize}\\item $y$"],
                            ContextFeature::IsTable => &["a&b\\\\c&d", "\\hline a&b\\\\\\hline c&d\\\\\\hline", "", "a&b", "\\toprule\na&b\\\\\n\\midrule\nc&$d$\\\\\n\\bottomrule\n"],
                            ContextFeature::IsFigure => &["a", "\\caption{c}a", "\\centering a\\caption{x $y$}", "\\label{l}a", "[ht]a"],
                            _ => &["a", "", "$x$ a\n\nb", "\\textbf{a}"],
                        };
                        let arg = if *name == "tabular" { "{c|l}" } else { "" };
                        for x in bodies {
                            extra.push(format!("\\begin{{{name}}}{arg}{x}\\end{{{name}}}"));
                            extra.push(format!("a\n\\begin{{{name}}}{arg}\n{x}\n\\end{{{name}}}\nb"));
                        }
                        for x in extra {
                            all.push(("text", x));
                        }
                        continue;
                    }
                };
                for x in bodies {
                    b.push(format!("\\begin{{{name}}}{arg}{x}\\end{{{name}}}"));
                    extra.push(format!("a \\begin{{{name}}}{arg}{x}\\end{{{name}}} b"));
                }
            }
            #[allow(unreachable_patterns)]
            _ => {}
        }
        let text = TEXT.contains(name);
        for u in b {
            if text {
                all.push(("text", format!("a {u} b")));
                all.push(("text", format!("\\textbf{{{u}}}")));
                continue;
            }
            // What stands for nothing is no argument on its own.
            let nothing = math(&u).is_ok_and(|o| o.trim().is_empty());
            for (pre, post) in &wraps {
                if nothing && *pre == "\\hat{" {
                    all.push(("math", format!("{pre}c {u}{post}")));
                    continue;
                }
                all.push(("math", format!("{pre}{u}{post}")));
            }
            all.push(("text", format!("a $x {u}$ b")));
        }
        for x in extra {
            all.push(("text", x));
        }
    }
    all
}

fn enumerate(ctx: &mut Ctx) {
    let mut m = Batch::new("math");
    let mut t = Batch::new("text");
    let all = uses(ctx.quick());
    for (k, u) in &all {
        if *k == "math" { &mut m } else { &mut t }.add(ctx, u);
    }
    m.flush(ctx);
    t.flush(ctx);
    ctx.bound(format!("every one of {} entries of the specification: {} complete uses in their contexts", spec().items().count(), all.len()));
}

/// Commands that the macro engine takes for itself.
fn mitex_lexer_only(name: &str) -> bool {
    let n = name.trim_end_matches('*');
    n.starts_with("if") && n != "iff" || ["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment"].contains(&n) || n.starts_with("DeclareTextCommand") || n.starts_with("ProvideTextCommand") || n.starts_with("At") || n == "@ifstar"
}
