//! C06: macro expansion is substitution. C07: the table of definitions. C08: conditionals.
use crate::fw::*;
use crate::gram::norm_math;
use crate::macref::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C06",
        enumerate,
        run,
        rule: "a state is what is left to be expanded in a reference macro processor that knows only substitution; transitions are \
               its steps; the converter's result for the program is compared with its result, without macros, for the expanded text",
        assumptions: &["the amount of blanks is not compared", "arguments that are a brace, an environment or a conditional are left out"],
        hang_s: 30,
    }
}
pub fn check7() -> Check {
    Check {
        id: "C07",
        enumerate: enumerate7,
        run,
        rule: "a state is a table of definitions and what is left of the program; transitions are definitions, redefinitions and uses \
               in a reference macro processor; result or error of the converter are compared with it",
        assumptions: &["groups and environments do not limit definitions, by design"],
        hang_s: 30,
    }
}
pub fn check8() -> Check {
    Check {
        id: "C08",
        enumerate: enumerate8,
        run,
        rule: "a state is a stack of open conditionals with the table of definitions; transitions are the tokens of the program in a \
               reference processor; result or error of the converter are compared with it",
        assumptions: &["unbalanced conditionals, and a second \\else, are left out"],
        hang_s: 30,
    }
}

/// The expanded text, its expansion, and the same by the implementation.
pub fn run(_kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let s = parts[0];
    let want = match expand(s) {
        Err(Stop::Undefined(_)) => return Ok(()),
        Err(Stop::Error(e)) => Err(e.to_string()),
        Ok((v, n)) => {
            obs.transitions += n;
            obs.states += n;
            let t = print(&v);
            match mitex::convert_math_no_macro(&t, None) {
                Ok(o) => Ok((norm_math(&o), t)),
                Err(e) => Err(format!("{t:?} is an error: {e}")),
            }
        }
    };
    obs.states += 1;
    obs.traces += 1;
    obs.outcome(want.as_ref().ok());
    let got = math(s);
    match (want, got) {
        (Err(_), Err(_)) => Ok(()),
        (Ok((w, t)), Ok(g)) => {
            let g = norm_math(&g);
            if g == w {
                return Ok(());
            }
            Err(format!("expected {w:?}, the translation of {t:?}\n  got      {g:?}"))
        }
        (Err(e), Ok(g)) => Err(format!("accepted as {g:?}, but {e}")),
        (Ok((_, t)), Err(e)) => Err(format!("rejected ({e}), but it is {t:?}")),
    }
}

fn joined(ctx: &mut Ctx, pre: &[String], alpha: &[&str], lo: usize, hi: usize, name: &str) {
    let mut s = String::new();
    for p in pre {
        seqs(alpha.len(), lo, hi, |v| {
            if ctx.turn() {
                s.clear();
                s.push_str(p);
                for i in v {
                    s.push_str(alpha[*i]);
                }
                ctx.exec("expand", &[&s]);
            }
        });
    }
    ctx.bound(format!("{name}: {} programs of definitions, each with every sequence of {lo} to {hi} of {} pieces", pre.len(), alpha.len()));
}

fn bodies(alpha: &[&str], hi: usize, max: usize) -> Vec<String> {
    let mut r = vec![];
    seqs(alpha.len(), 0, hi, |v| {
        let b: String = v.iter().map(|i| alpha[*i]).collect();
        if (max + 1..=9).all(|n| !b.contains(&format!("#{n}"))) {
            r.push(b);
        }
    });
    r
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let body = ["a", "#1", "#2", "{#1}", "\\g ", "\\frac ", "^", "[#1]", "b\\h{#1}"];
    let uses = ["\\f", "\\f ", "{x}", "{y1}", "b", "cd", "é", "\\alpha ", " ", "[o]", "[{]}w]", "^", "{\\f z}", "%c\n", "\\g "];
    let other = "\\newcommand{\\g}{G}\\newcommand{\\h}[1]{{h#1}}";
    let mut pre = vec![];
    for (n, opt) in [(0, ""), (1, ""), (1, "[d]"), (2, ""), (2, "[d]"), (2, "[]"), (2, "[{]}\\g ]")] {
        for b in bodies(&body, if q { 2 } else { 3 }, n) {
            let nn = if n > 0 { format!("[{n}]") } else { String::new() };
            pre.push(format!("{other}\\newcommand{{\\f}}{nn}{opt}{{{b}}}"));
        }
    }
    joined(ctx, &pre, &uses, 1, if q { 2 } else { 3 }, "commands");
    let few: Vec<String> = ["[1]{a#1}", "[2]{#2#1}", "[2][d]{#1+#2}", "[3]{#3#1#2#1}", "[3][\\g ]{#1{#2}#3}", "{\\g }"].iter().map(|d| format!("{other}\\newcommand{{\\f}}{d}")).collect();
    joined(ctx, &few, &uses, 4, if q { 4 } else { 6 }, "deep uses");
    // nine arguments
    let nine = ["\\newcommand{\\f}[9]{#9#8#7#6#5#4#3#2#1}\\f".to_string(), "\\newcommand{\\f}[9][d]{#1#2(#9#8)}\\f".to_string()];
    joined(ctx, &nine, &["ab", "c", "{de}", "[o]"], 6, if q { 8 } else { 10 }, "nine arguments");
    // mutually used, with late binding
    let late: Vec<String> = ["", "\\newcommand{\\g}{G}"].iter().flat_map(|a| {
        ["{\\g }", "{\\g x}", "[1]{\\g{#1}}", "[1]{#1\\g }", "[1]{\\renewcommand{\\g}{#1}}", "[1]{\\newcommand{#1}{n}}", "[2]{\\newcommand{#1}[1]{#2}}"]
            .iter().map(move |d| format!("{a}\\newcommand{{\\f}}{d}"))
    }).collect();
    joined(ctx, &late, &["\\f", "{x}", "\\g ", "b", "\\renewcommand{\\g}{R}", "\\newcommand{\\g}[1]{(#1)}", "{\\k}", "\\k ", "\\f\\g "], 1, if q { 5 } else { 6 }, "late binding");
    // environments
    let mut pre = vec![];
    let eb = ["a", "#1", "\\left(", "\\g "];
    let ee = ["b", "#1", "\\right)", "\\g ", "\\right)_{#1}"];
    for (n, opt) in [(0, ""), (1, ""), (1, "[d]"), (2, "[d]"), (2, "")] {
        for b in bodies(&eb, 2, n) {
            for e in bodies(&ee, if q { 1 } else { 2 }, n) {
                let nn = if n > 0 { format!("[{n}]") } else { String::new() };
                pre.push(format!("{other}\\newenvironment{{e}}{nn}{opt}{{{b}}}{{{e}}}"));
            }
        }
    }
    let eu = ["\\begin{e}", "\\end{e}", "{x}", "c", "[o]", "\\begin{matrix}", "\\end{matrix}", "&", "\\g ", "\\begin{e}{p}q\\end{e}"];
    joined(ctx, &pre, &eu, 1, if q { 4 } else { 4 }, "environments");
    let few: Vec<String> = ["{a}{b}", "[1]{(#1}{#1)}", "[1][d]{#1}{\\g }", "[2][d]{#1#2}{#2\\g }"].iter().map(|d| format!("{other}\\newenvironment{{e}}{d}")).collect();
    joined(ctx, &few, &eu, 5, if q { 5 } else { 7 }, "deep environments");
}

fn enumerate7(ctx: &mut Ctx) {
    let q = ctx.quick();
    let ops = [
        "\\newcommand{\\f}{a}", "\\newcommand*{\\f}[1]{b#1}", "\\renewcommand{\\f}{c}", "\\providecommand{\\f}{d}", "\\DeclareRobustCommand{\\f}{e}",
        "\\newcommand {\\g} [1] [o] {\\f #1}", "\\renewcommand{\\g}{\\f }", "\\f ", "\\g ", "{x}", "\\newcommand{\\mk}[1]{\\newcommand{#1}{m}}",
        "\\mk{\\f}", "{\\f}", "\\alpha ", "\\newcommand{\\alpha}{A}", "\\renewcommand*{\\alpha}{B}",
    ];
    joined(ctx, &["".into()], &ops, 1, if q { 5 } else { 6 }, "commands");
    let ops = [
        "\\newenvironment{e}{a}{b}", "\\renewenvironment{e}{c}{d}", "\\newenvironment{e}[1]{(#1}{#1)}", "\\begin{e}", "\\end{e}", "x",
        "\\newenvironment*{h}{\\begin{e}}{\\end{e}}", "\\begin{h}", "\\end{h}", "\\newcommand{\\f}{y}", "\\f ", "\\begin{matrix}", "\\end{matrix}",
    ];
    joined(ctx, &["".into()], &ops, 1, if q { 5 } else { 6 }, "environments");
    // every kind of definition after every other one, of many names
    let kinds = ["newcommand", "newcommand*", "renewcommand", "renewcommand*", "providecommand", "providecommand*", "DeclareRobustCommand", "DeclareRobustCommand*"];
    for name in ["f", "alpha", "frac", "newcommand", "x@y", "sqrt", "leftx", "unknown"] {
        for a in kinds {
            for b in kinds {
                for c in kinds {
                    for u in ["", "z", "{z}{w}"] {
                        ctx.case("expand", &[&format!("\\{a}{{\\{name}}}{{A}}\\{name} {u}\\{b}{{\\{name}}}{{B}}\\{name} {u}\\{c}{{\\{name}}}{{C}}\\{name} {u}")]);
                    }
                }
            }
        }
    }
    ctx.bound("all three definitions in a row of eight kinds, for eight names, with three uses");
    let kinds = ["newenvironment", "newenvironment*", "renewenvironment", "renewenvironment*"];
    for name in ["e", "matrix", "align*", "thm*", "a@b", "newcommand", "figure"] {
        for a in kinds {
            for b in kinds {
                for c in kinds {
                    for u in ["x", "{z}", "[z]{w}", "\\newcommand{\\f}{y}\\f "] {
                        for args in ["", "[1]", "[2][d]"] {
                            let def = |k: &str, x: &str| format!("\\{k}{{{name}}}{args}{{<{x}}}{{{x}>}}\\begin{{{name}}}{u}\\end{{{name}}}");
                            ctx.case("expand", &[&(def(a, "A") + &def(b, "B") + &def(c, "C"))]);
                        }
                    }
                }
            }
        }
    }
    ctx.bound("all three definitions of an environment in a row of four kinds, for six names, with four uses and three lists of arguments");
}

fn enumerate8(ctx: &mut Ctx) {
    let q = ctx.quick();
    let ops = [
        "\\iftrue ", "\\iffalse ", "\\iftypst ", "\\else ", "\\fi ", "a", "\\f ", "\\newcommand{\\f}{\\iftrue b\\else c\\fi }", "\\unknown ",
        "\\ifnum ", "\\renewcommand{\\f}{\\fi }",
    ];
    joined(ctx, &["".into(), "\\newcommand{\\f}{\\else d}".into()], &ops, 1, if q { 6 } else { 7 }, "conditionals");
    let ops = ["\\iftrue ", "\\iffalse ", "\\else ", "\\fi ", "a", "{", "}"];
    joined(ctx, &["".into(), "x".into()], &ops, 1, if q { 8 } else { 10 }, "deep conditionals");
    let ops = ["\\iftrue ", "\\iffalse ", "\\else ", "\\fi ", "\\begin{e}", "\\end{e}", "\\begin{matrix}", "&", "\\frac ", "\\limits ", "^"];
    joined(ctx, &["\\newenvironment{e}{\\alpha }{\\beta }".into()], &ops, 1, if q { 6 } else { 7 }, "conditionals and environments");
}
