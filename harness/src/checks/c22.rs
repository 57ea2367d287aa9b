//! C22: where something stands does not change what it is translated to.
//! C21: a conversion depends on nothing but what it is given.
use super::c17::norm;
use crate::fw::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C22",
        enumerate,
        run,
        rule: "a state is a text with the number of tokens before it (shift), or with the paragraph or group before it; every text within \
               the bound is translated at every such place, so that the ends of the pages of the token buffers fall on every token of it, \
               and compared with its translation alone",
        assumptions: &["blanks and comments before a formula, and comments and empty groups before a text, mean nothing (C17)"],
        hang_s: 60,
    }
}

pub fn check21() -> Check {
    Check {
        id: "C21",
        enumerate: enumerate21,
        run: run21,
        rule: "a state is the history of conversions that a process and its threads have done; every sequence of conversions and threads \
               within the bound is done by one process, and each result is compared with that of a process which does nothing else",
        assumptions: &["threads take turns: a conversion is one step of a history"],
        hang_s: 60,
    }
}

fn conv(mode: &str, s: &str) -> Result<String, String> {
    if mode == "math" {
        math(s)
    } else {
        text(s)
    }
}
/// Runs of blanks in a text are one blank, or the end of a paragraph.
fn blanks(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if !c.is_whitespace() {
            o.push(c);
            if c == '\\' {
                o.extend(it.next());
            }
            continue;
        }
        let mut n = (c == '\n') as usize;
        while let Some(c) = it.next_if(|c| c.is_whitespace()) {
            n += (c == '\n') as usize;
        }
        o.push_str(if n > 1 { "¶" } else { " " });
    }
    o
}
fn same(mode: &str, s: &str) -> String {
    if mode == "math" {
        norm(s)
    } else {
        blanks(s).trim_start_matches([' ', '¶']).to_string()
    }
}

/// `n` tokens that mean nothing.
fn before(mode: &str, how: usize, n: usize) -> String {
    let unit = match (mode, how) {
        (_, 0) => "%\n",
        ("math", _) => "%c\r\n",
        _ => "{}",
    };
    format!("{}{}", if n % 2 == 1 { " " } else { "" }, unit.repeat(n / 2))
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    let (l, r, x, y) = match kind {
        "shift" => {
            let (mode, src, how, n) = (parts[0], parts[1], parts[2].parse().unwrap(), parts[3].parse::<usize>().unwrap());
            let at = before(mode, how, n) + src;
            // a blank is something in a text
            (conv(mode, &(before(mode, how, n % 2) + src)).map(|s| same(mode, &s)), conv(mode, &at).map(|s| same(mode, &s)), format!("{src:?}"), format!("after {n} tokens"))
        }
        "para" => {
            let (a, b) = (text(parts[0]), text(parts[1]));
            let (Ok(a), Ok(b)) = (a, b) else { return Ok(()) };
            let c = format!("{}\n\n{}", parts[0], parts[1]);
            (Ok(same("text", &format!("{a}\n\n{b}"))), text(&c).map(|s| same("text", &s)), format!("{:?} and {:?}", parts[0], parts[1]), "as two paragraphs".into())
        }
        "group" => {
            let [a, b] = [0, 1].map(|i| format!("{{{}}}", parts[i]));
            let (Ok(x), Ok(y)) = (math(&a), math(&b)) else { return Ok(()) };
            (Ok(norm(&format!("{x} {y}"))), math(&format!("{a}{b}")).map(|s| norm(&s)), format!("{a:?} and {b:?}"), "together".into())
        }
        // (source, place): as alone, and with a letter at the place for what is around it
        "place" => {
            let Ok(x) = math(parts[0]) else { return Ok(()) };
            let z = math(&parts[1].replace('①', "Z"))?;
            let at = math(&parts[1].replace('①', parts[0])).map(|s| norm(&s));
            (Ok(norm(&z.replacen("Z ", &format!("{x} "), 1))), at, format!("{:?} in {:?}", parts[0], parts[1]), "there".into())
        }
        k => return Err(format!("no kind {k}")),
    };
    obs.outcome(&r);
    match (&l, &r) {
        (Err(_), Err(_)) => Ok(()),
        (Ok(a), Ok(b)) if a == b => Ok(()),
        _ => Err(format!("{x} gives {l:?}\n  but {y} {r:?}")),
    }
}

const PIECES: &[&str] = &[
    "ab", "é", ",", " ", "\n", "\n\n", "%c\n", "{", "}", "_", "'", "$", "\\\\", "\\frac", "\\hat", "\\sqrt[", "]", "\\limits", "\\over", "\\bf ",
    "\\left(", "\\right)", "\\begin{matrix}", "&", "\\end{matrix}", "\\iffalse", "\\iftrue", "\\else", "\\fi", "\\newcommand{\\f}[1]{#1x}",
    "\\newenvironment{e}{y}{z}", "\\f", "\\begin{e}", "\\end{e}", "\\text{a $b$}", "\\begin{itemize}\\item ", "\\end{itemize}",
];
/// Whole constructs, each fine on its own.
const BLOCKS: &[&str] = &[
    "a b", "1", ".", "-", "=x", "- y", "{a}", "$x_1$", "$$x$$", "\\(y\\)", "\\[z\\]", "\\textbf{a}", "\\section{s}", "\\LaTeX", "\\$", "``q''",
    "\\begin{itemize}\\item a\\item b\\end{itemize}", "\\begin{enumerate}\\item a\\begin{itemize}\\item b\\end{itemize}\\end{enumerate}",
    "\\begin{itemize}\n  \\item a\n\\end{itemize}", "\\begin{equation}a\\label{l}\\end{equation}", "\\begin{equation}b\\end{equation}",
    "\\begin{aligned}a&b\\\\c\\end{aligned}", "\\begin{cases}a\\\\b\\end{cases}", "\\begin{matrix}a&b\\end{matrix}",
    "\\begin{figure}\\includegraphics{a.png}\\caption{c}\\label{f}\\end{figure}", "\\begin{tabular}{c|c}a&b\\\\c&d\\end{tabular}",
    "\\begin{quote}q\\end{quote}", "\\iffalse x\\fi", "\\iftrue x\\else y\\fi", "\\iftypst#[t]\\fi", "%c\n", "\\textcolor{red}{a}", "~",
    "a\\\\b", "$\\text{$a$ b}$", "\\href{u}{l}", "\\label{t}", "\\substack{a\\\\b}",
];
/// Contents of groups of formulas.
const GROUPS: &[&str] = &[
    "a", "ab1", "", "a_1", "a_1^2", "a'", "\\hat a", "\\frac{a}{b}", "\\sqrt[3]{a}", "a\\over b", "\\displaystyle a", "\\bf a{b}c", "\\left(a\\right)",
    "\\left.a\\right|", "\\begin{matrix}a&b\\\\c\\end{matrix}", "\\begin{cases}a\\\\b\\end{cases}", "\\begin{aligned}a&b\\end{aligned}",
    "\\text{a $b$}", "\\mathrm{a}", "\\substack{a\\\\b}", "\\sum\\limits_a", "a\\\\b", "\\textbf{a}", "\\color{red} a", "\\operatorname{f}", "(", "]", ",", ";",
    "\\begin{array}{c}a\\end{array}", "\\label{x}", "\\tag{1}", "a\\quad b", "\\ ", "\\not=", "\\iffalse a\\fi b", "[a]",
    "1.5^2", "12_3", "ab'", "a!", "-1", "a/b",
];

fn sweep(ctx: &mut Ctx, len: usize, lo: usize, hi: usize, hows: usize) {
    seqs(PIECES.len(), len, len, |v| {
        let s: String = v.iter().map(|i| PIECES[*i]).collect();
        // commands that take what is before them, which is a part of a formula only
        let formula = v.iter().any(|i| ["\\over", "\\limits"].contains(&PIECES[*i]));
        for mode in if formula { &["math"][..] } else { &["math", "text"] } {
            for how in 0..hows {
                for n in lo..=hi {
                    if ctx.turn() {
                        ctx.exec("shift", &[mode, &s, &how.to_string(), &n.to_string()]);
                    }
                }
            }
        }
    });
    ctx.bound(format!("shift: every sequence of {len} of {} pieces, in both modes, after {lo} to {hi} tokens{}", PIECES.len(), if hows > 1 { " of either kind" } else { "" }));
}

fn pairs(ctx: &mut Ctx, kind: &str, alpha: &[&str], sep: &str, la: usize, lb: usize) {
    let mut firsts = vec![];
    seqs(alpha.len(), 1, la, |v| firsts.push(v.iter().map(|i| alpha[*i]).collect::<Vec<_>>().join(sep)));
    let mut lasts = vec![];
    seqs(alpha.len(), 1, lb, |v| lasts.push(v.iter().map(|i| alpha[*i]).collect::<Vec<_>>().join(sep)));
    for a in &firsts {
        for b in &lasts {
            if ctx.turn() {
                ctx.exec(kind, &[a, b]);
            }
        }
    }
    ctx.bound(format!("{kind}: every sequence of up to {la} of {} constructs before every one of up to {lb}", alpha.len()));
}

/// Where a formula may stand.
const PLACES: &[&str] = &[
    "{①}", "x^{①}", "x_{①}^y", "\\frac{①}{b}", "\\frac{a}{①}", "\\sqrt{①}", "\\sqrt[3]{①}", "\\hat{①}", "\\left(①\\right)", "\\left.①\\right|",
    "\\begin{matrix}①\\end{matrix}", "\\begin{matrix}a&①\\\\b\\end{matrix}", "\\begin{cases}①&b\\\\c\\end{cases}", "\\begin{aligned}a&①\\end{aligned}",
    "\\begin{array}{c}①\\end{array}", "\\begin{pmatrix}①\\\\b\\end{pmatrix}", "\\text{\\(①\\)}", "{a\\over ①}", "\\mathbf{①}", "\\underbrace{①}_{a}",
    "\\overline{①}", "\\textcolor{red}{①}", "{\\displaystyle ①}", "\\begin{smallmatrix}①\\end{smallmatrix}", "\\iftrue ①\\else b\\fi",
];

fn places(ctx: &mut Ctx, len: usize) {
    let mut n = 0u64;
    let mut all = vec![];
    seqs(GROUPS.len(), 1, len, |v| all.push(v.iter().map(|i| GROUPS[*i]).collect::<Vec<_>>().join(" ")));
    // (what is empty is written in several ways, and a line break depends on what is around)
    all.retain(|x| !x.trim().is_empty() && !x.contains("a\\\\b"));
    for x in &all {
        for p in PLACES {
            n += 1;
            if ctx.turn() {
                ctx.exec("place", &[x, p]);
            }
        }
    }
    ctx.bound(format!("place: every sequence of up to {len} of {} formulas in {} places ({n})", GROUPS.len(), PLACES.len()));
}

fn enumerate(ctx: &mut Ctx) {
    places(ctx, if ctx.quick() { 2 } else { 3 });
    sweep(ctx, 1, 0, 700, 2);
    if ctx.quick() {
        sweep(ctx, 2, 155, 172, 1);
        pairs(ctx, "para", BLOCKS, " ", 2, 1);
        pairs(ctx, "para", BLOCKS, "\n", 1, 2);
        pairs(ctx, "group", GROUPS, " ", 2, 1);
        pairs(ctx, "group", GROUPS, " ", 1, 2);
        return;
    }
    sweep(ctx, 2, 0, 360, 2);
    sweep(ctx, 3, 150, 172, 1);
    pairs(ctx, "para", BLOCKS, " ", 2, 2);
    pairs(ctx, "para", BLOCKS, "\n", 2, 2);
    pairs(ctx, "group", GROUPS, " ", 2, 2);
}

const CONVS: &[(&str, &str)] = &[
    ("math", "a"), ("text", "a $b$"), ("math", "\\newcommand{\\f}{x}\\f"), ("math", "\\f"), ("text", "\\newcommand{\\f}{y}\\f"),
    ("math", "\\newcommand{\\alpha}{x}\\alpha"), ("math", "\\alpha"), ("math", "{"), ("math", "}"), ("math", "\\begin{matrix}a"),
    ("text", "\\begin{itemize}\\item a"), ("text", "\\item"), ("math", "\\newenvironment{e}{a}{b}\\begin{e}"), ("math", "\\begin{e}\\end{e}"),
    ("math", "\\newcommand{\\g}{\\g}\\g"), ("text", "\\iffalse"), ("text", "\\label{a}"), ("text", "\\begin{equation}a\\label{b}\\end{equation}"),
    ("custom", "\\alpha\\my{a}"), ("math", "\\my{a}"), ("custom", "\\frac{a}{b}"), ("nomacro", "\\newcommand{\\f}{x}"), ("text", "$x"),
];
/// What is open when a conversion fails.
const OPEN: &[(&str, &str)] = &[
    ("text", "\\begin{itemize}\\item "), ("text", "\\begin{enumerate}\\item a\\begin{itemize}\\item "), ("text", "\\begin{quote}"),
    ("text", "\\begin{tabular}{c|c}\\hline a&"), ("text", "\\begin{figure}\\label{x}\\caption{"), ("text", "\\section{"), ("text", "\\textbf{"),
    ("text", "\\textcolor{red}{"), ("text", "{\\color{red}"), ("text", "$"), ("text", "\\[x_{"), ("text", "\\begin{align}\\label{y}a&"),
    ("text", "\\begin{equation}"), ("text", "``"), ("text", "\\newcommand{\\f}[1]{#1}\\f{"), ("text", "\\iftrue "), ("text", "\\href{u}{"),
    ("math", "{"), ("math", "\\frac{"), ("math", "x^"), ("math", "\\left("), ("math", "\\begin{matrix}a&"), ("math", "\\begin{cases}a\\\\"),
    ("math", "\\text{"), ("math", "\\text{$"), ("math", "\\substack{a\\\\"), ("math", "\\displaystyle "), ("math", "\\color{red}"),
    ("math", "a\\over "), ("math", "\\mathbf{"), ("math", "\\begin{array}{c}"), ("math", "\\operatorname{"),
];
/// What shows a state that stayed.
const PROBES: &[(&str, &str)] = &[
    ("text", "a\n b\n\nc \\textbf{d} $x_1 & y$ \\item"), ("text", "a\n b\n\nc \\textbf{d} $x_1$ e\\\\f & g \\label{l}"),
    ("text", "\\begin{itemize}\n \\item a\n\n b\\begin{enumerate}\\item c\\end{enumerate}\\end{itemize}\n d"),
    ("text", "\\begin{tabular}{cc}a&b\\\\c\\end{tabular}\\begin{figure}\\caption{c}\\end{figure}\\begin{align}a&b\\\\c\\end{align}"),
    ("math", "a b_1^2 {c & d\\\\e} f, g; \\text{h\\\\i} \\begin{matrix}a&b\\\\c\\end{matrix} & \\\\ \\substack{a\\\\b}"), ("math", "_a \\begin{cases}a&b\\end{cases}\\label{l}/"),
];
fn convs(i: usize) -> (&'static str, String) {
    if let Some((m, s)) = CONVS.get(i) {
        return (m, s.to_string());
    }
    let i = i - CONVS.len();
    match OPEN.get(i) {
        Some((m, s)) => (m, format!("{s}\\nope ")),
        None => {
            let (m, s) = PROBES[i - OPEN.len()];
            (m, s.to_string())
        }
    }
}
fn custom() -> CommandSpec {
    let j: mitex_spec::JsonCommandSpec = serde_json::from_str(r#"{"commands":{"my":{"kind":"cmd1"},"alpha":{"kind":"cmd0"}}}"#).unwrap();
    j.into()
}
pub fn once(i: usize) -> String {
    let (mode, s) = convs(i);
    let r = match mode {
        "custom" => mitex::convert_math(&s, Some(custom())),
        "nomacro" => mitex::convert_math_no_macro(&s, None),
        m => conv(m, &s),
    };
    format!("{r:?}")
}
thread_local! {
    static ALONE: Vec<String> = (0..CONVS.len() + OPEN.len() + PROBES.len()).map(|i| {
        let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["once", &i.to_string()]).output().unwrap();
        String::from_utf8(o.stdout).unwrap().trim_end().to_string()
    }).collect();
}
struct Thread(std::sync::mpsc::Sender<usize>, std::sync::mpsc::Receiver<String>);
fn thread() -> Thread {
    let (a, b) = std::sync::mpsc::channel();
    let (c, d) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        quiet_panics();
        for i in b {
            c.send(guard(|| once(i)).unwrap_or_else(|e| e)).unwrap();
        }
    });
    Thread(a, d)
}
fn run21(_: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let mut threads: Vec<Thread> = vec![];
    let mut seen = vec![];
    for p in parts {
        let (i, t) = p.split_once('@').unwrap();
        let (i, t): (usize, usize) = (i.parse().unwrap(), t.parse().unwrap());
        while threads.len() <= t {
            threads.push(thread());
        }
        threads[t].0.send(i).unwrap();
        let r = threads[t].1.recv().unwrap();
        obs.states += 1;
        obs.transitions += 1;
        obs.traces += 1;
        let want = ALONE.with(|a| a[i].clone());
        seen.push(hash(&r));
        if r != want {
            return Err(format!("{:?} gives {r}\n  but {want} on its own", convs(i)));
        }
    }
    obs.outcome(&seen);
    Ok(())
}
fn enumerate21(ctx: &mut Ctx) {
    // what fails with something open, and then (twice on the thread, and on another one) what shows it
    let (a, b, c) = (CONVS.len(), CONVS.len() + OPEN.len(), CONVS.len() + OPEN.len() + PROBES.len());
    for x in a..b {
        for y in a..c {
            for z in b..c {
                if ctx.turn() {
                    ctx.exec("history", &[&format!("{x}@0"), &format!("{y}@0"), &format!("{z}@0"), &format!("{z}@1"), &format!("{z}@0")]);
                }
            }
        }
    }
    ctx.bound(format!("every history of two of {} rejected conversions and {} that show a state", OPEN.len(), PROBES.len()));
    let (len, threads) = if ctx.quick() { (3, 2) } else { (4, 2) };
    seqs(CONVS.len(), 1, len, |v| {
        seqs(threads, v.len() - 1, v.len() - 1, |t| {
            if ctx.turn() {
                // the first one is on thread 0
                let p: Vec<String> = v.iter().enumerate().map(|(k, i)| format!("{i}@{}", if k == 0 { 0 } else { t[k - 1] })).collect();
                ctx.exec("history", &p.iter().map(|s| s.as_str()).collect::<Vec<_>>());
            }
        });
    });
    ctx.bound(format!("every history of up to {len} of {} conversions on {threads} threads", CONVS.len()));
}
