//! C14: scripts and arguments bind like in TeX.
use crate::den::*;
use crate::fw::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C14",
        enumerate,
        run,
        rule: "a state is a sequence of math tokens; a reference reader of TeX's rules for scripts and undelimited arguments gives what it \
               means, and sequences that TeX rejects are left out; its translation is evaluated by Typst, and the structure of the \
               content is compared with the meaning",
        assumptions: &["the installed Typst compiler is the judge of Typst", "scripts on primes and on groups of several items are left out"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.traces += 1;
    run_one(kind, parts)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum P {
    /// characters, each an item
    Word(&'static str),
    /// a symbol: an item that is one token
    Sym(&'static str),
    /// a group with what it shows
    Group(&'static str, bool),
    /// an item of more than one token
    Item(&'static str),
    Up,
    Down,
    /// a command with the number of its arguments
    Cmd(&'static str, usize),
    Limits(&'static str),
    Prime,
    Blank,
}

const PIECES: &[(&str, P)] = &[
    ("a", P::Word("a")),
    ("^", P::Up),
    ("_", P::Down),
    ("12", P::Word("12")),
    ("\\alpha ", P::Sym("α")),
    ("{b}", P::Group("b", true)),
    ("{cd}", P::Group("cd", false)),
    ("{}", P::Group("", true)),
    ("\\frac", P::Cmd("frac", 2)),
    ("\\hat", P::Cmd("accent", 1)),
    (" ", P::Blank),
    (")", P::Word(")")),
    ("\\sum ", P::Sym("∑")),
    (",", P::Word(",")),
    ("\\left(x\\right]", P::Item("lr((x])")),
    ("\\text{t}", P::Item("t")),
    ("\\begin{matrix}p&q\\end{matrix}", P::Item("mat(none,none)⟦p¦q⟧")),
    ("'", P::Prime),
    ("!", P::Word("!")),
    ("\\limits", P::Limits("limits")),
    ("%c\n", P::Blank),
    ("[", P::Word("[")),
    ("\\sin", P::Sym("op(sin)")),
    ("{\\frac{e}{f}}", P::Group("frac(e|f)", true)),
    ("é", P::Word("é")),
    ("/", P::Word("/")),
    ("\\sqrt", P::Cmd("root", 1)),
    ("(", P::Word("(")),
    ("\\nolimits", P::Limits("scripts")),
    ("\\iffalse ^x\\fi ", P::Blank),
    ("1.5", P::Word("1.5")),
    ("ab", P::Word("ab")),
    (";", P::Word(";")),
];

/// An item of a list and its scripts.
#[derive(Clone, Default)]
struct It {
    base: String,
    up: Option<String>,
    down: Option<String>,
    /// what may not get a script: primes, the end of a group of several items
    closed: bool,
    group: bool,
}

struct Reader<'a> {
    toks: Vec<(P, usize)>,
    i: usize,
    _p: std::marker::PhantomData<&'a ()>,
}

impl Reader<'_> {
    fn peek(&self) -> Option<P> {
        self.toks.get(self.i).map(|t| t.0)
    }
    fn blanks(&mut self) {
        while self.peek() == Some(P::Blank) {
            self.i += 1;
        }
    }
    /// The next character of a word.
    fn char(&mut self) -> Option<String> {
        let (P::Word(w), at) = self.toks[self.i] else { return None };
        let c = w.chars().nth(at).unwrap();
        self.toks[self.i].1 += 1;
        if at + 1 == w.chars().count() {
            self.i += 1;
        }
        Some(if c == '-' { "−".into() } else { c.to_string() })
    }
    /// An undelimited argument. `script`: of a script.
    fn arg(&mut self, script: bool) -> Option<String> {
        self.blanks();
        match self.peek()? {
            P::Word(_) => self.char(),
            P::Sym(s) => {
                // TeX would expand these to more than one token
                if s == "op(sin)" && script {
                    return None;
                }
                self.i += 1;
                Some(s.into())
            }
            P::Group(g, _) => {
                self.i += 1;
                Some(g.into())
            }
            P::Cmd(n, k) if script && n == "frac" => {
                self.i += 1;
                self.command(n, k)
            }
            _ => None,
        }
    }
    fn command(&mut self, n: &str, k: usize) -> Option<String> {
        let mut a = vec![];
        for _ in 0..k {
            // a bracket after a root is another argument
            self.blanks();
            if n == "root" && matches!(self.peek(), Some(P::Word("["))) {
                return None;
            }
            a.push(self.arg(false)?);
        }
        Some(match n {
            "frac" => format!("frac({}|{})", a[0], a[1]),
            "root" => format!("root(|{})", a[0]),
            _ => format!("accent({}|\u{302})", a[0]),
        })
    }
    fn list(&mut self) -> Option<String> {
        let mut v: Vec<It> = vec![];
        while let Some(p) = self.peek() {
            let item = |base: String| It { base, ..It::default() };
            match p {
                P::Blank => self.i += 1,
                P::Word(_) => {
                    let c = self.char()?;
                    v.push(item(c));
                }
                P::Sym(s) | P::Item(s) => {
                    self.i += 1;
                    v.push(item(s.into()));
                }
                P::Group(g, one) => {
                    self.i += 1;
                    v.push(It { closed: !one, group: true, ..item(g.into()) });
                }
                P::Prime => {
                    // primes with a blank between them are left out
                    if self.i > 0 && self.toks[self.i - 1].0 == P::Blank && v.last().is_some_and(|l| l.base == "'") {
                        return None;
                    }
                    self.i += 1;
                    // after a script, they belong to it
                    if v.last().is_some_and(|l| l.up.is_some() || l.down.is_some()) {
                        return None;
                    }
                    v.push(It { closed: true, ..item("'".into()) });
                }
                P::Cmd(n, k) => {
                    self.i += 1;
                    let c = self.command(n, k)?;
                    v.push(item(c));
                }
                P::Limits(l) => {
                    self.i += 1;
                    let b = v.last_mut()?;
                    // only on operators
                    if !matches!(b.base.as_str(), "∑" | "op(sin)") || b.up.is_some() || b.down.is_some() || b.group {
                        return None;
                    }
                    b.base = format!("{l}({})", b.base);
                }
                P::Up | P::Down => {
                    self.i += 1;
                    let a = self.arg(true)?;
                    if v.is_empty() {
                        v.push(It::default());
                    }
                    let b = v.last_mut().unwrap();
                    let s = if p == P::Up { &mut b.up } else { &mut b.down };
                    if s.is_some() || b.closed {
                        return None;
                    }
                    *s = Some(a);
                }
            }
        }
        Some(
            v.into_iter()
                .map(|i| {
                    if i.up.is_none() && i.down.is_none() {
                        return i.base;
                    }
                    let mut r = format!("‹{}›", i.base);
                    if let Some(d) = i.down {
                        r += &format!("_‹{d}›");
                    }
                    if let Some(u) = i.up {
                        r += &format!("^‹{u}›");
                    }
                    r
                })
                .collect(),
        )
    }
}

fn meaning(v: &[usize]) -> Option<String> {
    // a letter after the name of a command belongs to it
    let name = |t: &str| t.starts_with('\\') && t.ends_with(|c: char| c.is_ascii_alphabetic());
    if v.windows(2).any(|w| name(PIECES[w[0]].0) && PIECES[w[1]].0.starts_with(char::is_alphabetic)) {
        return None;
    }
    Reader { toks: v.iter().map(|i| (PIECES[*i].1, 0)).collect(), i: 0, _p: Default::default() }.list()
}

fn sweep(ctx: &mut Ctx, k: usize, lo: usize, hi: usize, pre: &str, post: &str, shows: &str) {
    let mut b = DenBatch::new("math");
    let mut n = 0u64;
    seqs(k, lo, hi, |v| {
        let Some(m) = meaning(v) else { return };
        n += 1;
        b.add(ctx, || {
            let t: String = v.iter().map(|i| PIECES[*i].0).collect();
            (format!("{pre}{t}{post}"), shows.replace('①', &m))
        });
    });
    b.flush(ctx);
    let around = if pre.is_empty() { String::new() } else { format!(" between {pre:?} and {post:?}") };
    ctx.bound(format!("all sequences of {lo} to {hi} of {k} pieces{around}, of which TeX accepts {n}"));
}

/// Words of all kinds of characters, which are apart for scripts and arguments.
fn words(ctx: &mut Ctx, len: usize) {
    const CHARS: [&str; 12] = ["a", "B", "1", "0", ".", "é", "+", "-", "=", "<", ":", "|"];
    let mut b = DenBatch::new("math");
    let mut n = 0u64;
    seqs(CHARS.len(), 1, len, |v| {
        let w: String = v.iter().map(|i| CHARS[*i]).collect();
        for (at, place) in ["①^x", "①_x^y", "x^①", "x_①^y", "\\frac①x", "\\hat①", "\\sqrt①x", "①\\hat x", "①'"].iter().enumerate() {
            let (pre, post) = place.split_once('①').unwrap();
            if pre.starts_with('\\') && w.starts_with(char::is_alphabetic) {
                continue;
            }
            n += 1;
            b.add(ctx, || {
                // (leaks a few words)
                let word = |s: &str| P::Word(Box::leak(s.to_string().into_boxed_str()));
                let toks = match at {
                    0 => vec![word(&w), P::Up, P::Word("x")],
                    1 => vec![word(&w), P::Down, P::Word("x"), P::Up, P::Word("y")],
                    2 => vec![P::Word("x"), P::Up, word(&w)],
                    3 => vec![P::Word("x"), P::Down, word(&w), P::Up, P::Word("y")],
                    4 => vec![P::Cmd("frac", 2), word(&w), P::Word("x")],
                    5 => vec![P::Cmd("accent", 1), word(&w)],
                    6 => vec![P::Cmd("root", 1), word(&w), P::Word("x")],
                    7 => vec![word(&w), P::Cmd("accent", 1), P::Word("x")],
                    _ => vec![word(&w), P::Prime],
                };
                let m = Reader { toks: toks.into_iter().map(|p| (p, 0)).collect(), i: 0, _p: Default::default() }.list().unwrap();
                (format!("{pre}{w}{post}"), m)
            });
        }
    });
    b.flush(ctx);
    ctx.bound(format!("words: all of up to {len} of {} characters, with scripts, as scripts and as arguments: {n} cases", CHARS.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    words(ctx, if q { 3 } else { 4 });
    let all = PIECES.len();
    // (defects on record)
    let mut k = DenBatch::new("math");
    k.add(ctx, || ("x_1'".into(), "‹x'›_‹1›".into()));
    k.add(ctx, || ("\\sqrt[{[}]{x}".into(), "root([|x)".into()));
    k.flush(ctx);
    sweep(ctx, all, 0, if q { 3 } else { 4 }, "", "", "①");
    if q {
        sweep(ctx, 17, 4, 4, "", "", "①");
    } else {
        sweep(ctx, 17, 5, 5, "", "", "①");
    }
    sweep(ctx, 11, if q { 5 } else { 6 }, if q { 5 } else { 6 }, "", "", "①");
    for (pre, post, shows) in [
        ("\\frac{", "}{z}", "frac(①|z)"),
        ("x^{", "}y", "‹x›^‹①›y"),
        ("\\begin{matrix}", "&z\\end{matrix}", "mat(none,none)⟦①¦z⟧"),
        ("\\left(", "\\right)", "lr((①))"),
        ("{z\\over ", "}", "frac(z|①)"),
        ("{\\bf ", "}", "⦃①⦄"),
    ] {
        sweep(ctx, all, 1, if q { 2 } else { 3 }, pre, post, shows);
    }
}
