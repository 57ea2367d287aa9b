//! A reader of formulas with all that opens and closes: groups, fences, grids, infix and style commands.
//! It gives what a sequence of tokens means, or nothing where TeX rejects it or has no single reading.

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    /// a character, or a symbol
    Atom,
    /// may have limits
    Op,
    Blank,
    Up,
    Down,
    Prime,
    /// a command with a number of arguments; the meaning has ①②
    Cmd(usize),
    Open,
    Close,
    /// with what its meaning has for the delimiter
    Left,
    Middle,
    Right,
    Begin(Env),
    End(Env),
    Amp,
    Row,
    Infix,
    Style,
    /// \color, with its argument
    Color,
    Limits,
    /// stays at the start of a row
    Rule,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Env {
    /// the body is between ⟦ and ⟧; cells are parted by ¦ and rows by ⁏
    Grid,
    /// cells are parted by & and rows by ⁏
    Cases,
    /// by & and ↵
    Lines,
    /// a command with lines in its braces
    Stack,
}

pub struct Tok {
    pub tex: &'static str,
    pub den: &'static str,
    pub k: K,
}

pub const fn t(tex: &'static str, den: &'static str, k: K) -> Tok {
    Tok { tex, den, k }
}

#[derive(Clone, Default)]
struct It {
    base: String,
    up: Option<String>,
    down: Option<String>,
    primes: usize,
    /// what may not get a script
    closed: bool,
    op: bool,
    none: bool,
}

impl It {
    fn den(&self) -> String {
        if self.up.is_none() && self.down.is_none() {
            return format!("{}{}", self.base, "'".repeat(self.primes));
        }
        let mut r = format!("‹{}{}›", self.base, "'".repeat(self.primes));
        if let Some(d) = &self.down {
            r += &format!("_‹{d}›");
        }
        if let Some(u) = &self.up {
            r += &format!("^‹{u}›");
        }
        r
    }
}

/// A list and whether it is one item without scripts.
struct List {
    den: String,
    one: bool,
    op: bool,
    empty: bool,
}

pub struct Reader<'a> {
    pub toks: &'a [&'a Tok],
    pub i: usize,
}

impl<'a> Reader<'a> {
    fn peek(&self) -> Option<&'a Tok> {
        self.toks.get(self.i).copied()
    }
    fn is(&self, k: K) -> bool {
        self.peek().is_some_and(|t| t.k == k)
    }
    fn blanks(&mut self) {
        while self.is(K::Blank) {
            self.i += 1;
        }
    }
    fn next(&mut self) -> Option<&'a Tok> {
        self.i += 1;
        self.toks.get(self.i - 1).copied()
    }
    /// The whole.
    pub fn formula(toks: &'a [&'a Tok]) -> Option<String> {
        let mut r = Reader { toks, i: 0 };
        let l = r.list(None)?;
        (r.i == toks.len()).then_some(l.den)
    }
    fn arg(&mut self, script: bool) -> Option<String> {
        self.blanks();
        let t = self.next()?;
        match t.k {
            K::Atom => Some(t.den.into()),
            K::Op if !script => Some(t.den.into()),
            K::Open => self.group(),
            K::Cmd(n) if script && t.tex.starts_with("\\frac") => self.command(t.den, n),
            _ => None,
        }
    }
    fn group(&mut self) -> Option<String> {
        let l = self.list(None)?;
        (self.next()?.k == K::Close).then_some(l.den)
    }
    fn command(&mut self, den: &str, n: usize) -> Option<String> {
        let mut d = den.to_string();
        for m in ['①', '②'].iter().take(n) {
            let a = self.arg(false)?;
            d = d.replace(*m, &a);
        }
        Some(d)
    }
    /// Up to what ends it: a closing token or a separator, which stays.
    fn list(&mut self, within: Option<Env>) -> Option<List> {
        let mut v: Vec<It> = vec![];
        // (the first part, the meaning of the command)
        let mut infix: Option<(String, &str)> = None;
        let mut styled = false;
        while let Some(t) = self.peek() {
            let item = |base: String| It { base, ..It::default() };
            match t.k {
                K::Close | K::Right | K::End(_) => break,
                K::Amp | K::Row => {
                    within?;
                    break;
                }
                _ => self.i += 1,
            }
            match t.k {
                K::Blank => {}
                K::Rule => {
                    if matches!(within, None | Some(Env::Stack)) || !v.is_empty() || infix.is_some() {
                        return None;
                    }
                    // nothing to attach a script to
                    self.blanks();
                    if matches!(self.peek().map(|t| t.k), Some(K::Up | K::Down | K::Prime | K::Infix | K::Style | K::Color)) {
                        return None;
                    }
                }
                K::Atom => v.push(item(t.den.into())),
                K::Op => v.push(It { op: true, ..item(t.den.into()) }),
                K::Cmd(n) => {
                    let c = self.command(t.den, n)?;
                    v.push(item(c));
                }
                K::Open => {
                    let l = self.list(None)?;
                    if self.next()?.k != K::Close {
                        return None;
                    }
                    v.push(It { closed: !l.one && !l.empty, op: l.op, ..item(l.den) });
                }
                K::Left => {
                    let mut d = String::new();
                    d.push_str(t.den);
                    let l = self.list(None)?;
                    d.push_str(&l.den);
                    let r = self.next()?;
                    if r.k != K::Right {
                        return None;
                    }
                    d.push_str(r.den);
                    v.push(item(format!("lr({d})")));
                }
                K::Middle => v.push(It { closed: true, ..item(t.den.into()) }),
                K::Begin(e) => {
                    let mut d = String::new();
                    loop {
                        let l = self.list(Some(e))?;
                        d.push_str(&l.den);
                        let s = self.next()?;
                        match (s.k, e) {
                            (K::Amp, Env::Grid) => d.push('¦'),
                            (K::Amp, Env::Cases | Env::Lines) => d.push('&'),
                            (K::Row, Env::Grid | Env::Cases) => d.push('⁏'),
                            (K::Row, Env::Lines | Env::Stack) => d.push('↵'),
                            (K::End(o), _) if o == e && s.den == t.tex => break,
                            (K::Close, Env::Stack) => break,
                            _ => return None,
                        }
                    }
                    v.push(It { closed: e == Env::Stack, ..item(t.den.replace('①', &d)) });
                }
                K::Prime => {
                    // (a defect on record)
                    let text = v.last().is_some_and(|l| l.base == "t");
                    let b = v.last_mut()?;
                    // after a script, and after a blank, they are read as something else
                    if text || b.up.is_some() || b.down.is_some() || b.closed || self.i > 1 && self.toks[self.i - 2].k == K::Blank {
                        return None;
                    }
                    b.primes += 1;
                    b.closed = true;
                    if matches!(self.peek().map(|t| t.k), Some(K::Prime)) {
                        b.closed = false;
                    }
                }
                K::Limits => {
                    let b = v.last_mut()?;
                    if !b.op || b.up.is_some() || b.down.is_some() || b.closed || b.primes > 0 {
                        return None;
                    }
                    b.base = format!("{}({})", t.den, b.base);
                    b.op = false;
                }
                K::Up | K::Down => {
                    let a = self.arg(true)?;
                    if v.is_empty() {
                        v.push(It { none: true, ..It::default() });
                    }
                    let b = v.last_mut().unwrap();
                    let none = b.none && (b.up.is_some() || b.down.is_some());
                    let s = if t.k == K::Up { &mut b.up } else { &mut b.down };
                    if s.is_some() || b.closed || none {
                        return None;
                    }
                    *s = Some(a);
                }
                K::Infix => {
                    if infix.is_some() || within == Some(Env::Stack) {
                        return None;
                    }
                    infix = Some((v.iter().map(It::den).collect(), t.den));
                    v.clear();
                }
                K::Style | K::Color => {
                    let first = v.is_empty() && infix.is_none();
                    let at = self.i;
                    let l = self.list(within)?;
                    // of what comes before an infix command, it holds for the first part
                    // (for both where it is the first, and then outside of it)
                    let cut = (at..self.i).find(|j| self.toks[*j].k == K::Infix && self.level(at, *j) == 0);
                    if let Some(j) = cut {
                        if infix.is_some() {
                            return None;
                        }
                        if !first {
                            self.i = at;
                            let part = &self.toks[at..j];
                            let l = Reader { toks: part, i: 0 }.list(within)?;
                            if l.empty {
                                return None;
                            }
                            let before: String = v.iter().map(It::den).collect();
                            infix = Some((before + &t.den.replace('①', &l.den), self.toks[j].den));
                            v.clear();
                            self.i = j + 1;
                            continue;
                        }
                    }
                    // a style of nothing is a defect on record; one in a line of a stack is left out
                    if l.empty || within == Some(Env::Stack) && self.is(K::Row) {
                        return None;
                    }
                    styled = true;
                    v.push(It { closed: true, ..item(t.den.replace('①', &l.den)) });
                }
                _ => unreachable!(),
            }
        }
        let one = v.len() == 1 && v[0].up.is_none() && v[0].down.is_none() && !v[0].closed && v[0].primes == 0 || styled && v.len() == 1;
        let op = one && v[0].op;
        let den: String = v.iter().map(It::den).collect();
        Some(match infix {
            Some((a, c)) => List { den: c.replace('①', &a).replace('②', &den), one: true, op: false, empty: false },
            None => List { one, op, empty: v.is_empty(), den },
        })
    }
    /// How deep the token is, from another one.
    fn level(&self, from: usize, to: usize) -> i32 {
        let mut d = 0;
        for t in &self.toks[from..to] {
            match t.k {
                K::Open | K::Left | K::Begin(_) => d += 1,
                K::Close | K::Right | K::End(_) => d -= 1,
                _ => {}
            }
        }
        d
    }
}

/// Every sequence of the tokens with `lo` to `hi` of them in which what is opened is closed.
pub fn balanced(toks: &'static [Tok], lo: usize, hi: usize, depth: usize, mut f: impl FnMut(&[&'static Tok])) {
    fn rec(
        toks: &'static [Tok], left: usize, depth: usize, open: &mut Vec<&'static Tok>, v: &mut Vec<&'static Tok>, f: &mut impl FnMut(&[&'static Tok]),
    ) {
        if left == open.len() && open.is_empty() {
            f(v);
        }
        if left == 0 {
            return;
        }
        for t in toks {
            let closes = |o: Option<&&'static Tok>| match (o.map(|t| (t.k, t.tex)), t.k) {
                (Some((K::Open, _)), K::Close) | (Some((K::Left, _)), K::Right) | (Some((K::Begin(Env::Stack), _)), K::Close) => true,
                (Some((K::Begin(_), b)), K::End(_)) => t.den == b,
                _ => false,
            };
            match t.k {
                K::Open | K::Left | K::Begin(_) => {
                    if open.len() == depth || open.len() + 2 > left {
                        continue;
                    }
                    open.push(t);
                    v.push(t);
                    rec(toks, left - 1, depth, open, v, f);
                    v.pop();
                    open.pop();
                }
                K::Close | K::Right | K::End(_) => {
                    if !closes(open.last()) {
                        continue;
                    }
                    let o = open.pop().unwrap();
                    v.push(t);
                    rec(toks, left - 1, depth, open, v, f);
                    v.pop();
                    open.push(o);
                }
                _ => {
                    if open.len() + 1 > left {
                        continue;
                    }
                    // separators have their grid around
                    if matches!(t.k, K::Amp | K::Row | K::Rule) && !matches!(open.last().map(|t| t.k), Some(K::Begin(_))) {
                        continue;
                    }
                    if t.k == K::Blank && v.last().is_some_and(|l| l.k == K::Blank) {
                        continue;
                    }
                    v.push(t);
                    rec(toks, left - 1, depth, open, v, f);
                    v.pop();
                }
            }
        }
    }
    for n in lo..=hi {
        rec(toks, n, depth, &mut vec![], &mut vec![], &mut f);
    }
}
