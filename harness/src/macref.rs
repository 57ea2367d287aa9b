//! A reference macro processor: plain TeX substitution on a list of tokens.
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T {
    Cs(String),
    Ch(char),
    Sp,
    Open,
    Close,
    Hash,
    /// what `\iftypst` keeps, as it is written
    Raw(String),
}
use T::*;

#[derive(Clone, Debug)]
pub struct Mac {
    env: bool,
    n: usize,
    opt: Option<Vec<T>>,
    def: Vec<T>,
    end: Vec<T>,
}

#[derive(Debug, PartialEq, Eq)]
pub enum Stop {
    /// must be reported as an error
    Error(&'static str),
    /// nothing is said about such a text
    Undefined(&'static str),
}
pub type R<X> = Result<X, Stop>;

pub fn scan(s: &str) -> Vec<T> {
    let mut v = vec![];
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '\\' => {
                let mut n = String::new();
                match it.next() {
                    Some(c) if c.is_ascii_alphabetic() || c == '@' => {
                        n.push(c);
                        while let Some(c) = it.peek().copied().filter(|c| c.is_ascii_alphabetic() || *c == '@') {
                            n.push(c);
                            it.next();
                        }
                        if it.peek() == Some(&'*') && DECLARE.contains(&n.as_str()) {
                            it.next();
                        }
                    }
                    Some(c) => n.push(c),
                    None => {}
                }
                v.push(Cs(n));
            }
            '{' => v.push(Open),
            '}' => v.push(Close),
            '#' => v.push(Hash),
            '%' => {
                while it.peek().is_some_and(|c| *c != '\n') {
                    it.next();
                }
            }
            c if c.is_whitespace() => {
                if v.last() != Some(&Sp) {
                    v.push(Sp);
                }
            }
            c => v.push(Ch(c)),
        }
    }
    v
}

pub fn print(v: &[T]) -> String {
    let mut o = String::new();
    for (i, t) in v.iter().enumerate() {
        match t {
            Cs(n) => {
                o.push('\\');
                o.push_str(n);
                // (names of environments follow at once)
                if n.ends_with(|c: char| c.is_ascii_alphabetic()) && !matches!(v.get(i + 1), Some(Open)) {
                    o.push(' ');
                }
            }
            Ch(c) => o.push(*c),
            Sp => o.push(' '),
            Open => o.push('{'),
            Close => o.push('}'),
            Hash => o.push('#'),
            Raw(s) => o.push_str(s),
        }
    }
    o
}

pub const DECLARE: &[&str] =
    &["newcommand", "renewcommand", "providecommand", "DeclareRobustCommand", "newenvironment", "renewenvironment"];
const IFS: &[&str] = &["if", "iftypst", "iffalse", "iftrue", "ifcase", "ifnum", "ifcat", "ifx"];

pub struct Engine {
    pub table: BTreeMap<String, Mac>,
    inp: VecDeque<T>,
    pub out: Vec<T>,
    /// true: in the branch before an \else
    ifs: Vec<bool>,
    pub steps: u64,
}

pub fn expand(src: &str) -> R<(Vec<T>, u64)> {
    let mut e = Engine { table: BTreeMap::new(), inp: scan(src).into(), out: vec![], ifs: vec![], steps: 0 };
    e.run()?;
    Ok((e.out, e.steps))
}

impl Engine {
    fn blanks(&mut self) {
        while self.inp.front() == Some(&Sp) {
            self.inp.pop_front();
        }
    }
    /// The inside of a group whose opening delimiter is read.
    fn until(&mut self, close: T) -> R<Vec<T>> {
        let mut v = vec![];
        let mut d = 0;
        loop {
            let t = self.inp.pop_front().ok_or(Stop::Undefined("an open group"))?;
            if d == 0 && t == close {
                return Ok(v);
            }
            match t {
                Open => d += 1,
                Close if d == 0 => return Err(Stop::Undefined("a stray brace")),
                Close => d -= 1,
                _ => {}
            }
            v.push(t);
        }
    }
    fn args(&mut self, m: &Mac) -> R<Vec<Vec<T>>> {
        let mut a = vec![];
        if m.n == 0 {
            return Ok(a);
        }
        if let Some(d) = &m.opt {
            self.blanks();
            if self.inp.front() == Some(&Ch('[')) {
                self.inp.pop_front();
                a.push(self.until(Ch(']'))?);
            } else {
                a.push(d.clone());
            }
        }
        while a.len() < m.n {
            self.blanks();
            match self.inp.pop_front() {
                None => return Err(Stop::Error("an argument is missing")),
                Some(Open) => a.push(self.until(Close)?),
                Some(Close) => return Err(Stop::Undefined("a brace for an argument")),
                Some(Cs(n)) if n == "begin" || n == "end" => return Err(Stop::Undefined("an environment for an argument")),
                Some(Cs(n)) if IFS.contains(&n.as_str()) || n == "else" || n == "fi" => {
                    return Err(Stop::Undefined("a conditional for an argument"))
                }
                Some(t) => a.push(vec![t]),
            }
        }
        Ok(a)
    }
    fn subst(def: &[T], args: &[Vec<T>]) -> R<Vec<T>> {
        let mut v = vec![];
        let mut i = 0;
        while i < def.len() {
            if def[i] == Hash {
                match def.get(i + 1) {
                    Some(Ch(c)) if ('1'..='9').contains(c) => {
                        let n = *c as usize - '1' as usize;
                        v.extend(args.get(n).ok_or(Stop::Undefined("a parameter that is not declared"))?.iter().cloned());
                        i += 2;
                        continue;
                    }
                    _ => return Err(Stop::Undefined("a hash")),
                }
            }
            v.push(def[i].clone());
            i += 1;
        }
        Ok(v)
    }
    fn push(&mut self, v: Vec<T>) {
        for t in v.into_iter().rev() {
            self.inp.push_front(t);
        }
    }
    fn name(&mut self) -> R<String> {
        self.blanks();
        if self.inp.pop_front() != Some(Open) {
            return Err(Stop::Undefined("no name"));
        }
        Ok(print(&self.until(Close)?).trim().to_string())
    }
    fn declare(&mut self, d: &str) -> R<()> {
        let env = d.ends_with("environment");
        let mut name = self.name()?;
        if !env {
            name = name.strip_prefix('\\').ok_or(Stop::Undefined("no command"))?.trim().to_string();
        }
        let (mut n, mut opt) = (0, None);
        self.blanks();
        if self.inp.front() == Some(&Ch('[')) {
            self.inp.pop_front();
            n = print(&self.until(Ch(']'))?).trim().parse().map_err(|_| Stop::Undefined("a number"))?;
            self.blanks();
            if self.inp.front() == Some(&Ch('[')) {
                self.inp.pop_front();
                opt = Some(self.until(Ch(']'))?);
            }
        }
        let mut body = || {
            self.blanks();
            match self.inp.pop_front() {
                Some(Open) => self.until(Close),
                _ => Err(Stop::Undefined("no definition")),
            }
        };
        let def = body()?;
        let end = if env { body()? } else { vec![] };
        let there = self.table.contains_key(&name) || DECLARE.contains(&name.as_str());
        match (d, there) {
            ("newcommand" | "newenvironment", true) => return Err(Stop::Error("it is defined already")),
            ("renewcommand" | "renewenvironment", false) => return Err(Stop::Error("it is not defined yet")),
            ("providecommand", true) => return Ok(()),
            ("DeclareRobustCommand", true) => return Err(Stop::Undefined("robust and defined")),
            _ => {}
        }
        self.table.insert(name, Mac { env, n, opt, def, end });
        Ok(())
    }
    /// Skips what is not taken; true if an \else ends it.
    fn skip(&mut self) -> R<bool> {
        let mut d = 0;
        loop {
            match self.inp.pop_front().ok_or(Stop::Undefined("an open conditional"))? {
                Cs(n) if IFS.contains(&n.as_str()) => d += 1,
                Cs(n) if n == "fi" && d == 0 => return Ok(false),
                Cs(n) if n == "fi" => d -= 1,
                Cs(n) if n == "else" && d == 0 => return Ok(true),
                _ => {}
            }
        }
    }
    fn run(&mut self) -> R<()> {
        while let Some(t) = self.inp.pop_front() {
            self.steps += 1;
            if self.steps > 2000 {
                return Err(Stop::Undefined("a long expansion"));
            }
            let Cs(n) = &t else {
                self.out.push(t);
                continue;
            };
            let n = n.clone();
            match n.as_str() {
                d if DECLARE.contains(&d) => self.declare(d)?,
                "iftrue" => self.ifs.push(true),
                "iffalse" => {
                    if self.skip()? {
                        self.ifs.push(false);
                    }
                }
                "iftypst" => {
                    // what is kept is not expanded in the model, so it must be plain
                    let mut v = String::new();
                    loop {
                        match self.inp.pop_front().ok_or(Stop::Undefined("an open conditional"))? {
                            Ch(c) => v.push(c),
                            Sp => v.push(' '),
                            Cs(n) if n == "fi" => break,
                            Cs(n) if n == "else" => {
                                if self.skip()? {
                                    return Err(Stop::Undefined("two branches"));
                                }
                                break;
                            }
                            _ => return Err(Stop::Undefined("tokens in typst code")),
                        }
                    }
                    self.out.push(Raw(format!("\\iftypst{v}\\fi ")));
                }
                "else" => {
                    if self.ifs.pop() != Some(true) {
                        return Err(Stop::Undefined("a stray else"));
                    }
                    if self.skip()? {
                        return Err(Stop::Undefined("two branches"));
                    }
                }
                "fi" => {
                    self.ifs.pop().ok_or(Stop::Undefined("a stray fi"))?;
                }
                n if IFS.contains(&n) => return Err(Stop::Undefined("a conditional that is not evaluated")),
                "begin" => {
                    let name = self.name()?;
                    match self.table.get(&name).cloned() {
                        Some(m) if m.env => self.environment(name, m)?,
                        _ => {
                            self.out.push(Cs("begin".into()));
                            self.out.push(Open);
                            self.out.extend(name.chars().map(Ch));
                            self.out.push(Close);
                        }
                    }
                }
                _ => match self.table.get(&n).cloned() {
                    Some(m) if !m.env => {
                        let a = self.args(&m)?;
                        let v = Self::subst(&m.def, &a)?;
                        self.push(v);
                    }
                    _ => self.out.push(t),
                },
            }
        }
        if !self.ifs.is_empty() {
            return Err(Stop::Undefined("an open conditional"));
        }
        Ok(())
    }
    fn environment(&mut self, name: String, m: Mac) -> R<()> {
        let a = self.args(&m)?;
        let mut body = vec![];
        let mut open = vec![name.clone()];
        loop {
            match self.inp.pop_front().ok_or(Stop::Error("an open environment"))? {
                Cs(n) if n == "begin" || n == "end" => {
                    let x = self.name()?;
                    if n == "begin" {
                        open.push(x.clone());
                    } else if open.pop().as_ref() != Some(&x) {
                        return Err(Stop::Undefined("environments overlap"));
                    } else if open.is_empty() {
                        break;
                    }
                    body.push(Cs(n));
                    body.push(Open);
                    body.extend(x.chars().map(Ch));
                    body.push(Close);
                }
                t => body.push(t),
            }
        }
        let mut v = Self::subst(&m.def, &a)?;
        v.extend(body);
        v.extend(Self::subst(&m.end, &a)?);
        self.push(v);
        Ok(())
    }
}
