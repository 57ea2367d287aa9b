//! Synchronous grammars: every derivation gives a LaTeX text and the Typst text
//! it must be translated to. Derivations of a bounded size are counted and
//! unranked, so that a bounded space is enumerated completely and in parallel.

/// A production `sort -> tex / out`. Children are written ①②③ in both; their sorts are `kids`.
#[derive(Clone)]
pub struct Prod {
    pub sort: u8,
    pub tex: String,
    pub out: String,
    pub kids: Vec<u8>,
    /// produces neither content nor structure (a blank or a comment)
    pub trivia: bool,
    /// is a curly group (arguments of greedy commands are separated after it)
    pub group: bool,
}

/// How a list of a sort is wrapped up.
#[derive(Clone, Copy, PartialEq)]
pub enum Wrap {
    Plain,
    /// an empty list (or one of trivia only) stands for `zws`
    Zws,
    /// a group that is not the last item is followed by a comma
    Greedy,
}

pub struct Gram {
    pub prods: Vec<Prod>,
    pub wrap: Vec<Wrap>,
    by_sort: Vec<Vec<usize>>,
    /// node[p][n], list[s][n]
    nodes: Vec<Vec<u64>>,
    lists: Vec<Vec<u64>>,
}

#[derive(Default)]
pub struct Out {
    pub tex: String,
    pub out: String,
    pub nodes: u64,
}

const MARK: [char; 4] = ['①', '②', '③', '④'];

impl Gram {
    pub fn new(wrap: Vec<Wrap>) -> Gram {
        let n = wrap.len();
        Gram { prods: vec![], wrap, by_sort: vec![vec![]; n], nodes: vec![], lists: vec![] }
    }
    pub fn add(&mut self, sorts: &[u8], tex: &str, out: &str, kids: &[u8]) {
        for s in sorts {
            self.by_sort[*s as usize].push(self.prods.len());
            self.prods.push(Prod { sort: *s, tex: tex.into(), out: out.into(), kids: kids.to_vec(), trivia: false, group: false });
        }
    }
    pub fn trivia(&mut self, sorts: &[u8], tex: &str, out: &str) {
        let n = self.prods.len();
        self.add(sorts, tex, out, &[]);
        for p in &mut self.prods[n..] {
            p.trivia = true;
        }
    }
    pub fn group(&mut self, sorts: &[u8], tex: &str, out: &str, kids: &[u8]) {
        let n = self.prods.len();
        self.add(sorts, tex, out, kids);
        for p in &mut self.prods[n..] {
            p.group = true;
        }
    }
    /// Prepares the counts of derivations with up to `max` nodes.
    pub fn prepare(&mut self, max: usize) {
        let ns = self.wrap.len();
        self.nodes = vec![vec![0; max + 1]; self.prods.len()];
        self.lists = vec![vec![0; max + 1]; ns];
        for l in &mut self.lists {
            l[0] = 1;
        }
        for n in 1..=max {
            for (i, p) in self.prods.iter().enumerate() {
                self.nodes[i][n] = self.kids_count(&p.kids, n - 1);
            }
            for s in 0..ns {
                let mut c = 0u64;
                for k in 1..=n {
                    let nk: u64 = self.by_sort[s].iter().map(|p| self.nodes[*p][k]).sum();
                    c += nk * self.lists[s][n - k];
                }
                self.lists[s][n] = c;
            }
        }
    }
    fn kids_count(&self, kids: &[u8], n: usize) -> u64 {
        match kids {
            [] => (n == 0) as u64,
            [k] => self.lists[*k as usize][n],
            [k, rest @ ..] => (0..=n).map(|i| self.lists[*k as usize][i] * self.kids_count(rest, n - i)).sum(),
        }
    }
    /// The number of lists of sort `s` with exactly `n` nodes.
    pub fn count(&self, s: u8, n: usize) -> u64 {
        self.lists[s as usize][n]
    }
    /// The `r`-th list of sort `s` with exactly `n` nodes.
    pub fn get(&self, s: u8, n: usize, r: u64) -> Out {
        let mut o = Out::default();
        self.list(s, n, r, &mut o);
        o
    }
    fn list(&self, s: u8, mut n: usize, mut r: u64, o: &mut Out) {
        let su = s as usize;
        let mut all_trivia = true;
        while n > 0 {
            'pick: {
                for k in 1..=n {
                    let tail = self.lists[su][n - k];
                    for p in &self.by_sort[su] {
                        let c = self.nodes[*p][k] * tail;
                        if r < c {
                            let (nr, tr) = (r / tail, r % tail);
                            self.node(*p, k, nr, o);
                            let p = &self.prods[*p];
                            all_trivia &= p.trivia;
                            n -= k;
                            r = tr;
                            if p.group && n > 0 && self.wrap[su] == Wrap::Greedy {
                                o.out.push(',');
                            }
                            break 'pick;
                        }
                        r -= c;
                    }
                }
                unreachable!()
            }
        }
        if all_trivia && self.wrap[su] == Wrap::Zws {
            o.out.push_str("zws ");
        }
    }
    fn node(&self, p: usize, n: usize, mut r: u64, o: &mut Out) {
        o.nodes += 1;
        let p = &self.prods[p];
        let mut kids: [Out; 3] = Default::default();
        let mut left = n - 1;
        for (i, k) in p.kids.iter().enumerate() {
            let rest = &p.kids[i + 1..];
            let mut size = 0;
            loop {
                let c = self.lists[*k as usize][size] * self.kids_count(rest, left - size);
                if r < c {
                    break;
                }
                r -= c;
                size += 1;
            }
            let tail = self.kids_count(rest, left - size);
            self.list(*k, size, r / tail, &mut kids[i]);
            o.nodes += kids[i].nodes;
            r %= tail;
            left -= size;
        }
        fill(&p.tex, &mut o.tex, &kids, false);
        fill(&p.out, &mut o.out, &kids, true);
    }
}

fn fill(t: &str, o: &mut String, kids: &[Out; 3], out: bool) {
    if t.is_ascii() {
        o.push_str(t);
        return;
    }
    for c in t.chars() {
        match MARK.iter().position(|m| *m == c) {
            Some(i) => o.push_str(if out { &kids[i].out } else { &kids[i].tex }),
            None => o.push(c),
        }
    }
}

/// Whitespace in math mode only separates: drops it next to punctuation (except
/// where it keeps a parenthesis from being a call), and merges the rest.
pub fn norm_math(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut last = '(';
    let mut gap = false;
    let p = |c: char| "(),;_^&[]{}$".contains(c);
    for c in s.chars() {
        if c.is_whitespace() {
            gap = true;
            continue;
        }
        if gap && (!(p(last) || p(c)) || last == '\\' || (c == '(' && last.is_alphanumeric())) {
            o.push(' ');
        }
        gap = false;
        o.push(c);
        last = c;
    }
    o
}

/// In markup the amount of blanks does not matter, but where lines start does.
pub fn norm_text(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut run: Option<(u32, usize)> = None;
    for c in s.chars() {
        if c == '\n' || c == '\r' {
            let r = run.get_or_insert((0, 0));
            r.0 += 1;
            r.1 = 0;
        } else if c.is_whitespace() {
            run.get_or_insert((0, 0)).1 += 1;
        } else {
            flush(&mut run, &mut o);
            o.push(c);
        }
    }
    flush(&mut run, &mut o);
    if !o.contains('$') {
        return o.trim().to_string();
    }
    // between dollars it is math, between brackets in there markup
    let mut r = String::with_capacity(o.len());
    let mut stack: Vec<char> = vec![];
    let mut seg = String::new();
    let mut esc = false;
    for c in o.chars() {
        let math = stack.last() == Some(&'$');
        let turn = !esc && match c {
            '$' => true,
            '[' => math,
            ']' => stack.len() > 1 && stack.last() == Some(&'['),
            _ => false,
        };
        if turn {
            if math {
                r.push_str(&norm_math(&seg));
            } else {
                r.push_str(&seg);
            }
            seg.clear();
            r.push(c);
            if c == ']' || (c == '$' && math) {
                stack.pop();
            } else {
                stack.push(c);
            }
        } else {
            seg.push(c);
        }
        esc = c == '\\' && !esc;
    }
    r.push_str(&seg);
    r.trim().to_string()
}
fn flush(run: &mut Option<(u32, usize)>, o: &mut String) {
    match run.take() {
        None => {}
        Some((0, _)) => o.push(' '),
        Some((n, ind)) => {
            o.push('\n');
            if n > 1 {
                o.push('\n');
            }
            for _ in 0..ind {
                o.push(' ');
            }
        }
    }
}
