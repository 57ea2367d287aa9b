//! C27: tables have the columns, rules, rows and cells of the source.
use crate::den::*;
use crate::fw::*;

pub fn check() -> Check {
    Check {
        id: "C27",
        enumerate,
        run,
        rule: "a state is the stack of open tables (columns, cells of the row so far, whether the row has begun) with that of the line; \
               transitions are the pieces of a text with tables; every sequence of pieces within the bounds that LaTeX accepts, and every \
               column specification within the bounds, is translated and evaluated by Typst, and compared with the columns, alignments, \
               rules, rows and cells that it says",
        assumptions: &["the installed Typst compiler is the judge of Typst", "empty cells and rows at the end are the same as none"],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    run_one(kind, parts)
}

#[derive(Clone)]
struct Table {
    cols: usize,
    head: String,
    /// the finished rows with their rules, and the last one
    body: String,
    rows: usize,
    cells: usize,
    cell: String,
    begun: bool,
}
impl Table {
    fn begin(spec: &str) -> Table {
        let mut aligns = vec![];
        let mut lines = String::new();
        let mut comment = false;
        for c in spec.chars() {
            comment = c == '%' || comment && c != '\n';
            match c {
                _ if comment => {}
                'l' => aligns.push("left"),
                'c' => aligns.push("center"),
                'r' => aligns.push("right"),
                '|' => lines.push_str(&format!("〈vline {} 0.5pt〉", aligns.len())),
                _ => {}
            }
        }
        let head = format!("table[{}]⟦{lines}", aligns.join(","));
        Table { cols: aligns.len(), head, body: String::new(), rows: 0, cells: 0, cell: String::new(), begun: false }
    }
    /// What is written before the cell: the end of that before
    fn sep(&mut self) {
        if self.cells > 0 {
            self.body.push('¦');
        } else if self.rows > 0 {
            self.body.push('⁏');
        }
    }
    fn amp(&mut self) -> Option<()> {
        if self.cells + 1 >= self.cols {
            return None;
        }
        self.sep();
        self.body.push_str(self.cell.trim());
        self.cells += 1;
        self.cell.clear();
        self.begun = true;
        Some(())
    }
    fn row(&mut self) {
        self.sep();
        self.body.push_str(self.cell.trim());
        for _ in self.cells + 1..self.cols {
            self.body.push('¦');
        }
        self.cells = 0;
        self.cell.clear();
        self.rows += 1;
        self.begun = false;
    }
    fn end(mut self) -> String {
        if self.begun {
            self.row();
        }
        format!("{}{}⟧", self.head, self.body)
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Eye {
    New,
    Mid,
    Skip,
}
#[derive(Clone)]
struct State {
    open: Vec<Table>,
    eye: Eye,
    words: usize,
    /// tables in no table
    tops: usize,
    tex: String,
    den: String,
}
impl State {
    fn start() -> State {
        State { open: vec![], eye: Eye::Mid, words: 0, tops: 0, tex: String::new(), den: String::new() }
    }
    fn out(&mut self, s: &str) {
        match self.open.last_mut() {
            Some(t) => {
                t.cell.push_str(s);
                t.begun |= !s.trim().is_empty();
            }
            None => self.den.push_str(s),
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum P {
    Word,
    Text(&'static str, &'static str),
    Blank,
    Line,
    Comment,
    Amp,
    Row,
    Rule(&'static str, &'static str),
    Begin(&'static str),
    End,
}
use P::*;

const HLINE: P = Rule("\\hline ", "〈hline 0.5pt〉");

fn step(s: &State, p: P, depth: usize) -> Option<State> {
    let mut n = s.clone();
    match p {
        Word => {
            let c = (b'a' + s.words as u8) as char;
            n.words += 1;
            n.tex.push(c);
            n.out(&c.to_string());
            n.eye = Eye::Mid;
        }
        Text(t, d) => {
            if t.starts_with('$') && s.tex.ends_with('$') {
                return None;
            }
            n.tex.push_str(t);
            n.out(d);
            if let Some(t) = n.open.last_mut() {
                t.begun = true;
            }
            n.eye = Eye::Mid;
        }
        Blank => {
            n.tex.push(' ');
            if s.eye == Eye::Mid {
                n.out(" ");
                n.eye = Eye::Skip;
            }
        }
        Line => {
            // (paragraphs are no matter of tables)
            if s.eye == Eye::New {
                return None;
            }
            n.tex.push('\n');
            if s.eye == Eye::Mid {
                n.out(" ");
            }
            n.eye = Eye::New;
        }
        Comment => {
            n.tex.push_str("%c\n");
            n.eye = Eye::New;
        }
        Amp => {
            n.open.last_mut()?.amp()?;
            n.tex.push('&');
            n.eye = Eye::Mid;
        }
        Row => {
            n.open.last_mut()?.row();
            n.tex.push_str("\\\\");
            n.eye = Eye::Mid;
        }
        Rule(t, d) => {
            let table = n.open.last_mut()?;
            if table.begun {
                return None;
            }
            table.body.push_str(d);
            n.tex.push_str(t);
            n.eye = Eye::Skip;
        }
        Begin(spec) => {
            if s.open.len() >= depth {
                return None;
            }
            n.tex.push_str("\\begin{tabular}{");
            n.tex.push_str(spec);
            n.tex.push('}');
            n.tops += s.open.is_empty() as usize;
            n.open.push(Table::begin(spec));
            n.eye = Eye::Mid;
        }
        End => {
            let t = n.open.pop()?;
            n.tex.push_str("\\end{tabular}");
            n.out(&t.end());
            n.eye = Eye::Mid;
        }
    }
    Some(n)
}

fn sweep(ctx: &mut Ctx, name: &str, alpha: &[P], first: &[P], len: usize, depth: usize) {
    let mut b = DenBatch::new("text");
    let mut count = 0u64;
    fn rec(ctx: &mut Ctx, b: &mut DenBatch, alpha: &[P], s: &State, left: usize, depth: usize, count: &mut u64) {
        if s.open.is_empty() && s.tex.contains("\\end") {
            *count += 1;
            b.add(ctx, || (s.tex.clone(), s.den.clone()));
            // the table alone, in a formula
            if s.tex.starts_with("\\begin") && s.tex.ends_with("{tabular}") && s.den.starts_with("table") && s.tops == 1 {
                *count += 1;
                b.add(ctx, || (format!("z \\[y{}x\\]w", s.tex), format!("z 『y{}x』w", s.den)));
            }
        }
        if left == 0 {
            return;
        }
        for p in alpha {
            if let Some(n) = step(s, *p, depth) {
                if n.open.len() < left {
                    rec(ctx, b, alpha, &n, left - 1, depth, count);
                }
            }
        }
    }
    if first.is_empty() {
        rec(ctx, &mut b, alpha, &State::start(), len, depth, &mut count);
    }
    for p in first {
        rec(ctx, &mut b, alpha, &step(&State::start(), *p, depth).unwrap(), len, depth, &mut count);
    }
    b.flush(ctx);
    ctx.bound(format!("{name}: all {count} texts with tables of up to {len} of {} pieces, up to {depth} deep", alpha.len()));
}

fn specs(ctx: &mut Ctx, len: usize) {
    let mut b = DenBatch::new("text");
    let mut count = 0u64;
    let bodies: &[&[P]] = &[
        &[], &[Word], &[Word, Row, Word], &[HLINE, Word, Amp, Word, Row, HLINE], &[Word, Amp, Word, Amp, Word], &[Word, Row, Word, Amp, Word, Amp, Row, Word],
        &[Row, Amp, Word, Row],
    ];
    let alpha = ["l", "c", "r", "|", " ", "%|c\n  "];
    crate::util::seqs(alpha.len(), 1, len, |v| {
        let spec: String = v.iter().map(|i| alpha[*i]).collect();
        for body in bodies {
            let mut s = State::start();
            s.tex = format!("\\begin{{tabular}}{{{spec}}}");
            s.open = vec![Table::begin(&spec)];
            if s.open[0].cols == 0 {
                continue;
            }
            let s = body.iter().chain(&[End]).try_fold(s, |s, p| step(&s, *p, 1));
            if let Some(s) = s {
                count += 1;
                b.add(ctx, || (s.tex, s.den));
            }
        }
    });
    b.flush(ctx);
    ctx.bound(format!("columns: all specifications of up to {len} of {} characters, with {} bodies: {count} tables", alpha.len(), bodies.len()));
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    specs(ctx, if q { 4 } else { 6 });
    let (one, two, three) = (Begin("c"), Begin("|l|r"), Begin("lcr"));
    let core = [Word, Amp, Row, Blank, HLINE, End];
    sweep(ctx, "core", &core, &[one, two, three], if q { 7 } else { 9 }, 1);
    let space = [Word, Amp, Row, HLINE, Blank, Line, Comment, End];
    sweep(ctx, "spaces", &space, &[one, two], if q { 6 } else { 8 }, 1);
    let more = [
        Word, Amp, Row, HLINE, Rule("\\toprule ", "〈hline 1pt〉"), Rule("\\midrule ", "〈hline 0.5pt〉"), Rule("\\bottomrule\n", "〈hline 1pt〉"),
        Blank, Line, Comment, Text("$x$", "「x」"), Text("\\textbf{p q}", "strong(p q)"), Text("{g\nh}", "g h"), Text("\\&", "&"), Text("\\emph{k}", "emph(k)"),
        Text("$\\begin{matrix}i&j\\\\k\\end{matrix}$", "「mat(none,none)⟦i¦j⁏k⟧」"), Text("{}", ""), End,
    ];
    sweep(ctx, "all pieces", &more, &[two], if q { 5 } else { 6 }, 1);
    let nested = [Word, Amp, Row, HLINE, Begin("c"), Begin("rl"), End];
    sweep(ctx, "nested", &nested, &[], if q { 8 } else { 10 }, 3);
}
