//! C35: what is coloured has the colour that the source gives it, and nothing else has.
use crate::den::*;
use crate::fw::*;

pub fn check() -> Check {
    Check {
        id: "C35",
        enumerate,
        run,
        rule: "a state is the stack of what is open (groups, arguments, cells, formulas), with the colours that began in each; transitions \
               are the pieces of a text or formula; every closed sequence of pieces within the bounds is translated and evaluated by Typst, \
               and compared with what has which colour",
        assumptions: &[
            "the installed Typst compiler is the judge of Typst",
            "a colour is shown by its model and its name as they arrive at the handler, which is run as well",
        ],
        hang_s: 120,
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    run_one(kind, parts)
}

#[derive(Clone, Copy, PartialEq)]
struct Frame {
    /// in formulas; what is inside is one
    math: bool,
    inside: bool,
    open: &'static str,
    /// to the next argument or cell
    mid: &'static str,
    /// the number of those
    mids: (usize, usize),
    close: &'static str,
    /// what it shows
    shows: [&'static str; 3],
}
const fn fr(math: bool, inside: bool, open: &'static str, close: &'static str, a: &'static str, z: &'static str) -> Frame {
    Frame { math, inside, open, mid: "", mids: (0, 0), close, shows: [a, "", z] }
}
#[derive(Clone, Copy, PartialEq)]
enum P {
    /// a character
    Char,
    /// (source, what it shows)
    Text(bool, &'static str, &'static str),
    Blank,
    /// (source, how it arrives)
    Color(&'static str, &'static str),
    Open(Frame),
    Mid,
    Close,
    /// a script for the last item
    Script(&'static str),
}
use P::*;

#[derive(Clone)]
struct In {
    f: Frame,
    den: String,
    colors: usize,
    mids: usize,
}
#[derive(Clone)]
struct State {
    stack: Vec<In>,
    den: String,
    colors: usize,
    math: bool,
    chars: usize,
    tex: String,
    any: bool,
    /// where the last item began, if a script may follow
    base: Option<usize>,
    /// no blank may follow
    glued: bool,
}
impl State {
    fn mode(&self) -> bool {
        self.stack.last().map_or(self.math, |i| i.f.inside)
    }
    fn den(&mut self) -> &mut String {
        match self.stack.last_mut() {
            Some(i) => &mut i.den,
            None => &mut self.den,
        }
    }
    fn end_colors(&mut self) {
        let n = match self.stack.last_mut() {
            Some(i) => std::mem::take(&mut i.colors),
            None => std::mem::take(&mut self.colors),
        };
        let d = self.den();
        for _ in 0..n {
            d.push('⦄');
        }
    }
}

fn step(s: &State, p: P, depth: usize) -> Option<State> {
    let mut n = s.clone();
    n.base = None;
    n.glued = false;
    match p {
        Char => {
            let c = (b'a' + s.chars as u8) as char;
            n.chars += 1;
            n.tex.push(c);
            n.base = Some(n.den().len());
            n.den().push(c);
        }
        Text(m, t, d) => {
            if m != s.mode() {
                return None;
            }
            n.tex.push_str(t);
            n.den().push_str(d);
        }
        Blank => {
            if s.glued || s.tex.ends_with(' ') {
                return None;
            }
            n.tex.push(' ');
            n.den().push(' ');
            n.base = s.base;
        }
        Script(t) => {
            if !s.mode() {
                return None;
            }
            let at = s.base?;
            let c = (b'a' + s.chars as u8) as char;
            n.chars += 1;
            n.tex.push_str(&format!("{t}{c}"));
            let base = n.den().split_off(at);
            let d = format!("‹{}›{t}‹{c}›", base.trim_end());
            n.den().push_str(&d);
        }
        Color(t, k) => {
            n.tex.push_str(t);
            n.den().push_str(&format!("⦃⟪{k}⟫"));
            match n.stack.last_mut() {
                Some(i) => i.colors += 1,
                None => n.colors += 1,
            }
            n.any = true;
            n.glued = true;
        }
        Open(f) => {
            let any = f.open.contains("color");
            if f.math != s.mode() || s.stack.len() >= depth || f.open.starts_with('$') && s.tex.ends_with('$') {
                return None;
            }
            n.any |= any;
            n.tex.push_str(f.open);
            n.stack.push(In { f, den: f.shows[0].into(), colors: 0, mids: 0 });
            n.glued = true;
        }
        Mid => {
            let i = s.stack.last()?;
            if i.mids >= i.f.mids.1 {
                return None;
            }
            n.end_colors();
            let i = n.stack.last_mut()?;
            i.mids += 1;
            i.den.push_str(i.f.shows[1]);
            let t = i.f.mid;
            n.tex.push_str(t);
            n.glued = true;
        }
        Close => {
            let i = s.stack.last()?;
            if i.mids < i.f.mids.0 || s.tex.ends_with('$') || i.f.inside && !i.f.math && i.den == i.f.shows[0] {
                return None;
            }
            n.end_colors();
            let i = n.stack.pop()?;
            n.tex.push_str(i.f.close);
            let at = n.den().len();
            let d = i.den + i.f.shows[2];
            n.den().push_str(&d);
            // (scripts on groups of several items are no matter of colours)
            n.base = i.f.open.starts_with("\\textcolor").then_some(at);
        }
    }
    Some(n)
}

fn sweep(ctx: &mut Ctx, name: &str, math: bool, alpha: &[P], len: usize, depth: usize) {
    let mut b = DenBatch::new(if math { "math" } else { "text" });
    let mut count = 0u64;
    fn rec(ctx: &mut Ctx, b: &mut DenBatch, alpha: &[P], s: &State, left: usize, depth: usize, count: &mut u64) {
        if s.stack.is_empty() && s.any {
            *count += 1;
            b.add(ctx, || {
                let mut s = s.clone();
                s.end_colors();
                (s.tex, s.den)
            });
        }
        let least: usize = s.stack.iter().map(|i| 1 + i.f.mids.0.saturating_sub(i.mids)).sum();
        if left == 0 || least > left {
            return;
        }
        for p in alpha {
            if let Some(n) = step(s, *p, depth) {
                rec(ctx, b, alpha, &n, left - 1, depth, count);
            }
        }
    }
    let start = State { stack: vec![], den: String::new(), colors: 0, math, chars: 0, tex: String::new(), any: false, base: None, glued: true };
    rec(ctx, &mut b, alpha, &start, len, depth, &mut count);
    b.flush(ctx);
    ctx.bound(format!("{name}: all {count} texts with colours of up to {len} of {} pieces, up to {depth} deep", alpha.len()));
}

fn names(ctx: &mut Ctx, len: usize) {
    let alpha = ["a", "1", "-", "!", ".", "_", "é", ",", ":"];
    let mut b = DenBatch::new("text");
    let mut m = DenBatch::new("math");
    let mut count = 0u64;
    crate::util::seqs(alpha.len(), 1, len, |v| {
        let key: String = v.iter().map(|i| alpha[*i]).collect();
        for (t, d) in [
            ("\\textcolor{①}{x}", "⦃⟪①⟫x⦄"),
            ("\\colorbox{①}{x}", "⟪box ①⟫x⟪⟫"),
            ("{\\color{①}x}y", "⦃⟪①⟫x⦄y"),
        ] {
            count += 2;
            let case = || (t.replace('①', &key), d.replace('①', &key));
            b.add(ctx, case);
            m.add(ctx, case);
        }
    });
    for (model, key) in [("HTML", "ff00aA"), ("HTML", "012345"), ("rgb", "1,0.5,0"), ("rgb", "1, 0, .5"), ("RGB", "1,2,3"), ("cmyk", "0,0,0,1"), ("gray", "0.5")] {
        for (t, d) in [
            ("\\textcolor[②]{①}{x}y", "⦃⟪②:①⟫x⦄y"),
            ("\\colorbox[②]{①}{x}y", "⟪box ②:①⟫x⟪⟫y"),
            ("{\\color[②]{①}x}y", "⦃⟪②:①⟫x⦄y"),
            ("{a\\color [②] {①}x}y", "a⦃⟪②:①⟫x⦄y"),
            ("{a\\color%c\n[②]%c\n {①}x}y", "a⦃⟪②:①⟫x⦄y"),
            ("{a\\color\n [②]\n{①}x}y", "a⦃⟪②:①⟫x⦄y"),
            ("{a\\color[%c]\n ②%\n]{%c\n①%\n}x}y", "a⦃⟪②:①⟫x⦄y"),
            ("\\textcolor[%c\n ②%]\n]{%c\n①%\n}{x}y", "⦃⟪②:①⟫x⦄y"),
            ("\\colorbox[②%\n]{①%c\n }{x}y", "⟪box ②:①⟫x⟪⟫y"),
            ("{\\color\n%c\n{①}x}y", "⦃⟪①⟫x⦄y"),
            ("\\textcolor%c\n[②]\n{①}%c\n{x}y", "⦃⟪②:①⟫x⦄y"),
            ("\\colorbox\n[②]%c\n{①}\n{x}y", "⟪box ②:①⟫x⟪⟫y"),
            ("\\textcolor [②] {①} {x}y", "⦃⟪②:①⟫x⦄y"),
        ] {
            count += 2;
            let case = || (t.replace('①', key).replace('②', model), d.replace('①', key).replace('②', model));
            b.add(ctx, case);
            m.add(ctx, case);
        }
    }
    b.flush(ctx);
    m.flush(ctx);
    ctx.bound(format!("names: all of up to {len} of {} characters, in every command: {count} texts", alpha.len()));
}

const RED: P = Color("\\color{red}", "red");
const RGB: P = Color("\\color[rgb]{1,0,0}", "rgb:1,0,0");

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let grp = |m| Open(fr(m, m, "{", "}", "", ""));
    let tc = |m| Open(fr(m, m, "\\textcolor{blue}{", "}", "⦃⟪blue⟫", "⦄"));
    let tc2 = |m| Open(fr(m, m, "\\textcolor[RGB]{1,2,3}{", "}", "⦃⟪RGB:1,2,3⟫", "⦄"));
    let cb = |m| Open(fr(m, m, "\\colorbox{green}{", "}", "⟪box green⟫", "⟪⟫"));
    let frac = Open(Frame { math: true, inside: true, open: "\\frac{", mid: "}{", mids: (1, 1), close: "}", shows: ["frac(", "|", ")"] });
    let matrix = Open(Frame { math: true, inside: true, open: "\\begin{matrix}", mid: "&", mids: (0, 2), close: "\\end{matrix}", shows: ["mat(none,none)⟦", "¦", "⟧"] });
    let aligned = Open(Frame { math: true, inside: true, open: "\\begin{aligned}", mid: "\\\\", mids: (0, 2), close: "\\end{aligned}", shows: ["op(⦃", "↵", "⦄)"] });
    let cases = Open(Frame { math: true, inside: true, open: "\\begin{cases}", mid: "\\\\", mids: (0, 2), close: "\\end{cases}", shows: ["cases⟦", "⁏", "⟧"] });
    let table = Open(Frame { math: false, inside: false, open: "\\begin{tabular}{cc}", mid: "&", mids: (0, 1), close: "\\end{tabular}", shows: ["table[center,center]⟦", "¦", "⟧"] });
    names(ctx, if q { 3 } else { 4 });

    let core = [Char, Blank, RED, grp(true), tc(true), Script("^"), Close, frac, Mid];
    sweep(ctx, "core (math)", true, &core, if q { 6 } else { 8 }, 3);
    let core = [Char, Blank, RED, grp(false), tc(false), Close, Open(fr(false, true, "$", "$", "「", "」"))];
    sweep(ctx, "core (text)", false, &core, if q { 7 } else { 9 }, 3);
    let grids = [Char, RED, RGB, grp(true), tc(true), matrix, aligned, cases, Mid, Close];
    sweep(ctx, "grids", true, &grids, if q { 6 } else { 8 }, 3);
    let more = [
        Char, Blank, RED, RGB, tc(true), tc2(true), cb(true), Script("_"), grp(true), frac, matrix, aligned, Mid, Close,
        Open(fr(true, true, "\\left(", "\\right)", "lr((", "))")),
        Open(fr(true, true, "x^{", "}", "‹x›^‹", "›")),
        Open(fr(true, true, "\\sqrt{", "}", "root(|", ")")),
        Open(fr(true, false, "\\text{", "}", "", "")),
        Text(true, "\\alpha ", "α"), Text(true, "+", "+"), Text(true, ",", ","), Text(true, "(", "("), Text(true, "\\sin ", "op(sin)"),
    ];
    sweep(ctx, "all pieces (math)", true, &more, if q { 4 } else { 5 }, 3);
    let more = [
        Char, Blank, RED, RGB, tc(false), tc2(false), cb(false), grp(false), table, Mid, Close,
        Open(fr(false, false, "\\textbf{", "}", "strong(", ")")),
        Open(fr(false, false, "\\section{", "}", "heading1(", ")")),
        Open(fr(false, false, "\\begin{quote}", "\\end{quote}", "quote(", ")")),
        Open(fr(false, true, "\\(", "\\)", "「", "」")),
        Open(fr(false, true, "\\[", "\\]", "『", "』")),
        grp(true), tc(true), Script("_"), Text(false, "\\%", "%"), Text(true, "\\alpha ", "α"),
    ];
    sweep(ctx, "all pieces (text)", false, &more, if q { 5 } else { 6 }, 3);
}
