//! The installed typst as an oracle: evaluates pieces of Typst code in the scope
//! that mitex's package gives them, and returns what they evaluate to.
use std::path::PathBuf;
use std::process::Command;

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    Math,
    Markup,
}

pub fn quote(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 8);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-typst-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    d
}

/// The expression that evaluates `code` like packages/mitex/mitex.typ does.
pub fn expr(mode: Mode, code: &str) -> String {
    match mode {
        Mode::Math => format!("eval({}, scope: mitex-scope)", quote(&format!("${code}$"))),
        Mode::Markup => format!("eval({}, mode: \"markup\", scope: mitex-scope)", quote(code)),
    }
}

pub const PRE: &str = "#import \"/repo/packages/mitex/specs/mod.typ\": mitex-scope\n";

/// Runs a whole Typst document with `body`, queries `<r>` and returns the values.
pub fn query(body: &str) -> Result<Vec<serde_json::Value>, String> {
    let d = scratch();
    let f = d.join("main.typ");
    std::fs::write(&f, body).unwrap();
    let o = Command::new("typst")
        .args(["query", "--root", "/", "--field", "value", f.to_str().unwrap(), "<r>"])
        .env("SOURCE_DATE_EPOCH", "0")
        .output()
        .map_err(|e| format!("typst does not run: {e}"));
    let _ = std::fs::remove_file(&f);
    let _ = std::fs::remove_dir(&d);
    let o = o?;
    if !o.status.success() {
        let e = String::from_utf8_lossy(&o.stderr);
        return Err(e.lines().filter(|l| l.contains("error") || l.contains("hint")).collect::<Vec<_>>().join(" / "));
    }
    serde_json::from_slice(&o.stdout).map_err(|e| e.to_string())
}

/// What to ask of a piece.
#[derive(Clone, Copy, PartialEq)]
pub enum Ask {
    /// its `repr`, after laying it out
    Layout,
    /// what it shows (den.typ)
    Den,
}

/// The answer for every piece, or the error typst reports for it.
pub fn eval_all(items: &[(Mode, String)], ask: Ask) -> Vec<Result<String, String>> {
    let mut out = Vec::with_capacity(items.len());
    rec(items, ask, usize::MAX, &mut out);
    out.into_iter().map(|x| x.unwrap()).collect()
}

/// The same for what goes into a verdict: after many errors, the rest is left out (as `None`), and so is everything if
/// there is a violation and the cases are many.
pub fn eval_some(items: &[(Mode, String)], ask: Ask, ctx: &crate::fw::Ctx) -> Vec<Option<Result<String, String>>> {
    let mut out = Vec::with_capacity(items.len());
    rec(items, ask, if ctx.violated() { 2 } else { 30 }, &mut out);
    out
}

fn rec(items: &[(Mode, String)], ask: Ask, errors: usize, out: &mut Vec<Option<Result<String, String>>>) {
    if items.is_empty() {
        return;
    }
    if errors < usize::MAX && out.iter().filter(|o| matches!(o, Some(Err(_)))).count() >= errors {
        out.extend(items.iter().map(|_| None));
        return;
    }
    let mut b = String::from(PRE);
    if ask == Ask::Den {
        b.push_str(include_str!("den.typ"));
    }
    for (m, c) in items {
        let e = expr(*m, c);
        match ask {
            Ask::Layout => b.push_str(&format!("#{{let r = {e}; r; [#metadata(repr(r))<r>]}}\n\n")),
            Ask::Den => b.push_str(&format!("#[#metadata(den({e}))<r>]\n")),
        }
    }
    match query(&b) {
        Ok(v) if v.len() == items.len() => {
            out.extend(v.into_iter().map(|x| Some(Ok(x.as_str().unwrap_or_default().to_string()))));
        }
        Ok(v) => panic!("typst returned {} of {} values", v.len(), items.len()),
        Err(e) if items.len() == 1 => out.push(Some(Err(e))),
        Err(_) => {
            let (a, c) = items.split_at(items.len() / 2);
            rec(a, ask, errors, out);
            rec(c, ask, errors, out);
        }
    }
}

/// A defect on record: the code that shows it, and code that does without it. An
/// output with the defect is judged by how it fares without, as long as the defect is there.
struct Defect {
    signature: &'static str,
    probe: &'static str,
    rewrite: fn(&str) -> String,
}

/// Replaces the blanks between `a` and `b` by `zws`, after any of `names`.
fn fill_blank(s: &str, names: &[&str], a: &str, b: &str) -> String {
    let mut s = s.to_string();
    for n in names {
        let pre = format!("{n}{a}");
        let mut from = 0;
        while let Some(i) = s[from..].find(&pre).map(|i| from + i + pre.len()) {
            let rest = &s[i..];
            let t = rest.trim_start();
            if t.starts_with(b) {
                let end = s.len() - t.len();
                s.replace_range(i..end, "zws ");
            }
            from = i;
        }
    }
    s
}

/// Puts a backslash before every `c` without one.
fn escaped(s: &str, c: char) -> String {
    let mut o = String::new();
    let mut esc = false;
    for x in s.chars() {
        if x == c && !esc {
            o.push('\\');
        }
        esc = x == '\\' && !esc;
        o.push(x);
    }
    o
}

const GREEDY: &[&str] = &[
    "mitexbold", "mitexcal", "mitexdisplay", "mitexfrak", "mitexinline", "mitexitalic", "mitexmono", "mitexsans", "mitexscript", "mitexsscript", "mitexupright",
];

const DEFECTS: &[Defect] = &[
    Defect { signature: "style-of-nothing", probe: "mitexdisplay()", rewrite: |s| fill_blank(s, GREEDY, "(", ")") },
    Defect { signature: "sqrt-empty-option", probe: "mitexsqrt(\\[\\],x )", rewrite: |s| fill_blank(s, &["mitexsqrt"], "(\\[", "\\]") },
    Defect { signature: "argmax", probe: "argmax ", rewrite: |s| s.replace("argmax ", "max ") },
    Defect { signature: "argmin", probe: "argmin ", rewrite: |s| s.replace("argmin ", "min ") },
    Defect { signature: "dashleftarrow", probe: "arrow.l.dash ", rewrite: |s| s.replace("arrow.l.dash ", "arrow.l.dashed ") },
    Defect { signature: "dashrightarrow", probe: "arrow.r.dash ", rewrite: |s| s.replace("arrow.r.dash ", "arrow.r.dashed ") },
    Defect { signature: "Vmatrix", probe: "Vmatrix(a )", rewrite: |s| s.replace("Vmatrix(", "vmatrix(") },
    Defect { signature: "alignedat-of-nothing", probe: "alignedat(arg0: 2 ,)", rewrite: |s| s.replace("alignedat(arg0: 2 ,)", "alignedat(arg0: 2 ,zws )") },
    Defect { signature: "approxcolon", probe: "frac(approx: ,2 )", rewrite: |s| s.replace("approx:", "approx\\:") },
    Defect { signature: "lceil", probe: "frac(⌈ ,2 )", rewrite: |s| escaped(s, '⌈') },
    Defect { signature: "lfloor", probe: "frac(⌊ ,2 )", rewrite: |s| escaped(s, '⌊') },
    Defect { signature: "lgroup", probe: "frac(⟮ ,2 )", rewrite: |s| escaped(s, '⟮') },
    Defect { signature: "lBrace", probe: "frac(⦃ ,2 )", rewrite: |s| escaped(s, '⦃') },
    Defect { signature: "llcorner", probe: "frac(⌞ ,2 )", rewrite: |s| escaped(s, '⌞') },
    Defect { signature: "ulcorner", probe: "frac(⌜ ,2 )", rewrite: |s| escaped(s, '⌜') },
    Defect { signature: "textbraceleft", probe: "frac({ ,2 )", rewrite: |s| escaped(s, '{') },
];

/// The output without the defects on record, and which it has.
fn without_defects(probed: &mut [Option<bool>], s: &str) -> (String, Vec<&'static str>) {
    let mut s = s.to_string();
    let mut sig = vec![];
    for (d, p) in DEFECTS.iter().zip(probed) {
        let t = (d.rewrite)(&s);
        if t != s && *p.get_or_insert_with(|| eval_all(&[(Mode::Math, d.probe.to_string())], Ask::Layout)[0].is_err()) {
            s = t;
            sig.push(d.signature);
        }
    }
    (s, sig)
}

/// The defects on record that may be in an output.
pub fn defects(s: &str) -> Vec<&'static str> {
    DEFECTS.iter().filter(|d| (d.rewrite)(s) != s).map(|d| d.signature).collect()
}

/// A part of an enumeration that typst judges: cases are gathered, converted and
/// evaluated together, and recorded one by one.
pub struct Batch {
    kind: &'static str,
    pending: Vec<(String, Mode, Result<String, String>)>,
    probed: Vec<Option<bool>>,
}

/// The output without the defects on record that are still there.
pub fn mended(probed: &mut Vec<Option<bool>>, s: &str) -> String {
    probed.resize(DEFECTS.len(), None);
    without_defects(probed, s).0
}

pub fn convert(mode: Mode, tex: &str) -> Result<String, String> {
    crate::fw::guard(|| match mode {
        Mode::Math => crate::util::math(tex),
        Mode::Markup => crate::util::text(tex),
    })?
}

pub fn mode_of(kind: &str) -> Mode {
    if kind.ends_with("text") { Mode::Markup } else { Mode::Math }
}

/// The verdict for one translation and what typst made of it (without the defects `sig`).
fn verdict(conv: &Result<String, String>, ev: Option<&Result<String, String>>, sig: &[&str]) -> Result<(), String> {
    match (conv, ev) {
        (Err(e), _) => Err(format!("rejected: {e}")),
        (Ok(o), Some(Err(e))) => Err(format!("the output {o:?} is not accepted by Typst: {e}")),
        (Ok(o), _) if !sig.is_empty() => Err(format!("the output {o:?} is not accepted by Typst because of [{}]", sig.join("] ["))),
        _ => Ok(()),
    }
}

impl Batch {
    pub fn new(kind: &'static str) -> Batch {
        Batch { kind, pending: vec![], probed: vec![None; DEFECTS.len()] }
    }
    /// The next case of the enumeration.
    pub fn add(&mut self, ctx: &mut crate::fw::Ctx, tex: &str) {
        if ctx.turn() {
            let m = mode_of(self.kind);
            let r = convert(m, tex);
            self.pending.push((tex.to_string(), m, r));
            if self.pending.len() >= 20_000 {
                self.flush(ctx);
            }
        }
    }
    pub fn flush(&mut self, ctx: &mut crate::fw::Ctx) {
        let probed = &mut self.probed;
        let mut items = vec![];
        let mut sigs = vec![];
        for (_, m, r) in &self.pending {
            if let Ok(o) = r {
                let (o, sig) = without_defects(probed, o);
                items.push((*m, o));
                sigs.push(sig);
            }
        }
        let mut ev = eval_some(&items, Ask::Layout, ctx);
        if !ctx.violated() && !sigs.iter().zip(&ev).any(|(s, e)| s.is_empty() && matches!(e, Some(Err(_)))) {
            // none of the errors is a violation
            let rest: Vec<_> = ev.iter().zip(&items).filter(|x| x.0.is_none()).map(|x| x.1.clone()).collect();
            let mut rest = eval_all(&rest, Ask::Layout).into_iter();
            ev.iter_mut().filter(|e| e.is_none()).for_each(|e| *e = rest.next());
        }
        let mut it = ev.iter().zip(sigs);
        for (tex, _, conv) in self.pending.drain(..) {
            let (e, sig) = conv.as_ref().ok().map(|_| it.next().unwrap()).unzip();
            let e = match e {
                Some(None) => continue,
                e => e.and_then(|e| e.as_ref()),
            };
            let mut obs = crate::fw::Obs { states: 1, transitions: 1, traces: 1, outcome: None };
            obs.outcome(e.map(|e| e.as_ref().ok()));
            ctx.record(self.kind, &[&tex], obs, verdict(&conv, e, &sig.unwrap_or_default()).map_err(|m| m + index(&tex)));
        }
    }
}

/// The same for one case, for replays.
pub fn run_one(kind: &str, tex: &str) -> Result<(), String> {
    let m = mode_of(kind);
    let conv = convert(m, tex);
    let Ok(o) = &conv else { return verdict(&conv, None, &[]) };
    let (o, sig) = without_defects(&mut vec![None; DEFECTS.len()], o);
    let ev = eval_all(&[(m, o)], Ask::Layout).remove(0);
    verdict(&conv, Some(&ev), &sig).map_err(|m| m + index(tex))
}

fn index(tex: &str) -> &'static str {
    if crate::den::bracket_in_index(tex) {
        " [sqrt-bracket-index]"
    } else {
        ""
    }
}
