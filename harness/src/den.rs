//! What a translation shows: the text evaluated by Typst, as a string of its
//! characters and its structure (see den.typ), compared with an expected one.
use crate::fw::{Ctx, Obs};
use crate::typst::*;

/// In formulas blanks mean nothing, and formulas in formulas are one formula. Cells and rows
/// at the end of a grid that are empty are the same as none.
pub fn norm(s: &str, mode: Mode) -> String {
    let mut o = String::with_capacity(s.len());
    let mut depth = if mode == Mode::Math { 1 } else { 0 };
    let mut nl = 0;
    // tables are text
    let mut tables = vec![];
    for c in s.chars() {
        match c {
            '⟦' => {
                let table = o.rfind("table[").is_some_and(|i| o.ends_with(']') && !o[i..].contains('⟦'));
                tables.push(depth);
                if table {
                    depth = 0;
                }
            }
            '⟧' => depth = tables.pop().unwrap_or(depth),
            _ => {}
        }
        let c = match c {
            '\u{a0}' if depth == 0 => '⍽',
            c => c,
        };
        match c {
            '「' | '『' => {
                if depth == 0 {
                    o.push(c);
                }
                depth += 1;
            }
            '」' | '』' => {
                depth -= 1;
                if depth == 0 {
                    o.push(c);
                }
            }
            // a group of nothing
            '\u{fdd0}' => nl = 0,
            // \hash and others come with a variation selector
            '\u{fe0e}' => {}
            '−' => o.push('-'),
            '…' => o.push_str("..."),
            '–' => o.push_str("--"),
            '—' => o.push_str("---"),
            c if c.is_whitespace() => {
                nl += (c == '\n') as u32;
                if depth == 0 && nl == 2 {
                    o.truncate(o.trim_end_matches(' ').len());
                    if !o.is_empty() && !o.ends_with(['¶', '⦅', '⦆', '』']) {
                        o.push('¶');
                    }
                } else if depth == 0 && !o.ends_with([' ', '↵', '¶', '⦅', '⦆', '『', '』', '⟦', '¦', '⁏', '〉']) && !o.is_empty() {
                    o.push(' ');
                }
            }
            '¶' if depth > 0 || o.is_empty() || o.ends_with(['¶', '⦅', '⦆', '』']) => {}
            c => {
                nl = 0;
                // blanks and paragraphs mean nothing at the ends of blocks
                match c {
                    '↵' | '¶' if o.ends_with(' ') => drop(o.pop()),
                    '⦆' | '『' | '•' | '№' | '⟧' | '¦' | '⁏' | '〈' => o.truncate(o.trim_end_matches([' ', '¶']).len()),
                    _ => {}
                }
                o.push(c);
            }
        }
    }
    if depth == 0 {
        o.truncate(o.trim_end_matches([' ', '¶']).len());
    }
    // an alignment of nothing
    let mut o = styles(&o);
    while o.contains("op(⦃⦄)") {
        o = styles(&o.replace("op(⦃⦄)", ""));
    }
    // the ends of rows and grids
    let mut r = String::with_capacity(o.len());
    for c in o.chars() {
        if matches!(c, '⁏' | '⟧') {
            while r.ends_with('¦') || c == '⟧' && r.ends_with('⁏') {
                r.pop();
            }
        }
        r.push(c);
    }
    r
}

/// A style of nothing but a style is one style.
fn styles(s: &str) -> String {
    // (text, it is one style and nothing else)
    let mut stack: Vec<(String, bool)> = vec![(String::new(), false)];
    for c in s.chars() {
        match c {
            '⦃' => stack.push((String::new(), false)),
            '⦄' if stack.len() > 1 => {
                let (t, one) = stack.pop().unwrap();
                let up = stack.last_mut().unwrap();
                up.1 = up.0.is_empty();
                up.0.push_str(&if one { t } else { format!("⦃{t}⦄") });
            }
            c => {
                let up = stack.last_mut().unwrap();
                up.0.push(c);
                up.1 = false;
            }
        }
    }
    stack.into_iter().map(|x| x.0).collect::<Vec<_>>().join("⦃")
}

pub struct DenBatch {
    kind: &'static str,
    pending: Vec<(String, String, Result<String, String>)>,
    probed: Vec<Option<bool>>,
}

fn verdict(mode: Mode, want: &str, conv: &Result<String, String>, ev: Option<&Result<String, String>>) -> Result<(), String> {
    let out = match conv {
        Err(e) => return Err(format!("rejected: {e}")),
        Ok(o) => o,
    };
    match ev.unwrap() {
        Err(e) => Err(format!("the output {out:?} is not accepted by Typst: {e}")),
        Ok(e) => {
            // (colours, for those who ask for them)
            let plain = if want.contains('⟪') { e.clone() } else { uncolored(e) };
            let (a, b) = (norm(want, mode), norm(&plain, mode));
            if a == b {
                return Ok(());
            }
            Err(format!("the output {out:?}\n  should show {a}\n  but shows   {b}"))
        }
    }
}

/// Without the names of colours.
fn uncolored(s: &str) -> String {
    let mut skip = false;
    s.chars()
        .filter(|c| {
            skip |= *c == '⟪';
            let keep = !skip;
            skip &= *c != '⟫';
            keep
        })
        .collect()
}

fn top(mode: Mode, den: &str) -> String {
    // the formula as a whole
    match mode {
        Mode::Math => den.strip_prefix('「').and_then(|d| d.strip_suffix('」')).unwrap_or(den).to_string(),
        Mode::Markup => den.to_string(),
    }
}

impl DenBatch {
    pub fn new(kind: &'static str) -> DenBatch {
        DenBatch { kind, pending: vec![], probed: vec![] }
    }
    /// The next case, if it is this worker's turn.
    pub fn add(&mut self, ctx: &mut Ctx, case: impl FnOnce() -> (String, String)) {
        if ctx.turn() {
            let (tex, want) = case();
            let r = convert(mode_of(self.kind), &tex);
            self.pending.push((tex, want, r));
            if self.pending.len() >= 10_000 {
                self.flush(ctx);
            }
        }
    }
    pub fn flush(&mut self, ctx: &mut Ctx) {
        let mode = mode_of(self.kind);
        let items: Vec<_> = self.pending.iter().filter_map(|p| p.2.as_ref().ok()).map(|o| (mode, mended(&mut self.probed, o))).collect();
        let ev = eval_some(&items, Ask::Den, ctx);
        let mut it = ev.iter();
        let mut left = vec![];
        for (tex, want, conv) in self.pending.drain(..) {
            let e = match conv.as_ref().ok().map(|_| it.next().unwrap().clone()) {
                Some(None) => {
                    left.push((tex, want, conv));
                    continue;
                }
                e => e.flatten().map(|e| e.map(|e| top(mode, &e))),
            };
            let mut obs = Obs { states: 1, transitions: 1, traces: 1, outcome: None };
            obs.outcome(e.as_ref().map(|e| e.as_ref().ok()));
            let v = verdict(mode, &want, &conv, e.as_ref()).map_err(|m| m + signature(&tex, &want, &conv));
            ctx.record(self.kind, &[&tex, &want], obs, v);
        }
        // (if the errors were no violations, the rest is due)
        if !ctx.violated() && !left.is_empty() {
            self.pending = left;
            self.flush(ctx);
        }
    }
}

/// Outputs with a defect on record: primes right after the parenthesis of a script.
fn prime_after_script(out: &str) -> bool {
    let b = out.as_bytes();
    let mut open = vec![];
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'\\' => i += 1,
            b'(' => open.push(i > 0 && matches!(b[i - 1], b'_' | b'^') && (i < 2 || b[i - 2] != b'\\')),
            b')' => {
                if open.pop() == Some(true) && b.get(i + 1) == Some(&b'\'') {
                    return true;
                }
            }
            _ => {}
        }
        i += 1;
    }
    false
}

/// Has a bracket in the index of a root.
pub fn bracket_in_index(tex: &str) -> bool {
    let mut rest = tex;
    while let Some(i) = rest.find("\\sqrt[") {
        rest = &rest[i + 6..];
        // up to the bracket that ends it
        let mut depth = 0;
        for (j, c) in rest.char_indices() {
            match c {
                '{' => depth += 1,
                '}' => depth -= 1,
                ']' if depth == 0 => break,
                '[' | ']' if !rest[..j].ends_with("\\left") => return true,
                _ => {}
            }
        }
    }
    false
}

/// Has a base of nothing with both scripts.
fn no_base(want: &str) -> bool {
    want.match_indices("‹›_‹").any(|(i, m)| {
        let mut depth = 1;
        let rest = &want[i + m.len()..];
        let end = rest.char_indices().find(|(_, c)| {
            depth += (*c == '‹') as i32 - (*c == '›') as i32;
            depth == 0
        });
        end.is_some_and(|(j, _)| rest[j..].starts_with("›^"))
    })
}

/// Inputs and outputs with a defect on record.
fn signature(tex: &str, want: &str, conv: &Result<String, String>) -> &'static str {
    // a definition with nothing else on its line leaves an empty line
    let def = crate::checks::c17::DEF;
    let alone = |l: &str| l.contains(def) && l.replace(def, "").chars().all(|c| matches!(c, ' ' | '{' | '}'));
    if tex.lines().any(alone) && *conv == convert(Mode::Markup, &tex.replace(def, "")) {
        return " [definition-line]";
    }
    if conv.as_ref().is_ok_and(|o| prime_after_script(o)) {
        return " [prime-after-script]";
    }
    let seq = |o: &String, a: &str, b: &str| o.split(a).skip(1).any(|r| r.trim_start().starts_with(b));
    if conv.as_ref().is_ok_and(|o| seq(o, ")", "zws_(") || seq(o, ")", "zws^(")) && no_base(want) {
        return " [scripts-without-base]";
    }
    if conv.as_ref().is_ok_and(|o| o.contains("];'")) && tex.replace("%c\n", "").replace([' ', '\n'], "").contains("}'") {
        return " [prime-after-text]";
    }
    if bracket_in_index(tex) {
        return " [sqrt-bracket-index]";
    }
    ""
}

/// The same for one case, for replays.
pub fn run_one(kind: &str, parts: &[&str]) -> Result<(), String> {
    let mode = mode_of(kind);
    let conv = convert(mode, parts[0]);
    let e = conv.as_ref().ok().map(|o| eval_all(&[(mode, mended(&mut vec![], o))], Ask::Den).remove(0).map(|e| top(mode, &e)));
    verdict(mode, parts[1], &conv, e.as_ref()).map_err(|m| m + signature(parts[0], parts[1], &conv))
}
