//! C13: cells of grids. C15: fences. C16: infix and style commands.
use crate::den::*;
use crate::fw::*;
use crate::texmath::*;

const RULE: &str = "a state is a sequence of tokens of a formula with the stack of what is open; a reference reader gives its meaning (groups, fences, \
                    cells and rows, parts of infix commands, what a style or a script applies to), and sequences that TeX rejects are left out; its \
                    translation is evaluated by Typst, and the content is compared with the meaning";

pub fn check() -> Check {
    Check { id: "C13", enumerate: grids, run, rule: RULE, assumptions: ASSUME, hang_s: 120 }
}
pub fn check15() -> Check {
    Check { id: "C15", enumerate: fences, run, rule: RULE, assumptions: ASSUME, hang_s: 120 }
}
pub fn check16() -> Check {
    Check { id: "C16", enumerate: infix, run, rule: RULE, assumptions: ASSUME, hang_s: 120 }
}
const ASSUME: &[&str] = &["the installed Typst compiler is the judge of Typst", "scripts on primes and on groups of several items are left out"];

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    run_one(kind, parts)
}

fn sweep(ctx: &mut Ctx, name: &str, toks: &'static [Tok], lo: usize, hi: usize, depth: usize) {
    let mut b = DenBatch::new("math");
    let (mut n, mut all) = (0u64, 0u64);
    balanced(toks, lo, hi, depth, |v| {
        all += 1;
        let Some(m) = Reader::formula(v) else { return };
        n += 1;
        b.add(ctx, || (v.iter().map(|t| t.tex).collect(), m));
    });
    b.flush(ctx);
    ctx.bound(format!("{name}: all {all} sequences of {lo} to {hi} of {} tokens with what is open closed, up to {depth} deep, of which TeX accepts {n}", toks.len()));
}

/// (source, meaning)
const PLACES: [(&str, &str); 13] = [
    ("\\left(①\\right)", "lr((①))"),
    ("\\left.①\\right]", "lr(①])"),
    ("\\frac{①}{b}", "frac(①|b)"),
    ("\\frac b{①}c", "frac(b|①)c"),
    ("b^{①}", "‹b›^‹①›"),
    ("\\sqrt[①]{b}", "root(①|b)"),
    ("\\sqrt{①}", "root(|①)"),
    ("\\begin{matrix}b&①\\\\b\\end{matrix}", "mat(none,none)⟦b¦①⁏b⟧"),
    ("\\begin{cases}①&b\\end{cases}", "cases⟦①&b⟧"),
    ("\\begin{aligned}b\\\\①&b\\end{aligned}", "op(⦃b↵①&b⦄)"),
    ("\\begin{bmatrix}b\\\\①\\end{bmatrix}", "mat(\"[\",\"]\")⟦b⁏①⟧"),
    ("\\substack{b\\\\{①}}", "b↵①"),
    ("\\text{b\\(①\\)}c", "b「①」c"),
];

/// Everything in every place.
fn places(ctx: &mut Ctx, toks: &'static [Tok], len: usize) {
    let mut b = DenBatch::new("math");
    let mut n = 0u64;
    balanced(toks, 1, len, 2, |v| {
        let Some(m) = Reader::formula(v) else { return };
        let tex: String = v.iter().map(|t| t.tex).collect();
        if m.is_empty() {
            return;
        }
        for (t, d) in PLACES {
            if t.contains("[①") && tex.contains(']') {
                continue;
            }
            // (infix and style commands in these are left out)
            if t.starts_with("\\substack") && v.iter().any(|t| matches!(t.k, K::Infix | K::Style | K::Color)) {
                continue;
            }
            n += 1;
            b.add(ctx, || (t.replace('①', &tex), d.replace('①', &m)));
        }
    });
    b.flush(ctx);
    ctx.bound(format!("places: all {n} of the sequences of up to {len} of {} tokens, in {} places", toks.len(), PLACES.len()));
}

const X: Tok = t("a", "a", K::Atom);
const Y: Tok = t("1", "1", K::Atom);
const ALPHA: Tok = t("\\alpha ", "α", K::Atom);
const COMMA: Tok = t(",", ",", K::Atom);
const SEMI: Tok = t(";", ";", K::Atom);
const PAREN: Tok = t(")", ")", K::Atom);
const SLASH: Tok = t("/", "/", K::Atom);
const SUM: Tok = t("\\sum ", "∑", K::Op);
const UP: Tok = t("^", "", K::Up);
const DOWN: Tok = t("_", "", K::Down);
const PRIME: Tok = t("'", "'", K::Prime);
const BLANK: Tok = t(" ", "", K::Blank);
const NL: Tok = t("\n", "", K::Blank);
const COMMENT: Tok = t("%c\n", "", K::Blank);
const OPEN: Tok = t("{", "", K::Open);
const CLOSE: Tok = t("}", "", K::Close);
const FRAC: Tok = t("\\frac ", "frac(①|②)", K::Cmd(2));
const HAT: Tok = t("\\hat ", "accent(①|\u{302})", K::Cmd(1));
const SQRT: Tok = t("\\sqrt ", "root(|①)", K::Cmd(1));
const AMP: Tok = t("&", "", K::Amp);
const ROW: Tok = t("\\\\", "", K::Row);
const RULE_: Tok = t("\\hline ", "", K::Rule);
const LIMITS: Tok = t("\\limits ", "limits", K::Limits);
const MAT: Tok = t("\\begin{matrix}", "mat(none,none)⟦①⟧", K::Begin(Env::Grid));
const MAT_: Tok = t("\\end{matrix}", "\\begin{matrix}", K::End(Env::Grid));
const PMAT: Tok = t("\\begin{pmatrix}", "mat(\"(\",\")\")⟦①⟧", K::Begin(Env::Grid));
const PMAT_: Tok = t("\\end{pmatrix}", "\\begin{pmatrix}", K::End(Env::Grid));
const CASES: Tok = t("\\begin{cases}", "cases⟦①⟧", K::Begin(Env::Cases));
const CASES_: Tok = t("\\end{cases}", "\\begin{cases}", K::End(Env::Cases));
const LINES: Tok = t("\\begin{aligned}", "op(⦃①⦄)", K::Begin(Env::Lines));
const LINES_: Tok = t("\\end{aligned}", "\\begin{aligned}", K::End(Env::Lines));
const STACK: Tok = t("\\substack{", "①", K::Begin(Env::Stack));
const LP: Tok = t("\\left(", "(", K::Left);
const LN: Tok = t("\\left.", "", K::Left);
const LB: Tok = t("\\left\\{", "{", K::Left);
const LA: Tok = t("\\left\\langle ", "⟨", K::Left);
const LS: Tok = t("\\left[", "[", K::Left);
const RP: Tok = t("\\right)", ")", K::Right);
const RN: Tok = t("\\right.", "", K::Right);
const RV: Tok = t("\\right|", "|", K::Right);
const RB: Tok = t("\\right]", "]", K::Right);
const RC: Tok = t("\\right\\}", "}", K::Right);
const MID: Tok = t("\\middle|", "mid(|)", K::Middle);
const OVER: Tok = t("\\over ", "frac(①|②)", K::Infix);
const CHOOSE: Tok = t("\\choose ", "binom(①|②)", K::Infix);
const STYLE: Tok = t("\\displaystyle ", "⦃①⦄", K::Style);
const BF: Tok = t("\\bf ", "⦃①⦄", K::Style);
const COLOR: Tok = t("\\color{red}", "⦃①⦄", K::Color);
const TEXT: Tok = t("\\text{t}", "t", K::Atom);

static GRID_ALL: &[Tok] = &[
    X, AMP, ROW, UP, MAT, MAT_, CASES, CASES_, LINES, LINES_, OPEN, CLOSE, BLANK, COMMENT, FRAC, PMAT, PMAT_, STACK, RULE_, COMMA, SEMI, PAREN, PRIME, SUM, LP, RP, OVER, BF, HAT,
    TEXT, SLASH, NL,
];
static GRID_CORE: &[Tok] = &[X, AMP, ROW, UP, MAT, MAT_, OPEN, CLOSE, BLANK];
static GRID_MAT: &[Tok] = &[X, AMP, ROW, MAT, MAT_];
static GRID_CASES: &[Tok] = &[X, AMP, ROW, DOWN, CASES, CASES_, LINES, LINES_, MAT, MAT_];

fn grids(ctx: &mut Ctx) {
    let q = ctx.quick();
    places(ctx, GRID_ALL, if q { 3 } else { 4 });
    sweep(ctx, "all", GRID_ALL, 0, if q { 4 } else { 5 }, 2);
    sweep(ctx, "core", GRID_CORE, 5, if q { 7 } else { 9 }, 3);
    sweep(ctx, "matrices", GRID_MAT, 8, if q { 9 } else { 12 }, 4);
    sweep(ctx, "three kinds", GRID_CASES, 5, if q { 6 } else { 8 }, 3);
}

static FENCE_ALL: &[Tok] = &[
    X, UP, DOWN, LP, LN, LB, LA, LS, RP, RN, RV, RB, RC, MID, OPEN, CLOSE, BLANK, COMMENT, FRAC, HAT, PAREN, COMMA, PRIME, ALPHA, OVER, BF, SUM, LIMITS, TEXT, SLASH, Y,
];
static FENCE_CORE: &[Tok] = &[X, UP, LP, LN, RB, RN, OPEN, CLOSE, FRAC];
static FENCE_DEEP: &[Tok] = &[X, DOWN, LP, LB, RN, RV];

fn fences(ctx: &mut Ctx) {
    let q = ctx.quick();
    places(ctx, FENCE_ALL, if q { 3 } else { 4 });
    sweep(ctx, "all", FENCE_ALL, 0, if q { 4 } else { 5 }, 3);
    sweep(ctx, "core", FENCE_CORE, 5, if q { 7 } else { 8 }, 3);
    sweep(ctx, "deep", FENCE_DEEP, 5, if q { 8 } else { 10 }, 5);
}

static INFIX_ALL: &[Tok] = &[
    X, OVER, OPEN, CLOSE, STYLE, UP, LP, RP, MAT, MAT_, AMP, ROW, BLANK, COMMENT, FRAC, CHOOSE, BF, COLOR, DOWN, SQRT, PRIME, COMMA, PAREN, SUM, LIMITS, CASES, CASES_, TEXT, Y, STACK,
];
static INFIX_CORE: &[Tok] = &[X, OVER, OPEN, CLOSE, STYLE, UP, LP, RP];
static INFIX_GRID: &[Tok] = &[X, OVER, BF, MAT, MAT_, AMP, ROW, DOWN, OPEN, CLOSE];
static INFIX_STYLE: &[Tok] = &[X, CHOOSE, OPEN, CLOSE, COLOR, STYLE, FRAC];

fn infix(ctx: &mut Ctx) {
    let q = ctx.quick();
    places(ctx, INFIX_ALL, if q { 3 } else { 4 });
    sweep(ctx, "all", INFIX_ALL, 0, if q { 4 } else { 5 }, 2);
    sweep(ctx, "core", INFIX_CORE, 5, if q { 7 } else { 8 }, 3);
    sweep(ctx, "grids", INFIX_GRID, 5, if q { 7 } else { 8 }, 2);
    sweep(ctx, "styles", INFIX_STYLE, 5, if q { 7 } else { 8 }, 3);
}
