//! C03: delimiters are paired as they are nested.
use crate::fw::*;
use crate::gram::*;
use crate::util::*;
use mitex_parser::syntax::{SyntaxKind, SyntaxNode};

pub fn check() -> Check {
    Check {
        id: "C03",
        enumerate,
        run,
        rule: "a state is a well-nested text with the tree of its pairs (a derivation of a grammar), or a stack of open delimiters; \
               transitions are productions, or opening and closing; the nodes of the real syntax tree are compared with it, and texts \
               in which a delimiter closes nothing must be rejected",
        assumptions: &["a delimiter that is left open ends where the construct around of it is closed"],
        hang_s: 30,
    }
}

fn skeleton(n: &SyntaxNode, o: &mut String) {
    use SyntaxKind::*;
    for c in n.children_with_tokens() {
        match c {
            rowan::NodeOrToken::Node(n) => {
                let tag = match n.kind() {
                    ItemCurly => "C",
                    ItemBracket => "B",
                    ItemParen => "P",
                    ItemEnv => "E",
                    ItemLR => "L",
                    ItemFormula => "F",
                    ItemAttachComponent => "S",
                    ItemCmd => "M",
                    ClauseArgument => "A",
                    _ => {
                        skeleton(&n, o);
                        continue;
                    }
                };
                o.push_str(tag);
                o.push('(');
                skeleton(&n, o);
                o.push(')');
            }
            rowan::NodeOrToken::Token(t) => {
                if matches!(t.kind(), TokenWord | TokenAmpersand) {
                    o.push_str(t.text());
                }
            }
        }
    }
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.traces += 1;
    let s = parts[0];
    if kind == "nest" {
        obs.outcome(parts[1]);
        let mut got = String::new();
        skeleton(&mitex_parser::parse(s, spec()), &mut got);
        if got != parts[1] {
            return Err(format!("the pairs are {got:?}, expected {:?}", parts[1]));
        }
        return Ok(());
    }
    // sequences of delimiters
    let want = parts[1] == "ok";
    obs.outcome(want);
    let tree = mitex_parser::parse(s, spec());
    let bad = tree.descendants().any(|n| {
        n.kind() == SyntaxKind::TokenError
            || n.kind() == SyntaxKind::ItemCmd && n.first_token().is_some_and(|t| t.text() == "\\right")
    });
    if bad == want {
        return Err(format!("the syntax tree is {}\n{tree:#?}", if bad { "wrong, but every delimiter is paired" } else { "fine, but a delimiter closes nothing" }));
    }
    if !want {
        for (mode, r) in [("math", math(s)), ("text", text(s))] {
            if let Ok(o) = r {
                return Err(format!("{mode}: a delimiter closes nothing, but it is accepted: {o:?}"));
            }
        }
    }
    Ok(())
}

const OPEN: &[&str] = &["{", "\\begin{matrix}", "\\left(", "\\("];
const CLOSE: &[&str] = &["}", "\\end{matrix}", "\\right)", "\\)"];

/// What the sequence of delimiters must give; a closing delimiter ends open ones inside of its pair.
fn accepts(seq: &[usize]) -> bool {
    let mut st: Vec<usize> = vec![];
    for i in seq {
        if *i < 4 {
            st.push(*i);
            continue;
        }
        let k = i - 4;
        loop {
            let Some(top) = st.pop() else { return false };
            if top == k {
                break;
            }
            // what the open construct leaves to the ones around of it
            let ends = match (top, k) {
                (0, _) => false,
                (1, 0) => true,
                (1, _) => false,
                (2, 0 | 1) => true,
                (2, _) => false,
                (_, 0 | 1 | 2) => true,
                _ => unreachable!(),
            };
            if !ends {
                return false;
            }
        }
    }
    true
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    // 0: math, 1: inside of brackets, 2: text
    let mut g = Gram::new(vec![Wrap::Plain; 3]);
    for s in [0u8, 1] {
        let k = &[s];
        g.add(k, "a", "a", &[]);
        g.add(k, " ", "", &[]);
        g.add(k, "{①}", "C(①)", &[0]);
        g.add(k, "\\begin{matrix}①\\end{matrix}", "E(①)", &[0]);
        g.add(k, "\\left(①\\right)", "L(①)", &[s]);
        g.add(k, "\\text{$x①$}", "M(A(C(F(x①))))", &[0]);
        g.add(k, "\\text{\\(①\\)}", "M(A(C(F(①))))", &[0]);
        g.add(k, "\\frac{①}{②}", "M(A(C(①))A(C(②)))", &[0, 0]);
        g.add(k, "\\sqrt[①]{②}", "M(A(B(①))A(C(②)))", &[1, 0]);
        g.add(k, "\\hat\\left[①\\right.", "M(A(L(①.)))", &[s]);
        g.add(k, "\\dot\\begin{matrix}①\\end{matrix}", "M(A(E(①)))", &[0]);
        g.add(k, "\\begin{array}{①}②\\end{array}", "E(A(C(①))②)", &[0, 0]);
        g.add(k, "\\alpha ", "M()", &[]);
        g.add(k, "{}^{①}", "S(A(C())C(①))", &[0]);
        g.add(k, "{①}_\\left\\{②\\right\\}", "S(A(C(①))L(②))", &[0, s]);
        g.add(k, "(①)", "①", &[s]);
        if s == 0 {
            g.add(k, "[①]", "①", &[0]);
        }
    }
    let k = &[2];
    g.add(k, "a", "a", &[]);
    g.add(k, "{①}", "C(①)", &[2]);
    g.add(k, "{}$x①$\n", "C()F(x①)", &[0]);
    g.add(k, "\\(①\\)", "F(①)", &[0]);
    g.add(k, "\\[①\\]", "F(①)", &[0]);
    g.add(k, "{}$$①$$\n", "C()F(①)", &[0]);
    g.add(k, "\\textbf{①}", "M(A(C(①)))", &[2]);
    g.add(k, "\\begin{quote}①\\end{quote}", "E(①)", &[2]);
    g.add(k, "\\begin{align}①\\end{align}", "E(①)", &[0]);
    g.add(k, "(①)", "①", &[2]);
    let (a, b) = if q { (4, 4) } else { (5, 5) };
    g.prepare(a.max(b));
    for (s, hi, name) in [(0u8, a, "math"), (2, b, "text")] {
        for n in 0..=hi {
            for r in 0..g.count(s, n) {
                if ctx.turn() {
                    let o = g.get(s, n, r);
                    ctx.exec("nest", &[&o.tex, &o.out]);
                    ctx.transitions += o.nodes;
                }
            }
        }
        ctx.bound(format!("{name}: all {} well-nested texts of up to {hi} constructs", (0..=hi).map(|n| g.count(s, n)).sum::<u64>()));
    }
    let n = if q { 6 } else { 8 };
    let mut s = String::new();
    seqs(8, 1, n, |v| {
        if ctx.turn() {
            s.clear();
            for i in v {
                s.push_str(if *i < 4 { OPEN[*i] } else { CLOSE[*i - 4] });
            }
            let want = if accepts(v) { "ok" } else { "error" };
            ctx.exec("seq", &[&s, want]);
            ctx.transitions += v.len() as u64;
        }
    });
    ctx.bound(format!("every sequence of up to {n} opening and closing delimiters of four kinds"));
}
