//! Enumerations of specification items, with an independent description of each:
//! the JSON a user writes for it and the canonical item it stands for.
use mitex_spec::{ArgPattern, ArgShape, CmdShape, CommandSpec, CommandSpecItem, ContextFeature, EnvShape};
use serde_json::{json, Value};

pub const FEATURES: &[&str] = &["none", "is-math", "is-matrix", "is-cases", "is-figure", "is-table", "is-itemize", "is-enumerate"];

pub fn feature(n: &str) -> ContextFeature {
    match n {
        "is-math" => ContextFeature::IsMath,
        "is-matrix" => ContextFeature::IsMatrix,
        "is-cases" => ContextFeature::IsCases,
        "is-figure" => ContextFeature::IsFigure,
        "is-table" => ContextFeature::IsTable,
        "is-itemize" => ContextFeature::IsItemize,
        "is-enumerate" => ContextFeature::IsEnumerate,
        _ => ContextFeature::None,
    }
}

pub fn patterns(globs: &[&str], lens: &[u8]) -> Vec<(Value, ArgPattern)> {
    let mut r = vec![(json!({"kind": "none"}), ArgPattern::None), (json!({"kind": "greedy"}), ArgPattern::Greedy)];
    for l in lens {
        r.push((json!({"kind": "fixed-len", "len": l}), ArgPattern::FixedLenTerm { len: *l }));
        for m in lens {
            r.push((json!({"kind": "range-len", "min": l, "max": m}), ArgPattern::RangeLenTerm { min: *l, max: *m }));
        }
    }
    for g in globs {
        r.push((json!({"kind": "glob", "pattern": g}), ArgPattern::Glob { pattern: (*g).into() }));
    }
    r
}

pub type Item = (Value, CommandSpecItem);

fn cmd(args: ArgShape, alias: Option<&str>) -> CommandSpecItem {
    CommandSpecItem::Cmd(CmdShape { args, alias: alias.map(|a| a.to_string()) })
}
fn right(pattern: ArgPattern) -> ArgShape {
    ArgShape::Right { pattern }
}

/// Items in their canonical form.
pub fn canonical(globs: &[&str], lens: &[u8], aliases: &[Option<&str>]) -> Vec<Item> {
    let mut r: Vec<Item> = vec![];
    for a in aliases {
        for (j, p) in patterns(globs, lens) {
            r.push((json!({"kind": "cmd", "args": {"kind": "right", "pattern": j}, "alias": a}), cmd(right(p.clone()), *a)));
            for f in FEATURES {
                r.push((
                    json!({"kind": "env", "args": j, "ctx_feature": {"kind": f}, "alias": a}),
                    CommandSpecItem::Env(EnvShape { args: p.clone(), ctx_feature: feature(f), alias: a.map(|a| a.to_string()) }),
                ));
            }
        }
        r.push((json!({"kind": "cmd", "args": {"kind": "left1"}, "alias": a}), cmd(ArgShape::Left1, *a)));
        r.push((json!({"kind": "cmd", "args": {"kind": "infix-greedy"}, "alias": a}), cmd(ArgShape::InfixGreedy, *a)));
    }
    r
}

/// Items in the short forms.
pub fn short(globs: &[&str], aliases: &[Option<&str>]) -> Vec<Item> {
    let fixed = |len| right(ArgPattern::FixedLenTerm { len });
    let env = |args, ctx_feature, alias: Option<&str>| CommandSpecItem::Env(EnvShape { args, ctx_feature, alias: alias.map(|a| a.to_string()) });
    let mut r: Vec<Item> = vec![
        (json!({"kind": "sym"}), cmd(right(ArgPattern::None), None)),
        (json!({"kind": "cmd0"}), cmd(fixed(0), None)),
        (json!({"kind": "cmd1"}), cmd(fixed(1), None)),
        (json!({"kind": "cmd2"}), cmd(fixed(2), None)),
        (json!({"kind": "left1-cmd"}), cmd(ArgShape::Left1, None)),
        (json!({"kind": "matrix-env"}), env(ArgPattern::None, ContextFeature::IsMatrix, None)),
        (json!({"kind": "normal-env"}), env(ArgPattern::None, ContextFeature::None, None)),
    ];
    for a in aliases.iter().flatten() {
        r.push((json!({"kind": "alias-sym", "alias": a}), cmd(right(ArgPattern::None), Some(a))));
        r.push((json!({"kind": "greedy-cmd", "alias": a}), cmd(right(ArgPattern::Greedy), Some(a))));
        r.push((json!({"kind": "infix-cmd", "alias": a}), cmd(ArgShape::InfixGreedy, Some(a))));
        for g in globs {
            let p = ArgPattern::Glob { pattern: (*g).into() };
            r.push((json!({"kind": "glob-cmd", "pattern": g, "alias": a}), cmd(right(p.clone()), Some(a))));
            for f in FEATURES {
                r.push((json!({"kind": "glob-env", "pattern": g, "alias": a, "ctx_feature": {"kind": f}}), env(p.clone(), feature(f), Some(a))));
            }
        }
    }
    r
}

/// A description of a specification that does not depend on the order of its entries.
pub fn describe(s: &CommandSpec) -> Vec<String> {
    let mut v: Vec<String> = s.items().map(|(n, i)| format!("{n:?}: {i:?}")).collect();
    v.sort();
    v
}

pub fn build(v: &[(String, CommandSpecItem)]) -> CommandSpec {
    CommandSpec::new(v.iter().cloned().collect())
}
