//! C09: the scoped map is a stack of maps.
use crate::fw::*;
use crate::util::*;
use mitex_lexer::snapshot_map::SnapshotMap;
use mitex_lexer::{Lexer, MacroEngine, MacroifyStream};
use std::collections::BTreeMap;

pub fn check() -> Check {
    Check {
        id: "C09",
        enumerate,
        run,
        rule: "a state is a stack of maps; transitions are insert, remove, open a scope, leave it with and without its changes; \
               after every transition all keys and the returned values are compared with the scoped map and the macro table",
        assumptions: &["scopes are left in the reverse order in which they were opened"],
        hang_s: 30,
    }
}

// operations: i<key><value>, r<key>, s, c, u
fn ops() -> Vec<String> {
    let mut v = vec![];
    for k in 0..2 {
        for x in 0..2 {
            v.push(format!("i{k}{x}"));
        }
        v.push(format!("r{k}"));
    }
    v.extend(["s", "c", "u"].map(String::from));
    v
}

#[derive(Default)]
struct Model {
    cur: BTreeMap<u8, u8>,
    saved: Vec<BTreeMap<u8, u8>>,
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let seq: Vec<&str> = parts[0].split_whitespace().collect();
    let mut m = Model::default();
    let mut snaps = vec![];
    obs.traces += 1;
    if kind == "table" {
        return table(&seq, obs);
    }
    let mut real: SnapshotMap<String, u8> = SnapshotMap::default();
    for (i, op) in seq.iter().enumerate() {
        let b = op.as_bytes();
        let key = || format!("k{}", b[1]);
        let mut ret = None;
        match b[0] {
            b'i' => {
                ret = Some((m.cur.insert(b[1], b[2]).is_none(), real.insert(key(), b[2])));
            }
            b'r' => {
                ret = Some((m.cur.remove(&b[1]).is_some(), real.remove(key())));
            }
            b's' => {
                m.saved.push(m.cur.clone());
                snaps.push(real.snapshot());
            }
            b'c' => {
                m.saved.pop().unwrap();
                real.commit(snaps.pop().unwrap());
            }
            _ => {
                m.cur = m.saved.pop().unwrap();
                real.rollback_to(snaps.pop().unwrap());
            }
        }
        obs.states += 1;
        obs.transitions += 1;
        if let Some((w, g)) = ret {
            if w != g {
                return Err(format!("step {i} ({op}) returns {g}, expected {w}"));
            }
        }
        for k in [b'0', b'1'] {
            let g = real.get(&format!("k{k}")).copied();
            if g != m.cur.get(&k).copied() {
                return Err(format!("after step {i} ({op}) key {} is {g:?}, expected {:?}", k as char, m.cur.get(&k)));
            }
        }
    }
    obs.outcome(&m.cur);
    Ok(())
}

/// The macro table of the engine; the values are two of the built-in declarations.
fn table(seq: &[&str], obs: &mut Obs) -> Result<(), String> {
    let mut lx = Lexer::new_with_bumper("", spec(), MacroEngine::new(spec()));
    let vals = ["newcommand", "renewcommand", "AtBeginDocument"].map(|n| lx.get_macro(n).unwrap());
    let names = ["newcommand", "f"];
    let mut e = MacroEngine::new(spec());
    let mut cur: BTreeMap<u8, usize> = [(0, 0)].into();
    let mut saved = vec![];
    let mut snaps = vec![];
    for (i, op) in seq.iter().enumerate() {
        let b = op.as_bytes();
        match b[0] {
            b'i' => {
                let v = (b[2] - b'0' + 1) as usize;
                cur.insert(b[1] - b'0', v);
                e.add_macro(names[(b[1] - b'0') as usize], vals[v].clone());
            }
            b's' => {
                saved.push(cur.clone());
                snaps.push(e.create_scope());
            }
            b'u' => {
                cur = saved.pop().unwrap();
                e.restore(snaps.pop().unwrap());
            }
            _ => return Ok(()),
        }
        obs.states += 1;
        obs.transitions += 1;
        for (k, n) in names.iter().enumerate() {
            let g = e.get_macro(n).map(|m| format!("{m:?}"));
            let w = cur.get(&(k as u8)).map(|v| format!("{:?}", vals[*v]));
            if g != w {
                return Err(format!("after step {i} ({op}) \\{n} is {g:?}, expected {w:?}"));
            }
        }
        // other engines have tables of their own
        if MacroEngine::new(spec()).get_macro("f").is_some() {
            return Err("a definition leaks to another engine".into());
        }
    }
    obs.outcome(&cur);
    Ok(())
}

fn enumerate(ctx: &mut Ctx) {
    let all = ops();
    let (a, b) = if ctx.quick() { (7, 6) } else { (9, 8) };
    for (kind, n, ops) in [
        ("map", a, all.clone()),
        ("table", b, all.iter().filter(|o| !o.starts_with(['r', 'c'])).cloned().collect()),
    ] {
        let mut s = String::new();
        let mut count = 0u64;
        seqs(ops.len(), 1, n, |v| {
            let mut d = 0;
            for i in v {
                match ops[*i].as_bytes()[0] {
                    b's' => d += 1,
                    b'c' | b'u' if d == 0 => return,
                    b'c' | b'u' => d -= 1,
                    _ => {}
                }
            }
            count += 1;
            if ctx.turn() {
                s.clear();
                for i in v {
                    s.push_str(&ops[*i]);
                    s.push(' ');
                }
                ctx.exec(kind, &[&s]);
            }
        });
        ctx.bound(format!("{kind}: all {count} well-nested sequences of up to {n} of {} operations over two keys and two values", ops.len()));
    }
}
