//! C05: argument patterns match exactly the prefixes of their language.
use crate::fw::*;
use crate::globm::*;
use crate::util::*;

pub fn check() -> Check {
    Check {
        id: "C05",
        enumerate,
        run,
        rule: "a state is an argument pattern and the position automaton of its language; transitions are its steps on every word \
               of argument kinds up to the bound; each step is compared with the glob matcher the parser uses",
        assumptions: &["patterns are the deterministic ones: the next argument kind decides which part of the pattern it belongs to; alternatives are not nested and a star is not inside of one"],
        hang_s: 30,
    }
}

fn run(_kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let p = parse(parts[0]).ok_or("not a pattern")?;
    let n = Nfa::new(&p);
    let hi: usize = parts[1].parse().unwrap();
    obs.states += 1;
    let mut bad = None;
    let mut h = vec![];
    let mut w = vec![];
    seqs(SIGMA.len(), 0, hi, |v| {
        w.clear();
        w.extend(v.iter().map(|i| SIGMA[*i]));
        let want = n.prefix(&w);
        let got = mitex_glob::glob_match_prefix(parts[0], std::str::from_utf8(&w).unwrap());
        obs.transitions += 1;
        obs.traces += 1;
        h.push(got);
        if want != got && bad.is_none() {
            bad = Some(format!("pattern {:?}: {:?} {} a prefix of a match, but the matcher says {got}", parts[0], String::from_utf8_lossy(&w), if want { "is" } else { "is not" }));
        }
    });
    obs.outcome(h);
    bad.map_or(Ok(()), Err)
}

fn enumerate(ctx: &mut Ctx) {
    let (n, w) = if ctx.quick() { (7, 4) } else { (8, 6) };
    let atoms = ["t", "b", "p", "{", ",", "}", "?", "*", "[tb]", "[!t]"];
    let mut s = String::new();
    let mut count = 0u64;
    let ws = w.to_string();
    seqs(atoms.len(), 0, n, |v| {
        // braces are balanced and not nested, commas only in them, stars only outside of them (the matcher's design)
        let mut d = 0i32;
        for i in v {
            match *i {
                3 => d += 1,
                5 => d -= 1,
                4 if d == 0 => return,
                7 if d > 0 => return,
                _ => {}
            }
            if !(0..2).contains(&d) {
                return;
            }
        }
        if d != 0 {
            return;
        }
        s.clear();
        s.extend(v.iter().map(|i| atoms[*i]));
        if s.contains("{}") {
            return;
        }
        let Some(p) = parse(&s) else { return };
        if !Nfa::new(&p).deterministic() {
            return;
        }
        count += 1;
        ctx.case("glob", &[&s, &ws]);
    });
    ctx.bound(format!("all {count} deterministic patterns of up to {n} elements (letters, wildcards, classes, braces, commas) x all words of up to {w} argument kinds"));

    // classes: lists, ranges and their complements, in every context
    let items = ["b", "p", "t", "b-p", "b-t", "p-t", "a-o", "q-z", "t-b", "p-p", "z", "-"];
    let contexts = ["①", "①t", "t①", "①①", "{①,t}b", "{,t①}b", "{①b,t}", "*①", "b①*", "①?", "{bt,①p}t", "①*t", "[!b-o]①"];
    let mut count = 0u64;
    let ws = if ctx.quick() { "4" } else { "6" };
    seqs(items.len(), 1, if ctx.quick() { 2 } else { 3 }, |v| {
        // (a dash is itself at the ends only)
        let body: String = v.iter().map(|i| items[*i]).collect();
        if v.iter().enumerate().any(|(k, i)| items[*i] == "-" && k > 0 && k + 1 < v.len()) || body.starts_with("--") {
            return;
        }
        for (neg, first) in [("", ""), ("!", ""), ("^", ""), ("", "]"), ("!", "]")] {
            for c in contexts {
                let class = format!("[{neg}{first}{body}]");
                if first == "]" && body.starts_with('-') {
                    continue;
                }
                let s = c.replace('①', &class);
                let Some(p) = parse(&s) else { continue };
                if !Nfa::new(&p).deterministic() {
                    continue;
                }
                count += 1;
                ctx.case("glob", &[&s, ws]);
            }
        }
    });
    ctx.bound(format!("all {count} deterministic patterns of a class of up to {} of {} members or ranges, complemented or not, in {} contexts", if ctx.quick() { 2 } else { 3 }, items.len(), contexts.len()));
}
