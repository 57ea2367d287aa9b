//! C19: a specification survives its binary form. C31: and its JSON form.
use crate::fw::*;
use crate::specs::*;
use crate::util::*;
use mitex_spec::CommandSpecItem;
use serde_json::Value;
use std::cell::RefCell;
use std::collections::HashMap;

pub fn check() -> Check {
    Check {
        id: "C19",
        enumerate,
        run,
        rule: "a state is a specification (a map of items) or its bytes at an address; transitions write and read it; every \
               specification and every address modulo 16 within the bounds is run, and what is read is compared with what was written",
        assumptions: &["Debug of an item shows all of it"],
        hang_s: 60,
    }
}

pub fn check31() -> Check {
    Check {
        id: "C31",
        enumerate: enumerate31,
        run: run31,
        rule: "a state is a JSON specification; its transition compiles it, and the result is compared with the canonical items that a \
               table of the forms gives; so are the JSON it is written as again and its binary form; damaged JSON must be rejected",
        assumptions: &["Debug of an item shows all of it"],
        hang_s: 60,
    }
}

const GLOBS: &[&str] = &["{,b}t", "*", "", "t\u{e9}", "{,b}{,p}ttttttttttttttttt"];
const LENS: &[u8] = &[0, 1, 2, 255];
const ALIASES: &[Option<&str>] = &[None, Some(""), Some("a"), Some("#m"), Some("\u{4e2d}\u{6587}12345678"), Some("a rather long alias, longer than inline")];
const NAMES: &[&str] = &["", "a", "*", "frac", "\u{e9}", "a name which is not kept inline", "12345678", "123456789"];

thread_local! {
    static ALL: Vec<Item> = {
        let mut v = canonical(GLOBS, LENS, ALIASES);
        v.extend(short(GLOBS, ALIASES));
        v
    };
    static TMP: RefCell<HashMap<String, Vec<u8>>> = Default::default();
}

fn item(i: &str) -> CommandSpecItem {
    let i: usize = i.parse().unwrap();
    ALL.with(|a| a[i].1.clone())
}

/// parts: "name=item" ..
fn parse(parts: &[&str]) -> Vec<(String, CommandSpecItem)> {
    parts.iter().map(|p| p.rsplit_once('=').unwrap()).map(|(n, i)| (n.to_string(), item(i))).collect()
}

/// Reads `bytes` from every address modulo 16.
fn at_all(bytes: &[u8], obs: &mut Obs, want: &[String]) -> Result<(), String> {
    let mut buf = vec![0xa5u8; bytes.len() + 48];
    for off in 0..16 {
        let base = buf.as_ptr() as usize;
        let start = (16 - base % 16) % 16 + off;
        buf[start..start + bytes.len()].copy_from_slice(bytes);
        let s = &buf[start..start + bytes.len()];
        for (how, got) in [("from_bytes", mitex_spec::CommandSpec::from_bytes(s)), ("from_bytes_unchecked", unsafe { mitex_spec::CommandSpec::from_bytes_unchecked(s) })] {
            obs.transitions += 1;
            obs.traces += 1;
            let got = describe(&got);
            if got != want {
                let d: Vec<_> = want.iter().filter(|x| !got.contains(x)).chain(got.iter().filter(|x| !want.contains(x))).take(4).collect();
                return Err(format!("{how} at an address of {off} modulo 16 gives a specification that differs in {d:?}"));
            }
        }
    }
    Ok(())
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    let s = match kind {
        "default" => spec(),
        _ => build(&parse(parts)),
    };
    let want = if kind == "default" {
        describe(&s)
    } else {
        let mut m: Vec<(String, CommandSpecItem)> = vec![];
        for (n, i) in parse(parts) {
            m.retain(|x| x.0 != n);
            m.push((n, i));
        }
        let mut v: Vec<String> = m.iter().map(|(n, i)| format!("{n:?}: {i:?}")).collect();
        v.sort();
        for (n, i) in &m {
            let d = |x: Option<&dyn std::fmt::Debug>| format!("{x:?}");
            let (c, e) = match i {
                CommandSpecItem::Cmd(c) => (Some(c as &dyn std::fmt::Debug), None),
                CommandSpecItem::Env(e) => (None, Some(e as &dyn std::fmt::Debug)),
            };
            if d(s.get_cmd(n).map(|x| x as _)) != d(c) || d(s.get_env(n).map(|x| x as _)) != d(e) {
                return Err(format!("looking up {n:?} does not give its entry"));
            }
        }
        if s.get("no such name").is_some() {
            return Err("a name that is not there has an entry".into());
        }
        v
    };
    if describe(&s) != want {
        return Err("a new specification does not list its entries".into());
    }
    let bytes = s.to_bytes();
    obs.outcome(&bytes);
    at_all(&bytes, obs, &want)?;
    // what was read is written as something that reads the same
    let again = mitex_spec::CommandSpec::from_bytes(&bytes).to_bytes();
    obs.transitions += 1;
    if describe(&mitex_spec::CommandSpec::from_bytes(&again)) != want {
        return Err("writing a specification that was read changes it".into());
    }
    // canonical JSON
    let m: HashMap<&str, &CommandSpecItem> = s.items().collect();
    let j = serde_json::to_string(&m).map_err(|e| e.to_string())?;
    let b: HashMap<String, CommandSpecItem> = serde_json::from_str(&j).map_err(|e| format!("the JSON of the canonical items does not read: {e}"))?;
    obs.traces += 1;
    if describe(&mitex_spec::CommandSpec::new(b.into_iter().collect())) != want {
        return Err("the JSON of the canonical items gives other items".into());
    }
    Ok(())
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    let n = ALL.with(|a| a.len());
    ctx.case("default", &[]);
    ctx.case("items", &[]);
    for i in 0..n {
        for name in NAMES {
            ctx.case("items", &[&format!("{name}={i}")]);
        }
    }
    ctx.bound(format!("specifications of one of {n} items under each of {} names", NAMES.len()));
    let step = if q { 17 } else { 3 };
    for i in (0..n).step_by(step) {
        for j in (0..n).step_by(step) {
            ctx.case("items", &[&format!("a={i}"), &format!("b={j}")]);
            if i % 2 == 0 {
                ctx.case("items", &[&format!("a={i}"), &format!("a={j}")]);
            }
        }
    }
    ctx.bound(format!("specifications of two items out of {}", n.div_ceil(step)));
    // sizes: the layout of the map changes with them
    for k in 0..if q { 130 } else { 700 } {
        for mul in [1, 7] {
            let v: Vec<String> = (0..k).map(|i| format!("n{}={}", i * mul, (i * 31 + k) % n)).collect();
            let p: Vec<&str> = v.iter().map(|x| x.as_str()).collect();
            ctx.case("items", &p);
        }
    }
    ctx.bound("specifications of every size up to a bound; each read at every address modulo 16");
}

fn json_of(parts: &[(String, Value)]) -> Value {
    serde_json::json!({ "commands": parts.iter().cloned().collect::<serde_json::Map<String, Value>>() })
}

fn compile(s: &str) -> Result<mitex_spec::CommandSpec, String> {
    let j: mitex_spec::JsonCommandSpec = serde_json::from_str(s).map_err(|e| e.to_string())?;
    Ok(j.into())
}

fn run31(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    if kind == "damaged" {
        obs.outcome(parts[0]);
        let a = compile(parts[0]);
        let b = mitex_wasm::compile_spec(parts[0].as_bytes());
        if a.is_ok() || b.is_ok() {
            return Err("a damaged specification is accepted".into());
        }
        return if b.unwrap_err().trim().is_empty() { Err("rejected without a message".into()) } else { Ok(()) };
    }
    let items: Vec<(String, Value, CommandSpecItem)> = parts
        .iter()
        .map(|p| p.rsplit_once('=').unwrap())
        .map(|(n, i)| ALL.with(|a| a[i.parse::<usize>().unwrap()].clone()).into_named(n))
        .collect();
    let s = json_of(&items.iter().map(|(n, j, _)| (n.clone(), j.clone())).collect::<Vec<_>>()).to_string();
    let mut m: HashMap<String, CommandSpecItem> = HashMap::new();
    for (n, _, c) in &items {
        m.insert(n.clone(), c.clone());
    }
    let mut want: Vec<String> = m.iter().map(|(n, i)| format!("{n:?}: {i:?}")).collect();
    want.sort();
    let differ = |how: &str, got: &mitex_spec::CommandSpec| {
        let got = describe(got);
        if got == want { Ok(()) } else { Err(format!("{how}: expected {want:?}, got {got:?}")) }
    };
    let spec = compile(&s).map_err(|e| format!("{s} is rejected: {e}"))?;
    obs.outcome(describe(&spec));
    differ("compiled", &spec)?;
    let bin = mitex_wasm::compile_spec(s.as_bytes()).map_err(|e| format!("the plugin rejects it: {e}"))?;
    differ("compiled by the plugin", &mitex_spec::CommandSpec::from_bytes(&bin))?;
    let j: mitex_spec::JsonCommandSpec = serde_json::from_str(&s).unwrap();
    let back = serde_json::to_string(&j).map_err(|e| e.to_string())?;
    differ("written and read again", &compile(&back).map_err(|e| format!("{back} is rejected: {e}"))?)?;
    // a package of the same items
    let pkg = format!("[{{\"name\":\"p\",\"spec\":{s}}}]");
    let p: mitex_spec::query::PackagesVec = serde_json::from_str(&pkg).map_err(|e| format!("{pkg} is rejected: {e}"))?;
    differ("in a package", &p.0[0].spec.clone().into())?;
    obs.traces += 3;
    obs.transitions += 3;
    Ok(())
}

trait Named {
    fn into_named(self, n: &str) -> (String, Value, CommandSpecItem);
}
impl Named for Item {
    fn into_named(self, n: &str) -> (String, Value, CommandSpecItem) {
        (n.to_string(), self.0, self.1)
    }
}

/// Every way to take one required field away from a JSON object, or to give it a wrong value.
fn damage(v: &Value, f: &mut dyn FnMut(Value)) {
    let Some(o) = v.as_object() else { return };
    for (k, x) in o {
        if k != "alias" || v["kind"].as_str().is_some_and(|k| k.contains('-')) {
            let mut w = o.clone();
            w.remove(k);
            f(Value::Object(w));
        }
        for bad in [Value::from(-1), Value::from("nonsense"), Value::from(256), Value::Null, Value::from(vec![Value::from(Vec::<i32>::new())])] {
            // any text is a pattern or an alias, and an alias may be absent
            if (k == "pattern" || k == "alias") && bad.is_string() || k == "alias" && bad.is_null() && !v["kind"].as_str().is_some_and(|k| k.contains('-')) {
                continue;
            }
            let mut w = o.clone();
            w.insert(k.clone(), bad);
            f(Value::Object(w));
        }
        damage(x, &mut |y| {
            let mut w = o.clone();
            w.insert(k.clone(), y);
            f(Value::Object(w));
        });
    }
}

fn enumerate31(ctx: &mut Ctx) {
    let q = ctx.quick();
    let n = ALL.with(|a| a.len());
    ctx.case("items", &[]);
    for i in 0..n {
        for name in NAMES {
            ctx.case("items", &[&format!("{name}={i}")]);
        }
    }
    let step = if q { 17 } else { 3 };
    for i in (0..n).step_by(step) {
        for j in (0..n).step_by(step) {
            ctx.case("items", &[&format!("a={i}"), &format!("b={j}")]);
        }
    }
    ctx.bound(format!("each of {n} items, and all pairs of {}", n.div_ceil(step)));
    let mut d = vec![];
    ALL.with(|a| {
        for (j, _) in a.iter().step_by(if q { 5 } else { 1 }) {
            damage(j, &mut |w| d.push(json_of(&[("a".into(), w)]).to_string()));
        }
    });
    let ok = r#"{"commands":{"a":{"kind":"cmd1"}}}"#;
    for i in 0..ok.len() {
        d.push(ok[..i].to_string());
    }
    d.extend(["{}", "[]", "null", "{\"commands\":[]}", "{\"commands\":{\"a\":1}}", "\u{feff}{\"commands\":{}}"].map(String::from));
    for x in &d {
        ctx.case("damaged", &[x]);
    }
    ctx.bound(format!("{} specifications with a field missing or of the wrong type, and cut off", d.len()));
}
