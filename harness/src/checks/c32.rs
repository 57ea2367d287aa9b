//! C32: the plugin gives what the library gives. C20: a custom specification is honoured.
use crate::fw::*;
use crate::specs::*;
use crate::util::*;
use mitex_spec::{ArgPattern, ArgShape, CommandSpecItem};
use serde_json::{json, Value};

pub fn check() -> Check {
    Check {
        id: "C32",
        enumerate,
        run,
        rule: "a state is what the plugin is called with (bytes of the source, bytes of the specification); a transition is a call; every \
               call within the bounds is compared with the library's answer for the same text and specification",
        assumptions: &["the plugin protocol passes bytes and results unchanged (its macros are replaced by stand-ins)"],
        hang_s: 60,
    }
}

const PIECES: &[&[u8]] = &[
    b"a", b" ", b"\\frac", b"{", b"}", b"$", b"^", b"\\x", b"\\q ", b"\xc3\xa9", b"\xc3", b"\xff", b"\\begin{w}", b"\\end{w}", b"%", b"\n", b"\0", b"#", b"\\\\", b"\xe4\xb8\xad", b"\xed\xa0\x80",
];

fn custom() -> Value {
    json!({"commands": {
        "x": {"kind": "cmd1"}, "q": {"kind": "alias-sym", "alias": "quux"}, "w": {"kind": "matrix-env"}, "frac": {"kind": "glob-cmd", "pattern": "{,b}t", "alias": "myfrac"},
    }})
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

thread_local! {
    static BIN: [Vec<u8>; 3] = [vec![], spec().to_bytes(), mitex_wasm::compile_spec(custom().to_string().as_bytes()).unwrap()];
    static SPECS: [Option<CommandSpec>; 3] = [None, Some(spec()), Some(serde_json::from_value::<mitex_spec::JsonCommandSpec>(custom()).unwrap().into())];
}

fn run(_: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let input = unhex(parts[0]);
    obs.states += 1;
    for k in 0..3 {
        let bin = BIN.with(|b| b[k].clone());
        let sp = SPECS.with(|s| s[k].clone());
        for math in [true, false] {
            obs.transitions += 1;
            obs.traces += 1;
            let got = if math { mitex_wasm::convert_math(&input, &bin) } else { mitex_wasm::convert_text(&input, &bin) };
            let want = match std::str::from_utf8(&input) {
                Err(_) => None,
                Ok(t) => Some(if math { mitex::convert_math(t, sp.clone()) } else { mitex::convert_text(t, sp.clone()) }),
            };
            obs.outcome(&got);
            let what = format!("convert_{} with specification {k}", if math { "math" } else { "text" });
            match (want, got) {
                (None, Err(e)) if !e.is_empty() => {}
                (None, g) => return Err(format!("{what}: bytes that are no text give {g:?}")),
                (Some(w), g) => {
                    let w = w.map(|x| x.into_bytes());
                    if w != g {
                        let s = |r: &Result<Vec<u8>, String>| format!("{:?}", r.as_ref().map(|b| String::from_utf8_lossy(b).into_owned()));
                        return Err(format!("{what}: the library gives {}, the plugin {}", s(&w), s(&g)));
                    }
                }
            }
        }
    }
    Ok(())
}

fn enumerate(ctx: &mut Ctx) {
    let hi = if ctx.quick() { 3 } else { 4 };
    seqs(PIECES.len(), 0, hi, |v| {
        if ctx.turn() {
            let b: Vec<u8> = v.iter().flat_map(|i| PIECES[*i].iter().copied()).collect();
            ctx.exec("bytes", &[&hex(&b)]);
        }
    });
    ctx.bound(format!("all sequences of up to {hi} of {} pieces (some no UTF-8), with no, the default and a custom specification", PIECES.len()));
    let hi = if ctx.quick() { 2 } else { 3 };
    seqs(256, 1, hi.min(2), |v| {
        if ctx.turn() {
            let b: Vec<u8> = v.iter().map(|i| *i as u8).collect();
            ctx.exec("bytes", &[&hex(&b)]);
        }
    });
    ctx.bound("all sequences of one and two bytes");
}

pub fn check20() -> Check {
    Check {
        id: "C20",
        enumerate: enumerate20,
        run: run20,
        rule: "a state is a specification of a command (or an environment) in one of all forms, and a use of it; the transition converts \
               the use with this specification, and the output is compared with what the form says about arguments, name and content",
        assumptions: &["conversion of the plain arguments themselves (C10)"],
        hang_s: 60,
    }
}

const GLOBS: &[&str] = &["{,b}t", "t{,b}", "{,b}tt", "{,b}{,p}t", "t*", "{b,p}t"];
const LENS: &[u8] = &[0, 1, 2, 3];
const ALIASES: &[Option<&str>] = &[None, Some("al"), Some("#al"), Some("a.b")];

thread_local! {
    static ITEMS: Vec<Item> = {
        let mut v = canonical(GLOBS, LENS, ALIASES);
        v.extend(short(GLOBS, ALIASES));
        v
    };
}

/// What a pattern takes of a list of arguments (`t`, `b`, `p`). Nothing if a bracket or a parenthesis comes where
/// a term is taken: its first character is a term then (C04).
fn takes(p: &ArgPattern, args: &[u8]) -> Option<usize> {
    let (n, more) = match p {
        ArgPattern::None => (0, false),
        ArgPattern::FixedLenTerm { len } | ArgPattern::RangeLenTerm { max: len, .. } => {
            let n = args.iter().take(*len as usize).take_while(|a| **a == b't').count();
            (n, n < *len as usize)
        }
        ArgPattern::Greedy => (args.len(), false),
        ArgPattern::Glob { pattern } => {
            let a = crate::globm::Nfa::new(&crate::globm::parse(&pattern.0).unwrap());
            let n = (0..=args.len()).rev().find(|n| a.prefix(&args[..*n])).unwrap_or(0);
            (n, a.prefix(&[&args[..n], b"t"].concat()))
        }
    };
    if more && n < args.len() { None } else { Some(n) }
}

/// Source and translation of an argument. A bracket or a parenthesis that is no argument is the same.
fn source(k: u8, i: usize) -> (String, String) {
    let x = ["u", "v", "w", "y"][i];
    match k {
        b't' => (format!("{{{x}}}"), format!("{x} ")),
        b'b' => (format!("[{x}]"), format!("\\[{x} \\]")),
        _ => (format!("({x})"), format!("\\({x} \\)")),
    }
}

fn run20(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    let i: usize = parts[0].parse().unwrap();
    let name = parts[1];
    let w = parts[2].as_bytes();
    if kind == "absent" {
        let spec: CommandSpec = serde_json::from_value::<mitex_spec::JsonCommandSpec>(json!({"commands": {"zz": {"kind": "cmd1"}}})).map_err(|e| e.to_string())?.into();
        let src = parts[2].replace('①', &format!("\\{name}"));
        let r = mitex::convert_math(&src, Some(spec));
        obs.outcome(&r);
        return match r {
            Err(e) if !e.is_empty() => Ok(()),
            r => Err(format!("{src:?} uses a command that the specification does not have, but gives {r:?}")),
        };
    }
    let (j, item) = ITEMS.with(|a| a[i].clone());
    let mut cmds = serde_json::Map::new();
    cmds.insert(name.into(), j);
    // others around it, and none of them the default
    cmds.insert("zz".into(), json!({"kind": "cmd1"}));
    let spec: CommandSpec = serde_json::from_value::<mitex_spec::JsonCommandSpec>(json!({ "commands": cmds })).map_err(|e| e.to_string())?.into();
    if kind == "builtin" {
        // what the converter treats in a way of its own: a result or an error
        let env = match &item {
            // an environment that takes all there is as arguments means nothing
            CommandSpecItem::Env(e) if matches!(e.args, ArgPattern::Greedy) => return Ok(()),
            CommandSpecItem::Env(_) => true,
            CommandSpecItem::Cmd(_) => false,
        };
        let of = |tex: &str| if env { format!("\\begin{{{name}}}{tex}b\\end{{{name}}}") } else { format!("\\{name} {tex}") };
        let src = parts[3].replace('①', &of(&String::from_utf8_lossy(w).replace('t', "{u}").replace('b', "[v]").replace('p', "(w)")));
        for r in [mitex::convert_math(&src, Some(spec.clone())), mitex::convert_text(&src, Some(spec))] {
            obs.outcome(&r);
            if r.is_err_and(|e| e.is_empty()) {
                return Err(format!("{src:?} gives an error without a message"));
            }
        }
        return Ok(());
    }
    let args: Vec<(String, String)> = w.iter().enumerate().map(|(i, k)| source(*k, i)).collect();
    let tex: String = args.iter().map(|a| a.0.as_str()).collect();
    let (src, want) = match &item {
        CommandSpecItem::Cmd(c) => {
            let al = c.alias.as_deref().unwrap_or(name);
            let call = |v: &[(String, String)]| {
                if al.starts_with('#') {
                    v.iter().map(|a| format!("[{}]", plain(&a.0))).collect::<String>() + ";"
                } else {
                    format!("({})", v.iter().map(|a| a.1.as_str()).collect::<Vec<_>>().join(","))
                }
            };
            match &c.args {
                ArgShape::Left1 => (format!("A\\{name} {tex}"), format!("{al}{}{}", call(&[("A".into(), "A ".into())]), cat(&args))),
                ArgShape::InfixGreedy => {
                    if al.starts_with('#') {
                        return Ok(());
                    }
                    let right = if tex.is_empty() { "zws ".to_string() } else { cat(&args) };
                    (format!("{{A\\{name} {tex}}}"), format!("{al}(A ,{right})"))
                }
                ArgShape::Right { pattern: ArgPattern::Greedy } => {
                    if al.starts_with('#') {
                        return Ok(());
                    }
                    let mut inner = String::new();
                    for (i, a) in args.iter().enumerate() {
                        inner.push_str(&a.1);
                        if w[i] == b't' && i + 1 < args.len() {
                            inner.push(',');
                        }
                    }
                    (format!("{{\\{name} {tex}}}"), format!("{al}({inner})"))
                }
                ArgShape::Right { pattern: ArgPattern::None } if parts.len() > 3 => {
                    // as a delimiter
                    let (l, r) = (format!("\\{name} "), format!("{al} "));
                    let (a, b, c, d) = match parts[3] {
                        "left" => (l.as_str(), ".", r.as_str(), ""),
                        "right" => ("|", l.as_str(), "|", r.as_str()),
                        _ => (l.as_str(), l.as_str(), r.as_str(), r.as_str()),
                    };
                    (format!("\\left{a}{tex}\\right{b}"), format!("lr({c}{}{d})", cat(&args)))
                }
                ArgShape::Right { pattern: ArgPattern::None } => (format!("\\{name} {tex}"), format!("{al} {}", cat(&args))),
                ArgShape::Right { pattern } => {
                    let Some(n) = takes(pattern, w) else { return Ok(()) };
                    (format!("\\{name} {tex}"), format!("{al}{}{}", call(&args[..n]), cat(&args[n..])))
                }
            }
        }
        CommandSpecItem::Env(e) => {
            use mitex_spec::ContextFeature::*;
            let al = e.alias.as_deref().unwrap_or(name);
            if matches!(e.ctx_feature, IsFigure | IsTable | IsItemize | IsEnumerate | None) || matches!(e.args, ArgPattern::Greedy) {
                return Ok(());
            }
            let Some(n) = takes(&e.args, w) else { return Ok(()) };
            let a: String = args[..n].iter().enumerate().map(|(i, a)| format!("arg{i}: {},", a.1)).collect();
            let body = match e.ctx_feature {
                IsMatrix => "zws ,q zws ;r ",
                IsCases => "&q ,r ",
                _ => "&q \\ r ",
            };
            (format!("\\begin{{{name}}}{tex}&q\\\\r\\end{{{name}}}"), format!("{al}({a}{}{body})", cat(&args[n..])))
        }
    };
    let out = match kind {
        "math" => mitex::convert_math(&src, Some(spec)),
        // a formula of a text goes by the same specification
        _ => mitex::convert_text(&format!("t ${src}$"), Some(spec)),
    }
    .map_err(|e| format!("{src:?} is rejected: {e}"))?;
    let want = if kind == "math" { want } else { format!("t #math.equation(block: false, ${want}$);") };
    obs.outcome(&out);
    let norm = |s: &str| s.split_whitespace().collect::<String>();
    if norm(&out) == norm(&want) {
        return Ok(());
    }
    Err(format!("{src:?}\n  expected {want:?}\n  got      {out:?}"))
}

fn cat(a: &[(String, String)]) -> String {
    a.iter().map(|x| x.1.as_str()).collect()
}

/// An argument of a text command.
fn plain(src: &str) -> String {
    match src.as_bytes()[0] {
        b'{' => src[1..src.len() - 1].to_string(),
        b'[' => format!("\\[{}\\]", &src[1..src.len() - 1]),
        b'(' => format!("\\({}\\)", &src[1..src.len() - 1]),
        _ => src.to_string(),
    }
}

fn enumerate20(ctx: &mut Ctx) {
    let n = ITEMS.with(|a| a.len());
    let hi = if ctx.quick() { 3 } else { 4 };
    let symbol: Vec<bool> = ITEMS.with(|a| {
        let is = |i: &Item| matches!(&i.1, CommandSpecItem::Cmd(c) if matches!(c.args, ArgShape::Right { pattern: ArgPattern::None }));
        a.iter().map(is).collect()
    });
    let names: &[&str] = &["foo", "frac", "alpha", "matrix", "over", "F", "langle"];
    let mut words = vec![];
    seqs(3, 0, hi, |v| words.push(v.iter().map(|i| ['t', 'b', 'p'][*i]).collect::<String>()));
    for i in 0..n {
        for name in names {
            for w in &words {
                ctx.case("math", &[&i.to_string(), name, w]);
                ctx.case("text", &[&i.to_string(), name, w]);
                if symbol[i] {
                    for side in ["left", "right", "both"] {
                        ctx.case("math", &[&i.to_string(), name, w, side]);
                        ctx.case("text", &[&i.to_string(), name, w, side]);
                    }
                }
            }
        }
    }
    ctx.bound(format!("{n} items under {} names (new ones and those of the default specification), used with every sequence of up to {hi} groups, brackets and parentheses", names.len()));
    let builtin = [
        "color", "textcolor", "colorbox", "label", "includegraphics", "caption", "centering", "item", "begin", "end", "left", "right", "limits", "tabular", "figure",
        "table", "itemize", "enumerate", "\\", "text", "iftypst", "newcommand", "left.", "{", " ", "", "substack", "cases", "math", "é", "a b",
    ];
    let places = ["①", "a①b", "{①}", "x_①", "\\begin{figure}①\\end{figure}", "\\begin{tabular}①\\end{tabular}", "\\begin{itemize}\\item ①\\end{itemize}", "$①$"];
    words.retain(|w| w.len() <= hi - 1);
    for i in 0..n {
        for name in builtin {
            for w in &words {
                for p in places {
                    ctx.case("builtin", &[&i.to_string(), name, w, p]);
                }
            }
        }
    }
    ctx.bound(format!("the items under {} names that have a meaning of their own, in {} places: a result or an error", builtin.len(), places.len()));
    let sp = spec();
    let mut all: Vec<&str> = sp.items().filter(|i| matches!(i.1, CommandSpecItem::Cmd(_))).map(|i| i.0).collect();
    // conditionals, definitions and colours are read without the specification
    all.retain(|n| !n.starts_with("if") && !["textcolor", "colorbox"].contains(n) && !["command", "Command", "environment"].iter().any(|x| n.contains(x)));
    all.sort();
    let places = ["①", "①{a}", "x_①", "\\zz{①}", "\\left①a\\right.", "{a①b}", "\\begin{zzz}①\\end{zzz}"];
    for name in &all {
        for p in places {
            ctx.case("absent", &["0", name, p]);
        }
    }
    ctx.bound(format!("{} commands of the default specification in {} places, with one that does not have them", all.len(), places.len()));
}
