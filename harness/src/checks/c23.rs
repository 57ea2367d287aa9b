//! C23: the command line reads one file and writes one file.
use crate::fw::*;
use crate::typst;
use crate::util::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn check() -> Check {
    Check {
        id: "C23",
        enumerate,
        run,
        rule: "a state is the content of a directory, a transition is a run of `mitex compile`; every sequence of runs up to a length is \
               taken on the real program, and its exit code, message and the whole directory are compared with a model after each run; \
               and documents are evaluated by Typst next to the translation of the library",
        assumptions: &["the translation is judged by the other properties", "the installed Typst compiler is the judge of documents"],
        hang_s: 120,
    }
}

type Files = BTreeMap<String, Vec<u8>>;

fn initial() -> Files {
    let mut f = Files::new();
    for (n, c) in [
        ("a.tex", &b"Let $\\frac{a}{b}$ be \\textbf{x}."[..]),
        ("b", b"\\begin{itemize}\n\\item 1\n\\end{itemize}"),
        ("d/c.v1.tex", b""),
        ("bad.tex", b"x }"),
        ("u.tex", b"a \xff b"),
        ("\u{e9} x.tex", b"\\newcommand{\\f}{y}$\\f$ \xc3\xa9"),
        (".tex", b"z"),
        ("l.latex", b"line\nline % c\n"),
    ] {
        f.insert(n.to_string(), c.to_vec());
    }
    f
}

const INPUTS: &[&str] = &["a.tex", "b", "d/c.v1.tex", "bad.tex", "u.tex", "\u{e9} x.tex", ".tex", "l.latex", "missing.tex", "d", "./a.tex"];
const OUTPUTS: &[&str] = &["", "o.typ", "d/o", "nodir/o.typ", "d", "a.tex", "x y.typ"];
const STAGES: &[&[&str]] = &[&[], &["--stage", "syntax"], &["--stage=document"], &["--stage", "nonsense"]];

/// The ways to name the files on a command line.
fn forms(i: &str, o: &str) -> Vec<Vec<String>> {
    let s = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let mut r = vec![];
    if o.is_empty() {
        r.push(s(&[i]));
        r.push(s(&["-i", i]));
        r.push(s(&["--input", i]));
        r.push(vec![format!("--input={i}")]);
    } else {
        r.push(s(&[i, o]));
        r.push(s(&["-i", i, "-o", o]));
        r.push(s(&["-o", o, "-i", i]));
        r.push(vec![format!("--output={o}"), "--input".into(), i.into()]);
        r.push(vec![format!("-o{o}"), format!("-i{i}")]);
    }
    r
}

/// Command lines that name no input or too much.
fn wrong() -> Vec<Vec<String>> {
    [
        &[][..],
        &["-o", "o.typ"],
        &["a.tex", "o.typ", "b"],
        &["-i", "a.tex", "o.typ"],
        &["-i", "a.tex", "-o", "o.typ", "b"],
        &["-o", "o.typ", "a.tex"],
        &["-i"],
        &["--nonsense"],
        &["-i", ""],
        &["-i", "a.tex", "-i", "b"],
    ]
    .iter()
    .map(|v| v.iter().map(|x| x.to_string()).collect())
    .collect()
}

fn enc(v: &[String]) -> String {
    v.join("\u{1f}")
}

struct Req {
    input: String,
    output: String,
    syntax: bool,
}

/// What a command line asks for; none if it is wrong.
fn model(args: &[String]) -> Option<Req> {
    let (mut i, mut o, mut pos, mut syntax) = (None, None, vec![], false);
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut opt = |short: &str, long: &str| -> Option<Option<String>> {
            if a == short || a == long {
                return Some(it.next().cloned());
            }
            if let Some(v) = a.strip_prefix(&format!("{long}=")) {
                return Some(Some(v.into()));
            }
            if let Some(v) = a.strip_prefix(short).filter(|_| !a.starts_with("--")) {
                return Some(Some(v.into()));
            }
            None
        };
        if !pos.is_empty() || !a.starts_with('-') {
            pos.push(a.clone());
        } else if let Some(v) = opt("-i", "--input") {
            if i.replace(v?).is_some() {
                return None;
            }
        } else if let Some(v) = opt("-o", "--output") {
            if o.replace(v?).is_some() {
                return None;
            }
        } else if let Some(v) = opt("-w", "--workspace") {
            v?;
        } else if let Some(v) = opt("\0", "--stage") {
            syntax = match v?.as_str() {
                "syntax" => true,
                "document" => false,
                _ => return None,
            };
        } else {
            return None;
        }
    }
    let (i, o) = (i.unwrap_or_default(), o.unwrap_or_default());
    let (input, output) = if i.is_empty() && o.is_empty() {
        match pos.as_slice() {
            [a] => (a.clone(), String::new()),
            [a, b] => (a.clone(), b.clone()),
            _ => return None,
        }
    } else if pos.is_empty() {
        (i, o)
    } else {
        return None;
    };
    if input.is_empty() {
        return None;
    }
    let output = if output.is_empty() { default_output(&input) } else { output };
    Some(Req { input, output, syntax })
}

/// The input with the extension replaced by `typ`.
fn default_output(i: &str) -> String {
    let (dir, name) = match i.rfind('/') {
        Some(p) => i.split_at(p + 1),
        None => ("", i),
    };
    let stem = match name.rfind('.') {
        Some(0) | None => name,
        Some(p) => &name[..p],
    };
    format!("{dir}{stem}.typ")
}

fn plain(p: &str) -> String {
    p.trim_start_matches("./").to_string()
}

fn is_dir(f: &Files, p: &str) -> bool {
    f.keys().any(|k| k.strip_prefix(p).is_some_and(|r| r.starts_with('/')))
}

fn scratch() -> PathBuf {
    let d = std::env::temp_dir().join(format!("mc-cli-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    d
}

fn read_dir(root: &Path, rel: &str, out: &mut Files) {
    for e in std::fs::read_dir(root.join(rel)).unwrap() {
        let e = e.unwrap();
        let n = format!("{}{}", if rel.is_empty() { String::new() } else { format!("{rel}/") }, e.file_name().to_string_lossy());
        if e.file_type().unwrap().is_dir() {
            read_dir(root, &n, out);
        } else {
            out.insert(n, std::fs::read(e.path()).unwrap());
        }
    }
}

fn program() -> PathBuf {
    std::env::current_exe().unwrap().with_file_name("mitex")
}

fn mitex(dir: &Path, sub: &str, args: &[String]) -> (i32, String) {
    let o = Command::new(program()).arg(sub).args(args).current_dir(dir).stdin(Stdio::null()).output().expect("mitex runs");
    (o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stderr).into_owned())
}

/// The document is a prelude of imports and definitions, and the translation.
fn document(c: &str, body: &str) -> Result<(), String> {
    let pre = c.strip_suffix(body).ok_or_else(|| format!("the document {:?} does not end with the translation {body:?}", &c[c.len().saturating_sub(200)..].to_string()))?;
    if !pre.ends_with('\n') {
        return Err("the translation does not start a line of the document".into());
    }
    if !pre.contains("#import \"@preview/mitex:") {
        return Err("the document does not import mitex".into());
    }
    match pre.lines().find(|l| !(l.is_empty() || l.starts_with("#import \"@preview/mitex:") || l.starts_with("#let "))) {
        Some(l) => Err(format!("the document has a line {l:?} before the translation")),
        None => Ok(()),
    }
}

fn history(cmds: &[&str], obs: &mut Obs) -> Result<(), String> {
    let dir = scratch();
    let mut files = initial();
    for (n, c) in &files {
        let p = dir.join(n);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, c).unwrap();
    }
    let r = (|| {
        obs.states += 1;
        for c in cmds {
            let mut args: Vec<String> = c.split('\u{1f}').filter(|x| !x.is_empty() || c.ends_with("-i\u{1f}")).map(|x| x.to_string()).collect();
            let sub = if args.first().is_some_and(|a| a == "(c)") {
                args.remove(0);
                "c"
            } else {
                "compile"
            };
            let (code, err) = mitex(&dir, sub, &args);
            let mut now = Files::new();
            read_dir(&dir, "", &mut now);
            obs.transitions += 1;
            obs.traces += 1;
            let expected: Option<(String, String, bool)> = model(&args).and_then(|r| {
                let t = String::from_utf8(files.get(&plain(&r.input))?.clone()).ok()?;
                let o = plain(&r.output);
                let parent = o.rfind('/').map(|p| &o[..p]);
                if is_dir(&files, &o) || parent.is_some_and(|p| !is_dir(&files, p)) {
                    return None;
                }
                let body = if r.syntax { format!("{:#?}", mitex_parser::parse(&t, spec())) } else { text(&t).ok()? };
                Some((o, body, r.syntax))
            });
            obs.outcome(&expected);
            let Some((o, body, _)) = expected else {
                if code == 0 {
                    return Err(format!("{args:?} succeeds"));
                }
                if err.trim().is_empty() {
                    return Err(format!("{args:?} fails without a message"));
                }
                if err.contains("panicked at") {
                    return Err(format!("{args:?} panics: {err}"));
                }
                if now != files {
                    return Err(format!("{args:?} fails and changes {:?}", diff(&files, &now)));
                }
                continue;
            };
            if code != 0 {
                return Err(format!("{args:?} fails: {err}"));
            }
            let d: Vec<_> = diff(&files, &now).into_iter().filter(|n| *n != o).collect();
            if !d.is_empty() {
                return Err(format!("{args:?} changes {d:?}"));
            }
            let c = now.get(&o).ok_or_else(|| format!("{args:?} does not write {o:?}"))?;
            let c = std::str::from_utf8(c).map_err(|_| format!("{args:?} writes no text"))?;
            document(c, &body).map_err(|e| format!("{args:?}: {e}"))?;
            files = now;
            obs.states += 1;
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn diff(a: &Files, b: &Files) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect()
}

/// The document evaluates to what the translation evaluates to in mitex's scope.
fn evaluated(parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    let dir = scratch();
    let t = parts[0];
    std::fs::write(dir.join("main.tex"), t).unwrap();
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    let r = (|| {
        let (code, err) = mitex(&dir, "compile", &["main.tex".into()]);
        if code != 0 {
            return Err(format!("compile fails: {err}"));
        }
        let doc = std::fs::read_to_string(dir.join("main.typ")).map_err(|e| e.to_string())?;
        // the package of the repository stands in for the published one
        let doc: Vec<String> = doc
            .split('\n')
            .map(|l| if l.starts_with("#import \"@preview/mitex:") { "#import \"/repo/packages/mitex/specs/mod.typ\": mitex-scope".to_string() } else { l.to_string() })
            .collect();
        std::fs::write(dir.join("main.typ"), doc.join("\n")).unwrap();
        let body = format!(
            "{}#let a = include \"{}\"\n#let b = {}\n#metadata(repr(a))<r>\n#metadata(repr(b))<r>\n",
            typst::PRE,
            dir.join("main.typ").display(),
            typst::expr(typst::Mode::Markup, &text(t)?),
        );
        let v = typst::query(&body).map_err(|e| {
            // \\set is a handler with the name of a keyword, which no document can define
            let known = if e.contains("unknown variable: set") && t.contains("\\set{") { " [set-is-a-keyword]" } else { "" };
            format!("the document is not accepted by Typst: {e}{known}")
        })?;
        let strip = |v: &serde_json::Value| {
            let mut s: String = v.as_str().unwrap_or_default().lines().map(|l| l.trim()).collect::<Vec<_>>().join("");
            s = s.strip_prefix("sequence(").map(|x| x.strip_suffix(')').unwrap_or(x).to_string()).unwrap_or(s);
            loop {
                let n = s.trim_start_matches("[ ]").trim_start_matches("[]").trim_start_matches("parbreak()").trim_start_matches(',').trim().to_string();
                if n == s {
                    break s.trim_end_matches(',').to_string();
                }
                s = n;
            }
        };
        let (a, b) = (strip(&v[0]), strip(&v[1]));
        obs.outcome(&a);
        if a == b {
            return Ok(());
        }
        let i = a.char_indices().zip(b.chars()).find(|((_, x), y)| x != y).map(|((i, _), _)| i).unwrap_or(0);
        let cut = |s: &str| s.chars().skip(a[..i].chars().count().saturating_sub(60)).take(160).collect::<String>();
        Err(format!("the document shows ..{:?}, the translation in mitex's scope ..{:?}", cut(&a), cut(&b)))
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r
}

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Result<(), String> {
    match kind {
        "document" => evaluated(parts, obs),
        _ => history(parts, obs),
    }
}

fn enumerate(ctx: &mut Ctx) {
    let q = ctx.quick();
    // single runs
    let mut n = 0;
    for i in INPUTS {
        for o in OUTPUTS {
            for f in forms(i, o) {
                for st in STAGES {
                    for last in [false, true] {
                        let mut a = f.clone();
                        let named = a[0].starts_with('-');
                        let at = if last && named { a.len() } else { 0 };
                        if last && !named {
                            continue;
                        }
                        a.splice(at..at, st.iter().map(|x| x.to_string()));
                        n += 1;
                        ctx.case("history", &[&enc(&a)]);
                        if st.is_empty() {
                            ctx.case("history", &[&format!("(c)\u{1f}{}", enc(&a))]);
                            ctx.case("history", &[&format!("-w\u{1f}d\u{1f}{}", enc(&a))]);
                        }
                    }
                }
            }
        }
    }
    for w in wrong() {
        ctx.case("history", &[&enc(&w)]);
        ctx.case("history", &[&format!("--stage\u{1f}syntax\u{1f}{}", enc(&w))]);
    }
    ctx.bound(format!("all single runs over {} inputs, {} outputs, {} stages in every form ({n}), and the wrong ones", INPUTS.len(), OUTPUTS.len(), STAGES.len()));
    // sequences of runs: outputs become inputs, fail over, and are overwritten
    let mut cmds: Vec<String> = vec![];
    for (i, o) in [
        ("a.tex", ""), ("a.tex", "o.tex"), ("o.tex", ""), ("o.tex", "a.tex"), ("b", ""), ("b", "o.typ"), ("b", "a.tex"), ("o.typ", "b"), ("bad.tex", "o.typ"), ("missing.tex", "a.tex"), ("l.latex", "o.typ"),
        ("u.tex", "b"), ("d/c.v1.tex", ""),
    ] {
        let f = forms(i, o);
        cmds.push(enc(&f[0]));
        cmds.push(format!("--stage\u{1f}syntax\u{1f}{}", enc(&f[1])));
    }
    let d = if q { 2 } else { 3 };
    seqs(cmds.len(), 2, d, |v| {
        let p: Vec<&str> = v.iter().map(|i| cmds[*i].as_str()).collect();
        ctx.case("history", &p);
    });
    ctx.bound(format!("all sequences of 2 to {d} runs of {} command lines on shared files", cmds.len()));
    // documents
    let uses: Vec<String> = super::c24::uses(true)
        .into_iter()
        .filter(|(k, t)| *k == "text" && text(t).is_ok_and(|o| typst::defects(&o).is_empty()))
        .map(|(_, t)| t)
        .filter(|t| !t.contains("\\set{") && !t.contains("\\set "))
        .collect();
    ctx.case("document", &["a $x \\set{a}$ b"]);
    let per = if q { 250 } else { 10 };
    for c in uses.chunks(per) {
        ctx.case("document", &[&c.join("\n\n")]);
    }
    ctx.bound(format!("documents of {per} uses each, for {} uses of all entries of the specification", uses.len()));
}
