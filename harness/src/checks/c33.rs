//! C33: the functions of the Typst package show what the translation says.
use crate::fw::*;
use crate::typst::{eval_all, query, quote, Ask, Mode};
use crate::util::*;
use std::path::{Path, PathBuf};
use std::process::Command;

pub fn check() -> Check {
    Check {
        id: "C33",
        enumerate,
        run,
        rule: "a state is a call in a Typst document (function of the package, form of its argument, options, source); every call within the \
               bounds is evaluated by the installed Typst with the package's files, and compared with the translation by the library, \
               evaluated in the scope of the specification",
        assumptions: &[
            "the plugin is a stand-in, a WebAssembly module made for the check that has the library's answers in a table (C32 compares the real plugin with the library)",
            "equal content of equations and texts is judged by the characters and the structure shown, and the options of the equation",
        ],
        hang_s: 120,
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Want {
    /// the code as a string
    Code(&'static str, &'static [u8]),
    /// an equation: block, numbering, supplement
    Eq(&'static str, &'static str, &'static str),
    Text,
}
use Want::*;

const SPEC: &[u8] = &[1, 0, 255, 34];
/// The functions, with `@` for the argument.
const CALLS: &[(&str, Want)] = &[
    ("mitex-convert(@)", Code("math", &[])),
    ("mitex-convert(@, mode: \"math\")", Code("math", &[])),
    ("mitex-convert(mode: \"text\", @)", Code("text", &[])),
    ("mitex-convert(@, spec: bytes((1, 0, 255, 34)))", Code("math", SPEC)),
    ("mitex-convert(spec: bytes((1, 0, 255, 34)), mode: \"text\", @)", Code("text", SPEC)),
    ("mimath(@)", Eq("true", "unset", "unset")),
    ("mimath(@, block: false)", Eq("false", "unset", "unset")),
    ("mimath(block: true, @)", Eq("true", "unset", "unset")),
    ("mimath(@, numbering: \"(1)\", supplement: [Eq])", Eq("true", "\"(1)\"", "Eq")),
    ("mitex(@)", Eq("true", "unset", "unset")),
    ("mitex(@, mode: \"math\")", Eq("true", "unset", "unset")),
    ("mitex(@, block: false)", Eq("false", "unset", "unset")),
    ("mitex(numbering: \"1.\", @)", Eq("true", "\"1.\"", "unset")),
    ("mitex(@, supplement: [Eq], block: false, numbering: \"1\")", Eq("false", "\"1\"", "Eq")),
    ("mitex(@, mode: \"text\")", Text),
    ("mitext(@)", Text),
    ("mi(@)", Eq("false", "unset", "unset")),
    ("mi(numbering: \"1\", @)", Eq("false", "\"1\"", "unset")),
    ("mi(@, block: true)", Eq("true", "unset", "unset")),
];
const FORMS: &[&str] = &["string", "raw", "raw block", "raw call", "text"];

/// The argument, if the source can be written in this form.
fn arg(form: &str, s: &str) -> Option<String> {
    match form {
        "string" => Some(quote(s)),
        "raw" => (!s.is_empty() && !s.contains('`')).then(|| format!("`{s}`")),
        // a block takes off the blanks around
        "raw block" => (!s.trim().is_empty() && s.trim() == s && !s.contains(['`', '\n'])).then(|| format!("```latex\n{s}\n```")),
        "raw call" => Some(format!("raw({}, block: true, lang: \"tex\")", quote(s))),
        "text" => (!s.is_empty() && s.chars().all(|c| c.is_alphanumeric())).then(|| format!("[{s}]")),
        f => panic!("no form {f}"),
    }
}

fn answer(mode: &str, s: &str, spec: &[u8]) -> Result<String, String> {
    let r = if mode == "math" { math(s) } else { text(s) };
    // the stand-in shows what specification it got
    if spec.is_empty() { r } else { r.map(|r| format!("S{r}")).map_err(|e| format!("S{e}")) }
}

struct Case {
    call: String,
    form: String,
    src: String,
}
impl Case {
    fn want(&self) -> Want {
        CALLS.iter().find(|c| c.0 == self.call).expect("no such call").1
    }
    fn answer(&self) -> Result<String, String> {
        match self.want() {
            Code(m, s) => answer(m, &self.src, s),
            Eq(..) => answer("math", &self.src, &[]),
            Text => answer("text", &self.src, &[]),
        }
    }
    fn expr(&self) -> String {
        self.call.replacen('@', &arg(&self.form, &self.src).unwrap(), 1)
    }
    fn expected(&self, a: &str) -> String {
        match self.want() {
            Code(..) => quote(a),
            Eq(block, numbering, supplement) => {
                // options that are not given are left to the rules of the document
                let opt = |n: &str, v: String| if v == "unset" || v == "[unset]" { String::new() } else { format!("{n}: {v}, ") };
                let (n, s) = (opt("numbering", numbering.into()), opt("supplement", format!("[{supplement}]")));
                format!("math.equation(block: {block}, {n}{s}eval({}, scope: ref-scope))", quote(&format!("${a}$")))
            }
            Text => format!("eval({}, mode: \"markup\", scope: ref-scope)", quote(a)),
        }
    }
}

fn c_bytes(b: &[u8]) -> String {
    b.iter().map(|x| format!("\\{x:03o}")).collect()
}

/// The package as it is, with a plugin that knows the answers for these sources.
struct Package(PathBuf);
impl Drop for Package {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
fn copy(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).unwrap();
    for e in std::fs::read_dir(a).unwrap() {
        let e = e.unwrap();
        let to = b.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            if e.file_name() != "examples" {
                copy(&e.path(), &to);
            }
        } else if e.path().extension().is_some_and(|x| x == "typ" || x == "toml") {
            std::fs::copy(e.path(), to).unwrap();
        }
    }
}
const PLUGIN: &str = r#"
typedef unsigned u;
__attribute__((import_module("typst_env"),import_name("wasm_minimal_protocol_send_result_to_host"))) void send(const char*,u);
__attribute__((import_module("typst_env"),import_name("wasm_minimal_protocol_write_args_to_buffer"))) void args(char*);
struct e { const char *in; u ni; const char *sp; u ns; int rc[2]; const char *out[2]; u no[2]; };
static const struct e T[] = {
TABLE};
static char buf[1<<16];
static int find(u a,u b,int m){
  args(buf);
  for(u i=0;i<sizeof T/sizeof*T;i++){
    if(T[i].ni!=a||T[i].ns!=b) continue;
    u k=0;
    while(k<a&&T[i].in[k]==buf[k])k++;
    if(k<a)continue;
    while(k<a+b&&T[i].sp[k-a]==buf[k])k++;
    if(k<a+b)continue;
    send(T[i].out[m],T[i].no[m]);
    return T[i].rc[m];
  }
  send("not asked for",13);
  return 1;
}
__attribute__((export_name("convert_math"))) int cm(u a,u b){return find(a,b,0);}
__attribute__((export_name("convert_text"))) int ct(u a,u b){return find(a,b,1);}
__attribute__((export_name("compile_spec"))) int cs(u a){args(buf);send(buf,a);return 0;}
"#;
fn package(sources: &[&str]) -> Package {
    let d = std::env::temp_dir().join(format!("mc-package-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    let p = Package(d);
    copy(Path::new("/repo/packages/mitex"), &p.0);
    let mut t = String::new();
    for s in sources {
        for spec in [&[][..], SPEC] {
            let a = ["math", "text"].map(|m| answer(m, s, spec));
            let rc = [0, 1].map(|i| a[i].is_err() as u8);
            let out = [0, 1].map(|i| match &a[i] {
                Ok(s) | Err(s) => s.as_bytes(),
            });
            t += &format!(
                "{{\"{}\",{},\"{}\",{},{{{},{}}},{{\"{}\",\"{}\"}},{{{},{}}}}},\n",
                c_bytes(s.as_bytes()), s.len(), c_bytes(spec), spec.len(), rc[0], rc[1], c_bytes(out[0]), c_bytes(out[1]), out[0].len(), out[1].len()
            );
        }
    }
    let c = p.0.join("plugin.c");
    std::fs::write(&c, PLUGIN.replace("TABLE", &t)).unwrap();
    let o = Command::new("/usr/bin/clang-18")
        .args(["--target=wasm32", "-O1", "-nostdlib", "-fno-builtin", "-Wl,--no-entry", "-o"])
        .arg(p.0.join("mitex.wasm"))
        .arg(&c)
        .env("PATH", "/usr/lib/llvm-18/bin:/usr/bin:/bin")
        .output()
        .expect("clang runs");
    assert!(o.status.success(), "{}", String::from_utf8_lossy(&o.stderr));
    p
}

const SHOW: &str = r#"
#let shown(c) = if type(c) == str { "code:" + c } else if type(c) == content and c.func() == math.equation {
  "equation:" + ("block", "numbering", "supplement").map(k => repr(c.at(k, default: "unset"))).join(":") + ":" + den(c.body)
} else { "text:" + den(c) }
"#;
fn head(p: &Package) -> String {
    format!(
        "#import \"{}/lib.typ\": *\n#import \"/repo/packages/mitex/specs/mod.typ\": mitex-scope as ref-scope\n{}{SHOW}",
        p.0.display(), include_str!("../den.typ")
    )
}

type Verdict = Result<(), String>;
fn judge(p: &Package, cases: &[&Case]) -> Vec<(Verdict, u64)> {
    let mut out: Vec<Option<(Verdict, u64)>> = cases.iter().map(|_| None).collect();
    let mut fine = vec![];
    for (i, c) in cases.iter().enumerate() {
        match c.answer() {
            Ok(a) => fine.push((i, c.expr(), c.expected(&a))),
            Err(e) => {
                let r = query(&format!("{}#metadata(shown({}))<r>\n", head(p), c.expr()));
                let v = match &r {
                    Ok(v) => Err(format!("the library's error {e:?} is not passed on, it shows {v:?}")),
                    Err(m) if m.contains(&e) => Ok(()),
                    Err(m) => Err(format!("the error is {e:?}, but {m:?} is reported")),
                };
                out[i] = Some((v, hash(r.err())));
            }
        }
    }
    fn rec(p: &Package, cases: &[&Case], fine: &[(usize, String, String)], out: &mut [Option<(Verdict, u64)>]) {
        if fine.is_empty() {
            return;
        }
        // enough to report
        if out.iter().flatten().filter(|o| o.0.is_err()).count() >= 10 {
            for (i, ..) in fine {
                out[*i] = Some((Ok(()), 0));
            }
            return;
        }
        let mut b = head(p);
        for (_, e, w) in fine {
            b += &format!("#metadata((shown({e}), shown({w})))<r>\n");
        }
        match query(&b) {
            Ok(v) => {
                for (x, (i, e, _)) in v.iter().zip(fine) {
                    let r = if x[0] == x[1] { Ok(()) } else { Err(format!("{e}\n  should show {}\n  but shows   {}", x[1], x[0])) };
                    out[*i] = Some((r, hash(x[0].as_str())));
                }
            }
            Err(m) if fine.len() == 1 => {
                let (i, e, w) = &fine[0];
                // what Typst doesn't accept of the translation is not the package's doing (C11)
                let alone = query(&format!("{}#metadata(shown({w}))<r>\n", head(p)));
                out[*i] = Some((if alone.is_err() { Ok(()) } else { Err(format!("{e} is not accepted: {m}")) }, hash(m)));
            }
            Err(_) => {
                let (a, c) = fine.split_at(fine.len() / 2);
                rec(p, cases, a, out);
                rec(p, cases, c, out);
            }
        }
    }
    rec(p, cases, &fine, &mut out);
    out.into_iter().map(|o| o.unwrap()).collect()
}

/// Arguments that are no source.
const WRONG: &[&str] = &["1", "none", "[]", "[*a*]", "(\"a\",)", "auto"];

fn run(kind: &str, parts: &[&str], obs: &mut Obs) -> Verdict {
    obs.states += 1;
    obs.transitions += 1;
    obs.traces += 1;
    if kind == "wrong" {
        let p = package(&["a", "", "1"]);
        let e = parts[0].replacen('@', parts[1], 1);
        let r = query(&format!("{}#metadata(shown({e}))<r>\n", head(&p)));
        obs.outcome(&r.as_ref().ok().map(|v| v.len()));
        return match r {
            Err(m) if m.contains("Unsupported type") => Ok(()),
            r => Err(format!("{e} should be reported as of an unsupported type, but gives {r:?}")),
        };
    }
    let p = package(&parts[parts.len() - 1..]);
    let cases = if kind == "rejected" {
        vec![Case { call: parts[0].into(), form: "string".into(), src: parts[1].into() }]
    } else {
        calls(parts[0], 0, accepted(&[parts[0].to_string()])[0])
    };
    let (v, o): (Vec<_>, Vec<_>) = judge(&p, &cases.iter().collect::<Vec<_>>()).into_iter().unzip();
    obs.outcome(o);
    v.into_iter().find(|v| v.is_err()).unwrap_or(Ok(()))
}

/// The calls with a source that are to be compared; `ok` are the modes in which Typst accepts its translation.
fn calls(s: &str, len: usize, ok: [bool; 2]) -> Vec<Case> {
    let mut cases = vec![];
    for (call, _) in CALLS {
        for form in FORMS {
            if len > 2 && *form != "string" && *form != "raw" || arg(form, s).is_none() {
                continue;
            }
            let c = Case { call: call.to_string(), form: form.to_string(), src: s.to_string() };
            let ok = match c.want() {
                Code(..) => c.answer().is_ok(),
                Eq(..) => ok[0],
                Text => ok[1],
            };
            if ok {
                cases.push(c);
            }
        }
    }
    cases
}
/// In which modes Typst accepts the translation; where it doesn't, it is not the package's doing (C11).
fn accepted(sources: &[String]) -> Vec<[bool; 2]> {
    let mut ok = vec![[false; 2]; sources.len()];
    for (k, (mode, m)) in [("math", Mode::Math), ("text", Mode::Markup)].into_iter().enumerate() {
        let at: Vec<_> = sources.iter().enumerate().filter_map(|(i, s)| answer(mode, s, &[]).ok().map(|a| (i, (m, a)))).collect();
        let (at, code): (Vec<_>, Vec<_>) = at.into_iter().unzip();
        for (i, r) in at.into_iter().zip(eval_all(&code, Ask::Den)) {
            ok[i][k] = r.is_ok();
        }
    }
    ok
}

fn flush(ctx: &mut Ctx, sources: &mut Vec<(String, Vec<Case>)>) {
    let names: Vec<&str> = sources.iter().map(|c| c.0.as_str()).collect();
    let p = package(&names);
    let cases: Vec<&Case> = sources.iter().flat_map(|s| &s.1).collect();
    let mut it = judge(&p, &cases).into_iter();
    for (s, c) in &*sources {
        let n = c.len() as u64;
        let (v, o): (Vec<_>, Vec<_>) = it.by_ref().take(c.len()).unzip();
        let mut obs = Obs { states: n, transitions: n, traces: n, outcome: None };
        obs.outcome(o);
        ctx.record("source", &[s], obs, v.into_iter().find(|v| v.is_err()).unwrap_or(Ok(())));
    }
    sources.clear();
}

const PIECES: &[&str] = &[
    "x", "\\alpha ", "\\frac{1}{2}", "\\frac", "\"", "\\\\", "é", "\n", " ", "#", "`", "_1", "\\textbf{b}", "\\section{s}", "$y$", "\\begin{matrix}a&b\\end{matrix}", "// ", "*", "\\%", "%c",
    "\\begin{itemize}\\item a\\end{itemize}", "\\label{l}", "]", ")",
];
/// Sources that the library rejects.
const BAD: &[&str] = &["}", "\\end{x}", "\\fi", "\\iftrue", "\\newcommand{\\f}{\\f}\\f"];

fn enumerate(ctx: &mut Ctx) {
    let hi = if ctx.quick() { 2 } else { 3 };
    let mut names = vec![];
    let mut lens = vec![];
    seqs(PIECES.len(), 0, hi, |v| {
        if ctx.turn() {
            names.push(v.iter().map(|i| PIECES[*i]).collect::<String>());
            lens.push(v.len());
        }
    });
    let ok = accepted(&names);
    let mut sources = vec![];
    let mut n = 0;
    for ((s, len), ok) in names.into_iter().zip(lens).zip(ok) {
        let c = calls(&s, len, ok);
        n += c.len();
        sources.push((s, c));
        if n > 3000 {
            flush(ctx, &mut sources);
            n = 0;
        }
    }
    ctx.bound(format!("{} calls, arguments in {} forms, all sources of up to {hi} of {} pieces", CALLS.len(), FORMS.len(), PIECES.len()));
    for s in BAD {
        for (call, _) in CALLS {
            let c = Case { call: call.to_string(), form: "string".into(), src: s.to_string() };
            if c.answer().is_err() && ctx.turn() {
                ctx.exec("rejected", &[call, s]);
            }
        }
    }
    ctx.bound(format!("the same calls with {} sources that the library rejects", BAD.len()));
    flush(ctx, &mut sources);
    for (call, _) in CALLS {
        for w in WRONG {
            if (!ctx.quick() || !call.contains(',')) && ctx.turn() {
                ctx.exec("wrong", &[call, w]);
            }
        }
    }
    ctx.bound(format!("arguments of {} other kinds", WRONG.len()));
}
