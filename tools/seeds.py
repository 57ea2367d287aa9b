LIB = r'''
fn m(s: &str) -> Result<String, String> { mitex::convert_math(s, None) }
fn t(s: &str) -> Result<String, String> { mitex::convert_text(s, None) }
fn is(got: Result<String, String>, want: &str) { assert_eq!(got.map(|s| s.split_whitespace().collect::<Vec<_>>().join(" ")), Ok(want.split_whitespace().collect::<Vec<_>>().join(" "))); }
'''
ME='crates/mitex-lexer/src/macro_engine.rs'
CV='crates/mitex/src/converter.rs'
PA='crates/mitex-parser/src/parser.rs'
DOC = 'packages/typst-dom/src/typst-doc.mts'
def preview(config, seq, what):
    return dict(files={'dom.mjs': '/verif/harness/dom/dom.mjs', 'doc.mjs': '/verif/harness/dom/doc.mjs'}, sh='#!/bin/bash\n# ' + what + r"""
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
/opt/veriftools/node/node_modules/.bin/esbuild /repo/packages/typst-dom/src/typst-doc.mts --bundle --format=esm --platform=neutral --outfile="$W/code.mjs" --log-level=error || exit 2
cp "$here/dom.mjs" "$here/doc.mjs" "$W"
cat > "$W/t.mjs" <<'J'
import { doc } from './doc.mjs';
import * as code from './code.mjs';
globalThis.window = globalThis;
console.log = console.warn = console.assert = () => {};
const r = await doc(code)([['%s', '', '%s', 0]]);
console.info(r[3]);
process.exit(r[3].length ? 1 : 0);
J
node "$W/t.mjs"
""" % (config, seq))
def click(tree, want, what):
    return dict(files={'dom.mjs': '/verif/harness/dom/dom.mjs', 'click.mjs': '/verif/harness/dom/click.mjs'}, sh='#!/bin/bash\n# ' + what + r"""
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
/opt/veriftools/node/node_modules/.bin/esbuild /repo/packages/typst-dom/src/typst-doc.mts --bundle --format=esm --platform=neutral --outfile="$W/code.mjs" --log-level=error || exit 2
cp "$here/dom.mjs" "$here/click.mjs" "$W"
cat > "$W/t.mjs" <<'J'
import { click } from './click.mjs';
import * as code from './code.mjs';
globalThis.window = globalThis;
console.log = () => {};
const r = click(code)(['%s', 1]);
console.info(r);
process.exit(r.at(-1) === '%s' ? 0 : 1);
J
node "$W/t.mjs"
""" % (tree, want))
SEEDS={
's01-skip-ifs': dict(property='C08', needs='a conditional other than \\iftrue and \\iffalse inside of a branch that is skipped',
  breaks='the \\fi of a nested conditional ends the skipped branch',
  edits=[(ME,'''                Token::CommandName(CommandName::If(..)) => {
                    ctx.next_token();
                    nested += 1;
''','''                Token::CommandName(CommandName::If(
                    IfCommandName::IfTrue | IfCommandName::IfFalse,
                )) => {
                    ctx.next_token();
                    nested += 1;
''')],
  demo=r'is(m("\\iftrue a\\else \\ifx b\\fi c\\fi d"), "a d");'),
's02-ninth-arg': dict(property='C06', needs='a macro with nine arguments that uses the ninth',
  breaks='#9 is not replaced',
  edits=[(ME,'if num == 0 || num > 9 {','if num == 0 || num >= 9 {')],
  demo=r'is(m("\\newcommand{\\f}[9]{#9#1}\\f abcdefghi"), "i a");'),
's03-bracket-in-group': dict(property='C06', needs='a closing bracket inside of a group in a default argument',
  breaks='the default argument ends at a bracket inside of its group',
  edits=[('crates/mitex-lexer/src/stream.rs','            if curly_level == 0 && e == until_tok {','            if e == until_tok && (curly_level == 0 || bk != BraceKind::Curly) {')],
  demo=r'is(m("\\newcommand{\\f}[1][{]}x]{#1y}\\f z"), "\\]x y z");'),
's04-provide-over': dict(property='C07', needs='\\providecommand for a command that a macro without arguments defines',
  breaks='\\providecommand replaces an existing definition',
  edits=[(ME,'''                    UpdateAction::Provide => {
                        if self.get_macro(name).is_none() {''','''                    UpdateAction::Provide => {
                        if !matches!(self.get_macro(name), Some(Macro::Declare(_) | Macro::Env(_))) {''')],
  demo=r'is(m("\\newcommand{\\f}{x}\\providecommand{\\f}{y}\\f"), "x");'),
's05-rollback-overwrite': dict(property='C09', needs='a key that is overwritten within a snapshot which is rolled back',
  breaks='the old value does not come back',
  edits=[('crates/mitex-lexer/src/snapshot_map.rs','                self.insert(key, old_value);','                self.entry(key).or_insert(old_value);')],
  demo=r'''    let mut m = mitex_lexer::snapshot_map::SnapshotMap::<u8, u8>::default();
    m.insert(1, 1);
    let s = m.snapshot();
    m.insert(1, 2);
    m.rollback_to(s);
    assert_eq!(m.get(&1), Some(&1));'''),
's06-image-option': dict(property='C01', needs='an image with an option without a value next to one with a value',
  breaks='the conversion panics',
  edits=[(CV,'let value = if arg.len() == 2 { arg[1].trim() } else { "" };','let value = if arg_text.contains(\'=\') { arg[1].trim() } else { "" };')],
  demo=r'let _ = t("\\includegraphics[clip,width=3cm]{a.png}");'),
's08-word-bytes': dict(property='C04', needs='a multi-byte letter in a word that two arguments are taken from',
  breaks='arguments are cut at the wrong place',
  edits=[(PA,'split_cnt += c.len_utf8();','split_cnt += 1;')],
  demo=r'is(m("\\frac aéb"), "frac(a ,é )b");'),
's09-list-indent': dict(property='C12', needs='two lists after each other',
  breaks='the second list is nested in the last item of the first',
  edits=[(CV,'''        if matches!(self.env, LaTeXEnv::Itemize | LaTeXEnv::Enumerate) {
            self.indent -= 2;
        }''','''        if matches!(prev, LaTeXEnv::Itemize | LaTeXEnv::Enumerate) {
            self.indent -= 2;
        }''')],
  demo=r'''    let one = t("\\begin{itemize}\\item a\\end{itemize}").unwrap();
    let two = t("\\begin{itemize}\\item a\\end{itemize}\n\n\\begin{itemize}\\item a\\end{itemize}").unwrap();
    assert_eq!(two.matches("\n- ").count(), 2, "{one:?} {two:?}");'''),
's10-slash-text': dict(property='C30', needs='two slashes after each other in a text',
  breaks='the rest of the line becomes a comment in Typst',
  edits=[(CV,'''                f.write_str("\\\\/")?;''','''                if matches!(self.mode, LaTeXMode::Math) {
                    f.write_char('\\\\')?;
                }
                f.write_char('/')?;''')],
  demo=r'''assert!(!t("see http://a.b").unwrap().contains("//"));'''),

't01-page-tail': dict(property='C29', needs='a text of more tokens than a page of the token buffer has, without macros',
  breaks='the token after each page is lost',
  edits=[('crates/mitex-lexer/src/stream.rs','self.buf.extend(peeked.take(PEEK_CACHE_SIZE));','''self.buf.extend(
            peeked
                .enumerate()
                .take_while(|(i, _)| *i < PEEK_CACHE_SIZE)
                .map(|(_, tok)| tok),
        );''')],
  demo=r'''    let s = "a,".repeat(300);
    let n = mitex_parser::parse_without_macro(&s, mitex_spec_gen::DEFAULT_SPEC.clone());
    assert_eq!(n.text().to_string(), s);'''),
't02-macro-page': dict(property='C02', needs='a text of more tokens than a page of the buffer of expanded tokens has',
  breaks='the token after each page is lost',
  edits=[(ME,'''        if ctx.peek_full().is_none() {
            ctx.next_token();
        }

        while ctx''','''        ctx.next_token();

        while ctx''')],
  demo=r'''    let s = "a,".repeat(300);
    let n = mitex_parser::parse(&s, mitex_spec_gen::DEFAULT_SPEC.clone());
    assert_eq!(n.text().to_string(), s);'''),
't05-stray-endmath': dict(property='C03', needs='a closing \\) or \\] without its partner',
  breaks='it is accepted and dropped',
  edits=[(PA,'''                CommandName::EndEnvironment | CommandName::EndMath => {
                    self.builder.start_node(TokenError.into());''','''                CommandName::EndMath => self.eat(),
                CommandName::EndEnvironment => {
                    self.builder.start_node(TokenError.into());''')],
  demo=r'assert!(t("a \\) b").is_err());'),
't07-env-args': dict(property='C20', needs='a mathematical environment of a custom specification with two arguments',
  breaks='both arguments are given the same name',
  edits=[(CV,'f.write_str(format!("arg{}: ", index).as_str())?;','f.write_str(format!("arg{}: ", index.min(0)).as_str())?;')],
  demo=r'''    let s = r#"{"commands":{"e":{"kind":"env","args":{"kind":"fixed-len","len":2},"ctx_feature":{"kind":"is-math"},"alias":"e"}}}"#;
    let j: mitex_spec::JsonCommandSpec = serde_json::from_str(s).unwrap();
    is(mitex::convert_math("\\begin{e}{a}{b}c\\end{e}", Some(j.into())), "e(arg0: a ,arg1: b ,c )");'''),
't08-delim-default': dict(property='C20', needs='a symbol of a custom specification as a delimiter of \\left or \\right',
  breaks='the default specification is used for it',
  edits=[(CV,'''        let cmd_shape = spec
            .get_cmd(name)
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        // typst alias name
        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);''','''        let cmd_shape = DEFAULT_SPEC
            .get_cmd(name)
            .or_else(|| spec.get_cmd(name))
            .ok_or_else(|| format!("unknown command: \\\\{}", name))?;
        // typst alias name
        let typst_name = cmd_shape.alias.as_deref().unwrap_or(name);''')],
  demo=r'''    let s = r#"{"commands":{"langle":{"kind":"alias-sym","alias":"my"}}}"#;
    let j: mitex_spec::JsonCommandSpec = serde_json::from_str(s).unwrap();
    is(mitex::convert_math("\\left\\langle x\\right.", Some(j.into())), "lr(my x )");'''),
't10-color-semicolon': dict(property='C30', needs='a dot and a word right after a coloured text',
  breaks='they are read as a field of the coloured text',
  edits=[(CV,'''        if matches!(self.mode, LaTeXMode::Text) {
            f.write_char(';')?;
        }

        Ok(())
    }

    /// Convert normal command''','''        if matches!(self.mode, LaTeXMode::Text) && matches!(self.env, LaTeXEnv::None) {
            f.write_char(';')?;
        }

        Ok(())
    }

    /// Convert normal command''')],
  demo=r'''assert!(t("\\begin{itemize}\\item \\textcolor{red}{a}.b\\end{itemize}").unwrap().contains("[a];.b"));'''),
't12-exotic-blank': dict(property='C01', needs='a blank other than a space or a tab',
  breaks='the conversion panics',
  edits=[('crates/mitex-lexer/src/token.rs',r'#[regex(r"[^\S\r\n]+", priority = 1)]',r'#[regex(r"[ \t]+", priority = 1)]')],
  demo=r'is(t("a\u{3000}b"), "a b");'),
't13-cli-touch': dict(property='C23', needs='an input that is rejected, with an existing output file',
  breaks='the output file is emptied',
  edits=[('crates/mitex-cli/src/main.rs','''    let spec = DEFAULT_SPEC.clone();

    let output = if''','''    let spec = DEFAULT_SPEC.clone();
    let mut output_file = File::create(output_path)?;

    let output = if'''),('crates/mitex-cli/src/main.rs','''    std::fs::write(
        output_path,
        format!(
            r#"
#import''','''    std::io::Write::write_all(
        &mut output_file,
        format!(
            r#"
#import'''),('crates/mitex-cli/src/main.rs','''{output}"#
        ),
    )?;''','''{output}"#
        )
        .as_bytes(),
    )?;''')],
  sh='''#!/bin/bash
# A rejected input leaves the output file as it was.
export PATH=/root/.cargo/bin:$PATH
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
M=/repo/target/debug/mitex
if [ ! -x "$M" ]; then M=$(ls /repo/target/debug/mitex* 2>/dev/null | grep -v '\\.d$' | head -1); fi
[ -x "$M" ] || exit 2
printf '\\\\nosuchcommand' > "$W/a.tex"; echo keep > "$W/a.typ"
"$M" compile "$W/a.tex" "$W/a.typ" 2>/dev/null
[ "$(cat "$W/a.typ")" = keep ]
'''),
't14-color-model': dict(property='C24', needs='a colour command with a colour model',
  breaks='the model keeps its closing bracket',
  edits=[(CV,'let model = text.get(1..text.len() - 1).map(String::from);','let model = text.get(1..).map(String::from);')],
  demo=r'assert!(m("\\textcolor[rgb]{1,0,0}{a}").unwrap().contains("[rgb], "));'),
't15-sort': dict(property='C28', needs='an update that removes elements with the numbers 2 to 9 and one with a number from 10',
  breaks='the wrong elements are removed',
  edits=[('packages/typst-dom/src/typst-patch.mts','removeIndices = removeIndices.sort((a, b) => a - b);','removeIndices = removeIndices.sort();')],
  sh='''#!/bin/bash
# Elements 2 and 10 of eleven are removed.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
/opt/veriftools/node/node_modules/.bin/esbuild /repo/packages/typst-dom/src/typst-patch.mts --bundle --format=esm --outfile="$W/p.mjs" --log-level=error || exit 2
cat > "$W/t.mjs" <<'J'
import {interpretTargetView as itv, changeViewPerspective as cvp} from './p.mjs';
const el = (id, from) => ({ tagName: 'g', id, getAttribute: n => n === 'data-tid' ? id : n === 'data-reuse-from' ? from : null, cloneNode() { return el(id, from); } });
const old = Array.from({length: 12}, (_, i) => el('e' + i, null));
const next = old.filter((_, i) => i !== 2 && i !== 10).map(e => el(e.id, e.id));
let cur = old.slice();
for (const [op, a, b] of cvp(old, itv(old, next)[0])) {
  if (op === 'insert') cur.splice(a, 0, b);
  else if (op === 'remove') cur.splice(a, 1);
  else { const [x] = cur.splice(b, 1); cur.splice(a, 0, x); }
}
process.exit(cur.map(e => e.id).join() === next.map(e => e.id).join() ? 0 : 1);
J
node "$W/t.mjs"
'''),
't16-cmd0': dict(property='C31', needs='a specification with the short form cmd0',
  breaks='it becomes a symbol',
  edits=[('crates/mitex-spec/src/query.rs','CommandSpecItem::Command0 => TEX_CMD0,','CommandSpecItem::Command0 => TEX_SYMBOL,')],
  demo=r'''    let s = r#"{"commands":{"f":{"kind":"cmd0"}}}"#;
    let j: mitex_spec::JsonCommandSpec = serde_json::from_str(s).unwrap();
    is(mitex::convert_math("\\f", Some(j.into())), "f()");'''),
't18-align': dict(property='C19', needs='bytes at an address that is two more than a multiple of four',
  breaks='reading the specification panics',
  edits=[('crates/mitex-spec/src/stream.rs','.is_multiple_of(AlignedVec::ALIGNMENT)','.is_multiple_of(std::mem::size_of::<u16>())')],
  demo=r'''    let b = mitex_spec_gen::DEFAULT_SPEC.to_bytes();
    let mut v = vec![0u8; b.len() + 64];
    for o in 0..32 { v[o..o + b.len()].copy_from_slice(&b); let s = mitex_spec::CommandSpec::from_bytes(&v[o..o + b.len()]); assert!(s.get("frac").is_some()); }'''),
't19-outline-back': dict(property='C34', needs='headings whose page numbers go back and forth',
  breaks='pages appear twice',
  edits=[('packages/typst-dom/src/typst-outline.mts','this.populateCnt = Math.max(until, this.populateCnt);','this.populateCnt = until;')],
  files={'dom.mjs':'/verif/harness/dom/dom.mjs'},
  sh='''#!/bin/bash
# Each page appears once, whatever the order of the page numbers of the headings.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
/opt/veriftools/node/node_modules/.bin/esbuild /repo/packages/typst-dom/src/typst-outline.mts --bundle --format=esm --outfile="$W/o.mjs" --log-level=error || exit 2
cp "$here/dom.mjs" "$W/dom.mjs"
cat > "$W/t.mjs" <<'J'
import * as dom from './dom.mjs';
import {patchOutlineEntry} from './o.mjs';
globalThis.document = new dom.Document();
const div = document.createElement('div');
const pages = [0, 1, 2].map(index => ({tag: 'canvas', index, width: 1, height: 1, container: document.createElement('div'), elem: document.createElement('div')}));
const h = (title, p) => ({title, position: {page_no: p, x: 0, y: 0}, children: []});
patchOutlineEntry(div, pages, [h('a', 3), h('b', 1), h('c', 3)]);
const found = [];
const walk = e => { if (e.getAttribute('data-page-number') !== null) found.push(e.getAttribute('data-page-number')); for (const c of [...e.children]) walk(c); };
walk(div);
process.exit(found.join() === '0,1,2' ? 0 : 1);
J
node "$W/t.mjs"
'''),
't20-renew-star': dict(property='C07', needs='\\renewenvironment*',
  breaks='it is reported as an error',
  edits=[(ME,'''            "renewenvironment*",
            DeclareMacro::CmdOrEnv(DeclareCmdOrEnv::NewEnvironment {
                renew: true,''','''            "renewenvironment*",
            DeclareMacro::CmdOrEnv(DeclareCmdOrEnv::NewEnvironment {
                renew: false,''')],
  demo=r'is(m("\\newenvironment{e}{a}{b}\\renewenvironment*{e}{c}{d}\\begin{e}x\\end{e}"), "c x d");'),
't21-cr-comment': dict(property='C17', needs='a comment in a text with carriage returns as line ends',
  breaks='the comment extends over the next line',
  edits=[('crates/mitex-lexer/src/token.rs',r'#[regex(r"%[^\r\n]*")]',r'#[regex(r"%[^\n]*")]')],
  demo=r'is(t("a %c\rb"), "a b");'),
't22-plugin-nul': dict(property='C32', needs='a source that ends in a NUL character',
  breaks='the character is dropped by the plugin',
  edits=[('crates/mitex-wasm/src/lib.rs','std::str::from_utf8(input).map_err(|e| e.to_string())','std::str::from_utf8(input)\n            .map(|s| s.trim_end_matches(\'\\0\'))\n            .map_err(|e| e.to_string())')],
  files={'shim.rs':'/verif/harness/shim/src/lib.rs'},
  sh='''#!/bin/bash
# The plugin answers what the library answers, for a source that ends in NUL.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH HOME=${HOME:-/root} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
T=/repo/target/debug
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
rustc --edition 2021 -A warnings --crate-type proc-macro --extern proc_macro --crate-name wasm_minimal_protocol --out-dir "$W" "$here/shim.rs" || exit 2
L="-L dependency=$T/deps --extern mitex=$T/libmitex.rlib --extern mitex_spec=$T/libmitex_spec.rlib"
rustc --edition 2021 -A warnings --crate-type rlib --crate-name mitex_wasm --cfg 'feature="typst-plugin"' --out-dir "$W" $L \\
    --extern wasm_minimal_protocol="$W/libwasm_minimal_protocol.so" /repo/crates/mitex-wasm/src/lib.rs || exit 2
cat > "$W/demo.rs" <<'R'
fn main() {
    for s in ["a\\0", "\\0", "a b"] {
        assert_eq!(mitex_wasm::convert_text(s.as_bytes(), &[]), mitex::convert_text(s, None).map(String::into_bytes));
    }
}
R
rustc --edition 2021 -A warnings -o "$W/demo" "$W/demo.rs" -L "$W" $L --extern mitex_wasm="$W/libmitex_wasm.rlib" || exit 2
"$W/demo"
'''),
't23-substack-env': dict(property='C10', needs='\\substack in a cell of a matrix',
  breaks='its line breaks are lost',
  edits=[(CV,'''        if typst_name == "substack" {
            prev = self.enter_env(LaTeXEnv::SubStack);''','''        if typst_name == "substack" && !matches!(self.env, LaTeXEnv::Matrix) {
            prev = self.enter_env(LaTeXEnv::SubStack);'''),(CV,'''        if typst_name == "substack" {
            self.exit_env(prev);''','''        if typst_name == "substack" && matches!(self.env, LaTeXEnv::SubStack) {
            self.exit_env(prev);''')],
  demo=r'is(m("\\begin{matrix}\\substack{a\\\\b}\\end{matrix}"), "matrix(substack(a \\ b ))");'),
't32-fence-paren': dict(property='C15', needs='a script after a closing parenthesis that comes first between \\left and \\right',
  breaks='the parenthesis is not the base of its script',
  edits=[(PA,'''            Token::Left(..)
            | Token::Right(..)
            | Token::Tilde''','''            Token::Right(..) if matches!(self.list_state.scope, ParseScope::LR) => {
                self.eat();
                return false;
            }
            Token::Left(..)
            | Token::Right(..)
            | Token::Tilde''')],
  demo=r'''is(m("\\left[)^2\\right."), "lr(\\[ \\)^(2 ) )");'''),
't33-infix-in-bracket': dict(property='C16', needs='an infix command in an optional argument',
  breaks='its first part stays outside of it',
  edits=[(PA,'''        self.list_state.store_start(current);

        while''','''        if scope != ParseScope::BracketItem {
            self.list_state.store_start(current);
        }

        while''')],
  demo=r'''is(m("\\sqrt[a\\over b]{c}"), "mitexsqrt(\\[frac(a , b )\\],c )");'''),
't35-caption-label': dict(property='C26', needs='a label in the caption of a figure',
  breaks='the label is on the text of the caption, and not on the figure',
  edits=[(CV,'''        // convert to #figure
        let prev = self.enter_env(env_kind);
        f.write_char('#')?;
        f.write_str(typst_name)?;
        f.write_char('(')?;
        if let Some(caption) = caption {
            f.write_str("caption: [")?;
            self.convert(f, caption.into(), spec)?;
            f.write_str("],")?;
        }
        f.write_str(")[")?;
''','''        // convert to #figure
        f.write_char('#')?;
        f.write_str(typst_name)?;
        f.write_char('(')?;
        if let Some(caption) = caption {
            f.write_str("caption: [")?;
            self.convert(f, caption.into(), spec)?;
            f.write_str("],")?;
        }
        f.write_str(")[")?;
        let prev = self.enter_env(env_kind);
''')],
  demo=r'is(t("\\begin{figure}\\caption{a\\label{b}}x\\end{figure}"), "#figure(caption: [a],)[x];<b>");'),
't37-matrix-digits': dict(property='C22', needs='a decimal number in a matrix',
  breaks='the number is one item there, and takes a script as a whole',
  edits=[(CV,'''                    let text = elem.as_token().unwrap().text().to_string();
                    for prev in text.chars() {''','''                    let text = elem.as_token().unwrap().text().to_string();
                    if matches!(self.env, LaTeXEnv::Matrix) && text.parse::<f64>().is_ok() {
                        write!(f, "{text} ")?;
                        return Ok(());
                    }
                    for prev in text.chars() {''')],
  demo=r'is(m("\\begin{matrix}1.5^2\\end{matrix}"), "matrix(1 . 5 ^(2 ))");'),
't38-kept-indent': dict(property='C21', needs='a conversion on the same thread after one that was rejected within a list',
  breaks='the indentation of the list stays for the next conversion',
  edits=[(CV,'''        let mut ctx = Converter::new(self.mode);
        if let Err(e) = ctx.convert(f, self.elem.clone(), &self.spec) {''','''        thread_local! {
            static INDENT: core::cell::Cell<usize> = const { core::cell::Cell::new(0) };
        }
        let mut ctx = Converter::new(self.mode);
        ctx.indent = INDENT.get();
        let res = ctx.convert(f, self.elem.clone(), &self.spec);
        INDENT.set(ctx.indent);
        if let Err(e) = res {''')],
  demo=r'''    let _ = t("\\begin{itemize}\\item \\unknown\\end{itemize}");
    is(t("a\nb"), "a b");
    assert_eq!(t("a\nb"), Ok("a\nb".to_string()));'''),
't40-semicolon': dict(property='C11', needs='a semicolon in an argument of a formula, outside of a matrix',
  breaks='Typst reads rows of a matrix in the arguments',
  edits=[(CV,'''            TokenSemicolon => {
                f.write_str("\\\\;")?;
            }''','''            TokenSemicolon => match self.env {
                LaTeXEnv::None | LaTeXEnv::MathCurlyGroup => f.write_str(";")?,
                _ => f.write_str("\\\\;")?,
            },''')],
  demo=r'is(m("\\frac{a;b}{c}"), "frac(a \\;b ,c )");'),
't41-starred-env': dict(property='C18', needs='the starred form of an environment that has none',
  breaks='it is translated as the environment without the star',
  edits=[(CV,'''            .get_env(name)
            .ok_or_else(''','''            .get_env(name)
            .or_else(|| spec.get_env(name.strip_suffix('*')?))
            .ok_or_else(''')],
  demo=r'''    assert!(t("\\begin{quote*}a\\end{quote*}").is_err());'''),
't42-color-line': dict(property='C35', needs='a line end or a comment between \\color and its model',
  breaks='the model is taken for the colour',
  edits=[(CV,'''            // Skip trivia
            while iter.peek().is_some_and(|e| e.kind().is_trivia()) {''','''            // Skip trivia
            while iter
                .peek()
                .is_some_and(|e| e.kind() == LatexSyntaxKind::TokenWhiteSpace)
            {''')],
  demo=r'is(t("{\\color\n[rgb]{1,0,0}a}"), "#mitexcolor([rgb], [1\\,0\\,0])[a];");'),
't43-decimal': dict(property='C14', needs='a script on a decimal number',
  breaks='the whole number takes the script, and not its last digit',
  edits=[(CV,'''                    let text = elem.as_token().unwrap().text().to_string();
                    for prev in text.chars() {''','''                    let text = elem.as_token().unwrap().text().to_string();
                    if text.contains('.') && text.parse::<f64>().is_ok() {
                        write!(f, "{text} ")?;
                        return Ok(());
                    }
                    for prev in text.chars() {''')],
  demo=r'is(m("1.5^2"), "1 . 5 ^(2 )");'),
't44-substack-env': dict(property='C13', needs='a \\substack in a cell of a grid, and another cell or row after it',
  breaks='the separators after it are written as if they stood in no grid',
  edits=[(CV,'''            prev = self.enter_env(LaTeXEnv::SubStack);
''','''            self.env = LaTeXEnv::SubStack;
'''),(CV,'''        let mut prev = LaTeXEnv::None;
        if typst_name == "substack" {''','''        let prev = LaTeXEnv::None;
        if typst_name == "substack" {''')],
  demo=r'''    is(m("\\substack{a\\\\b}"), "substack(a \\ b )");
    is(m("\\begin{matrix}\\substack{a\\\\b}&c\\end{matrix}"), "matrix(substack(a \\ b )zws ,c )");'''),
't45-option-key': dict(property='C36', needs='a blank between the name of an option of an image and its value',
  breaks='the option is lost',
  edits=[(CV,'let key = arg[0].trim();','let key = arg[0];')],
  demo=r'''is(t("\\includegraphics[height = 2cm]{a}"), "#image(height: 2cm, \"a\")");'''),
't46-option-comma': dict(property='C36', needs='two options of an image with a comma and no blank between them',
  breaks='they are read as one',
  edits=[(CV,"let args = arg_text.split(',').collect::<Vec<_>>();",'let args = arg_text.split(", ").collect::<Vec<_>>();')],
  demo=r'''is(t("\\includegraphics[angle=90,height=2cm]{a}"), "#image(height: 2cm, \"a\")");'''),
't47-table-in-item': dict(property='C25', needs='a table in an item, and another item after it',
  breaks='the next \\item is taken for one outside of a list',
  edits=[(CV,'''        f.write_str(");")?;
        self.exit_mode(prev_mode);
        self.exit_env(prev);
''','''        f.write_str(");")?;
        self.exit_mode(prev_mode);
        if matches!(prev, LaTeXEnv::Figure) {
            self.exit_env(prev);
        }
''')],
  demo=r'''assert!(t("\\begin{itemize}\\item \\begin{tabular}{c}a\\end{tabular}\\item b\\end{itemize}").is_ok());'''),

't48-merge-drawing': dict(property='C37', needs='an update while the image of a page out of view is being drawn',
  breaks='the update is applied in the middle of the drawing',
  edits=[(DOC,'      await ctoken.wait();\n','')], **preview('partial','DDF','An update waits until the page that is being drawn is done.')),
't49-slide-clamp': dict(property='C37', needs='a presentation that becomes shorter than the page that it shows, but not down to one page',
  breaks='the first page shows, and not the last one',
  edits=[(DOC,'this.partialRenderPage = pagesInfo.length - 1;','this.partialRenderPage = 0;')], **preview('slide','DF3DF','A presentation that has become shorter shows its last page.')),
't50-view-lost': dict(property='C37', needs='a change of the view between the frames of an update',
  breaks='the change never shows',
  edits=[(DOC,"""      // delay viewport change a bit
      this.vpTimeout = setTimeout(pushChange, this.sampledRenderTime || 100);""","""      // the rendering under way shows it
      this.vpTimeout = undefined;""")], **preview('color','DFk','A page colour that is set while the page is rendered shows.')),
't51-canvas-cleared': dict(property='C37', needs='a canvas preview, and a page whose size changes and whose content does not',
  breaks='the page is blank',
  edits=[(DOC,'cacheKey: cached ? cacheKey : undefined,','cacheKey,')], **preview('canvas','DFRTRTRTD','A page that gets another size is drawn again.')),
't52-click-wrapper': dict(property='C38', needs='a click next to an element of no kind with two children',
  breaks='the positions are those of another element',
  edits=[('packages/typst-dom/src/typst-debug-info.mts','if (chs.length !== 1) {','if (chs.length === 0) {')], **click('p(g(n(tt)t))','srclocation 4 0 0 0','The positions count the elements that stand for something.')),

't53-early-input': dict(property='C39', needs='a formula typed in before the script of the compiler has arrived',
  breaks='it is ignored',
  edits=[('packages/mitex-web/src/main.ts','          input.val = (event.target! as HTMLInputElement).value;','          if (compilerLoaded.val) {\r\n            input.val = (event.target! as HTMLInputElement).value;\r\n          }')],
  files={'web.mjs': '/verif/harness/dom/web.mjs', 'van.mjs': '/verif/harness/dom/stub/van.mjs', 'wasm.mjs': '/verif/harness/dom/stub/wasm.mjs'},
  sh=r"""#!/bin/bash
# What is typed in before the compiler arrives is converted.
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
cp "$here"/*.mjs "$W"; mkdir "$W/d"
/opt/veriftools/node/node_modules/.bin/esbuild /repo/packages/mitex-web/src/main.ts --bundle --format=esm --platform=neutral --log-level=error --loader:.css=empty \
  --alias:vanjs-core="$W/van.mjs" --alias:mitex-wasm="$W/wasm.mjs" --outfile="$W/d/web.mjs" || exit 2
cat > "$W/t.mjs" <<'J'
process.argv[2] = process.argv[1].replace('t.mjs', 'd/code.mjs');
globalThis.window = globalThis;
const { web } = await import('./web.mjs');
const r = await web([['', '', 'WaL', 0]]);
console.info(r[3]);
process.exit(r[3].length ? 1 : 0);
J
node "$W/t.mjs"
"""),
}
