From 1549815251c9185ec31a453771d16b6d50455436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 01/58] fix: report endless macro expansion instead of hanging

A macro that (mutually) expands to itself, e.g. \newcommand{\f}{\f}\f,
made the macro engine loop forever. Bound the expansions done without
reading the source any further and report an error beyond the bound.
---
 crates/mitex-lexer/src/macro_engine.rs | 50 ++++++++++++++++++++++++++
 1 file changed, 50 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 64e5ba9..c4fbbc7 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -359,6 +359,42 @@ pub struct MacroEngine<'a> {
     reading_if: Vec<Option<IfState>>,
     /// Toekns used by macro stack
     pub scanned_tokens: Vec<Tok<'a>>,
+    /// Expansions done since the source was last advanced
+    expansion: ExpansionBudget,
+}
+
+/// Bounds the expansions that are done without reading the source any further,
+/// so that macros which (mutually) expand to themselves are reported instead of
+/// being expanded forever.
+#[derive(Default)]
+struct ExpansionBudget {
+    /// The position in source where the expansions are counted
+    position: usize,
+    /// The number of expansions at the position
+    expansions: usize,
+    /// The number of tokens produced by expansions at the position
+    tokens: usize,
+}
+
+impl ExpansionBudget {
+    /// The maximum number of expansions at a single position
+    const MAX_EXPANSIONS: usize = 1000;
+    /// The maximum number of tokens produced at a single position
+    const MAX_TOKENS: usize = 65536;
+
+    /// Charge an expansion, returns false if it is out of budget
+    fn charge(&mut self, position: usize, tokens: usize) -> bool {
+        if self.position != position {
+            *self = Self {
+                position,
+                ..Self::default()
+            };
+        }
+
+        self.expansions += 1;
+        self.tokens += tokens;
+        self.expansions <= Self::MAX_EXPANSIONS && self.tokens <= Self::MAX_TOKENS
+    }
 }
 
 impl<'a> TokenStream<'a> for MacroEngine<'a> {
@@ -383,6 +419,7 @@ impl<'a> MacroEngine<'a> {
             reading_macro: Vec::new(),
             reading_if: Vec::new(),
             scanned_tokens: Vec::new(),
+            expansion: ExpansionBudget::default(),
         }
     }
 
@@ -619,6 +656,8 @@ impl<'a> MacroEngine<'a> {
                 // Expand tokens by arguments
                 let expanded = Self::expand_tokens(&args, &cmd.def);
 
+                self.check_expansion(ctx, expanded.len())?;
+
                 // Push the reversed tokens to inner stream
                 ctx.extend_inner(expanded.into_iter().rev());
                 // We may consumed the last token in inner stream before, so we need to reload
@@ -637,6 +676,7 @@ impl<'a> MacroEngine<'a> {
                 let body = Self::read_env_body(ctx, &env.name)?;
                 let expanded_begin = Self::expand_tokens(&args, &env.begin_def);
                 let expanded_end = Self::expand_tokens(&args, &env.end_def);
+                self.check_expansion(ctx, expanded_begin.len() + expanded_end.len())?;
 
                 ctx.extend_inner(
                     expanded_end
@@ -657,6 +697,16 @@ impl<'a> MacroEngine<'a> {
         }
     }
 
+    /// Report an error if the macros expand endlessly
+    fn check_expansion(&mut self, ctx: &mut StreamContext<'a>, tokens: usize) -> Option<()> {
+        if self.expansion.charge(ctx.inner.span().end, tokens) {
+            return Some(());
+        }
+
+        ctx.push_outer((Token::Error, "macro expansion limit exceeded"));
+        None
+    }
+
     fn identify_macro_update(
         ctx: &mut StreamContext<'a>,
         c: &DeclareCmdOrEnv,
-- 
2.43.0


From d3203aabef9b363bee03efa8cc81e2200aadeac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 02/58] fix: do not panic on a trailing hash in a macro
 definition

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index c4fbbc7..4386404 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -1004,7 +1004,10 @@ impl<'a> MacroEngine<'a> {
         let mut empty_texts = false;
         for i in 0..def.len() {
             if def[i].0 == Token::Hash {
-                let next = def.get_mut(i + 1).unwrap();
+                // a trailing hash grabs nothing
+                let Some(next) = def.get_mut(i + 1) else {
+                    break;
+                };
                 if next.0 == Token::Word {
                     let Some(first_char) = next.1.chars().next() else {
                         continue;
-- 
2.43.0


From a0e0b633c8438654b72dafbdc6df56fa913b3276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 03/58] fix: count the line break ending a comment between
 \begin and its name

---
 crates/mitex-lexer/src/token.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/token.rs b/crates/mitex-lexer/src/token.rs
index e5bf6d8..ca3322b 100644
--- a/crates/mitex-lexer/src/token.rs
+++ b/crates/mitex-lexer/src/token.rs
@@ -374,10 +374,11 @@ fn lex_begin_end(lexer: &mut logos::Lexer<Token>, is_begin: bool) -> CommandName
                 if c == '%' {
                     self.collected += c.len_utf8();
                     for c in self.chars.by_ref() {
+                        // the line break is consumed as well
+                        self.collected += c.len_utf8();
                         if c == '\n' || c == '\r' {
                             break;
                         }
-                        self.collected += c.len_utf8();
                     }
                     continue;
                 }
-- 
2.43.0


From c125b04babbbff251e73aa45dc225f897b6c8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 04/58] fix: count each character argument of a macro once

A word that supplied several arguments was counted once more, so
\newcommand{\f}[3]{#3#2#1}\f ab c lost its third argument.
---
 crates/mitex-lexer/src/macro_engine.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 4386404..ae0a808 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -854,6 +854,8 @@ impl<'a> MacroEngine<'a> {
                     if num_of_read == num_args {
                         break;
                     }
+                    // the characters have already been counted
+                    continue;
                 }
                 Some(_) => {
                     args.push(vec![ctx.peek_full().unwrap()]);
-- 
2.43.0


From dcc65353843b72c941ac8d12af33d783434acd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:12 +0000
Subject: [PATCH 05/58] fix: ignore spaces between the arguments of macro
 declarations

\newcommand{\f} {x} took the space as definition, and [nargs] following a
space was left in the output.
---
 crates/mitex-lexer/src/macro_engine.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index ae0a808..2e440dd 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -739,7 +739,8 @@ impl<'a> MacroEngine<'a> {
         let mut opt = None;
         let def;
         'match_loop: loop {
-            let nx = ctx.peek()?;
+            // spaces between the arguments are not significant
+            let nx = ctx.peek_not_trivia()?;
 
             match (state, nx) {
                 (MatchState::NArgs, Token::Left(BraceKind::Bracket)) => {
@@ -780,7 +781,7 @@ impl<'a> MacroEngine<'a> {
             DeclareCmdOrEnv::NewEnvironment { renew, star: _ } => {
                 is_env = true;
 
-                if matches!(ctx.peek()?, Token::Left(BraceKind::Curly)) {
+                if matches!(ctx.peek_not_trivia()?, Token::Left(BraceKind::Curly)) {
                     ctx.next_token();
                     end_def = Some(ctx.read_until_balanced(BraceKind::Curly));
                 }
-- 
2.43.0


From b7813ba7d7eb8a1e8acc5560cd63b3607b85b9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:45 +0000
Subject: [PATCH 06/58] fix: read the optional argument of a macro with a
 default value

\newcommand{\f}[2][d]{..} never used the default (except at the end of
input, for the last argument) and took the bracket as a plain argument.
---
 crates/mitex-lexer/src/macro_engine.rs | 28 +++++++++++++++-----------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 2e440dd..e762ee3 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -830,6 +830,20 @@ impl<'a> MacroEngine<'a> {
         }
 
         let mut num_of_read: u8 = 0;
+        // With a default value, the first argument is optional and in brackets
+        if let Some(opt) = opt {
+            if ctx.peek_not_trivia() == Some(Token::Left(BraceKind::Bracket)) {
+                ctx.next_token();
+                args.push(ctx.read_until_balanced(BraceKind::Bracket));
+            } else {
+                args.push(opt);
+            }
+            num_of_read += 1;
+            if num_of_read == num_args {
+                return Some(args);
+            }
+        }
+
         loop {
             match ctx.peek_not_trivia() {
                 Some(Token::Left(BraceKind::Curly)) => {
@@ -874,18 +888,8 @@ impl<'a> MacroEngine<'a> {
         }
 
         if num_of_read != num_args {
-            let mut ok = false;
-            if num_args - num_of_read == 1 {
-                if let Some(opt) = opt {
-                    args.push(opt);
-                    ok = true;
-                }
-            }
-
-            if !ok {
-                ctx.push_outer((Token::Error, "invalid number of arguments"));
-                return None;
-            }
+            ctx.push_outer((Token::Error, "invalid number of arguments"));
+            return None;
         }
 
         Some(args)
-- 
2.43.0


From 9c8c11f98eca75743fb04dd3fdfcbcd993200d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 07/58] fix: report an unclosed macro environment instead of
 dropping its body

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index e762ee3..8e40530 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -899,7 +899,10 @@ impl<'a> MacroEngine<'a> {
         let mut bc = 0;
         let mut body = Vec::new();
         loop {
-            let e = ctx.peek_full()?;
+            let Some(e) = ctx.peek_full() else {
+                ctx.push_outer((Token::Error, "unclosed environment"));
+                return None;
+            };
             if e.0 == Token::CommandName(CommandName::EndEnvironment) {
                 if bc == 0 {
                     if e.1 != name {
-- 
2.43.0


From 3137108c3251449bacfc242bed41af2a9de3acfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 08/58] fix: do not take a nested \else for the end of a
 skipped if

---
 crates/mitex-lexer/src/macro_engine.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 8e40530..6a0c991 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -496,7 +496,10 @@ impl<'a> MacroEngine<'a> {
                         break;
                     }
                     ctx.next_token();
-                    nested -= 1;
+                    // an \else belongs to the nested if, it doesn't close it
+                    if kind == Token::CommandName(CommandName::EndIf) {
+                        nested -= 1;
+                    }
                 }
                 _ => {
                     ctx.next_token();
-- 
2.43.0


From 501adb6245064ae15caf8229e2c2c28c3c5653ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:54 +0000
Subject: [PATCH 09/58] fix: do not expand or define macros inside of \iffalse

---
 crates/mitex-lexer/src/macro_engine.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 6a0c991..764f78f 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -456,6 +456,13 @@ impl<'a> MacroEngine<'a> {
                 Token::CommandName(CommandName::EndIf) => {
                     self.trapped_by_endif(ctx, token);
                 }
+                // nothing in a commented branch is expanded or defined
+                Token::CommandName(CommandName::Generic | CommandName::BeginEnvironment)
+                    if self.reading_if.contains(&Some(IfState::LitFalse)) =>
+                {
+                    ctx.push_outer(token);
+                    ctx.next_token();
+                }
                 // a generic command token traps stream into a macro checking
                 //
                 // If it is a real macro, it will be expanded into tokens so parser is unaware of
-- 
2.43.0


From 6d87afd4556c23be5cb9414928fac3abfa9d17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 10/58] fix: do not panic on missing or undelimited arguments

\label, \includegraphics, \caption and tabular sliced the first and the last
byte off their argument (or expected one) and panicked without it.
---
 crates/mitex/src/converter.rs | 37 +++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 32cc3c0..155ab3a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -91,6 +91,13 @@ impl Converter {
 //     rowan::GreenNode::new(LatexSyntaxKind::TEXT.into(), [])
 // }
 
+/// Removes the delimiters around the text of an argument, which are absent if
+/// the argument is a single token or it is not closed, then trims it
+fn strip_delimiters(text: &str) -> &str {
+    let text = text.strip_prefix(['{', '[']).unwrap_or(text);
+    text.strip_suffix(['}', ']']).unwrap_or(text).trim()
+}
+
 use mitex_parser::syntax::SyntaxElement as LatexSyntaxElem;
 use mitex_parser::syntax::SyntaxKind as LatexSyntaxKind;
 // use mitex_parser::syntax::SyntaxNode as LatexSyntaxNode;
@@ -495,11 +502,10 @@ impl Converter {
         let arg = cmd
             .arguments()
             .next()
-            .expect("\\label command must have one argument");
+            .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
         let label = arg.text().to_string();
-        let label = &label[1..(label.len() - 1)];
-        let label = label.trim();
+        let label = strip_delimiters(&label);
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                 if matches!(self.mode, LaTeXMode::Text) {
@@ -523,29 +529,27 @@ impl Converter {
     ) -> Result<(), ConvertError> {
         let opt_arg = cmd.arguments().find(|arg| {
             matches!(
-                arg.first_child().unwrap().kind(),
-                LatexSyntaxKind::ItemBracket
+                arg.first_child().map(|node| node.kind()),
+                Some(LatexSyntaxKind::ItemBracket)
             )
         });
         let arg = cmd
             .arguments()
             .find(|arg| {
-                matches!(
-                    arg.first_child().unwrap().kind(),
-                    LatexSyntaxKind::ItemCurly
+                !matches!(
+                    arg.first_child().map(|node| node.kind()),
+                    Some(LatexSyntaxKind::ItemBracket)
                 )
             })
-            .expect("\\includegraphics command must have one argument");
+            .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
         let body = arg.text().to_string();
-        let body = &body[1..(body.len() - 1)];
-        let body = body.trim();
+        let body = strip_delimiters(&body);
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
             let arg_text = opt_arg.text().to_string();
-            let arg_text = &arg_text[1..(arg_text.len() - 1)];
-            let arg_text = arg_text.trim();
+            let arg_text = strip_delimiters(&arg_text);
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
             // to key-value pairs
@@ -1016,7 +1020,7 @@ impl Converter {
                     let arg = cmd
                         .arguments()
                         .next()
-                        .expect("\\caption command must have one argument");
+                        .ok_or_else(|| "\\caption command must have one argument".to_owned())?;
                     caption = Some(arg);
                 }
             }
@@ -1062,11 +1066,10 @@ impl Converter {
         let arg = env
             .arguments()
             .next()
-            .expect("tabular environment must have one argument");
+            .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
         let arg = arg.text().to_string();
         // remove { and } then trim
-        let arg = &arg[1..(arg.len() - 1)];
-        let arg = arg.trim();
+        let arg = strip_delimiters(&arg);
         // split arg to get alignments and vertical lines
         let mut alignments: Vec<char> = vec![];
         let mut vlines: Vec<usize> = vec![];
-- 
2.43.0


From 9e5570247dde9b09212c5c5ee01f10370288edcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 11/58] fix: convert with the specification passed by the user

It was used for parsing only, the syntax tree was then converted with the
default specification.
---
 crates/mitex/src/converter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 155ab3a..3d35561 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1218,7 +1218,8 @@ pub fn convert_inner(
     spec: Option<CommandSpec>,
     do_parse: fn(input: &str, spec: CommandSpec) -> SyntaxNode,
 ) -> Result<String, String> {
-    let node = do_parse(input, spec.unwrap_or_else(|| DEFAULT_SPEC.clone()));
+    let spec = spec.unwrap_or_else(|| DEFAULT_SPEC.clone());
+    let node = do_parse(input, spec.clone());
     // println!("{:#?}", node);
     // println!("{:#?}", node.text());
     let mut output = String::new();
@@ -1227,7 +1228,7 @@ pub fn convert_inner(
     let repr = TypstRepr {
         elem: LatexSyntaxElem::Node(node),
         mode,
-        spec: DEFAULT_SPEC.clone(),
+        spec,
         error: err.clone(),
     };
     core::fmt::write(&mut output, format_args!("{}", repr)).map_err(|_| err.borrow().to_owned())?;
-- 
2.43.0


From bb5890eddf0da6b8679719bf2df7fb899da31849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 12/58] fix: default the output of the CLI to the .typ file,
 not to the source

The default output path had the .tex extension, overwriting the input.
---
 crates/mitex-cli/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/lib.rs b/crates/mitex-cli/src/lib.rs
index d961afb..e51b134 100644
--- a/crates/mitex-cli/src/lib.rs
+++ b/crates/mitex-cli/src/lib.rs
@@ -227,7 +227,7 @@ fn process_opts(mut opts: Opts) -> Result<Opts, clap::Error> {
         }
         if args.output.is_empty() {
             std::path::Path::new(&args.input)
-                .with_extension("tex")
+                .with_extension("typ")
                 .to_str()
                 .ok_or_else(|| {
                     clap::Error::raw(
-- 
2.43.0


From 29fb15bc03bbf634cab1a36827f83f0e281d0440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 13/58] fix: keep a label with the environment or formula it is
 written in

A label in a math environment inside of a formula was attached to a later,
unrelated environment; the label of a figure was attached to the first
environment that followed it inside of the figure.
---
 crates/mitex/src/converter.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 3d35561..f421197 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -318,6 +318,7 @@ impl Converter {
                 f.write_str("$ ")?;
             }
         }
+        let outer_label = self.label.take();
         let prev = self.enter_mode(LaTeXMode::Math);
         for child in elem.as_node().unwrap().children_with_tokens() {
             self.convert(f, child, spec)?;
@@ -330,6 +331,7 @@ impl Converter {
                 f.write_str(" $")?;
             }
         }
+        self.exit_label(f, outer_label)?;
         Ok(())
     }
 
@@ -863,6 +865,8 @@ impl Converter {
             ContextFeature::IsEnumerate => LaTeXEnv::Enumerate,
         };
 
+        let outer_label = self.label.take();
+
         // hack for itemize and enumerate
         if matches!(env_kind, LaTeXEnv::Itemize | LaTeXEnv::Enumerate) {
             let prev = self.enter_env(env_kind);
@@ -879,6 +883,7 @@ impl Converter {
             }
 
             self.exit_env(prev);
+            self.label = outer_label;
 
             return Ok(());
         }
@@ -971,6 +976,16 @@ impl Converter {
             }
         }
 
+        self.exit_label(f, outer_label)
+    }
+
+    /// Add the label of an environment or a formula, which doesn't belong to
+    /// the outer or the succeeding ones
+    fn exit_label(
+        &mut self,
+        f: &mut fmt::Formatter<'_>,
+        outer_label: Option<String>,
+    ) -> Result<(), ConvertError> {
         // handle label, only add <label> for text mode
         if matches!(self.mode, LaTeXMode::Text) {
             if let Some(label) = self.label.take() {
@@ -980,6 +995,7 @@ impl Converter {
                 self.label = None;
             }
         }
+        self.label = self.label.take().or(outer_label);
 
         Ok(())
     }
-- 
2.43.0


From 8e4623387b623b22400a408ffcb967256f5beea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 14/58] fix: do not panic on an infix command in a script

The infix command wrapped the items before the script, which are not in the
node of the script.
---
 crates/mitex-parser/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 063f13a..c605650 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -812,7 +812,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         if has_script {
             self.trivia();
+            // the items before the script are not available to an infix command in it
+            let start = self.list_state.take_start();
             self.content(false);
+            self.list_state.may_store_start(start);
         }
 
         self.builder.finish_node();
-- 
2.43.0


From 7be88bb65cbf95f0b20149a844bebfc373fb56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 15/58] fix: report \begin or \end as a macro name instead of
 panicking

---
 crates/mitex-lexer/src/macro_engine.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index 764f78f..c8d1a73 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -730,10 +730,13 @@ impl<'a> MacroEngine<'a> {
         let name = if matches!(c, DeclareCmdOrEnv::NewEnvironment { .. }) {
             ctx.peek_word_opt(BraceKind::Curly)?.1
         } else {
-            ctx.peek_cmd_name_opt(BraceKind::Curly)?
-                .1
-                .strip_prefix('\\')
-                .unwrap()
+            let (_, name) = ctx.peek_cmd_name_opt(BraceKind::Curly)?;
+            let Some(name) = name.strip_prefix('\\') else {
+                // a begin or end of environment
+                ctx.push_outer((Token::Error, name));
+                return None;
+            };
+            name
         };
 
         #[derive(Clone, Copy, PartialEq)]
-- 
2.43.0


From 2dc07c8b6892d8df0c3b0539fa6ff11538203448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:59 +0000
Subject: [PATCH 16/58] fix: do not take items of preceding cells for a script
 or an infix command

---
 crates/mitex-parser/src/parser.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index c605650..e41190c 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -316,7 +316,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.list_state = ListState::new(scope);
         self.list_state.store_start(current);
 
-        while self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {
+        while let Some(kind) = self.peek().filter(|kind| !self.stop_by_scope(*kind)) {
             let attachable = self.content(true);
 
             // If the item is not attachable, then we should
@@ -325,6 +325,12 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                 self.list_state.store_last(current);
             }
             current = self.builder.checkpoint();
+
+            // The items in a cell are not available to the succeeding cells
+            if kind == Token::Ampersand || (kind == Token::NewLine && self.inside_env()) {
+                self.list_state.store_start(current);
+                self.list_state.may_store_last(None);
+            }
         }
 
         self.list_state = parent_state;
-- 
2.43.0


From c4a1e42f3cef19c816e821108d2b3c80e5c0ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:02 +0000
Subject: [PATCH 17/58] fix: treat a group of comments only as an empty group

---
 crates/mitex/src/converter.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index f421197..6768176 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -355,7 +355,8 @@ impl Converter {
         let mut zws = true;
         for child in elem.as_node().unwrap().children_with_tokens() {
             match &child.kind() {
-                TokenWhiteSpace | TokenLineBreak | TokenLBrace | TokenRBrace => {}
+                TokenWhiteSpace | TokenLineBreak | TokenLBrace | TokenRBrace | TokenComment
+                | ItemBlockComment => {}
                 _ => {
                     zws = false;
                 }
-- 
2.43.0


From e451421976ac5f0f81361c193d5b6236ad909af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:41 +0000
Subject: [PATCH 18/58] fix: match a prefix of arguments that ends inside of
 braces

---
 crates/mitex-glob/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-glob/src/lib.rs b/crates/mitex-glob/src/lib.rs
index 0721bd7..377b91a 100644
--- a/crates/mitex-glob/src/lib.rs
+++ b/crates/mitex-glob/src/lib.rs
@@ -73,6 +73,11 @@ fn glob_match_internal<'a>(
   }
 
   while state.glob_index < glob.len() || state.path_index < path.len() {
+    // The whole path is matched by the glob until here, also in the middle of braces.
+    if is_prefix && state.path_index == path.len() {
+      return !negated;
+    }
+
     if state.glob_index < glob.len() {
       match glob[state.glob_index] {
         b'*' => {
-- 
2.43.0


From 4dc48b6adeef3a709d9d1e22341661fc036574d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:23 +0000
Subject: [PATCH 19/58] fix: keep the space after an environment that ends in a
 line break

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 6768176..b44279f 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -885,6 +885,7 @@ impl Converter {
 
             self.exit_env(prev);
             self.label = outer_label;
+            self.skip_next_space = false;
 
             return Ok(());
         }
@@ -977,6 +978,9 @@ impl Converter {
             }
         }
 
+        // a line break in the body says nothing about the space after the environment
+        self.skip_next_space = false;
+
         self.exit_label(f, outer_label)
     }
 
-- 
2.43.0


From ae1646a71078104824d6d79b5787589b959607c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:57 +0000
Subject: [PATCH 20/58] fix: what follows a list on the same line is not a part
 of its last item

---
 crates/mitex/src/converter.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index b44279f..bea1e06 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -98,9 +98,30 @@ fn strip_delimiters(text: &str) -> &str {
     text.strip_suffix(['}', ']']).unwrap_or(text).trim()
 }
 
+/// Checks whether there is something on the same line after a list, except for
+/// the next item and the end of groups and environments
+fn is_followed_by_content(tok: &LatexSyntaxToken) -> bool {
+    use LatexSyntaxKind::*;
+
+    let mut next = tok.next_token();
+    while let Some(tok) = next {
+        match tok.kind() {
+            TokenWhiteSpace | TokenRBrace | TokenRBracket => {}
+            TokenLineBreak | TokenComment => return false,
+            _ if tok.text() == "\\item" => return false,
+            _ if tok.parent().is_some_and(|p| p.kind() == ItemEnd) => return false,
+            _ => return true,
+        }
+        next = tok.next_token();
+    }
+
+    false
+}
+
 use mitex_parser::syntax::SyntaxElement as LatexSyntaxElem;
 use mitex_parser::syntax::SyntaxKind as LatexSyntaxKind;
 // use mitex_parser::syntax::SyntaxNode as LatexSyntaxNode;
+use mitex_parser::syntax::SyntaxToken as LatexSyntaxToken;
 
 #[derive(Debug)]
 enum ConvertError {
@@ -867,6 +888,7 @@ impl Converter {
         };
 
         let outer_label = self.label.take();
+        let end_tok = elem.as_node().unwrap().last_token();
 
         // hack for itemize and enumerate
         if matches!(env_kind, LaTeXEnv::Itemize | LaTeXEnv::Enumerate) {
@@ -887,6 +909,15 @@ impl Converter {
             self.label = outer_label;
             self.skip_next_space = false;
 
+            // What follows the list on the same line is not a part of its last item
+            if end_tok.is_some_and(|tok| is_followed_by_content(&tok)) {
+                f.write_char('\n')?;
+                for _ in 0..self.indent {
+                    f.write_char(' ')?;
+                }
+                self.skip_next_space = true;
+            }
+
             return Ok(());
         }
 
-- 
2.43.0


From 3e67fd39ce6f86f163f4b4e63841bcc386581a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 21/58] fix: leave the outermost scope of a map that is not
 empty

---
 crates/mitex-lexer/src/snapshot_map.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-lexer/src/snapshot_map.rs b/crates/mitex-lexer/src/snapshot_map.rs
index 60134a0..4cc0ba2 100644
--- a/crates/mitex-lexer/src/snapshot_map.rs
+++ b/crates/mitex-lexer/src/snapshot_map.rs
@@ -70,14 +70,21 @@ where
         self.undo_log.clear();
     }
 
+    /// Records how to undo a change, which is only possible inside of a snapshot
+    fn record(&mut self, undo: UndoLog<K, V>) {
+        if self.undo_log.num_open_snapshots() > 0 {
+            self.undo_log.push(undo);
+        }
+    }
+
     pub fn insert(&mut self, key: K, value: V) -> bool {
         match self.map.borrow_mut().insert(key.clone(), value) {
             None => {
-                self.undo_log.push(UndoLog::Inserted(key));
+                self.record(UndoLog::Inserted(key));
                 true
             }
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.record(UndoLog::Overwrite(key, old_value));
                 false
             }
         }
@@ -86,7 +93,7 @@ where
     pub fn remove(&mut self, key: K) -> bool {
         match self.map.borrow_mut().remove(&key) {
             Some(old_value) => {
-                self.undo_log.push(UndoLog::Overwrite(key, old_value));
+                self.record(UndoLog::Overwrite(key, old_value));
                 true
             }
             None => false,
-- 
2.43.0


From d36cbd3f3b844d165fda844f903baa1f91088e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:03 +0000
Subject: [PATCH 22/58] fix: a block comment is no argument, no script and no
 base of a script

---
 crates/mitex-parser/src/parser.rs | 35 ++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index e41190c..64d7180 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -249,8 +249,14 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// Lexer Interface
     /// Consume tokens until the next non-trivia token
     fn trivia(&mut self) {
-        while self.peek().as_ref().is_some_and(Token::is_trivia) {
-            self.eat();
+        while let Some(kind) = self.peek() {
+            match kind {
+                Token::CommandName(CommandName::If(IfCommandName::IfFalse)) => {
+                    self.ignore_block_comment()
+                }
+                _ if kind.is_trivia() => self.eat(),
+                _ => break,
+            }
         }
     }
 
@@ -429,7 +435,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.item_group(ParseScope::CmdFormula);
                     return false;
                 }
-                CommandName::If(IfCommandName::IfFalse) => self.block_comment(),
+                CommandName::If(IfCommandName::IfFalse) => {
+                    self.block_comment();
+                    return false;
+                }
                 CommandName::If(IfCommandName::IfTypst) => self.typst_code(),
                 CommandName::If(..) | CommandName::Else | CommandName::EndIf => {
                     return self.command()
@@ -605,6 +614,23 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.builder.finish_node();
     }
 
+    /// Drop a block comment at a place where an argument or a script is
+    /// expected, which it isn't
+    fn ignore_block_comment(&mut self) {
+        let mut nested = 0;
+        while let Some(kind) = self.peek() {
+            self.drop();
+            match kind {
+                Token::CommandName(CommandName::If(..)) => nested += 1,
+                Token::CommandName(CommandName::EndIf) => nested -= 1,
+                _ => {}
+            }
+            if nested == 0 {
+                break;
+            }
+        }
+    }
+
     fn typst_code(&mut self) {
         self.builder.start_node(ItemTypstCode.into());
         self.drop();
@@ -686,6 +712,9 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         self.hold_trivia();
                     }
                 }
+                Token::CommandName(CommandName::If(IfCommandName::IfFalse)) if !GREEDY => {
+                    self.ignore_block_comment();
+                }
                 // Argument matches is stopped on these tokens
                 // However, newline is also a command (with name `\`), hence this is different from
                 // mark and (`&`)
-- 
2.43.0


From 1ce9b813bb80f2b64c7a4b8862e9a2ab2aedd2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:11 +0000
Subject: [PATCH 23/58] fix: a comma as an argument or a script does not take
 the words after it

---
 crates/mitex-parser/src/parser.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 64d7180..0d0fc8a 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -423,7 +423,8 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     self.single_char();
                 }
             }
-            Token::Comma => self.text(),
+            Token::Comma if not_prefer_single_char => self.text(),
+            Token::Comma => self.eat(),
             Token::Dollar => {
                 self.item_group(ParseScope::DollarFormula);
                 return false;
@@ -805,7 +806,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                         // Otherwise, whether it is right does not matter
                         current = Some(self.builder.checkpoint());
                     }
-                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(true));
+                    let attachable = arg::<GREEDY, _, _>(self, |this| this.content(GREEDY));
                     if !k_wrap_args!() && attachable {
                         self.list_state.may_store_last(current);
                     }
-- 
2.43.0


From b0584316804d9512a57715c336a0b521b2663212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 24/58] fix: close the last cell of a table that ends without a
 new line

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index bea1e06..1129ed1 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1239,6 +1239,10 @@ impl Converter {
                 }
             }
         }
+        // the last cell may end without a new line
+        if !exterior {
+            f.write_str("],\n")?;
+        }
         f.write_str(");")?;
         self.exit_env(prev);
         Ok(())
-- 
2.43.0


From 9ccffe295ee7474ba53009122a76c68bc28b9b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:39 +0000
Subject: [PATCH 25/58] fix: escape in text what Typst would read as markup

---
 crates/mitex/src/converter.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 1129ed1..61f5913 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -98,6 +98,27 @@ fn strip_delimiters(text: &str) -> &str {
     text.strip_suffix(['}', ']']).unwrap_or(text).trim()
 }
 
+/// Writes a word of text, escaping what Typst would read as markup
+fn write_markup_word(f: &mut fmt::Formatter<'_>, word: &str) -> fmt::Result {
+    // markers of headings and of lists
+    let is_marker = matches!(word, "-" | "+")
+        || word.chars().all(|c| c == '=')
+        || word
+            .strip_suffix('.')
+            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()));
+    if is_marker {
+        f.write_char('\\')?;
+    }
+    for c in word.chars() {
+        // raw text and labels
+        if matches!(c, '`' | '<') {
+            f.write_char('\\')?;
+        }
+        f.write_char(c)?;
+    }
+    Ok(())
+}
+
 /// Checks whether there is something on the same line after a list, except for
 /// the next item and the end of groups and environments
 fn is_followed_by_content(tok: &LatexSyntaxToken) -> bool {
@@ -198,8 +219,8 @@ impl Converter {
                         f.write_char(' ')?;
                     }
                 } else {
-                    // write the word directly in text mode
-                    f.write_str(elem.as_token().unwrap().text())?;
+                    // write the word in text mode, in which it must not be read as markup
+                    write_markup_word(f, elem.as_token().unwrap().text())?;
                 }
             }
             // do nothing
@@ -269,7 +290,7 @@ impl Converter {
                 if matches!(self.mode, LaTeXMode::Math) {
                     f.write_str("space.nobreak ")?;
                 } else {
-                    f.write_str("\\~")?;
+                    f.write_char('~')?;
                 }
             }
             TokenAmpersand => match self.env {
@@ -766,6 +787,13 @@ impl Converter {
             .ok_or_else(|| format!("unknown command: \\{}", name))?;
         let arg_shape = &cmd_shape.args;
 
+        // escaped characters are themselves in text mode
+        if matches!(self.mode, LaTeXMode::Text)
+            && matches!(name, "$" | "#" | "%" | "&" | "_" | "{" | "}")
+        {
+            return Ok(write!(f, "\\{}", name)?);
+        }
+
         // typst alias name
         let mut typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
 
-- 
2.43.0


From cbcd4498cafd4df760c0f085791fe4dd23fe8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 26/58] fix: translate a control space in text to a space

---
 crates/mitex/src/converter.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 61f5913..0f8e0e7 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -793,6 +793,10 @@ impl Converter {
         {
             return Ok(write!(f, "\\{}", name)?);
         }
+        // and a control space is the space after it
+        if matches!(self.mode, LaTeXMode::Text) && name.is_empty() {
+            return Ok(());
+        }
 
         // typst alias name
         let mut typst_name = cmd_shape.alias.as_deref().unwrap_or(name);
-- 
2.43.0


From bea8c4e9fc62e7f4ab17c18ec55173e031bf4e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:31 +0000
Subject: [PATCH 27/58] fix: keep an empty right side of an infix command

---
 crates/mitex/src/converter.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 0f8e0e7..45c870d 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -857,7 +857,19 @@ impl Converter {
             for arg in args {
                 cnt += 1;
                 let kind = arg.kind();
+                // Typst ignores a trailing empty argument, like that of `{a \over}`
+                let is_empty = matches!(arg_shape, ArgShape::InfixGreedy)
+                    && cnt == args_len
+                    && arg.as_node().is_some_and(|node| {
+                        node.children_with_tokens().all(|child| {
+                            child.kind().is_trivia()
+                                || child.kind() == LatexSyntaxKind::ItemBlockComment
+                        })
+                    });
                 self.convert(f, arg, spec)?;
+                if is_empty {
+                    f.write_str("zws ")?;
+                }
                 if matches!(kind, LatexSyntaxKind::ClauseArgument) && cnt != args_len {
                     f.write_char(',')?;
                 }
-- 
2.43.0


From ba5d546ecff9933f6db16256a513cc8d65cd55ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:13 +0000
Subject: [PATCH 28/58] fix: the document of mitex compile hides none of
 Typst's own names

---
 crates/mitex-cli/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index 1473539..e828b3b 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -114,7 +114,12 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
     alias_set.sort();
     let preludes_str = alias_set
         .into_iter()
-        .map(|alias| format!(r#"#let {alias} = mitex-scope.at("{alias}", default: none);"#))
+        .map(|alias| {
+            // An alias without a handler of mitex is one of Typst's own names
+            format!(
+                r#"#let {alias} = mitex-scope.at("{alias}", default: dictionary(math).at("{alias}", default: dictionary(std).at("{alias}", default: none)));"#
+            )
+        })
         .collect::<Vec<_>>()
         .join("\n");
     std::fs::write(
-- 
2.43.0


From 719a046081df009e9fd165e8405de164e3254ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:26 +0000
Subject: [PATCH 29/58] fix: the document of mitex compile defines the commands
 without an alias

---
 crates/mitex-cli/src/main.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/mitex-cli/src/main.rs b/crates/mitex-cli/src/main.rs
index e828b3b..ac7d458 100644
--- a/crates/mitex-cli/src/main.rs
+++ b/crates/mitex-cli/src/main.rs
@@ -89,18 +89,18 @@ fn compile(input_path: &str, output_path: &str, is_ast: bool) -> Result<(), Erro
     // Insert preludes
     // todo: better way?
     let mut builtin_set = std::collections::HashSet::<&'static str>::new();
-    builtin_set.extend(["and", "or", "in", "not"]);
+    builtin_set.extend([
+        "and", "or", "in", "not", "let", "set", "show", "if", "else", "for", "while", "import",
+        "include", "return", "break", "continue", "context", "as", "none", "auto", "true", "false",
+    ]);
     let mut alias_set = std::collections::HashSet::<Box<str>>::new();
-    for (_, cmd) in spec.items() {
+    for (name, cmd) in spec.items() {
+        // A handler without an alias has the name of the command
         let alias = match cmd {
-            CommandSpecItem::Cmd(CmdShape {
-                alias: Some(alias), ..
-            }) => alias.as_str(),
-            CommandSpecItem::Env(EnvShape {
-                alias: Some(alias), ..
-            }) => alias.as_str(),
-            _ => continue,
+            CommandSpecItem::Cmd(CmdShape { alias, .. })
+            | CommandSpecItem::Env(EnvShape { alias, .. }) => alias.as_deref().unwrap_or(name),
         };
+        let alias = alias.strip_prefix('#').unwrap_or(alias);
         if alias.is_empty() || !alias.chars().all(|c| c.is_ascii_alphanumeric()) {
             continue;
         }
-- 
2.43.0


From f0e66dea0d4cebb63ff3081887823d678143d293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:22 +0000
Subject: [PATCH 30/58] fix: read an empty glob pattern from the binary
 specification

rkyv reads an empty shared str through a null pointer, so a pattern is
archived as a string.
---
 crates/mitex-spec/src/lib.rs | 43 +++++++++++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-spec/src/lib.rs b/crates/mitex-spec/src/lib.rs
index d3ad1aa..e459f6d 100644
--- a/crates/mitex-spec/src/lib.rs
+++ b/crates/mitex-spec/src/lib.rs
@@ -176,13 +176,54 @@ pub mod argument_kind {
 #[derive(Debug, Clone)]
 #[cfg_attr(feature = "rkyv", derive(Archive, rDeser, rSer))]
 #[cfg_attr(feature = "rkyv-validation", archive(check_bytes))]
-pub struct GlobStr(pub Arc<str>);
+pub struct GlobStr(#[cfg_attr(feature = "rkyv", with(glob_str_rkyv_impl::AsString))] pub Arc<str>);
 
 impl From<&str> for GlobStr {
     fn from(s: &str) -> Self {
         Self(s.into())
     }
 }
+
+#[cfg(feature = "rkyv")]
+mod glob_str_rkyv_impl {
+    use std::sync::Arc;
+
+    use rkyv::ser::Serializer;
+    use rkyv::string::{ArchivedString, StringResolver};
+    use rkyv::with::{ArchiveWith, DeserializeWith, SerializeWith};
+    use rkyv::Fallible;
+
+    /// Archives a shared string as a string, since rkyv reads an empty shared
+    /// `str` through a null pointer.
+    pub struct AsString;
+
+    impl ArchiveWith<Arc<str>> for AsString {
+        type Archived = ArchivedString;
+        type Resolver = StringResolver;
+
+        unsafe fn resolve_with(
+            field: &Arc<str>,
+            pos: usize,
+            resolver: Self::Resolver,
+            out: *mut Self::Archived,
+        ) {
+            ArchivedString::resolve_from_str(field, pos, resolver, out);
+        }
+    }
+
+    impl<S: Serializer + ?Sized> SerializeWith<Arc<str>, S> for AsString {
+        fn serialize_with(field: &Arc<str>, s: &mut S) -> Result<Self::Resolver, S::Error> {
+            ArchivedString::serialize_from_str(field, s)
+        }
+    }
+
+    impl<D: Fallible + ?Sized> DeserializeWith<ArchivedString, Arc<str>, D> for AsString {
+        fn deserialize_with(field: &ArchivedString, _: &mut D) -> Result<Arc<str>, D::Error> {
+            Ok(field.as_str().into())
+        }
+    }
+}
+
 #[cfg(feature = "serde")]
 mod glob_str_impl {
 
-- 
2.43.0


From 8418efc65fd14636032a02dfa292eee33833623b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 31/58] fix: keep an exclamation mark out of a script, and a
 root sign a character

Typst reads x_(1)! as a factorial in the script and a lone root sign as
an operator without its operand.
---
 crates/mitex/src/converter.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 45c870d..608ec0a 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -215,6 +215,13 @@ impl Converter {
                     // break up words into individual characters and add a space
                     let text = elem.as_token().unwrap().text().to_string();
                     for prev in text.chars() {
+                        match prev {
+                            // apart, it is not a factorial of the parentheses before it
+                            '!' => f.write_char(' ')?,
+                            // a character, and no operator
+                            '√' | '∛' | '∜' => f.write_char('\\')?,
+                            _ => {}
+                        }
                         f.write_char(prev)?;
                         f.write_char(' ')?;
                     }
-- 
2.43.0


From 62a767c94800364f499f0eb20e8ab8ab3c25c77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:19 +0000
Subject: [PATCH 32/58] fix: escape in text a question mark after a hyphen, and
 a dot after a number in a group

Typst reads them as a soft hyphen and as an item of a list.
---
 crates/mitex/src/converter.rs | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 608ec0a..85a4994 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -98,23 +98,44 @@ fn strip_delimiters(text: &str) -> &str {
     text.strip_suffix(['}', ']']).unwrap_or(text).trim()
 }
 
+/// Checks whether a word is right after a number, up to groups and comments
+fn follows_number(tok: &LatexSyntaxToken) -> bool {
+    use LatexSyntaxKind::*;
+
+    let mut prev = tok.prev_token();
+    while let Some(tok) = prev {
+        match tok.kind() {
+            TokenLBrace | TokenRBrace | TokenComment => prev = tok.prev_token(),
+            TokenWord => return tok.text().chars().all(|c| c.is_ascii_digit()),
+            _ => return false,
+        }
+    }
+
+    false
+}
+
 /// Writes a word of text, escaping what Typst would read as markup
-fn write_markup_word(f: &mut fmt::Formatter<'_>, word: &str) -> fmt::Result {
+fn write_markup_word(f: &mut fmt::Formatter<'_>, tok: &LatexSyntaxToken) -> fmt::Result {
+    let word = tok.text();
     // markers of headings and of lists
     let is_marker = matches!(word, "-" | "+")
         || word.chars().all(|c| c == '=')
         || word
             .strip_suffix('.')
-            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()));
+            .is_some_and(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()))
+        || (word == "." && follows_number(tok));
     if is_marker {
         f.write_char('\\')?;
     }
+    // the start of a word may follow a hyphen of the preceding one
+    let mut prev = '-';
     for c in word.chars() {
-        // raw text and labels
-        if matches!(c, '`' | '<') {
+        // raw text, labels and soft hyphens
+        if matches!(c, '`' | '<') || (prev == '-' && c == '?') {
             f.write_char('\\')?;
         }
         f.write_char(c)?;
+        prev = c;
     }
     Ok(())
 }
@@ -227,7 +248,7 @@ impl Converter {
                     }
                 } else {
                     // write the word in text mode, in which it must not be read as markup
-                    write_markup_word(f, elem.as_token().unwrap().text())?;
+                    write_markup_word(f, elem.as_token().unwrap())?;
                 }
             }
             // do nothing
-- 
2.43.0


From 66c98ff6f056994f29f67dffd754fc16d7542ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:26 +0000
Subject: [PATCH 33/58] fix: take a bracket that a glob pattern doesn't accept
 as a usual term

---
 crates/mitex-parser/src/arg_match.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/arg_match.rs b/crates/mitex-parser/src/arg_match.rs
index cc96df1..62c2044 100644
--- a/crates/mitex-parser/src/arg_match.rs
+++ b/crates/mitex-parser/src/arg_match.rs
@@ -50,7 +50,17 @@ impl ArgMatcher {
             Self::AtMostTerm { .. } => self
                 .try_match(ARGUMENT_KIND_TERM)
                 .then_some(text != ARGUMENT_KIND_TERM),
-            Self::Glob { .. } => self.try_match(text).then_some(false),
+            Self::Glob { ref re, prefix } => {
+                prefix.push(text);
+                if glob_match_prefix(&re.0, prefix) {
+                    return Some(false);
+                }
+
+                // A bracket that the pattern doesn't accept is a usual term
+                prefix.pop();
+                self.try_match(ARGUMENT_KIND_TERM)
+                    .then_some(text != ARGUMENT_KIND_TERM)
+            }
         }
     }
 
-- 
2.43.0


From 8c5d7748cf4201b1f9ed101d7654efc734008a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 34/58] fix: let a comment extend over the end of its line

A comment between two lines of a paragraph split the paragraph, and one at
the end of a line did not keep the next line together with it.
---
 crates/mitex/src/converter.rs | 36 +++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 85a4994..d214324 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -98,6 +98,31 @@ fn strip_delimiters(text: &str) -> &str {
     text.strip_suffix(['}', ']']).unwrap_or(text).trim()
 }
 
+/// Checks whether a token is a comment or a blank that TeX skips with it, i.e.
+/// the end of its line and the start of the next one if that is not empty
+fn is_comment(tok: &LatexSyntaxToken) -> bool {
+    use LatexSyntaxKind::*;
+
+    match tok.kind() {
+        TokenComment => true,
+        TokenWhiteSpace => tok
+            .prev_token()
+            .is_some_and(|prev| prev.kind() == TokenLineBreak && is_comment(&prev)),
+        TokenLineBreak => {
+            let next = match tok.next_token() {
+                Some(next) if next.kind() == TokenWhiteSpace => next.next_token(),
+                next => next,
+            };
+            matches!(tok.text(), "\n" | "\r\n" | "\r")
+                && tok
+                    .prev_token()
+                    .is_some_and(|prev| prev.kind() == TokenComment)
+                && next.map_or(true, |next| next.kind() != TokenLineBreak)
+        }
+        _ => false,
+    }
+}
+
 /// Checks whether a word is right after a number, up to groups and comments
 fn follows_number(tok: &LatexSyntaxToken) -> bool {
     use LatexSyntaxKind::*;
@@ -105,7 +130,8 @@ fn follows_number(tok: &LatexSyntaxToken) -> bool {
     let mut prev = tok.prev_token();
     while let Some(tok) = prev {
         match tok.kind() {
-            TokenLBrace | TokenRBrace | TokenComment => prev = tok.prev_token(),
+            TokenLBrace | TokenRBrace => prev = tok.prev_token(),
+            _ if is_comment(&tok) => prev = tok.prev_token(),
             TokenWord => return tok.text().chars().all(|c| c.is_ascii_digit()),
             _ => return false,
         }
@@ -149,7 +175,8 @@ fn is_followed_by_content(tok: &LatexSyntaxToken) -> bool {
     while let Some(tok) = next {
         match tok.kind() {
             TokenWhiteSpace | TokenRBrace | TokenRBracket => {}
-            TokenLineBreak | TokenComment => return false,
+            _ if is_comment(&tok) => {}
+            TokenLineBreak => return false,
             _ if tok.text() == "\\item" => return false,
             _ if tok.parent().is_some_and(|p| p.kind() == ItemEnd) => return false,
             _ => return true,
@@ -264,6 +291,11 @@ impl Converter {
                 write!(f, "{}", elem.as_token().unwrap().text())?;
             }
             TokenLineBreak => {
+                // a comment extends to the next line
+                if is_comment(elem.as_token().unwrap()) {
+                    self.skip_next_space = true;
+                    return Ok(());
+                }
                 write!(f, "{}", elem.as_token().unwrap().text())?;
                 // indent for itemize and enumerate
                 for _ in 0..self.indent {
-- 
2.43.0


From d2bb052f44bdebc0ba569f7eacb003ec6759ccbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:26 +0000
Subject: [PATCH 35/58] fix: define an environment whose name has a star

---
 crates/mitex-lexer/src/macro_engine.rs |  2 +-
 crates/mitex-lexer/src/stream.rs       | 29 ++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/crates/mitex-lexer/src/macro_engine.rs b/crates/mitex-lexer/src/macro_engine.rs
index c8d1a73..27acc91 100644
--- a/crates/mitex-lexer/src/macro_engine.rs
+++ b/crates/mitex-lexer/src/macro_engine.rs
@@ -728,7 +728,7 @@ impl<'a> MacroEngine<'a> {
         ctx.next_not_trivia();
 
         let name = if matches!(c, DeclareCmdOrEnv::NewEnvironment { .. }) {
-            ctx.peek_word_opt(BraceKind::Curly)?.1
+            ctx.peek_env_name_opt(BraceKind::Curly)?
         } else {
             let (_, name) = ctx.peek_cmd_name_opt(BraceKind::Curly)?;
             let Some(name) = name.strip_prefix('\\') else {
diff --git a/crates/mitex-lexer/src/stream.rs b/crates/mitex-lexer/src/stream.rs
index 1f75098..2d0b512 100644
--- a/crates/mitex-lexer/src/stream.rs
+++ b/crates/mitex-lexer/src/stream.rs
@@ -161,13 +161,34 @@ impl<'a> StreamContext<'a> {
         res
     }
 
-    pub fn peek_word_opt(&mut self, bk: BraceKind) -> Option<Tok<'a>> {
-        let res = self.peek_full().filter(|res| matches!(res.0, Token::Word));
-        self.next_not_trivia()?;
+    /// Peeks the name of an environment, e.g. `align*`. It is made up of more
+    /// than one token if there is a star or an at sign.
+    pub fn peek_env_name_opt(&mut self, bk: BraceKind) -> Option<&'a str> {
+        let is_name =
+            |res: &Tok<'a>| matches!(res.0, Token::Word | Token::AtSign | Token::Asterisk);
+
+        let mut name = self.peek_full().filter(is_name).map(|(_, text)| text);
+        self.next_token();
+        while let Some((_, text)) = self.peek_full().filter(is_name) {
+            name = name.and_then(|name| self.join_adjacent(name, text));
+            self.next_token();
+        }
 
+        self.peek_not_trivia()?;
         self.eat_if(Token::Right(bk));
 
-        res
+        name
+    }
+
+    /// Joins two pieces of the source if the second one follows the first one
+    /// immediately.
+    fn join_adjacent(&self, first: &'a str, second: &'a str) -> Option<&'a str> {
+        let source = self.inner.source();
+        let start = (first.as_ptr() as usize).checked_sub(source.as_ptr() as usize)?;
+        let end = start + first.len() + second.len();
+
+        std::ptr::eq(first.as_bytes().as_ptr_range().end, second.as_ptr())
+            .then(|| source.get(start..end))?
     }
 
     pub fn peek_cmd_name_opt(&mut self, bk: BraceKind) -> Option<Tok<'a>> {
-- 
2.43.0


From 526de4f8b85c36553e58ac7d3d34a1564ac450de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:29 +0000
Subject: [PATCH 36/58] fix: report a \color without an argument instead of
 panicking

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index d214324..8a6ba01 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -716,7 +716,10 @@ impl Converter {
 
         // Parse arguments: (model, color, body)
         let (model, color, body) = if cmd_name == "\\color" {
-            let root = cmd.arguments().next().expect("greedy cmd has args");
+            let root = cmd
+                .arguments()
+                .next()
+                .ok_or_else(|| "\\color command must have one argument".to_owned())?;
             let mut iter = root.children_with_tokens().peekable();
 
             // Skip trivia
-- 
2.43.0


From 0f9987fd9e30d6df1297eef9a0109f2376ae90b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:16 +0000
Subject: [PATCH 37/58] fix: an infix command takes what comes before a style
 command as well

---
 crates/mitex-parser/src/parser.rs | 43 +++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 0d0fc8a..8e121af 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -40,6 +40,11 @@ mod list_state {
         start: Option<Checkpoint>,
         /// The checkpoint of the last item in the list
         last: Option<Checkpoint>,
+        /// Whether there is any item in the list
+        pub has_items: bool,
+        /// Whether an infix command ends the list, to take the items before it
+        /// as well
+        pub yields_infix: bool,
         /// The current scope
         pub scope: ParseScope,
     }
@@ -49,6 +54,8 @@ mod list_state {
             Self {
                 start: None,
                 last: None,
+                has_items: false,
+                yields_infix: false,
                 scope: ParseScope::Root,
             }
         }
@@ -104,6 +111,12 @@ mod list_state {
 }
 use list_state::ListState;
 
+/// Check if a token starts an item, i.e. it is neither trivia nor a block
+/// comment
+fn is_item(kind: Token) -> bool {
+    !kind.is_trivia() && kind != Token::CommandName(CommandName::If(IfCommandName::IfFalse))
+}
+
 /// The mutable parser that parse the input text into a syntax tree
 #[derive(Debug)]
 pub struct Parser<'a, S: TokenStream<'a> = ()> {
@@ -324,6 +337,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
 
         while let Some(kind) = self.peek().filter(|kind| !self.stop_by_scope(*kind)) {
             let attachable = self.content(true);
+            self.list_state.has_items |= is_item(kind);
 
             // If the item is not attachable, then we should
             // not update the `list_last` state
@@ -336,6 +350,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             if kind == Token::Ampersand || (kind == Token::NewLine && self.inside_env()) {
                 self.list_state.store_start(current);
                 self.list_state.may_store_last(None);
+                self.list_state.has_items = false;
             }
         }
 
@@ -496,6 +511,17 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         }
     }
 
+    /// Parsing Helper
+    /// Check if the next token, which is of the given kind, is an infix command
+    fn is_infix(&self, kind: Token) -> bool {
+        matches!(kind, Token::CommandName(CommandName::Generic))
+            && self
+                .lexer
+                .peek_text()
+                .and_then(|name| self.spec.get_cmd(name.strip_prefix('\\')?))
+                .is_some_and(|cmd| matches!(cmd.args, ArgShape::InfixGreedy))
+    }
+
     /// Item parsers
     /// Parse a command
     fn command(&mut self) -> bool {
@@ -704,6 +730,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             None
         };
         while let Some(kind) = self.peek() {
+            if self.list_state.yields_infix && self.is_infix(kind) {
+                return;
+            }
+
             match kind {
                 // trivials
                 Token::LineBreak | Token::Whitespace | Token::LineComment => {
@@ -812,6 +842,8 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     }
                 }
             }
+
+            self.list_state.has_items |= is_item(kind);
         }
     }
 
@@ -820,11 +852,22 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         self.list_state.may_store_last(None);
         let last = self.list_last();
         let start = self.list_start();
+        let ListState {
+            has_items,
+            yields_infix,
+            ..
+        } = self.list_state;
         self.list_state
             .may_store_start(GREEDY.then(|| self.builder.checkpoint()));
+        self.list_state.has_items = false;
 
+        // An infix command takes the items before a greedy command as well,
+        // e.g. `a \displaystyle b \over c`
+        self.list_state.yields_infix = GREEDY && start.is_some() && (has_items || yields_infix);
         self.match_arguments_::<GREEDY>(searcher);
 
+        self.list_state.has_items = has_items;
+        self.list_state.yields_infix = yields_infix;
         self.list_state.may_store_start(start);
         self.list_state.may_store_last(last);
     }
-- 
2.43.0


From dbc2c79072502db7db41b908f624457e984ad6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:19 +0000
Subject: [PATCH 38/58] fix: the color of a style command is no part of what it
 applies to

---
 crates/mitex-parser/src/parser.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 8e121af..003aa8e 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -559,15 +559,16 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         };
         let searcher = self.arg_matchers.start_match(right_pat);
         let is_greedy = searcher.is_greedy();
+        let takes_color = cmd_name == "color";
 
         self.eat();
 
         if is_greedy {
             self.builder.start_node(ClauseArgument.into());
-            self.match_arguments::<true>(searcher);
+            self.match_arguments::<true>(searcher, takes_color);
             self.builder.finish_node();
         } else {
-            self.match_arguments::<false>(searcher);
+            self.match_arguments::<false>(searcher, false);
         }
 
         self.builder.finish_node();
@@ -597,7 +598,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             let searcher = right_pat.map(|right_pat| self.arg_matchers.start_match(right_pat));
 
             if let Some(searcher) = searcher {
-                self.match_arguments::<false>(searcher);
+                self.match_arguments::<false>(searcher, false);
             }
 
             self.builder.finish_node();
@@ -698,7 +699,11 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     /// - Parenthesis/p: ()
     /// - Term/t: any rest of terms, typically {} or single char
     #[inline]
-    fn match_arguments_<const GREEDY: bool>(&mut self, mut searcher: ArgMatcher) {
+    fn match_arguments_<const GREEDY: bool>(
+        &mut self,
+        mut searcher: ArgMatcher,
+        mut takes_color: bool,
+    ) {
         assert!((GREEDY == searcher.is_greedy()), "GREEDY mismatched");
 
         // const WRAP_ARGS = !GREEDY
@@ -824,6 +829,16 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
                     if !k_wrap_args!() {
                         self.list_state.may_store_last(current);
                     }
+
+                    // The color is not an item of the list
+                    if takes_color && bk == BraceKind::Curly {
+                        takes_color = false;
+                        let start = self.builder.checkpoint();
+                        self.list_state.store_start(start);
+                        self.list_state.may_store_last(None);
+                        self.list_state.has_items = false;
+                        continue;
+                    }
                 }
                 // rest of any item
                 kind => {
@@ -848,7 +863,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
     }
 
     #[inline]
-    fn match_arguments<const GREEDY: bool>(&mut self, searcher: ArgMatcher) {
+    fn match_arguments<const GREEDY: bool>(&mut self, searcher: ArgMatcher, takes_color: bool) {
         self.list_state.may_store_last(None);
         let last = self.list_last();
         let start = self.list_start();
@@ -864,7 +879,7 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
         // An infix command takes the items before a greedy command as well,
         // e.g. `a \displaystyle b \over c`
         self.list_state.yields_infix = GREEDY && start.is_some() && (has_items || yields_infix);
-        self.match_arguments_::<GREEDY>(searcher);
+        self.match_arguments_::<GREEDY>(searcher, takes_color);
 
         self.list_state.has_items = has_items;
         self.list_state.yields_infix = yields_infix;
-- 
2.43.0


From af27927836ec09a1041deca15964eb15f8ab0266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:22 +0000
Subject: [PATCH 39/58] fix: a command as a script does not take the base from
 the other script

---
 crates/mitex-parser/src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 003aa8e..8f0dd5c 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -908,7 +908,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             self.trivia();
             // the items before the script are not available to an infix command in it
             let start = self.list_state.take_start();
+            // the base is still available to the other script
+            let last = self.list_last();
             self.content(false);
+            self.list_state.may_store_last(last);
             self.list_state.may_store_start(start);
         }
 
-- 
2.43.0


From 124ae7f1e824583c159f1c72b1d752b25ac23f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 40/58] fix: spaces in the column specification of a tabular
 mean nothing

---
 crates/mitex/src/converter.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 8a6ba01..752c957 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1242,6 +1242,8 @@ impl Converter {
                 '|' => {
                     vlines.push(index);
                 }
+                // spaces between the columns mean nothing
+                ch if ch.is_whitespace() => {}
                 _ => {
                     // unknown character
                     Err(format!("unknown alignment: {}", ch))?;
-- 
2.43.0


From 48730681bd2aeaef76f391a9184773f206c646b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 41/58] fix: a comment in a tabular does not begin a cell

---
 crates/mitex/src/converter.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 752c957..6f81661 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1287,7 +1287,10 @@ impl Converter {
             // preprocess if exterior
             if exterior {
                 match child.kind() {
-                    LatexSyntaxKind::TokenWhiteSpace | LatexSyntaxKind::TokenLineBreak => {}
+                    LatexSyntaxKind::TokenWhiteSpace
+                    | LatexSyntaxKind::TokenLineBreak
+                    | LatexSyntaxKind::TokenComment
+                    | LatexSyntaxKind::ItemBlockComment => {}
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
-- 
2.43.0


From db5bb20c50b4117af8b55c57a6f1b7a3bdeac420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:16 +0000
Subject: [PATCH 42/58] fix: a row of a tabular with less cells than columns
 takes none of the next row

---
 crates/mitex/src/converter.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 6f81661..d496247 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1261,6 +1261,7 @@ impl Converter {
         f.write_str(format!("columns: {},\n", alignments.len()).as_str())?;
         // align: (left, center, right, ),
         f.write_str("align: (")?;
+        let columns = alignments.len();
         for align in alignments {
             match align {
                 'l' => f.write_str("left, ")?,
@@ -1276,6 +1277,8 @@ impl Converter {
         }
         f.write_str("\n")?;
         let mut exterior = true;
+        // the number of finished cells in the current row
+        let mut cells = 0;
         for child in elem.as_node().unwrap().children_with_tokens() {
             // skip \begin and \end commands
             if matches!(
@@ -1294,10 +1297,15 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` for empty exterior when encountering &
                         f.write_str("[], ")?;
+                        cells += 1;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` for empty exterior when encountering //
-                        f.write_str("[],\n")?;
+                        f.write_str("[],")?;
+                        // the row may have less cells than the table has columns
+                        f.write_str(&" [],".repeat(columns.saturating_sub(cells + 1)))?;
+                        f.write_char('\n')?;
+                        cells = 0;
                     }
                     LatexSyntaxKind::ItemCmd => {
                         let cmd_name = CmdItem::cast(child.as_node().unwrap().clone())
@@ -1338,11 +1346,15 @@ impl Converter {
                     LatexSyntaxKind::TokenAmpersand => {
                         // write `[],` when encountering &
                         f.write_str("], ")?;
+                        cells += 1;
                         exterior = true;
                     }
                     LatexSyntaxKind::ItemNewLine => {
                         // write `[],\n` when encountering //
-                        f.write_str("],\n")?;
+                        f.write_str("],")?;
+                        f.write_str(&" [],".repeat(columns.saturating_sub(cells + 1)))?;
+                        f.write_char('\n')?;
+                        cells = 0;
                         exterior = true;
                     }
                     _ => {
-- 
2.43.0


From ace1123e32a3656a52b2a9898860bcf063c02a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:38 +0000
Subject: [PATCH 43/58] fix: the cells of a tabular in a formula are text

---
 crates/mitex/src/converter.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index d496247..bdbf850 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -1252,6 +1252,8 @@ impl Converter {
         }
         // convert to #figure
         let prev = self.enter_env(env_kind);
+        // the cells are text, even if the table is in a formula
+        let prev_mode = self.enter_mode(LaTeXMode::Text);
         f.write_char('#')?;
         f.write_str(typst_name)?;
         f.write_char('(')?;
@@ -1368,6 +1370,7 @@ impl Converter {
             f.write_str("],\n")?;
         }
         f.write_str(");")?;
+        self.exit_mode(prev_mode);
         self.exit_env(prev);
         Ok(())
     }
-- 
2.43.0


From e28dcecbaf95d02431adcf40190c867f25d178dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:16 +0000
Subject: [PATCH 44/58] fix: a line of nothing but braces is no empty line

---
 crates/mitex/src/converter.rs | 47 ++++++++++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index bdbf850..0cdd9c8 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -109,20 +109,49 @@ fn is_comment(tok: &LatexSyntaxToken) -> bool {
             .prev_token()
             .is_some_and(|prev| prev.kind() == TokenLineBreak && is_comment(&prev)),
         TokenLineBreak => {
-            let next = match tok.next_token() {
-                Some(next) if next.kind() == TokenWhiteSpace => next.next_token(),
-                next => next,
-            };
-            matches!(tok.text(), "\n" | "\r\n" | "\r")
+            is_single_line_break(tok)
                 && tok
                     .prev_token()
                     .is_some_and(|prev| prev.kind() == TokenComment)
-                && next.map_or(true, |next| next.kind() != TokenLineBreak)
         }
         _ => false,
     }
 }
 
+/// Checks whether a line break is not followed by an empty line
+fn is_single_line_break(tok: &LatexSyntaxToken) -> bool {
+    use LatexSyntaxKind::*;
+
+    let next = match tok.next_token() {
+        Some(next) if next.kind() == TokenWhiteSpace => next.next_token(),
+        next => next,
+    };
+    matches!(tok.text(), "\n" | "\r\n" | "\r")
+        && next.map_or(true, |next| next.kind() != TokenLineBreak)
+}
+
+/// Checks whether a single line break ends a line of nothing but braces
+fn ends_braces(tok: &LatexSyntaxToken) -> bool {
+    use LatexSyntaxKind::*;
+
+    if !is_single_line_break(tok) {
+        return false;
+    }
+    let mut braces = false;
+    let mut prev = tok.prev_token();
+    while let Some(tok) = prev {
+        match tok.kind() {
+            TokenLBrace | TokenRBrace => braces = true,
+            TokenWhiteSpace => {}
+            _ if is_comment(&tok) => {}
+            kind => return braces && kind == TokenLineBreak,
+        }
+        prev = tok.prev_token();
+    }
+
+    false
+}
+
 /// Checks whether a word is right after a number, up to groups and comments
 fn follows_number(tok: &LatexSyntaxToken) -> bool {
     use LatexSyntaxKind::*;
@@ -296,6 +325,12 @@ impl Converter {
                     self.skip_next_space = true;
                     return Ok(());
                 }
+                // a line of nothing but braces is no empty line
+                if matches!(self.mode, LaTeXMode::Text) && ends_braces(elem.as_token().unwrap()) {
+                    f.write_char(' ')?;
+                    self.skip_next_space = true;
+                    return Ok(());
+                }
                 write!(f, "{}", elem.as_token().unwrap().text())?;
                 // indent for itemize and enumerate
                 for _ in 0..self.indent {
-- 
2.43.0


From 77bcd45a8ccc3a4c9775ce2834f869163b262dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:09 +0000
Subject: [PATCH 45/58] fix: a label may have characters that Typst's label
 syntax does not have

---
 crates/mitex/src/converter.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 0cdd9c8..9b2aeb1 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -195,6 +195,23 @@ fn write_markup_word(f: &mut fmt::Formatter<'_>, tok: &LatexSyntaxToken) -> fmt:
     Ok(())
 }
 
+/// Writes a label, which may have characters that `<label>` cannot
+fn write_label(f: &mut fmt::Formatter<'_>, key: &str) -> fmt::Result {
+    let is_plain = |c: char| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | ':' | '.');
+    if key.chars().all(is_plain) && !key.starts_with([':', '.']) {
+        write!(f, "<{key}>")
+    } else {
+        write!(f, "#label(")?;
+        write_string(f, key)?;
+        write!(f, ");")
+    }
+}
+
+/// Writes a string literal
+fn write_string(f: &mut fmt::Formatter<'_>, text: &str) -> fmt::Result {
+    write!(f, "\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
+}
+
 /// Checks whether there is something on the same line after a list, except for
 /// the next item and the end of groups and environments
 fn is_followed_by_content(tok: &LatexSyntaxToken) -> bool {
@@ -649,9 +666,7 @@ impl Converter {
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
                 if matches!(self.mode, LaTeXMode::Text) {
-                    f.write_char('<')?;
-                    f.write_str(label)?;
-                    f.write_char('>')?;
+                    write_label(f, label)?;
                 }
             }
             _ => {
@@ -1167,10 +1182,7 @@ impl Converter {
         // handle label, only add <label> for text mode
         if matches!(self.mode, LaTeXMode::Text) {
             if let Some(label) = self.label.take() {
-                f.write_char('<')?;
-                f.write_str(label.as_str())?;
-                f.write_char('>')?;
-                self.label = None;
+                write_label(f, &label)?;
             }
         }
         self.label = self.label.take().or(outer_label);
-- 
2.43.0


From ae6a4c8f63ca0803e8d1eaac2efec836f1936a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:59 +0000
Subject: [PATCH 46/58] fix: the key of a reference is not read as markup

---
 crates/mitex/src/converter.rs | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 9b2aeb1..7fe0703 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -207,6 +207,26 @@ fn write_label(f: &mut fmt::Formatter<'_>, key: &str) -> fmt::Result {
     }
 }
 
+/// The key of a reference, if it would not be the same when read as markup
+fn key_as_string(typst_name: &str, arg: &LatexSyntaxElem) -> Option<String> {
+    if !matches!(typst_name, "#mitexref" | "#mitexcite") {
+        return None;
+    }
+    let text = arg.as_node()?.text().to_string();
+    let key = strip_delimiters(&text);
+    let is_literal = !key.contains(['\\', '{', '}', '$', '%', '~']);
+    // quotes, dashes, minus signs, soft hyphens and dots
+    let is_markup = key.contains([' ', '\'', '"'])
+        || key.contains("-?")
+        || key.contains("...")
+        || key
+            .split('-')
+            .rev()
+            .skip(1)
+            .any(|s| !s.ends_with(char::is_alphanumeric));
+    (is_literal && is_markup).then(|| key.to_string())
+}
+
 /// Writes a string literal
 fn write_string(f: &mut fmt::Formatter<'_>, text: &str) -> fmt::Result {
     write!(f, "\"{}\"", text.replace('\\', "\\\\").replace('"', "\\\""))
@@ -995,9 +1015,17 @@ impl Converter {
                 let kind = arg.kind();
                 if matches!(kind, LatexSyntaxKind::ClauseArgument) {
                     f.write_char('[')?;
-                    let prev_mode = self.enter_mode(LaTeXMode::Text);
-                    self.convert(f, arg, spec)?;
-                    self.exit_mode(prev_mode);
+                    match key_as_string(typst_name, &arg) {
+                        Some(key) => {
+                            f.write_char('#')?;
+                            write_string(f, &key)?;
+                        }
+                        None => {
+                            let prev_mode = self.enter_mode(LaTeXMode::Text);
+                            self.convert(f, arg, spec)?;
+                            self.exit_mode(prev_mode);
+                        }
+                    }
                     f.write_char(']')?;
                 }
             }
-- 
2.43.0


From d1d24a2d4855858f9eab632adb9d1cc4873b159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:44 +0000
Subject: [PATCH 47/58] fix: the end of a group is not the script of an
 underscore before it

`\label{a_}` and `\ref{a_}` were rejected, or the label swallowed the end of
its environment.
---
 crates/mitex-parser/src/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/mitex-parser/src/parser.rs b/crates/mitex-parser/src/parser.rs
index 8f0dd5c..fb352c5 100644
--- a/crates/mitex-parser/src/parser.rs
+++ b/crates/mitex-parser/src/parser.rs
@@ -910,7 +910,10 @@ impl<'a, S: TokenStream<'a>> Parser<'a, S> {
             let start = self.list_state.take_start();
             // the base is still available to the other script
             let last = self.list_last();
-            self.content(false);
+            // what ends the scope is not a script, e.g. `\label{a_}`
+            if self.peek().is_some_and(|kind| !self.stop_by_scope(kind)) {
+                self.content(false);
+            }
             self.list_state.may_store_last(last);
             self.list_state.may_store_start(start);
         }
-- 
2.43.0


From 132d1d091da33dcdf1641b43182cd908585277bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:24 +0000
Subject: [PATCH 48/58] fix: the end of an inner formula does not end the one
 around it

---
 crates/mitex-parser/src/syntax.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex-parser/src/syntax.rs b/crates/mitex-parser/src/syntax.rs
index 445c768..4272418 100644
--- a/crates/mitex-parser/src/syntax.rs
+++ b/crates/mitex-parser/src/syntax.rs
@@ -255,6 +255,11 @@ impl FormulaItem {
 
     /// Checks whether the formula is valid
     pub fn is_valid(&self) -> bool {
+        // The end of another formula inside does not end this one
+        let last = self.syntax().last_child_or_token();
+        if last.is_some_and(|last| last.into_node().is_some()) {
+            return false;
+        }
         self.syntax().first_token().is_some_and(|first_node| {
             self.syntax().last_token().is_some_and(|last_node| {
                 if first_node.kind() == TokenDollar && last_node.kind() == TokenDollar {
-- 
2.43.0


From fbe783c1ed5976d99a3745028ae7397aa87b2b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:05 +0000
Subject: [PATCH 49/58] fix: the width of an image may be \textwidth,
 \linewidth or a length with blanks

\includegraphics[width=\textwidth]{a} was translated to
image(width:  * 100%, ..), which Typst rejects.
---
 crates/mitex/src/converter.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index 7fe0703..b585159 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -744,16 +744,21 @@ impl Converter {
                     f.write_str(key)?;
                     f.write_char(':')?;
                     f.write_char(' ')?;
-                    if value.ends_with("\\textwidth") {
-                        let value = value.trim_end_matches("\\textwidth");
-                        f.write_str(value)?;
-                        f.write_str(" * 100%")?;
-                    } else if value.ends_with("\\textheight") {
-                        let value = value.trim_end_matches("\\textheight");
-                        f.write_str(value)?;
-                        f.write_str(" * 100%")?;
-                    } else {
-                        f.write_str(value)?;
+                    let value = value.replace(char::is_whitespace, "");
+                    // a multiple of a length that is `100%` in Typst
+                    let factor = [
+                        "\\textwidth",
+                        "\\linewidth",
+                        "\\columnwidth",
+                        "\\hsize",
+                        "\\textheight",
+                    ]
+                    .iter()
+                    .find_map(|length| value.strip_suffix(length));
+                    match factor {
+                        Some("") => f.write_str("100%")?,
+                        Some(factor) => write!(f, "{factor} * 100%")?,
+                        None => f.write_str(&value)?,
                     }
                     f.write_char(',')?;
                     f.write_char(' ')?;
-- 
2.43.0


From bc5710bdef961f909059b62c16f1d27c8457db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:39 +0000
Subject: [PATCH 50/58] fix: comments and quotes in the arguments of
 \includegraphics

The options after a comment were lost, and a quote in the path ended the
string that it is written as.
---
 crates/mitex/src/converter.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index b585159..ac18c62 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -118,6 +118,15 @@ fn is_comment(tok: &LatexSyntaxToken) -> bool {
     }
 }
 
+/// The text of an argument without its comments
+fn text_without_comments(arg: &LatexSyntaxNode) -> String {
+    arg.descendants_with_tokens()
+        .filter_map(LatexSyntaxElem::into_token)
+        .filter(|tok| !is_comment(tok))
+        .map(|tok| tok.text().to_string())
+        .collect()
+}
+
 /// Checks whether a line break is not followed by an empty line
 fn is_single_line_break(tok: &LatexSyntaxToken) -> bool {
     use LatexSyntaxKind::*;
@@ -255,7 +264,7 @@ fn is_followed_by_content(tok: &LatexSyntaxToken) -> bool {
 
 use mitex_parser::syntax::SyntaxElement as LatexSyntaxElem;
 use mitex_parser::syntax::SyntaxKind as LatexSyntaxKind;
-// use mitex_parser::syntax::SyntaxNode as LatexSyntaxNode;
+use mitex_parser::syntax::SyntaxNode as LatexSyntaxNode;
 use mitex_parser::syntax::SyntaxToken as LatexSyntaxToken;
 
 #[derive(Debug)]
@@ -718,12 +727,12 @@ impl Converter {
             })
             .ok_or_else(|| "\\includegraphics command must have one argument".to_owned())?;
         // remove { and } then trim
-        let body = arg.text().to_string();
+        let body = text_without_comments(&arg);
         let body = strip_delimiters(&body);
         f.write_str("#image(")?;
         // optional arguments
         if let Some(opt_arg) = opt_arg {
-            let arg_text = opt_arg.text().to_string();
+            let arg_text = text_without_comments(&opt_arg);
             let arg_text = strip_delimiters(&arg_text);
             // example: \includegraphics[width=0.5\textwidth, height=3cm,
             // angle=45]{example-image} split by comma and convert
@@ -766,9 +775,7 @@ impl Converter {
             }
         }
         // image path
-        f.write_char('"')?;
-        f.write_str(body)?;
-        f.write_char('"')?;
+        write_string(f, body)?;
         f.write_char(')')?;
         Ok(())
     }
-- 
2.43.0


From c5f6f6f748d595a16e11267c166de8047de08bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:17 +0000
Subject: [PATCH 51/58] fix: a dot after an image is not the access to a field

\includegraphics{a}.b was translated to #image("a").b
---
 crates/mitex/src/converter.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index ac18c62..fecba52 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -777,6 +777,11 @@ impl Converter {
         // image path
         write_string(f, body)?;
         f.write_char(')')?;
+        // a dot that follows is not read as the access to a field
+        let next = cmd.syntax().last_token().and_then(|tok| tok.next_token());
+        if next.is_some_and(|tok| !tok.text().starts_with(char::is_whitespace)) {
+            f.write_char(';')?;
+        }
         Ok(())
     }
 
-- 
2.43.0


From 54a4aa6ceddeafa70f62f107298f25cf7147a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:55 +0000
Subject: [PATCH 52/58] fix: comments in labels, column specifications and
 colour models are left out

\label{%<newline>x} made a label that \ref{x} did not find, and a comment
in the columns of a tabular was taken for columns.
---
 crates/mitex/src/converter.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/mitex/src/converter.rs b/crates/mitex/src/converter.rs
index fecba52..6a7b2b8 100644
--- a/crates/mitex/src/converter.rs
+++ b/crates/mitex/src/converter.rs
@@ -221,7 +221,7 @@ fn key_as_string(typst_name: &str, arg: &LatexSyntaxElem) -> Option<String> {
     if !matches!(typst_name, "#mitexref" | "#mitexcite") {
         return None;
     }
-    let text = arg.as_node()?.text().to_string();
+    let text = text_without_comments(arg.as_node()?);
     let key = strip_delimiters(&text);
     let is_literal = !key.contains(['\\', '{', '}', '$', '%', '~']);
     // quotes, dashes, minus signs, soft hyphens and dots
@@ -690,7 +690,7 @@ impl Converter {
             .next()
             .ok_or_else(|| "\\label command must have one argument".to_owned())?;
         // remove { and } then trim
-        let label = arg.text().to_string();
+        let label = text_without_comments(&arg);
         let label = strip_delimiters(&label);
         match self.env {
             LaTeXEnv::None | LaTeXEnv::Itemize | LaTeXEnv::Enumerate => {
@@ -830,7 +830,8 @@ impl Converter {
                         break;
                     }
                     match e {
-                        LatexSyntaxElem::Node(n) => s.push_str(&n.text().to_string()),
+                        LatexSyntaxElem::Node(n) => s.push_str(&text_without_comments(&n)),
+                        LatexSyntaxElem::Token(t) if is_comment(&t) => {}
                         LatexSyntaxElem::Token(t) => s.push_str(t.text()),
                     }
                 }
@@ -856,7 +857,7 @@ impl Converter {
             });
 
             if is_model {
-                let text = first.unwrap().text().to_string();
+                let text = text_without_comments(&first.unwrap());
                 // Remove brackets safely
                 let model = text.get(1..text.len() - 1).map(String::from);
                 (
@@ -1318,7 +1319,7 @@ impl Converter {
             .arguments()
             .next()
             .ok_or_else(|| "tabular environment must have one argument".to_owned())?;
-        let arg = arg.text().to_string();
+        let arg = text_without_comments(&arg);
         // remove { and } then trim
         let arg = strip_delimiters(&arg);
         // split arg to get alignments and vertical lines
-- 
2.43.0


From f195fed1bb61fc47f88a5af0c96524e4e4a1bfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 53/58] fix: all pages that are gone are removed from a canvas
 preview

The children of the document are a live collection, so that removing a page skipped the next one.
---
 packages/typst-dom/src/typst-doc.mts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 9ef09e7..37451eb 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -848,7 +848,8 @@ class TypstDocumentImpl {
     if (this.isMixinOutline && this.outline) {
       console.log("render with outline", this.outline);
       patchOutlineEntry(docDiv as any, pagesInfo, this.outline.items);
-      for (const ch of docDiv.children) {
+      // the collection is live, and pages are removed from it
+      for (const ch of Array.from(docDiv.children)) {
         if (!ch.classList.contains("typst-page")) {
           continue;
         }
@@ -864,7 +865,8 @@ class TypstDocumentImpl {
         pagesInfo[pageNumber].elem = ch.firstElementChild as HTMLDivElement;
       }
     } else {
-      for (const ch of docDiv.children) {
+      // the collection is live, and pages are removed from it
+      for (const ch of Array.from(docDiv.children)) {
         if (!ch.classList.contains("typst-page")) {
           continue;
         }
-- 
2.43.0


From 25ef661483af5df9de3641172e7c306cd75e7303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 54/58] fix: a canvas page gets its new height if the scale
 stays the same

---
 packages/typst-dom/src/typst-doc.mts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 37451eb..369c8d1 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -372,12 +372,18 @@ class TypstDocumentImpl {
       // apply scale
       const appliedScale = (scale / this.pixelPerPt).toString();
 
-      // set data applied width and height to memoize change
-      if (elem.getAttribute("data-applied-scale") !== appliedScale) {
+      // apply translate
+      const scaledWidth = Math.ceil(canvasWidth * scale);
+      const scaledHeight = Math.ceil(canvasHeight * scale);
+      const appliedSize = `${scaledWidth},${scaledHeight}`;
+
+      // set data applied scale and size to memoize change
+      if (
+        elem.getAttribute("data-applied-scale") !== appliedScale ||
+        elem.getAttribute("data-applied-size") !== appliedSize
+      ) {
         elem.setAttribute("data-applied-scale", appliedScale);
-        // apply translate
-        const scaledWidth = Math.ceil(canvasWidth * scale);
-        const scaledHeight = Math.ceil(canvasHeight * scale);
+        elem.setAttribute("data-applied-size", appliedSize);
 
         elem.style.width = `${scaledWidth}px`;
         elem.style.height = `${scaledHeight}px`;
-- 
2.43.0


From f0b9cb80ba1543c4cb4d15791f1c970f95dfc1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 55/58] fix: a canvas that fails to be drawn does not block all
 later updates

---
 packages/typst-dom/src/typst-doc.mts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 369c8d1..2e2e4b2 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -903,8 +903,11 @@ class TypstDocumentImpl {
       throw new Error("rendering in progress, possibly a race condition");
     }
     docDiv.setAttribute("data-rendering", "true");
-    await this.updateCanvas(pagesInfo);
-    docDiv.removeAttribute("data-rendering");
+    try {
+      await this.updateCanvas(pagesInfo);
+    } finally {
+      docDiv.removeAttribute("data-rendering");
+    }
     // }));
 
     const t3 = performance.now();
-- 
2.43.0


From d00ad3f26a432563ff8387c2210d0c92b0f92986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 56/58] fix: an update does not wait for ever for a canvas that
 fails to be drawn

---
 packages/typst-dom/src/typst-doc.mts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/typst-dom/src/typst-doc.mts b/packages/typst-dom/src/typst-doc.mts
index 2e2e4b2..c9485f3 100644
--- a/packages/typst-dom/src/typst-doc.mts
+++ b/packages/typst-dom/src/typst-doc.mts
@@ -738,6 +738,8 @@ class TypstDocumentImpl {
       );
       const tok = (this.canvasRenderCToken = new TypstCancellationToken());
       this.updateCanvas(pagesInCanvasMode, tok).finally(() => {
+        // do not let an update wait for a rendering that has failed
+        void tok.consume();
         if (tok === this.canvasRenderCToken) {
           this.canvasRenderCToken = undefined;
         }
-- 
2.43.0


From 5d87df726d60ff4b1864f1b06b3d03e2a6452f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 57/58] fix: the page renders if the converter is loaded before
 the compiler

---
 packages/mitex-web/src/main.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/mitex-web/src/main.ts b/packages/mitex-web/src/main.ts
index 15b7232..b30cb04 100644
--- a/packages/mitex-web/src/main.ts
+++ b/packages/mitex-web/src/main.ts
@@ -20,6 +20,8 @@ const App = () => {
   let compilerLoaded = van.state(false);
   let fontLoaded = van.state(false);
   window.$typst$script.then(async () => {
+    // the script may have been loaded after this module
+    $typst = window.$typst;
     compilerLoaded.val = true;
     await $typst.svg({ mainContent: "" });
     fontLoaded.val = true;
-- 
2.43.0


From 0ab74c0859f91d3ad5f09191a306c2ced0b57d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:35 +0000
Subject: [PATCH 58/58] fix: a backtick in the output does not end the code to
 render and copy

---
 packages/mitex-web/src/main.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/mitex-web/src/main.ts b/packages/mitex-web/src/main.ts
index b30cb04..2c656ac 100644
--- a/packages/mitex-web/src/main.ts
+++ b/packages/mitex-web/src/main.ts
@@ -9,6 +9,9 @@ let $typst = window.$typst;
 const isDarkMode = () =>
   window.matchMedia?.("(prefers-color-scheme: dark)").matches;
 
+/// Quotes a string in Typst code, whatever it contains
+const typstString = (s: string) => `"${s.replace(/[\\"]/g, "\\$&")}"`;
+
 const App = () => {
   /// Default source code
   const srcDefault = `\\newcommand{\\f}[2]{#1f(#2)}
@@ -64,7 +67,7 @@ const App = () => {
         #set page(width: auto, height: auto, margin: 1em);
         #set text(size: 24pt);
         ${darkModeStyle.val}
-        #math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)
+        #math.equation(eval("$" + ${typstString(output.val)} + "$", mode: "markup", scope: mitex-scope), block: true)
         `,
         });
       } else {
@@ -124,14 +127,14 @@ const App = () => {
       "Copy with template",
       van.derive(
         () =>
-          `#math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)`
+          `#math.equation(eval("$" + ${typstString(output.val)} + "$", mode: "markup", scope: mitex-scope), block: true)`
       )
     ),
     CopyButton(
       "Copy with template and imports",
       van.derive(
         () => `#import "@preview/mitex:0.2.7": *\n
-#math.equation(eval("$" + \`${output.val}\`.text + "$", mode: "markup", scope: mitex-scope), block: true)`
+#math.equation(eval("$" + ${typstString(output.val)} + "$", mode: "markup", scope: mitex-scope), block: true)`
       )
     ),
     Preview(output),
-- 
2.43.0

