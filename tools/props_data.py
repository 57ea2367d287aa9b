CLAIMED = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39"]
TECH = {}
NA = {}
p("C01", "Conversion is total: every input ends in a result or an error message",
  "Converting any source text, in text or math mode, with or without macro expansion, and parsing it, always returns: a result, or an error with a non-empty message. It never panics, crashes, overflows or runs forever, whatever is malformed, unclosed, cut off or (mutually) self-referring, as long as groups are not nested deeper than a few hundred levels.",
  ["inputs"], "every sequence of lexical pieces (commands of every argument shape, delimiters, environments, macro definitions and uses, conditionals, multi-byte characters) up to the bound, every spec entry with every pair of following tokens, every cut of the documents",
  "The tests run some hundred well-formed samples and a few crash reproducers; a panic needs one specific juxtaposition of tokens.",
  [L + "token.rs", L + "macro_engine.rs", L + "stream.rs", P + "parser.rs", P + "arg_match.rs", C],
  [("lexing of begin/end names", L + "token.rs"), ("macro expansion loop", L + "macro_engine.rs"), ("parser list states", P + "parser.rs"), ("argument slicing", C)],
  "Every text within the bounds was executed on the real code in a separate process with a watchdog; texts beyond them are not covered.")

p("C05", "An argument pattern takes exactly the prefixes of its language",
  "For a glob argument pattern (letters t, b, p for terms, brackets and parentheses; `?`, `*`, classes, flat alternatives in braces), a sequence of argument kinds is taken by the matcher exactly if it can be extended to a sequence that the pattern describes.",
  ["inputs"], "all deterministic patterns up to 7 (8) elements with all words over the three kinds up to the bound",
  "The tests use a handful of patterns (`{,b}t`, `t{,b}`); which prefixes are accepted is a property of the whole automaton of every pattern.",
  ["crates/mitex-glob/src/lib.rs", P + "arg_match.rs", S + "lib.rs"],
  [("glob matcher with prefix mode", "crates/mitex-glob/src/lib.rs"), ("incremental matcher", P + "arg_match.rs")],
  "Every deterministic pattern within the bound is compared with its position automaton on every word within the bound. Nested alternatives and stars inside of alternatives are outside (the matcher's design does not support them).",
  ["mitex_glob::glob_match_prefix"])
p("C10", "Translation is compositional",
  "The translation of a well-formed text is put together from the translations of its parts by the rule of each construct: groups, scripts, commands with fixed, optional and greedy arguments, infix commands, \\left..\\right, environments, lists, text and formulas nested in each other in any way.",
  ["inputs"], "all derivations of a synchronous grammar of LaTeX and Typst up to a size",
  "Snapshots fix some hundred combinations; constructs interact through shared converter state (mode, environment, indentation, label, pending space), which only particular nestings reveal.",
  [C, P + "parser.rs"], [("converter state enter/exit", C), ("item lists", P + "parser.rs")],
  "Every derivation within the bound is run on the converter and its output compared with the expected one, up to blanks without meaning. Other commands of the specification follow the same rules (C20, C24).")

p("C02", "The syntax tree contains every token once and in order",
  "Parsing loses, duplicates and reorders nothing: apart from blanks and comments, the leaves of the syntax tree are the tokens of the source, each once, in source order, with their text and kind; for the text after macro expansion just as for a text without macros.",
  ["inputs"], "every sequence of lexical pieces up to the bound, with and without macro expansion",
  "The tests print trees of samples; a token is lost in one specific parser state with one specific lookahead.",
  [P + "parser.rs", P + "syntax.rs", L + "lib.rs", L + "token.rs"],
  [("eat, shift, wrapping of earlier items", P + "parser.rs"), ("lexing", L + "token.rs")],
  "Every text within the bound is parsed by the real parser and compared with an independent reference lexer.",
  ["mitex_parser::parse", "mitex_parser::parse_without_macro"])
p("C03", "Delimiters are paired as they are nested",
  "Groups, environments, \\left..\\right and formulas pair up in the syntax tree exactly as they are nested in the source, an argument or script takes exactly the construct written there, and a text in which a closing delimiter closes nothing is rejected with an error.",
  ["inputs"], "all well-nested texts up to a number of constructs, all sequences of opening and closing delimiters up to a length",
  "Pairing is decided by parser scopes that interact (brackets in arguments, groups in \\left..\\right, formulas in texts); samples nest a few.",
  [P + "parser.rs", P + "syntax.rs"], [("ParseScope and list states", P + "parser.rs")],
  "Every text within the bounds is run on the real parser (and converter for rejected ones).", ["mitex_parser::parse", "mitex::convert_math", "mitex::convert_text"])
p("C06", "Macro expansion is substitution",
  "A text with definitions by \\newcommand and \\newenvironment (no, plain and optional arguments with a default, up to nine) translates to the same as the text in which every use is replaced by its body with the arguments substituted, repeatedly; names are looked up when a use is expanded; a missing end of a user-defined environment is an error.",
  ["inputs", "histories"], "all programs of definitions and uses up to a length",
  "Token positions, peeked tokens and buffers of the expansion interact with the position of uses and arguments; tests have some ten programs.",
  [L + "macro_engine.rs", L + "stream.rs", L + "lib.rs"], [("definitions and expansion", L + "macro_engine.rs"), ("token buffer", L + "stream.rs")],
  "The reference is a textbook substitution processor on its own tokens; the converter without macros translates its result. Every program within the bound is compared.")
p("C07", "Definitions of macros take effect in order",
  "\\newcommand, \\renewcommand and \\DeclareRobustCommand (with or without star) define a command from there on, \\providecommand does only if it has no definition; \\newenvironment and \\renewenvironment do the same for environments; redefining works for macros and for commands of the specification alike; a definition produces no output.",
  ["inputs", "histories"], "all histories of definitions, redefinitions and uses up to a length",
  "What a use means depends on the whole history of definitions before it.",
  [L + "macro_engine.rs"], [("table of definitions", L + "macro_engine.rs")],
  "Every history within the bound is compared with a reference processor. TeX's scoping of definitions by groups is not claimed (mitex does not have it).")
p("C08", "Conditionals select exactly the live branch",
  "Of \\iftrue, \\iffalse and \\iftypst with their \\else and \\fi exactly the live branches remain, at any nesting and across macros; dead branches have no effect: nothing in them is translated, defined or expanded, and they are not taken for arguments, scripts or bases of scripts.",
  ["inputs"], "all sequences of conditionals, definitions, uses and content up to a length",
  "A skipped branch must pair the conditionals in it, and every other part of the expansion must respect it.",
  [L + "macro_engine.rs", P + "parser.rs"], [("skipping of branches", L + "macro_engine.rs"), ("block comments", P + "parser.rs")],
  "Every program within the bound is compared with a reference processor. Other \\if commands are outside.")
p("C09", "A scoped map rolls back and commits exactly",
  "The scoped map behind macro definitions: after rollback_to a snapshot every key has exactly the value it had when the snapshot was taken, after commit it keeps the value it has, at any nesting of snapshots, in any order of insert, remove and overwrite; its return values are those of a map.",
  ["histories"], "all sequences of operations up to a length over a few keys and values; all reachable states of the model",
  "The undo log must be right for every interleaving of operations and nested snapshots.",
  [L + "snapshot_map.rs"], [("undo log", L + "snapshot_map.rs")],
  "Every history within the bound is run on the real map and compared after every step with a stack of plain maps.", ["mitex_lexer::snapshot_map::SnapshotMap"])
p("C29", "Looking ahead does not change the sequence of tokens",
  "The lexer is a cursor over the tokens of the source: whatever sequence of peeking (kind, text or character), eating and consuming bytes of a word is used, and wherever the pages of its token buffer end, it gives the tokens each once, in order, with kind and text; peeking never changes what comes next.",
  ["inputs", "histories"], "all sequences of cursor operations up to a length on all texts up to a size, across the page boundaries of the token buffer",
  "A peek cache, a token buffer filled page by page and macro expansion must agree in every interleaving.",
  [L + "lib.rs", L + "stream.rs", L + "token.rs"], [("peek cache", L + "lib.rs"), ("token pages", L + "stream.rs")],
  "Every history within the bound is run on the real lexer and compared with a cursor on the reference lexer's tokens.", ["mitex_lexer::Lexer"])

SP = "packages/mitex/specs/"
p("C04", "A command takes exactly the arguments of its pattern",
  "The arguments of a command or an environment are the longest run of what follows it that its argument pattern accepts as a prefix: up to n terms for a fixed number, the terms, brackets and parentheses of a glob in their order, single characters of a word one by one, a bracket or parenthesis that the pattern does not ask for as a single character; nothing that does not belong to them is taken, and what is not taken stays in place.",
  ["inputs"], "all patterns of a list (fixed, range, glob with options, classes and stars), for commands and environments, followed by every sequence of words, groups, brackets, parentheses, commands, scripts, blanks and punctuation up to a length",
  "Whether an argument is taken depends on what was taken before, on splitting words into characters and on the lookahead; samples use a few shapes.",
  [P + "arg_match.rs", P + "parser.rs", S + "lib.rs"], [("ArgMatcher states", P + "arg_match.rs"), ("argument loop and splitting of words", P + "parser.rs")],
  "A model of the pattern automaton decides the arguments, the real syntax tree is compared with it on every text. Infix and greedy commands are in C16.", ["mitex_parser::parse"])
p("C11", "What mitex writes is well-formed Typst",
  "If mitex accepts a well-formed LaTeX text, Typst evaluates the translation in mitex's scope without an error: parentheses, brackets and quotes pair up, arguments are separated where they should be, characters of the source do not turn into Typst syntax.",
  ["inputs"], "all derivations of a grammar of LaTeX up to a size, all sequences of printable characters, escapes and blanks up to a length, as text, as formula and inside of other constructs",
  "A character or an empty part breaks the output only next to particular others; the snapshots are never evaluated by Typst.",
  [C, SP + "latex/standard.typ", SP + "prelude.typ"], [("escaping", C), ("handlers", SP + "latex/standard.typ")],
  "The translation of every text within the bound is evaluated and laid out by the installed Typst compiler.", ["mitex::convert_math", "mitex::convert_text"])
p("C24", "Every command of the specification arrives at a handler",
  "Every command and environment of the default specification, used with any complete choice of arguments in any of the usual contexts (alone, with scripts, in an argument, in a matrix cell, in a text), translates to Typst that resolves in mitex's scope to a handler which accepts these arguments.",
  ["inputs"], "every entry of the specification with every combination of argument shapes from a list in every context from a list",
  "The tests use a small part of the thousand entries; a misspelt alias, a wrong number of arguments or an unpaired delimiter shows only when Typst evaluates the use.",
  [SP + "latex/standard.typ", SP + "prelude.typ", C], [("entries and handlers", SP + "latex/standard.typ"), ("define-* helpers", SP + "prelude.typ")],
  "The complete specification is enumerated and every use is evaluated by the installed Typst compiler. References, citations and graphics need a document and are left out; what a handler shows is not judged.", ["mitex::convert_math", "mitex::convert_text"])
W = "crates/mitex-wasm/src/lib.rs"
Q = S + "query.rs"
CLI = "crates/mitex-cli/src/"
p("C19", "A specification survives its binary form",
  "A command specification that is written with to_bytes and read with from_bytes (or from_bytes_unchecked), at whatever alignment the bytes lie, has exactly the entries it had: names, argument shapes and patterns, environment features and aliases; reading and writing again changes nothing.",
  ["inputs", "configurations"], "all items out of all shapes, patterns, features and aliases, alone and in pairs, specifications of every size up to a bound, every address modulo 16",
  "The tests write and read the default specification once; layout depends on the number of entries, the length of strings and the address.",
  [S + "lib.rs"], [("archiving and alignment", S + "lib.rs")],
  "Every specification within the bound is written and read on the real code. Damaged bytes are not claimed to be rejected.", ["mitex_spec::CommandSpec::from_bytes", "mitex_spec::CommandSpec::to_bytes"])
p("C31", "Every JSON form of an item means its canonical item",
  "A JSON specification in the short forms (sym, cmd0.., alias-sym, glob-cmd, matrix-env, ..) or the canonical ones compiles to the items that the forms are documented to stand for, in the library, in the plugin and in a package; writing it as JSON again gives the same; one with a missing field or a value of the wrong type is rejected with a message.",
  ["inputs"], "all forms with all parameters from lists, alone and in pairs, and each with every field taken away or spoilt",
  "The tests compile a few entries; each form has its own conversion.",
  [Q, W, S + "lib.rs"], [("JSON forms", Q), ("plugin", W)],
  "Every specification within the bound is compiled by the real code and compared with a table of the forms.", ["mitex_spec::JsonCommandSpec", "mitex_wasm::compile_spec"])
p("C20", "A custom specification is honoured",
  "A conversion with a custom specification goes by this specification alone, for parsing and for conversion, in formulas and in texts: every entry takes the arguments of its pattern, is written with its alias or else its name, in the form of its kind (symbol, function, content function, infix, greedy, left, environment), whatever the default specification says about the name; also as a delimiter of \\left and \\right. A command that it does not have is reported, and no entry makes the conversion panic.",
  ["inputs", "configurations"], "all items out of all shapes, patterns, features and aliases, under new names and names of the default specification, used with every sequence of groups, brackets and parentheses up to a length",
  "The tests use the default specification; parser and converter each look up names on their own.",
  [C, P + "parser.rs", S + "lib.rs"], [("look up in conversion", C), ("look up in parsing", P + "parser.rs")],
  "Every use within the bound is converted with its specification and compared with a model of the item kinds. Environments with greedy arguments have no meaning and are left out.")
p("C32", "The plugin answers what the library answers",
  "Each function of the WebAssembly plugin gives, for every sequence of bytes as source and every compiled specification (or none), the bytes of the library's translation or the text of its error; bytes that are no UTF-8 are an error with a message.",
  ["inputs", "configurations"], "all sequences of pieces (valid and invalid UTF-8) up to a length, with no, the default and a custom specification; all one and two byte inputs",
  "The plugin has no tests in the suite.",
  [W], [("convert_math, convert_text, compile_spec", W)],
  "Every call within the bound is made on the real plugin functions, natively: the protocol macros are replaced by stand-ins, the WebAssembly target is not installed.", ["mitex_wasm::convert_math", "mitex_wasm::convert_text"])
p("C23", "The command line writes the translation and nothing else",
  "`mitex compile` writes the translation of its input (or a document with it, which Typst accepts exactly if it accepts the translation in mitex's scope) to the output file it is given or to the input's name with .typ, and touches no other file; when it cannot, it says why, exits with an error, and leaves every file as it was; runs do not influence each other.",
  ["inputs", "histories"], "all command lines out of inputs, outputs, stages and forms of arguments, all sequences of runs up to a length on a shared directory, all entries of the specification in documents",
  "The program has no tests; what it does depends on the directory and on earlier runs.",
  [CLI + "main.rs", CLI + "lib.rs", CLI + "utils.rs", Q], [("compile", CLI + "main.rs"), ("document stage", CLI + "main.rs")],
  "The real program is run in scratch directories and compared with a model of the directory after every run; documents are evaluated by the installed Typst compiler.", ["mitex compile"])
p("C12", "A translation shows what the source says",
  "Typst's reading of a translation has the meaning of the LaTeX source: the same characters and symbols in the same order; the same base for each script; the same numerators, radicands, accents, delimiters, cells and rows, aligned lines, list items, emphases, headings and paragraphs, with the same content, nested in the same way.",
  ["inputs"], "all derivations of a grammar of LaTeX (formulas and texts) up to a size",
  "The snapshots compare Typst code that nobody evaluates: whether Typst takes a piece of it as a part of its neighbour (a script, a call, a factorial, a list) shows only in its evaluation.",
  [C, P + "parser.rs", SP + "latex/standard.typ"], [("converter", C), ("tree", P + "parser.rs"), ("handlers", SP + "latex/standard.typ")],
  "The meaning of every derivation within the bound is compared with the content that the installed Typst compiler evaluates the translation to. Sizes, styles and amounts of space are not compared; primes are separate items (a test of the project fixes this); scripts on groups of several items are left out.", ["mitex::convert_math", "mitex::convert_text"])
p("C30", "Every character of a text or a formula arrives",
  "Whatever characters stand next to each other in a text or a formula, in whatever place (argument, item, cell, script, heading), Typst shows exactly these characters, escapes as the characters they stand for, runs of blanks as one, an empty line as a new paragraph, and takes none of them for markup or syntax of its own.",
  ["inputs"], "every Unicode character; all sequences of printable ASCII, escapes and blanks up to a length; deeper ones of all characters that have a meaning in Typst, in all kinds of places",
  "Typst gives a meaning to particular sequences of characters (-?, 1., x_(1)!), in particular places; the tests have a few characters.",
  [C], [("escaping", C)],
  "Every sequence within the bounds is translated and evaluated by the installed Typst compiler, and what it shows is compared. Dashes, dots and quotes may be shown as typographic ones.", ["mitex::convert_math", "mitex::convert_text"])
p("C14", "Scripts and arguments bind like in TeX",
  "A script belongs to the one item before it (a character, a symbol, a command with its arguments, a group, a delimited formula, an environment), whatever blanks or comments lie between, and takes one item; sub- and superscript in either order belong to the same base; a script that has nothing before it gets an empty base; \\limits and \\nolimits change the operator before them and keep its scripts; a command without braces takes the next characters, symbols or groups one by one.",
  ["inputs"], "all sequences of characters, words, symbols, groups, commands with arguments, delimited formulas, environments, scripts, primes, limits, comments and blanks up to a length, alone and inside of arguments, scripts, cells, fences, fractions and styles",
  "What a script binds to depends on everything before it: how far words are split, which item ended last, what lies in between. The tests have a few dozen samples and compare the code, not what Typst makes of it.",
  [P + "parser.rs", P + "arg_match.rs", C], [("attach_component and list states", P + "parser.rs"), ("splitting of words", P + "parser.rs"), ("attachments in the converter", C)],
  "A reader of TeX's rules gives the meaning of every sequence within the bounds (those that TeX rejects are left out); it is compared with the content that the installed Typst compiler evaluates the translation to. Scripts on primes and on groups of several items are left out.", ["mitex::convert_math"])
p("C28", "A patch brings the page to the document that it describes",
  "When `patchSvgToContainer` is given an update that writes a document down with references to the elements of the one on the page (each `<g>` in full, reused as it is, or reused from another one and changed, however deep), the page afterwards shows exactly that document: the same elements, once each, in the same order, with its attributes and content; the shared glyphs, clips and styles are all kept. This holds after every sequence of updates.",
  ["inputs", "histories"], "all updates between the documents of a size, in every encoding with references, and all histories of such updates up to a length",
  "The tests compare instruction lists of a few flat sequences; what a nested update does to a page, and after earlier updates, is never run.",
  [D + "typst-patch.mts"], [("choice of what is reused", D + "typst-patch.mts"), ("instructions on the page", D + "typst-patch.mts"), ("elements other than groups", D + "typst-patch.mts")],
  "Every history within the bounds is run on the bundled code in node with a small DOM written for the check, not in a browser; `data-reuse-from` marks that stay behind are ignored.", ["patchSvgToContainer"])
p("C34", "The outline of a preview shows the headings and the pages",
  "After `patchOutlineEntry`, the container shows each heading once, with its title, nested and in order as given, and each page once, in order and between the headings that it comes between, whatever outline and pages were there before: the same as in an empty container.",
  ["inputs", "histories"], "all outlines of a size over few titles, with all page numbers, and all histories of them up to a length",
  "The tests do not run the outline at all; it is patched in place, with pages moved between headings.",
  [D + "typst-outline.mts", D + "typst-patch.mts"], [("places of the pages", D + "typst-outline.mts"), ("update in place", D + "typst-outline.mts")],
  "Every history within the bounds is run on the bundled code in node with a small DOM written for the check; the host that creates pages is the check's own, written after typst-doc.", ["patchOutlineEntry"])
p("C37", "A preview comes to show the last document, whatever happens when",
  "Updates given to a preview are applied once each and in order, none while a page is being drawn, and a new document takes the place of what was there before. However updates, changes of the view (resizes, scrolling, steps of the zoom with Ctrl and the wheel, colours, cursors, pages of a presentation) come together with animation frames, timers and the drawing of pages, once nothing is left to do the preview shows the last document: each page once, in order and one below the other (in a presentation the page asked for, or the last one if the document has become shorter), with its current content, size and colour, scaled to the width of the container and the zoom. An update or a drawing that fails is over by the next update, after which the preview shows the document again.",
  ["schedules", "histories", "fault_sequences"], "all histories of updates, changes of the view, failures, frames, timers and drawings up to a length, in six kinds of previews",
  "There is no test of the preview; updates and changes of the view overlap with frames, timers and the drawing of pages.",
  [D + "typst-doc.mts", D + "typst-patch.mts"], [("queue of updates", D + "typst-doc.mts"), ("drawing of canvases, and its cancellation", D + "typst-doc.mts"), ("layout, scale and zoom", D + "typst-doc.mts")],
  "Every history within the bounds is executed on the bundled code in node under a scheduler that decides when frames, timers and drawings happen, with a small DOM and a stand-in for the renderer written for the check. Empty documents are not claimed.", ["TypstDocument", "addChangement", "addViewportChange", "setPartialPageNumber"])
p("C38", "A click on a preview asks for the source of what is clicked",
  "For a click anywhere in a page, the renderer is asked for the location that belongs to the path from the page to the innermost page, group, text, image or shape around the click: for each element on it (but the group that each page consists of) its kind and its position among those next to it, where an element of no kind stands for the only one that it wraps, if any. The location, if there is one, is sent once, however often a preview has been set up on the same container; nothing is sent for an element that has no such path, nor after the preview has been disposed of.",
  ["inputs", "histories"], "all trees of elements of a size, a click on every one of their elements; previews set up several times or disposed of",
  "There is no test of it; the path depends on everything between the page and the click and next to it.",
  [D + "typst-debug-info.mts", D + "typst-doc.mts"], [("path of an element", D + "typst-debug-info.mts"), ("set up and disposal", D + "typst-doc.mts")],
  "Every tree within the bounds is clicked through on the bundled code in node with a small DOM; the session that knows the locations is a stand-in.", ["TypstDocument"])
p("C39", "The web page shows the formula that was typed in last, whatever arrives when",
  "However typing, the arrival of the compiler's script and of the converter, and the end of each rendering come after each other, once nothing is left to do the web page shows the conversion of what was typed in last, or nothing and the message of its error, and the rendering of the same formula, in a colour that shows on the page. What its two buttons copy is Typst code that shows the same formula, whatever characters the conversion has, with and without the import of the package.",
  ["schedules", "inputs"], "all histories of typing (up to ten formulas), arrivals and renderings up to a length, in light and dark, with states that are derived at once or later",
  "There is no test of the page; what has arrived when something is typed in differs from visit to visit.",
  ["packages/mitex-web/src/main.ts", "packages/mitex-web/src/loader.mjs"], [("conversion and rendering of the input", "packages/mitex-web/src/main.ts"), ("arrival of the compiler", "packages/mitex-web/src/loader.mjs"), ("code to copy", "packages/mitex-web/src/main.ts")],
  "Every history within the bounds is executed on the bundled code in node, with stand-ins for vanjs-core, the converter and the compiler; the compiler answers in order. The editor in tools/ is not covered.")
p("C17", "Blanks, line ends and comments mean what they mean in TeX",
  "In a text, runs of blanks and single line ends show as one blank, an empty line parts paragraphs, and a comment is left out together with the end of its line and the blanks that start the next one, so that it neither shows nor parts anything, unless the next line is empty; in a formula, blanks, line ends and comments between the pieces change nothing but where a control word ends.",
  ["inputs"], "all sequences of characters, blanks, line ends and comments up to a length, in texts, arguments, items and other places; all sequences of pieces of formulas up to a length with every gap filled in twelve ways",
  "The tests have hardly a comment and no comment between two lines; what a blank means depends on what is around it.",
  [C, L + "token.rs", P + "parser.rs"], [("blanks and comments in the translation", C), ("blanks as tokens", L + "token.rs"), ("blanks before arguments and scripts", P + "parser.rs")],
  "Every sequence within the bounds is translated; texts are evaluated by Typst and compared with what TeX's line states read, formulas with the same formula without the gap. Blanks after control words in texts and between primes are not compared.")
p("C21", "A conversion depends only on what it is given",
  "The result of a conversion is a function of the source, the mode and the specification: it is the same in a fresh process, after any other conversions (ones that define macros, redefine commands, use another specification, fail or stop inside of a group), and on whatever thread.",
  ["inputs", "histories"], "all histories of conversions up to a length, over conversions that leave something behind if anything can, on two threads that take turns",
  "The tests convert each sample once and in any order; what is left behind by one conversion shows only in the next one.",
  ["crates/mitex/src/lib.rs", C, P + "lib.rs", L + "macro_engine.rs", S + "lib.rs"], [("default specification", "crates/mitex-spec-gen/src/lib.rs"), ("macro table", L + "macro_engine.rs"), ("converter state", C)],
  "Every history within the bound is run in one process and each result compared with that of a process that does nothing else. Threads take turns; conversions share no mutable state, so that a conversion is one step.")
p("C22", "What something is translated to does not depend on where it stands",
  "However many tokens come before a text or a formula (blanks, comments, empty groups), its translation is the same; a text of two parts with an empty line between them is translated to the translations of the parts, a formula of two groups to those of the groups, and a formula in a group, argument, script, cell or fence to what it is translated to alone.",
  ["inputs"], "all sequences of pieces up to a length after every number of tokens up to several pages of the token buffers; all pairs of sequences of constructs, as paragraphs and as groups; all sequences of formulas in all places",
  "The tokens are read in pages, and macros, conditionals and environment names are read over the ends of the pages; the tests are shorter than a page. Parser and converter carry state from one construct to the next.",
  [L + "stream.rs", L + "macro_engine.rs", P + "parser.rs", C], [("token pages", L + "stream.rs"), ("expansion into pages", L + "macro_engine.rs"), ("converter state", C)],
  "Every text within the bounds is converted at every place and compared with its own translation alone, up to blanks; it is a comparison of the implementation with itself, so that what is wrong everywhere is left to the other properties.")
p("C33", "The functions of the Typst package show what the translation says",
  "`mitex-convert` gives exactly the code that the library gives for the source, mode and specification passed; `mimath`, `mitex` and `mi` show the equation that the library translates the source to, as a block or inline as documented, with the options given and with the rules of the document for those that are not; `mitext` and text mode show the text. A source may be given as a string, as raw text of any form or as plain content; anything else, and any error of the library, is reported.",
  ["inputs"], "all functions with all forms of arguments and their options, on all sources of up to a number of pieces (quotes, backslashes, markup and syntax of Typst, line ends, other characters, errors)",
  "The package has no tests at all that run; a quote or a backslash, a set rule, or an option on the wrong function shows only in a document.",
  ["packages/mitex/mitex.typ", "packages/mitex/lib.typ"], [("functions", "packages/mitex/mitex.typ"), ("exports", "packages/mitex/lib.typ")],
  "Every call within the bounds is evaluated by the installed Typst with the package's own files; the plugin is a stand-in made for the check that answers with the library's results (the real plugin's entry points are compared with the library by C32).", ["mitex-convert", "mimath", "mitex", "mi", "mitext"])
p("C25", "Lists have the items that the source gives them, however laid out",
  "A text with `itemize` and `enumerate` environments is shown as these lists: each list in its place and with each of its items once and in order, bulleted or numbered, each item with exactly the text, paragraphs, formulas, quotes, tables, figures and inner lists between its `\\item` and the next one or the end of its list, and what comes after a list outside of it; blanks, line ends, comments, empty lines and forced line breaks around and within the items change no more than they mean.",
  ["inputs"], "all sequences of items, beginnings and ends of lists, words, blanks, line ends, empty lines, comments, breaks, formulas, groups and quotes up to a length, with lists nested up to a depth",
  "Lists become Typst markup, where line starts and indentation decide what is an item and which list it is in; the tests have a few lists, each item on a line of its own.",
  [C], [("lists and indentation", C)],
  "Every text within the bounds that LaTeX accepts is translated and evaluated by the installed Typst compiler; the content is compared with what the source says. Two adjacent lists and one list are not told apart; `\\item[..]` is left out.", ["mitex::convert_text"])
p("C26", "Labels are on what they name, and references find them",
  "A `\\label` after a heading, within a displayed equation or alignment (at any place and depth of it) or within a figure or table with a caption (after the caption or in it) puts exactly its key on that heading, equation or figure, whatever else stands around it, and changes nothing else of what is shown; `\\ref`, `\\eqref` and `\\cite` ask for exactly the key that they are given, so that a reference finds the label with the same key, for every key that LaTeX accepts; figures show their body and their caption once each.",
  ["inputs"], "all sequences of headings, equations, inner environments, figures, tables, captions, labels, words, blanks, line ends, empty lines, comments, lists and quotes up to a length and a depth; all keys of letters, digits, punctuation and other characters up to a length in every kind of label and reference",
  "A label is taken out of the middle of what it names and written after it, and its key passes through the parser of formulas and text and through Typst's syntax of labels; the tests have a few labels with plain keys.",
  [C], [("labels", C), ("references", C), ("figures and captions", C)],
  "Every text within the bounds that LaTeX accepts is translated and evaluated by the installed Typst compiler; the labels and the content are compared with what the source says. Labels in formulas without a number, in tables within figures and several in one alignment are left out; so are lists of keys.", ["mitex::convert_text"])
p("C27", "A table has the columns, rules, rows and cells of the source",
  "A `tabular` is shown as one table with the columns that its specification names, each with its alignment, the vertical lines at the places of its bars, a horizontal line at the place of every `\\hline`, `\\toprule`, `\\midrule` and `\\bottomrule`, and every row with exactly its cells in order, each with its own content as text, short rows filled up; blanks, line ends and comments anywhere in it add nothing; tables in cells, in lists, in quotes and in formulas are the same.",
  ["inputs"], "all sequences of cell and row separators, rules, words, blanks, line ends, comments, formulas, groups, commands, lists and inner tables up to a length and a depth, with all column specifications of a set",
  "Cells, rules and columns are written one after the other into one call, where Typst fills cells up in order: one cell too many or too few moves all that follow; the tests have four tables.",
  [C], [("tabular", C), ("column specification", C)],
  "Every table within the bounds that LaTeX accepts is translated and evaluated by the installed Typst compiler; the columns, lines and cells are compared with what the source says. Other column types (`p{..}`, `@{..}`), `\\multicolumn` and `\\cline` are unknown to mitex and left out.", ["mitex::convert_text", "mitex::convert_math"])
p("C13", "A grid has the rows and cells of the source",
  "A matrix, `cases`, alignment or `\\substack` shows exactly the rows and cells that `\\\\` and `&` part in its own body, in order, each with its own content: whatever else stands in a cell (scripts without a base, groups, fractions, infix and style commands, fences, other grids, rules, blanks and comments), nothing of it moves to another cell, and separators within an inner grid part that one only.",
  ["inputs"], "all sequences of separators, characters, scripts, groups, commands, fences, rules, blanks and beginnings and ends of grids of several kinds up to a length, nested up to a depth",
  "Separators, scripts, infix and style commands all look at the list that they are in; what a cell leaves behind for the next one shows only in combinations that no test has.",
  [P + "parser.rs", C], [("cells in item lists", P + "parser.rs"), ("separators by environment", C)],
  "Every sequence within the bounds that TeX accepts is translated and evaluated by the installed Typst compiler; the content is compared with what a reference reader makes of it. Empty cells at the ends of rows, and rows at the end, are not told from none; infix and style commands in `\\substack` are left out.", ["mitex::convert_math"])
p("C15", "A fence holds what is between its delimiters",
  "`\\left..\\right` shows its two delimiters (a dot shows none) around exactly what stands between them, as one item that takes scripts; `\\middle` stays in its place; fences nest with groups, arguments, scripts and grids, and usual parentheses and brackets need no partner anywhere.",
  ["inputs"], "all sequences of opening, middle and closing delimiters, characters, scripts, groups and commands up to a length, nested up to a depth",
  "The end of a fence is found by the parser's scopes, and scripts, infix and style commands within it by the state of its list.",
  [P + "parser.rs", C], [("fences", P + "parser.rs"), ("delimiters in the translation", C), ("scripts of a fence", P + "parser.rs")],
  "Every sequence within the bounds that TeX accepts is translated and evaluated by the installed Typst compiler; the content is compared with what a reference reader makes of it.", ["mitex::convert_math"])
p("C16", "Infix and style commands apply to their group",
  "An infix command such as `\\over` or `\\choose` takes all that comes before it and all that comes after it in the group, fence, cell, argument or formula that it is in, and nothing else; a style command such as `\\displaystyle`, `\\bf` or `\\color` applies to all that follows in it, up to its end or to an infix command that has more before it than the style.",
  ["inputs"], "all sequences of infix and style commands, characters, scripts, groups, fences, grids and commands with arguments up to a length, nested up to a depth",
  "Both kinds of commands reach over any number of items and wrap what was parsed before; the tests have a few with one of them.",
  [P + "parser.rs", C], [("infix commands", P + "parser.rs"), ("greedy arguments", P + "parser.rs"), ("arguments in the translation", C)],
  "Every sequence within the bounds that TeX accepts is translated and evaluated by the installed Typst compiler; the content is compared with what a reference reader makes of it. Styles of nothing, and `\\\\` within them outside of environments, are left out; which style characters have is not compared.", ["mitex::convert_math"])
p("C18", "What cannot be translated is reported and named, and nothing else is",
  "A source in which something that TeX would look at cannot be translated (an unknown command or environment, a closing brace, `\\end`, `\\fi` or `\\else` with nothing open, an `\\item` outside lists, a formula without its end, an unknown column of a table) is rejected wherever that stands, with an error that names it, or one of several; a source in which such things stand only where TeX does not look (comments, branches not taken, bodies of macros never used) is translated.",
  ["inputs"], "all closed sequences of good and bad pieces in groups, arguments, environments, lists, formulas, fences, grids, branches and bodies of macros up to a length and a depth, in text and in formulas",
  "A piece that is skipped without a word is content lost, and an error without its name is no help in a long document; the tests have a handful of errors at the top level only.",
  [C, P + "parser.rs", P + "syntax.rs"], [("errors", C), ("unexpected pieces", P + "parser.rs"), ("valid formulas", P + "syntax.rs")],
  "A reference reader keeps what is open, whether it is looked at, and which faults were; every sequence is converted and the answer compared with these. Of several faults any may be named. Unclosed groups and environments, and ends with another name, are accepted by mitex and left out.", ["mitex::convert_text", "mitex::convert_math"])
p("C35", "What is coloured has the colour that the source gives it",
  "`\\textcolor` and `\\colorbox` colour their argument and nothing else, `\\color` all that follows up to the end of its group, argument, cell or formula and nothing else, each with the model and the colour of the source, whatever their characters; what is coloured is otherwise as it would be without, and the inner of two colours wins.",
  ["inputs"], "all sequences of colours, coloured arguments, characters, scripts, groups, fences, grids, formulas and blanks up to a length, nested up to a depth, in text and in formulas; all names up to a length",
  "The end of a colour is found by the parser in one of a dozen kinds of lists, and the colour passes through three languages; the tests have three cases.",
  [C, P + "parser.rs", SP + "latex/standard.typ"], [("greedy arguments", P + "parser.rs"), ("colours", SP + "mod.typ"), ("arguments in the translation", C)],
  "Every sequence within the bounds is translated and evaluated by the installed Typst compiler, where the handlers of colours mark what they colour; the content with its marks is compared with what the source says. A `\\color` that spans several items of a list is left out.", ["mitex::convert_text", "mitex::convert_math"])

p("C36", "An image is the file that the source names, in the size it asks for",
  "`\\includegraphics` shows the image of exactly the path given, in the `width` and `height` of its options (a length in pt, cm, mm, in or em, or a multiple of `\\textwidth`, `\\linewidth`, `\\columnwidth`, `\\hsize` or `\\textheight`), in whatever order and with whatever other options, blanks, line ends and comments around them, wherever it stands (text, group, argument, item, cell, quote, figure, formula) and whatever follows, which is shown as it would be otherwise.",
  ["inputs"], "all combinations of up to two (three) of 25 options with 6 separators and 12 layouts, all paths up to a length, all of 16 places with 19 pieces that follow",
  "The options are taken apart as text, the path is written as a string of another language, and the call ends where the text goes on; the tests have two cases.",
  [C, SP + "latex/standard.typ"], [("options and path of an image", C)],
  "Every combination within the bounds is translated and evaluated by the installed Typst compiler, where its image function shows the arguments that it gets. Scaling, rotating and cropping are not translated by mitex, and not judged.", ["mitex::convert_text", "mitex::convert_math"])
