//! A reference lexer, written by hand from the description of the tokens.
use mitex_lexer::{BraceKind, CommandName, IfCommandName, Token};
use mitex_parser::spec::CommandSpec;

pub type Tok<'a> = (Token, &'a str);

const SPECIAL: &str = "\\%{},$[]()~/_*@'\";&^#";

pub fn lex<'a>(src: &'a str, spec: &CommandSpec) -> Vec<Tok<'a>> {
    let mut v = vec![];
    let mut i = 0;
    while i < src.len() {
        let (t, text, end) = one(src, i, spec);
        v.push((t, text));
        i = end;
    }
    v
}

fn run(s: &str, f: impl Fn(char) -> bool) -> usize {
    s.find(|c| !f(c)).unwrap_or(s.len())
}

fn one<'a>(src: &'a str, i: usize, spec: &CommandSpec) -> (Token, &'a str, usize) {
    use Token::*;
    let s = &src[i..];
    let c = s.chars().next().unwrap();
    let nl = |c: char| c == '\r' || c == '\n';
    let (t, n) = match c {
        _ if nl(c) => (LineBreak, run(s, nl)),
        _ if c.is_whitespace() => (Whitespace, run(s, |c| c.is_whitespace() && !nl(c))),
        '%' => (LineComment, run(s, |c| !nl(c))),
        '{' => (Left(BraceKind::Curly), 1),
        '}' => (Right(BraceKind::Curly), 1),
        '[' => (Left(BraceKind::Bracket), 1),
        ']' => (Right(BraceKind::Bracket), 1),
        '(' => (Left(BraceKind::Paren), 1),
        ')' => (Right(BraceKind::Paren), 1),
        ',' => (Comma, 1),
        '~' => (Tilde, 1),
        '/' => (Slash, 1),
        '&' => (Ampersand, 1),
        '^' => (Caret, 1),
        '\'' => (Apostrophe, 1),
        '"' => (Ditto, 1),
        ';' => (Semicolon, 1),
        '#' => (Hash, 1),
        '*' => (Asterisk, 1),
        '@' => (AtSign, 1),
        '_' => (Underscore, 1),
        '$' if s.starts_with("$$") => (Dollar, 2),
        '$' => (Dollar, 1),
        '\\' if s.starts_with("\\\\") => (NewLine, 2),
        '\\' => return command(src, i, spec),
        _ => (Word, run(s, |c| !c.is_whitespace() && !SPECIAL.contains(c))),
    };
    (t, &s[..n], i + n)
}

/// Letters and at signs, with a star at the end if that is the name of a known command.
fn name_end(s: &str, from: usize, known: impl Fn(&str) -> bool) -> usize {
    let mut e = from;
    for c in s[from..].chars() {
        match c {
            'a'..='z' | 'A'..='Z' | '@' => e += 1,
            '*' if known(&s[..e + 1]) => return e + 1,
            _ => break,
        }
    }
    e
}

fn command<'a>(src: &'a str, i: usize, spec: &CommandSpec) -> (Token, &'a str, usize) {
    use CommandName as C;
    use IfCommandName as I;
    let s = &src[i + 1..];
    let Some(c) = s.chars().next().filter(|c| !c.is_whitespace()) else {
        return (Token::CommandName(C::Generic), "\\", i + 1);
    };
    if !(c.is_ascii_alphabetic() || c == '@') {
        let k = match c {
            '(' | '[' => C::BeginMath,
            ')' | ']' => C::EndMath,
            _ => C::Generic,
        };
        let e = i + 1 + c.len_utf8();
        return (Token::CommandName(k), &src[i..e], e);
    }
    let n = name_end(s, 1, |n| spec.get(n).is_some());
    let end = i + 1 + n;
    let k = match &s[..n] {
        "if" => C::If(I::If),
        "iftypst" => C::If(I::IfTypst),
        "iffalse" => C::If(I::IfFalse),
        "iftrue" => C::If(I::IfTrue),
        "ifcase" => C::If(I::IfCase),
        "ifnum" => C::If(I::IfNum),
        "ifcat" => C::If(I::IfCat),
        "ifx" => C::If(I::IfX),
        "ifvoid" => C::If(I::IfVoid),
        "ifhbox" => C::If(I::IfHBox),
        "ifvbox" => C::If(I::IfVBox),
        "ifhmode" => C::If(I::IfHMode),
        "ifmmode" => C::If(I::IfMMode),
        "ifvmode" => C::If(I::IfVMode),
        "ifinner" => C::If(I::IfInner),
        "ifdim" => C::If(I::IfDim),
        "ifeof" => C::If(I::IfEof),
        "@ifstar" => C::If(I::IfStar),
        "else" => C::Else,
        "fi" => C::EndIf,
        "left" => C::Left,
        "right" => C::Right,
        b @ ("begin" | "end") => {
            let begin = b == "begin";
            if let Some((name, e)) = clause(src, end) {
                return (Token::CommandName(if begin { C::BeginEnvironment } else { C::EndEnvironment }), name, e);
            }
            if begin {
                C::ErrorBeginEnvironment
            } else {
                C::ErrorEndEnvironment
            }
        }
        _ => C::Generic,
    };
    (Token::CommandName(k), &src[i..end], end)
}

/// `{name}` with blanks and comments around of the braces' inner side and before them.
fn clause(src: &str, mut i: usize) -> Option<(&str, usize)> {
    i = blanks(src, i);
    if !src[i..].starts_with('{') {
        return None;
    }
    let n = name_end(&src[i + 1..], 0, |_| true);
    let name = &src[i + 1..i + 1 + n];
    let j = blanks(src, i + 1 + n);
    src[j..].starts_with('}').then_some((name, j + 1))
}
fn blanks(src: &str, mut i: usize) -> usize {
    loop {
        let s = &src[i..];
        match s.chars().next() {
            Some('%') => {
                // to the end of the line
                i += s.find(['\r', '\n']).map_or(s.len(), |n| n + 1);
            }
            Some(c) if c.is_whitespace() => i += c.len_utf8(),
            _ => return i,
        }
    }
}
