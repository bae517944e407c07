//! Independent reference lexer, written from the language description.
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum T {
    Num(u64, Option<String>),
    Id(String),
    /// Keyword or punctuation, by spelling.
    P(&'static str),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Tok {
    pub t: T,
    pub sp: (usize, usize),
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum LexErr {
    Char,
    Overflow,
    Format,
}

pub const KEYWORDS: &[&str] = &[
    "as", "const", "else", "false", "fn", "if", "let", "new", "return", "struct", "true", "while", "loop", "for", "in",
    "break", "continue", "use",
];
/// Longest first.
pub const PUNCT: &[&str] = &[
    "&&", "||", "==", "!=", "<=", ">=", "->", "::", "!", "&", "|", "^", "<", ">", "+", "-", "*", "/", "%", "=", "(",
    ")", "{", "}", "[", "]", ",", ".", ":", ";",
];
pub const SUFFIXES: &[&str] = &["felt", "u32"];

fn ident_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_'
}
fn ident_char(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_'
}

/// The tokens, or the errors (start offset and kind) when there is any.
pub fn lex(s: &str) -> Result<Vec<Tok>, Vec<(usize, LexErr)>> {
    let mut out = vec![];
    let mut errs = vec![];
    for (sp, r) in lex_all(s) {
        match r {
            Ok(t) => out.push(Tok { t, sp }),
            Err(e) => errs.push((sp.0, e)),
        }
    }
    if errs.is_empty() {
        Ok(out)
    } else {
        Err(errs)
    }
}
/// Tokens and errors in order of appearance.
pub fn lex_all(s: &str) -> Vec<((usize, usize), Result<T, LexErr>)> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let c = b[i];
        if matches!(c, b' ' | b'\t' | b'\n' | b'\r') {
            i += 1;
            continue;
        }
        if c == b'/' && b.get(i + 1) == Some(&b'/') {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if ident_start(c) {
            let st = i;
            while i < b.len() && ident_char(b[i]) {
                i += 1;
            }
            let w = &s[st..i];
            let t = match KEYWORDS.iter().find(|k| **k == w) {
                Some(k) => T::P(k),
                None => T::Id(w.to_string()),
            };
            out.push(((st, i), Ok(t)));
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            // A number is a maximal run of letters, digits and underscores that starts with a digit.
            while i < b.len() && ident_char(b[i]) {
                i += 1;
            }
            let run = &s[st..i];
            let (base, whole) = match run.get(..2) {
                Some("0x" | "0X") => (16, &run[2..]),
                Some("0o" | "0O") => (8, &run[2..]),
                Some("0b" | "0B") => (2, &run[2..]),
                _ => (10, run),
            };
            let isd = |d: u8| (d as char).is_digit(base);
            // A type suffix is what the whole literal ends with, if anything is left before it.
            let (digits, suf) = match SUFFIXES.iter().find(|x| whole.len() > x.len() && whole.ends_with(**x)) {
                Some(x) => (&whole[..whole.len() - x.len()], Some(x.to_string())),
                None => {
                    let n = whole.bytes().take_while(|d| isd(*d)).count();
                    (&whole[..n], if n < whole.len() { Some(whole[n..].to_string()) } else { None })
                }
            };
            let glued = suf.as_ref().is_some_and(|x| x.as_bytes()[0].is_ascii_digit());
            if digits.is_empty() || glued || !digits.bytes().all(isd) {
                out.push(((st, i), Err(LexErr::Format)));
                continue;
            }
            let mut v: u128 = 0;
            let mut over = false;
            for d in digits.chars() {
                v = v * base as u128 + d.to_digit(base).unwrap() as u128;
                if v > u64::MAX as u128 {
                    over = true;
                    break;
                }
            }
            if over {
                out.push(((st, i), Err(LexErr::Overflow)));
            } else {
                out.push(((st, i), Ok(T::Num(v as u64, suf))));
            }
            continue;
        }
        if let Some(p) = PUNCT.iter().find(|p| s[i..].starts_with(**p)) {
            out.push(((i, i + p.len()), Ok(T::P(p))));
            i += p.len();
            continue;
        }
        let ch = s[i..].chars().next().unwrap();
        out.push(((i, i + ch.len_utf8()), Err(LexErr::Char)));
        i += ch.len_utf8();
    }
    out
}
