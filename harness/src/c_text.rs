//! Text-level checks: every text gets an answer (C01), tokens (C02), layout and spans (C05).
use crate::c_parse::{self, Lang};
use crate::imp;
use crate::reflex::{self, LexErr, T};
use crate::refparse;
use crate::util::{guarded, Ctx};
use cairo_m_compiler_diagnostics::DiagnosticSeverity;
use serde_json::json;

/// All strings over `alpha` of exactly length `len`, by index.
pub fn nth(alpha: &[&str], len: usize, mut i: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push_str(alpha[i % alpha.len()]);
        i /= alpha.len();
    }
    s
}

/// The contract of parsing on an arbitrary text, and agreement with the reference on acceptance.
fn total(ctx: &Ctx, src: &str) {
    let p = match imp::parse(src) {
        Ok(p) => p,
        Err(e) => return ctx.violate(format!("parsing panicked on {src:?}: {e}"), json!({"text": src})),
    };
    for d in &p.diags {
        let ok = d.span.start <= d.span.end && d.span.end <= src.len() && src.is_char_boundary(d.span.start) && src.is_char_boundary(d.span.end);
        if !ok {
            ctx.violate(format!("diagnostic points outside the text {src:?}: {}..{} {:?}", d.span.start, d.span.end, d.message), json!({"text": src}));
        }
        if d.severity != DiagnosticSeverity::Error {
            ctx.violate(format!("parse diagnostic that is no error on {src:?}: {d:?}"), json!({"text": src}));
        }
        if d.file_path != "t.cm" {
            ctx.violate(format!("diagnostic names another file: {:?}", d.file_path), json!({"text": src}));
        }
        if d.message.trim().is_empty() {
            ctx.violate(format!("empty diagnostic for {src:?}"), json!({"text": src}));
        }
    }
    let want = refparse::parse(src);
    ctx.state(&(want.as_ref().map(|t| t.show()).map_err(|e| *e), p.diags.iter().map(|d| (d.code as u32, d.span.start, d.span.end)).collect::<Vec<_>>()));
    if want.is_ok() {
        ctx.add("traces_validated_against_impl", 1);
    }
    match (&want, &p.tree) {
        (Ok(_), None) => ctx.violate(format!("valid text rejected: {src:?} {:?}", p.diags.iter().map(|d| &d.message).collect::<Vec<_>>()), json!({"text": src})),
        (Err(_), Some(t)) => ctx.violate(format!("invalid text accepted: {src:?} as {}", t.show()), json!({"text": src})),
        (Ok(w), Some(t)) => {
            if !w.shape_eq(t) {
                ctx.violate(format!("different tree for {src:?}\nexpected {}\nactual   {}", w.show(), t.show()), json!({"text": src}));
            }
        }
        _ => {}
    }
    if let Err(errs) = reflex::lex(src) {
        // Every character or number that is no token is reported at its place.
        let mut at: Vec<usize> = p.diags.iter().map(|d| d.span.start).collect();
        at.sort();
        for (o, k) in &errs {
            if !at.contains(o) {
                ctx.violate(format!("no diagnostic at offset {o} ({k:?}) of {src:?}, only at {at:?}"), json!({"text": src}));
            }
        }
    }
}

pub fn corpus() -> Vec<(String, String)> {
    let mut v = vec![];
    let mut names: Vec<_> = std::fs::read_dir(format!("{}/corpus", crate::util::verif_root())).unwrap().map(|e| e.unwrap().path()).collect();
    names.sort();
    for p in names {
        let t = std::fs::read_to_string(&p).unwrap();
        let n = p.file_name().unwrap().to_string_lossy().into_owned();
        if n.ends_with(".cm") {
            v.push((n, t));
        } else {
            for (i, b) in t.split("```").enumerate() {
                if i % 2 == 1 {
                    if let Some(code) = b.strip_prefix("cairo-m\n") {
                        v.push((format!("{n}#{i}"), code.to_string()));
                    }
                }
            }
        }
    }
    v
}

const WEIRD: &[&str] = &[
    "a", "0", "9", "x", "u", "_", "/", "\n", "\r", " ", "\"", "'", "\\", "\0", "é", "🦀", "&", "=", "<", "-", "(", ")", "{", "}", ";", ":", "!", ".",
    "@", "#", "\u{a0}", "\u{feff}",
];

pub fn totality(ctx: &Ctx) -> i32 {
    let max = if ctx.thorough { 5 } else { 4 };
    let ctxs: &[(&str, &str)] = &[("", ""), ("fn f() { ", " }"), ("const A = ", ";")];
    for (pre, post) in ctxs {
        for len in 0..=(if pre.is_empty() { max } else { max - 1 }) {
            let n = WEIRD.len().pow(len as u32);
            let chunk = 512;
            ctx.par(n.div_ceil(chunk), |c| {
                let mut k = 0;
                for i in c * chunk..((c + 1) * chunk).min(n) {
                    total(ctx, &format!("{pre}{}{post}", nth(WEIRD, len, i)));
                    k += 1;
                }
                ctx.add("transitions", k);
            });
        }
    }
    ctx.note(format!("all strings of up to {max} characters over {} characters; of up to {} inside a function and a constant", WEIRD.len(), max - 1));
    // Every single-edit variant of real programs: truncation at, deletion of, and insertion before each token.
    let corp = corpus();
    let limit = if ctx.thorough { 20_000 } else { 1_600 };
    let sel: Vec<_> = corp.iter().filter(|(_, t)| t.len() <= limit).collect();
    ctx.add("corpus_programs", sel.len() as u64);
    ctx.par(sel.len(), |i| {
        let (_, t) = sel[i];
        let Ok(toks) = reflex::lex(t) else { return total(ctx, t) };
        total(ctx, t);
        let mut k = 1;
        for x in 0..toks.len() {
            let (a, b) = toks[x].sp;
            total(ctx, &t[..a]);
            total(ctx, &t[..b]);
            total(ctx, &format!("{}{}", &t[..a], &t[b..]));
            total(ctx, &format!("{}{} {}", &t[..b], &t[a..b], &t[b..]));
            k += 4;
            for ins in ["}", "(", ";", "é", "\"", "0x", "99999999999999999999", "if", "="] {
                total(ctx, &format!("{} {ins} {}", &t[..a], &t[a..]));
                k += 1;
            }
            if x + 1 < toks.len() {
                let (c, d) = toks[x + 1].sp;
                total(ctx, &format!("{}{}{}{}{}", &t[..a], &t[c..d], &t[b..c], &t[a..b], &t[d..]));
                k += 1;
            }
        }
        ctx.add("transitions", k);
    });
    // Nesting to a stated depth, well formed and cut short.
    let depth = if ctx.thorough { 160 } else { 64 };
    let nests: &[(&str, &str, &str, &str, &str)] = &[
        ("const A = ", "(", "1", ")", ";"),
        ("const A = ", "(", "1", ",)", ";"),
        ("const A = ", "[", "1", "]", ";"),
        ("const A = ", "[", "1", ";2]", ";"),
        ("const A = ", "f(", "1", ")", ";"),
        ("const A = ", "a[", "1", "]", ";"),
        ("const A = ", "-", "1", "", ";"),
        ("const A = ", "!", "1", "", ";"),
        ("const A = ", "S{x:", "1", "}", ";"),
        ("const A = ", "new felt[", "1", "]", ";"),
        ("const A = ", "1+(", "1", ")", ";"),
        ("const A = ", "1+", "1", "", ";"),
        ("const A = ", "1&&", "1", "", ";"),
        ("const A = 1", "", "", " as felt", ";"),
        ("const A = 1", "", "", ".x", ";"),
        ("const A:", "(", "felt", ")", "=1;"),
        ("const A:", "(", "felt", ",)", "=1;"),
        ("const A:", "[", "felt", ";2]", "=1;"),
        ("const A:", "", "felt", "*", "=1;"),
        ("fn f(){", "{", "", "}", "}"),
        ("fn f(){", "if a {", "", "}", "}"),
        ("fn f(){", "if a {} else ", "{", "", "}}"),
        ("fn f(){", "if (a) ", "a();", "", "}"),
        ("fn f(){", "loop ", "a();", "", "}"),
        ("fn f(){", "while (a) {", "a();", "}", "}"),
        ("fn f(){", "for (a=1;a;a=1) {", "a();", "}", "}"),
        ("fn f(){let ", "(a,", "b", ")", "=c;}"),
        ("fn f(a: felt", ", a: felt", "", "", "){}"),
        ("struct S {", "a: felt,", "", "", "}"),
        ("use a", "::a", "", "", ";"),
    ];
    ctx.par(nests.len() * depth, |i| {
        let (pre, o, mid, c, post) = nests[i / depth];
        let d = i % depth + 1;
        let s = format!("{pre}{}{mid}{}{post}", o.repeat(d), c.repeat(d));
        total(ctx, &s);
        total(ctx, &format!("{pre}{}", o.repeat(d)));
        total(ctx, &format!("{pre}{}{mid}{}{post}", o.repeat(d), c.repeat(d - 1)));
        ctx.add("transitions", 3);
        if d == depth {
            ctx.sample(json!({"nesting": s.chars().take(60).collect::<String>(), "depth": d}));
        }
    });
    ctx.finish("model_checking", json!({}), &["texts longer than the stated bounds are reached only as single edits of the corpus programs"])
}

// ---------------------------------------------------------------------------------------- tokens

const NUMS: &[&str] = &["0", "1", "7", "8", "9", "x", "X", "o", "b", "B", "a", "f", "u32", "felt", "u", "_", "e", "G", " ", "-"];
const OPCH: &[&str] = &["&", "|", "=", "!", "<", ">", "-", "+", "*", "/", "%", "^", ":", ".", ",", ";", "(", ")", "{", "}", "[", "]", " ", "a", "1", "\n", "@", "$", "~", "?", "'"];
const WORDS: &[&str] = &["as", "const", "else", "false", "fn", "if", "let", "new", "return", "struct", "true", "while", "loop", "for", "in", "break", "continue", "use", "a", "_", "1", " ", "X", "//", "\n", "\t", "é"];

/// The implementation's tokens in the reference's terms; a token is rejected when it is an error or
/// carries an unknown suffix.
fn imp_tokens(src: &str) -> Vec<((usize, usize), Result<T, &'static str>)> {
    use cairo_m_compiler_parser::lexer::{LexingError, NumberParseError, TokenType};
    use logos::Logos;
    TokenType::lexer(src)
        .spanned()
        .map(|(t, sp)| {
            let r = match t {
                Ok(TokenType::LiteralNumber(n)) => match n.suffix {
                    Some(s) if !reflex::SUFFIXES.contains(&s) => Err("number"),
                    s => Ok(T::Num(n.value, s.map(|s| s.to_string()))),
                },
                Ok(TokenType::Identifier(i)) => Ok(T::Id(i.to_string())),
                Ok(t) => {
                    let w = t.to_string();
                    match reflex::KEYWORDS.iter().chain(reflex::PUNCT).find(|p| **p == w) {
                        Some(p) => Ok(T::P(p)),
                        None => Err("unknown token"),
                    }
                }
                Err(LexingError::InvalidCharacter) => Err("char"),
                Err(LexingError::InvalidNumber { reason: NumberParseError::Overflow, .. }) => Err("overflow"),
                Err(LexingError::InvalidNumber { .. }) => Err("number"),
            };
            ((sp.start, sp.end), r)
        })
        .collect()
}

fn tokens_case(ctx: &Ctx, src: &str) {
    let got = match guarded(src, || imp_tokens(src)) {
        Ok(g) => g,
        Err(e) => return ctx.violate(format!("lexing panicked on {src:?}: {e}"), json!({"text": src})),
    };
    let want = reflex::lex_all(src);
    let w: Vec<_> = want
        .iter()
        .map(|(sp, r)| {
            let r = match r {
                Ok(T::Num(_, Some(s))) if !reflex::SUFFIXES.contains(&s.as_str()) => Err("number"),
                Ok(t) => Ok(t.clone()),
                Err(LexErr::Char) => Err("char"),
                Err(LexErr::Overflow) => Err("overflow"),
                Err(LexErr::Format) => Err("number"),
            };
            (*sp, r)
        })
        .collect();
    ctx.state(&w.iter().map(|(s, r)| (*s, match r {
        Ok(t) => format!("{:?}", std::mem::discriminant(t)),
        Err(e) => e.to_string(),
    })).collect::<Vec<_>>());
    if w.iter().any(|(_, r)| r.is_ok()) {
        ctx.add("traces_validated_against_impl", 1);
    }
    if got != w {
        // An invalid number whose digits also overflow may be reported either way.
        let relax = |v: &[((usize, usize), Result<T, &'static str>)]| -> Vec<_> {
            v.iter().map(|(s, r)| (*s, if *r == Err("overflow") { Err("number") } else { r.clone() })).collect::<Vec<_>>()
        };
        let both_over_ok = relax(&got) == relax(&w) && w.iter().zip(&got).all(|(a, b)| a == b || src[a.0 .0..a.0 .1].bytes().any(|c| c.is_ascii_alphabetic() || c == b'_'));
        if !both_over_ok {
            ctx.violate(format!("tokens of {src:?}\nexpected {w:?}\nactual   {got:?}"), json!({"text": src}));
        }
    }
}

pub fn tokens(ctx: &Ctx) -> i32 {
    let sets: &[(&str, &[&str], usize)] = &[("numbers", NUMS, 5), ("punctuation", OPCH, 4), ("words", WORDS, 4), ("anything", WEIRD, 4)];
    for (name, alpha, len) in sets {
        let len = len + usize::from(ctx.thorough);
        for l in 0..=len {
            let n = alpha.len().pow(l as u32);
            let chunk = 2048;
            ctx.par(n.div_ceil(chunk), |c| {
                let hi = ((c + 1) * chunk).min(n);
                for i in c * chunk..hi {
                    tokens_case(ctx, &nth(alpha, l, i));
                }
                ctx.add("transitions", (hi - c * chunk) as u64);
            });
        }
        ctx.note(format!("{name}: all sequences of up to {len} pieces out of {}", alpha.len()));
    }
    // Value boundaries in every base, with every suffix.
    let mut vals: Vec<u128> = vec![];
    for p in 0..=66 {
        for d in -2i128..=2 {
            let v = (1i128 << p) + d;
            if v >= 0 {
                vals.push(v as u128);
            }
        }
    }
    vals.extend([2147483646, 2147483647, 10u128.pow(19), 10u128.pow(20)]);
    let mut lits = vec![];
    for v in &vals {
        for s in ["", "felt", "u32", "u64", "_1", "x"] {
            for z in ["", "0", "00"] {
                lits.push(format!("{z}{v}{s}"));
                for (p, t) in [("0x", format!("{v:x}")), ("0X", format!("{v:X}")), ("0o", format!("{v:o}")), ("0O", format!("{v:o}")), ("0b", format!("{v:b}")), ("0B", format!("{v:b}"))] {
                    lits.push(format!("{p}{z}{t}{s}"));
                }
            }
        }
    }
    ctx.par(lits.len(), |i| tokens_case(ctx, &lits[i]));
    ctx.add("transitions", lits.len() as u64);
    // The value of a literal, as a program has it.
    ctx.par(lits.len(), |i| total(ctx, &format!("const A = {};", lits[i])));
    ctx.add("transitions", lits.len() as u64);
    // Keywords and identifiers: every keyword with one character changed, added or removed is a name.
    let ks: Vec<&str> = reflex::KEYWORDS.to_vec();
    ctx.par(ks.len(), |i| {
        let w = ks[i];
        let mut v = vec![w.to_string(), w.to_uppercase()];
        for p in 0..=w.len() {
            for c in b'!'..=b'~' {
                v.push(format!("{}{}{}", &w[..p], c as char, &w[p..]));
                if p < w.len() {
                    v.push(format!("{}{}{}", &w[..p], c as char, &w[p + 1..]));
                }
            }
            if p < w.len() {
                v.push(format!("{}{}", &w[..p], &w[p + 1..]));
            }
        }
        for s in &v {
            tokens_case(ctx, s);
        }
        ctx.add("transitions", v.len() as u64);
    });
    for s in ["0xFFfelt", "0b1u32", "99999999999999999999", "0x", "1.0", "a//b\nc", "0felt", "0u32u32"] {
        ctx.sample(json!({"text": s, "tokens": format!("{:?}", imp_tokens(s))}));
    }
    ctx.finish("model_checking", json!({}), &["the reference lexer (harness/src/reflex.rs) states the token language"])
}

// ------------------------------------------------------------------------------- layout and spans

/// Renders the tokens with the given separators (one more than tokens).
pub fn render(toks: &[&str], seps: &[&str]) -> String {
    let mut s = String::new();
    for (i, t) in toks.iter().enumerate() {
        s.push_str(seps[i]);
        s.push_str(t);
    }
    s.push_str(seps[toks.len()]);
    s
}

const SEPS: &[&str] = &["", "\n", "\r\n", "\t ", " // é}{\n", "//\n\n"];

/// As `layouts`, without comments.
pub fn layouts_plain(n: usize, k: usize, f: &mut dyn FnMut(&[&'static str])) {
    layouts(n, k, &mut |s| {
        if s.iter().all(|x| !x.contains("//")) {
            f(s)
        }
    })
}
/// All layouts with at most `k` unusual gaps, the rest single spaces.
fn layouts(n: usize, k: usize, f: &mut dyn FnMut(&[&'static str])) {
    let mut seps = vec![" "; n + 1];
    fn rec(from: usize, k: usize, seps: &mut Vec<&'static str>, f: &mut dyn FnMut(&[&'static str])) {
        f(seps);
        if k == 0 {
            return;
        }
        for i in from..seps.len() {
            for s in SEPS {
                seps[i] = s;
                rec(i + 1, k - 1, seps, f);
            }
            seps[i] = " ";
        }
    }
    rec(0, k, &mut seps, f);
    // all gaps alike
    for s in SEPS {
        f(&vec![*s; n + 1]);
    }
}

pub fn layout(ctx: &Ctx) -> i32 {
    let cut = if ctx.thorough { 1 } else { 0 };
    let langs = [
        Lang { full: 3, deep: 4 + cut, ..c_parse::EXPRS },
        Lang { full: 3, deep: 6 + cut, ..c_parse::STMTS },
        Lang { full: 3, deep: 5 + cut, ..c_parse::STMTS2 },
        Lang { full: 3, deep: 7 + cut, ..c_parse::ITEMS },
        Lang { full: 3, deep: 6 + cut, ..c_parse::TYPES },
        Lang { full: 3, deep: 6 + cut, ..c_parse::PATS },
        Lang { full: 3, deep: 5 + cut, ..c_parse::CONDS },
    ];
    let check = |src: &str| {
        let want: Vec<T> = reflex::lex(src).unwrap().into_iter().map(|t| t.t).collect();
        let toks: Vec<&str> = src.split(' ').filter(|t| !t.is_empty()).collect();
        let k = if toks.len() <= 9 { 2 } else { 1 };
        let mut n = 0;
        layouts(toks.len(), k, &mut |seps| {
            let s = render(&toks, seps);
            n += 1;
            // skip the gluings that make other tokens
            match reflex::lex(&s) {
                Ok(v) if v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| a.t == *b) => {}
                _ => return,
            }
            ctx.add("layouts", 1);
            if let c_parse::Cmp::Differ(w) = c_parse::compare_spans(&s) {
                ctx.violate(format!("layout changes the result: {w}"), json!({"text": s, "plain": src}));
            }
        });
        ctx.add("transitions", n);
    };
    for l in &langs {
        if ctx.stopped() {
            break;
        }
        c_parse::explore(ctx, l, &|_, src, _| check(src));
        if std::env::var("VPMC_TRACE").is_ok() {
            eprintln!("{} {:.1}s", l.name, ctx.elapsed());
        }
    }
    // Real programs: every single gap in turn.
    let corp = corpus();
    let limit = if ctx.thorough { 12_000 } else { 1_500 };
    let sel: Vec<_> = corp.iter().filter(|(_, t)| t.len() <= limit && refparse::parse(t).is_ok()).collect();
    ctx.par(sel.len(), |i| {
        let (name, t) = sel[i];
        let tk = reflex::lex(t).unwrap();
        let toks: Vec<&str> = tk.iter().map(|x| &t[x.sp.0..x.sp.1]).collect();
        let mut n = 0;
        layouts(toks.len(), 1, &mut |seps| {
            let s = render(&toks, seps);
            match reflex::lex(&s) {
                Ok(v) if v.len() == tk.len() && v.iter().zip(&tk).all(|(a, b)| a.t == b.t) => {}
                _ => return,
            }
            n += 1;
            if let c_parse::Cmp::Differ(w) = c_parse::compare_spans(&s) {
                ctx.violate(format!("layout changes the result ({name}): {w}"), json!({"text": s}));
            }
        });
        ctx.add("transitions", n);
        ctx.add("layouts", n);
        ctx.sample(json!({"program": name, "layouts": n}));
    });
    c_parse::known_syntax_pub(ctx, "C05");
    let n = ctx.get("layouts");
    ctx.add("traces_validated_against_impl", n);
    ctx.finish("model_checking", json!({}), &["layouts differ from single spaces in at most two gaps (or in all alike)"])
}
