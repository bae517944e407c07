//! Formatter checks: meaning (C06), idempotence (C07), comments (C08), canonical form (C09).
use crate::c_parse::{self, Lang};
use crate::c_text::{self, corpus};
use crate::imp;
use crate::reflex::{self, T};
use crate::refparse;
use crate::tree::N;
use crate::util::Ctx;
use cairo_m_formatter::config::NewlineStyle;
use cairo_m_formatter::FormatterConfig;
use serde_json::json;

fn cfg(max_width: usize, indent_width: u32) -> FormatterConfig {
    FormatterConfig { max_width, indent_width, trailing_comma: false, newline_style: NewlineStyle::Auto }
}
fn cfgs() -> Vec<FormatterConfig> {
    let mut v = vec![cfg(100, 4), cfg(6, 2), cfg(1, 1), cfg(30, 0)];
    v.push(FormatterConfig { trailing_comma: true, newline_style: NewlineStyle::Unix, ..cfg(100, 4) });
    v
}
fn fmt(ctx: &Ctx, src: &str, c: &FormatterConfig) -> Option<String> {
    match imp::format(src, c) {
        Ok(s) => Some(s),
        Err(e) => {
            ctx.violate(format!("formatting panicked on {src:?}: {e}"), json!({"text": src}));
            None
        }
    }
}
fn langs(thorough: bool) -> Vec<Lang> {
    let c = usize::from(thorough);
    vec![
        Lang { full: 3, deep: 5 + c, ..c_parse::EXPRS },
        Lang { full: 3, deep: 4 + c, ..c_parse::OPS },
        Lang { full: 3, deep: 7 + c, ..c_parse::STMTS },
        Lang { full: 3, deep: 6 + c, ..c_parse::STMTS2 },
        Lang { full: 3, deep: 8 + c, ..c_parse::ITEMS },
        Lang { full: 3, deep: 7 + c, ..c_parse::TYPES },
        Lang { full: 3, deep: 7 + c, ..c_parse::PATS },
        Lang { full: 3, deep: 5 + c, ..c_parse::CONDS },
        Lang { full: 3, deep: 8 + c, ..c_parse::FORS },
    ]
}
/// Runs `f` on every program of the small languages and on every corpus program.
fn programs(ctx: &Ctx, light: bool, f: &(dyn Fn(&str, &N) + Sync)) {
    for mut l in langs(ctx.thorough) {
        if light && l.name == c_parse::STMTS2.name {
            l.deep = if ctx.thorough { 6 } else { 4 };
        }
        if ctx.stopped() {
            return;
        }
        c_parse::explore_with(ctx, &l, false, &|_, s, t| f(s, t));
        if std::env::var("VPMC_TRACE").is_ok() {
            eprintln!("{} {:.1}s", l.name, ctx.elapsed());
        }
    }
    let corp: Vec<_> = corpus().into_iter().filter_map(|(_, t)| refparse::parse(&t).ok().map(|n| (t, n))).collect();
    ctx.par(corp.len(), |i| f(&corp[i].0, &corp[i].1));
    ctx.add("corpus_programs", corp.len() as u64);
    ctx.add("transitions", corp.len() as u64);
}
fn same_meaning(a: &N, b: &N) -> bool {
    a.strip_parens().shape_eq(&b.strip_parens())
}

fn meaning(ctx: &Ctx, src: &str, t: &N, c: &FormatterConfig) -> Option<String> {
    let out = fmt(ctx, src, c)?;
    ctx.add("traces_validated_against_impl", 1);
    ctx.state(&out);
    match imp::parse(&out) {
        Ok(p) => match p.tree {
            Some(t2) if same_meaning(t, &t2) => {}
            Some(t2) => ctx.violate(
                format!("formatting changes the program {src:?} (width {}, indent {})\noutput {out:?}\nbefore {}\nafter  {}", c.max_width, c.indent_width, t.show(), t2.show()),
                json!({"text": src, "output": out}),
            ),
            None => ctx.violate(format!("formatted text of {src:?} does not parse: {out:?}"), json!({"text": src, "output": out})),
        },
        Err(e) => ctx.violate(format!("parsing the formatted text panicked: {out:?}: {e}"), json!({"text": src})),
    }
    Some(out)
}

pub fn preserve(ctx: &Ctx) -> i32 {
    let cs = cfgs();
    programs(ctx, false, &|src, t| {
        for c in &cs {
            if let Some(o) = meaning(ctx, src, t, c) {
                if ctx.get("traces_validated_against_impl").is_power_of_two() {
                    ctx.sample(json!({"text": src, "output": o}));
                }
            }
        }
    });
    literals(ctx, &|src| {
        let t = refparse::parse(src).unwrap();
        meaning(ctx, src, &t, &cs[0]);
    });
    ctx.finish("model_checking", json!({}), &["two programs are the same when their trees are, redundant parentheses aside"])
}

fn literals(ctx: &Ctx, f: &(dyn Fn(&str) + Sync)) {
    let mut v = vec![];
    for b in ["0", "1", "007", "2147483646", "2147483647", "4294967295", "4294967296", "18446744073709551615", "0x0", "0xff", "0XFF", "0o17", "0b101", "0xdead"] {
        for s in ["", "felt", "u32"] {
            v.push(format!("const A = {b}{s};"));
            v.push(format!("fn f() {{ let a = [{b}{s}; {b}]; return -{b}{s}; }}"));
            v.push(format!("fn f(x: [felt; {b}]) {{ a.{b}; }}"));
        }
    }
    ctx.par(v.len(), |i| {
        if refparse::parse(&v[i]).is_ok() {
            f(&v[i]);
            ctx.add("transitions", 1);
        }
    });
}

fn idem(ctx: &Ctx, src: &str, c: &FormatterConfig) {
    let Some(a) = fmt(ctx, src, c) else { return };
    let Some(b) = fmt(ctx, &a, c) else { return };
    ctx.add("traces_validated_against_impl", 1);
    ctx.state(&a);
    if a != b {
        ctx.violate(format!("formatting is not idempotent on {src:?} (width {}, indent {})\nonce  {a:?}\ntwice {b:?}", c.max_width, c.indent_width), json!({"text": src, "once": a, "twice": b}));
    }
}
pub fn idempotent(ctx: &Ctx) -> i32 {
    let cs = cfgs();
    let thorough = ctx.thorough;
    programs(ctx, false, &|src, _| {
        for c in &cs {
            idem(ctx, src, c);
        }
        if src.len() < if thorough { 60 } else { 44 } {
            each_comment(src, &mut |s| {
                idem(ctx, s, &cs[0]);
                ctx.add("transitions", 1);
            });
        }
    });
    literals(ctx, &|src| idem(ctx, src, &cs[0]));
    for s in ["", "// only\n", "fn f() {}", "const A = 1; // x"] {
        idem(ctx, s, &cs[0]);
        ctx.sample(json!({"text": s, "output": fmt(ctx, s, &cs[0])}));
    }
    ctx.finish("model_checking", json!({}), &[])
}

// ---------------------------------------------------------------------------------------- comments

const FORMS: &[(&str, &str)] = &[("\n// c1\n", "own line"), (" // c1\n", "end of line"), ("\n\n  // é {;}\n\n", "spaced, odd text")];

fn toks_of(src: &str) -> Vec<&str> {
    reflex::lex(src).unwrap().iter().map(|x| &src[x.sp.0..x.sp.1]).collect()
}
/// The program with each form of comment in each gap.
fn each_comment(src: &str, f: &mut dyn FnMut(&str)) {
    let tk = reflex::lex(src).unwrap();
    for g in 0..=tk.len() {
        let at = if g < tk.len() { tk[g].sp.0 } else { src.len() };
        for (form, _) in FORMS {
            f(&format!("{}{form}{}", &src[..at], &src[at..]));
        }
    }
}

/// Each comment (text) with the number of stable tokens before it. Tokens that formatting may add
/// or drop (commas and parentheses, `-> ()`) do not count.
fn comment_places(src: &str) -> Option<Vec<(String, usize)>> {
    let toks = reflex::lex(src).ok()?;
    let mut out = vec![];
    let b = src.as_bytes();
    let mut i = 0;
    // comments are outside tokens: scan the gaps
    let mut ti = 0;
    let mut stable = 0;
    while i < b.len() {
        if ti < toks.len() && toks[ti].sp.0 == i {
            if !matches!(&toks[ti].t, T::P("," | "(" | ")" | "->")) {
                stable += 1;
            }
            i = toks[ti].sp.1;
            ti += 1;
            continue;
        }
        if b[i] == b'/' {
            let e = src[i..].find('\n').map(|x| i + x).unwrap_or(src.len());
            out.push((src[i..e].trim_end().to_string(), stable));
            i = e;
            continue;
        }
        i += 1;
    }
    Some(out)
}

/// For the gap before each token (and the end): does an item, field or statement start there, and
/// did one end just before it?
fn boundaries(src: &str, t: &N) -> Vec<(bool, bool)> {
    let tk = reflex::lex(src).unwrap();
    let mut starts = std::collections::HashSet::new();
    let mut ends = std::collections::HashSet::new();
    fn stmts(list: &[N], starts: &mut std::collections::HashSet<usize>, ends: &mut std::collections::HashSet<usize>) {
        for s in list {
            let sp = s.sp.unwrap();
            starts.insert(sp.0);
            ends.insert(sp.1);
            inner(s, starts, ends);
        }
    }
    fn inner(s: &N, starts: &mut std::collections::HashSet<usize>, ends: &mut std::collections::HashSet<usize>) {
        match s.l.as_str() {
            "block" => stmts(&s.k, starts, ends),
            "if" | "while" => s.k[1..].iter().for_each(|x| inner(x, starts, ends)),
            "loop" => inner(&s.k[0], starts, ends),
            "for" => inner(&s.k[3], starts, ends),
            _ => {}
        }
    }
    for it in &t.k {
        let sp = it.sp.unwrap();
        starts.insert(sp.0);
        ends.insert(sp.1);
        if it.l == "fn" {
            stmts(&it.k[3].k, &mut starts, &mut ends);
        }
        if it.l == "structDef" {
            for f in it.k[1..].chunks(2) {
                starts.insert(f[0].sp.unwrap().0);
                ends.insert(f[1].sp.unwrap().1);
            }
        }
    }
    (0..=tk.len())
        .map(|g| {
            let st = g < tk.len() && starts.contains(&tk[g].sp.0);
            let mut h = g;
            while h > 0 && tk[h - 1].t == T::P(",") {
                h -= 1;
            }
            let en = h > 0 && ends.contains(&tk[h - 1].sp.1) && (h < g || g == tk.len() || tk[g].t != T::P(","));
            (st, en)
        })
        .collect()
}

fn comments_kept(ctx: &Ctx, src: &str, c: &FormatterConfig) -> Option<String> {
    let out = fmt(ctx, src, c)?;
    let (a, b) = (comment_places(src)?, comment_places(&out));
    let Some(b) = b else {
        ctx.violate(format!("formatted text of {src:?} has no tokens: {out:?}"), json!({"text": src, "output": out}));
        return None;
    };
    ctx.add("traces_validated_against_impl", 1);
    if a != b {
        ctx.violate(format!("a comment is lost, changed or moved\ninput  {src:?}\noutput {out:?}\nbefore {a:?}\nafter  {b:?}"), json!({"text": src, "output": out}));
    }
    Some(out)
}

pub fn comments(ctx: &Ctx) -> i32 {
    let c4 = cfg(100, 4);
    let narrow = cfg(6, 2);
    let max2 = if ctx.thorough { 44 } else { 30 };
    programs(ctx, true, &|src, t| {
        let tk = reflex::lex(src).unwrap();
        if tk.len() > 400 {
            return;
        }
        let toks = toks_of(src);
        let plain = match fmt(ctx, src, &c4) {
            Some(p) => p,
            None => return,
        };
        let bounds = boundaries(src, t);
        let mut n = 0;
        let at = |g: usize| if g < tk.len() { tk[g].sp.0 } else { src.len() };
        let has_comments = comment_places(src).is_some_and(|c| !c.is_empty());
        for g in 0..=toks.len() {
            for (form, name) in FORMS {
                let s = format!("{}{form}{}", &src[..at(g)], &src[at(g)..]);
                n += 1;
                let Some(out) = comments_kept(ctx, &s, &c4) else { continue };
                if let Ok(p) = imp::parse(&out) {
                    if !p.tree.is_some_and(|t2| same_meaning(t, &t2)) {
                        ctx.violate(format!("formatting changes the program {s:?}: {out:?}"), json!({"text": s, "output": out}));
                    }
                }
                // At the boundary of an item, field or statement the rest is formatted all the same.
                let (st, en) = bounds[g];
                if (en || st && form.starts_with('\n')) && !has_comments {
                    let bare = strip_comments(&out);
                    if bare != plain {
                        ctx.violate(
                            format!("a comment ({name}) between constructs keeps the rest from being formatted\ninput  {s:?}\noutput {out:?}\nwithout the comment {plain:?}"),
                            json!({"text": s, "output": out, "plain": plain}),
                        );
                    }
                    ctx.add("boundary_comments", 1);
                }
            }
        }
        if src.len() <= max2 {
            for g in 0..=toks.len() {
                for h in g..=toks.len() {
                    for (f1, f2) in [("\n// c1\n", " // c2\n"), (" // c1\n", "\n// c2\n"), (" //\n", " // c1\n")] {
                        let s = format!("{}{f1}{}{f2}{}", &src[..at(g)], &src[at(g)..at(h)], &src[at(h)..]);
                        n += 2;
                        comments_kept(ctx, &s, &c4);
                        comments_kept(ctx, &s, &narrow);
                    }
                }
            }
        }
        ctx.add("transitions", n);
        ctx.state(&plain);
    });
    for s in ["// a\nfn f() { // b\n let x = 1; // c\n // d\n}\n// e", "struct S { // a\n x: felt, // b\n}"] {
        ctx.sample(json!({"text": s, "output": fmt(ctx, s, &c4)}));
    }
    ctx.finish("model_checking", json!({}), &["at most two comments are added to a program (corpus programs have their own as well)"])
}

/// The text without its comments and the lines that held nothing else.
fn strip_comments(s: &str) -> String {
    let mut out = String::new();
    for l in s.split_inclusive('\n') {
        match l.find("//") {
            None => out.push_str(l),
            Some(i) => {
                let head = l[..i].trim_end();
                if !head.is_empty() {
                    out.push_str(head);
                    out.push('\n');
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------------------------- canonical form

fn canonical(ctx: &Ctx, src: &str, out: &str, c: &FormatterConfig) {
    let bad = |w: &str| {
        ctx.violate(format!("{w}\ninput  {src:?}\noutput {out:?} (indent {})", c.indent_width), json!({"text": src, "output": out}));
    };
    if !out.is_empty() && !out.ends_with('\n') || out.ends_with("\n\n") || out.starts_with('\n') {
        bad("formatted text does not end with one line break");
    }
    let toks = reflex::lex(out).unwrap_or_default();
    let mut depth = 0usize;
    let mut ti = 0;
    let mut pos = 0;
    for l in out.split_inclusive('\n') {
        let line = l.strip_suffix('\n').unwrap_or(l);
        if line.ends_with([' ', '\t', '\r']) {
            return bad("line with trailing space");
        }
        let lead = line.len() - line.trim_start_matches(' ').len();
        let end = pos + l.len();
        let first = toks.get(ti).filter(|t| t.sp.0 < end);
        if let Some(f) = first {
            let d = if f.t == T::P("}") { depth.saturating_sub(1) } else { depth };
            if lead != d * c.indent_width as usize {
                return bad("line not indented by its nesting depth");
            }
        }
        while let Some(t) = toks.get(ti).filter(|t| t.sp.0 < end) {
            match t.t {
                T::P("{") => depth += 1,
                T::P("}") => depth = depth.saturating_sub(1),
                _ => {}
            }
            ti += 1;
        }
        pos = end;
    }
}

pub fn canon(ctx: &Ctx) -> i32 {
    let wide = [cfg(100_000, 4), cfg(100_000, 2), cfg(100_000, 3), cfg(100_000, 0)];
    let thorough = ctx.thorough;
    programs(ctx, true, &|src, _| {
        let has_comments = src.contains("//");
        for c in &wide {
            let Some(out) = fmt(ctx, src, c) else { return };
            ctx.state(&out);
            if !has_comments {
                canonical(ctx, src, &out, c);
            }
        }
        // Any other layout of the same tokens gives the same text.
        if has_comments {
            return;
        }
        let toks = toks_of(src);
        let Some(plain) = fmt(ctx, src, &wide[0]) else { return };
        let k = if toks.len() <= 12 && thorough { 2 } else { 1 };
        if toks.len() > 300 {
            return;
        }
        let mut n = 0;
        let want: Vec<T> = reflex::lex(src).unwrap().into_iter().map(|t| t.t).collect();
        c_text::layouts_plain(toks.len(), k, &mut |seps| {
            let s = c_text::render(&toks, seps);
            match reflex::lex(&s) {
                Ok(v) if v.len() == want.len() && v.iter().zip(&want).all(|(a, b)| a.t == *b) => {}
                _ => return,
            }
            n += 1;
            if let Some(o) = fmt(ctx, &s, &wide[0]) {
                if o != plain {
                    ctx.violate(format!("the layout of the input shows in the output\ninput  {s:?}\noutput {o:?}\nother  {plain:?}"), json!({"text": s, "output": o, "plain": plain}));
                }
            }
        });
        ctx.add("transitions", n);
        ctx.add("traces_validated_against_impl", n);
    });
    // Text that is no program comes back unchanged.
    let n = std::sync::atomic::AtomicU64::new(0);
    for l in [Lang { full: 3, deep: 4, ..c_parse::STMTS }, Lang { full: 3, deep: 5, ..c_parse::ITEMS }, Lang { full: 3, deep: 4, ..c_parse::EXPRS }] {
        let a = l.alpha.len();
        for len in 1..=3usize {
            ctx.par(a.pow(len as u32), |i| {
                let mut s = format!("{}  ", l.pre);
                let mut j = i;
                for _ in 0..len {
                    s.push_str(l.alpha[j % a]);
                    s.push_str("  // c\n");
                    j /= a;
                }
                s.push_str(l.post);
                if refparse::parse(&s).is_err() {
                    n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                    if let Some(o) = fmt(ctx, &s, &wide[0]) {
                        if o != s {
                            ctx.violate(format!("text that does not parse was changed: {s:?} -> {o:?}"), json!({"text": s, "output": o}));
                        }
                    }
                }
            });
        }
    }
    let n = n.into_inner();
    ctx.add("unparsable_texts", n);
    ctx.add("transitions", n);
    ctx.sample(json!({"text": "fn f(){let x=1;}", "output": fmt(ctx, "fn f(){let x=1;}", &wide[0])}));
    ctx.finish("model_checking", json!({}), &["indentation is judged with lines that do not wrap"])
}
