//! Where diagnostics point, and how they are shown.
use crate::c_lits;
use crate::c_mods::{self, Mods};
use crate::c_stmts::{self, PARAMS, PLACES, VALS};
use crate::sem;
use crate::util::{guarded, Ctx};
use cairo_m_compiler_diagnostics::{build_diagnostic_message, Diagnostic, DiagnosticCode, DiagnosticCollection, DiagnosticSeverity};
use cairo_m_compiler_semantic::db::{project_validate_semantics, SemanticDatabaseImpl};
use serde_json::json;
use std::collections::BTreeMap;

/// (file, span), severity and code, message, related places with their messages.
type Seen = (String, (usize, usize), String, String, Vec<((usize, usize), String)>);

fn all(mods: &Mods) -> Result<Vec<Seen>, String> {
    guarded(&c_mods::show(mods), || {
        let db = SemanticDatabaseImpl::default();
        let (c, _) = sem::make_crate(&db, mods);
        let mut v: Vec<Seen> = project_validate_semantics(&db, c)
            .iter()
            .map(|d| {
                let mut r: Vec<_> = d.related_spans.iter().map(|(s, m)| ((s.start, s.end), m.clone())).collect();
                r.sort();
                (d.file_path.clone(), (d.span.start, d.span.end), format!("{:?} {:?}", d.severity, d.code), d.message.clone(), r)
            })
            .collect();
        v.sort();
        v
    })
}

/// Items, things made of them, and statements that use things
const ITEMS: &str = "const K: u32 = 1; const B = true; const A: [u32; 2] = [1, 2]; const T: (felt, u32) = (1, 2); struct Q { a: felt, b: u32 } const C: Q = Q { a: 1, b: 2 }; fn k(x: felt) -> u32 { return K; } fn v() { return; } fn w(y: u32, z: Q) -> Q { return z; } fn o(a: [u32; 2]) -> u32 { return a[0]; }";
const THINGS: &[&str] = &["K", "B", "A", "T", "C", "k", "v", "Q", "k(1)", "v()", "w(1, C)", "o(A)", "Q { a: 1, b: K }", "A[0]", "A[K]", "T.0", "T.1", "C.b", "C.c", "w(K, C).a", "K + 1", "k(p) - r", "nope", "nope()"];
const USES: &[&str] = &[
    "@E = 1;", "@E = true;", "(@E) = 1;", "@E[0] = 1;", "(@E)[0] = 1;", "@E[0][1] = 1;", "@E.a = 1;", "(@E).a = 1;", "@E.0 = 1;", "((@E).1) = 1;",
    "let z: u32 = @E;", "let z: Q = @E;", "let z: [u32; 2] = @E;", "@E;", "if @E { }", "while !@E { }", "return @E;", "let z = k(@E);", "w(@E, @E);", "o(@E);", "@E();", "@E(1);",
    "let z = @E as u32;", "let z = @E as felt;", "let z = @E + 1;", "let z = 1u32 * @E;", "let z = -@E;", "let z = !@E;", "let (m, n) = @E;", "let z = [@E, 1];", "let z = [@E; 2];", "let z = @E == K;",
    "let z = @E < r;", "let z = @E && B;", "let z = Q { a: @E, b: @E };", "let z = @E { a: 1, b: 2 };", "let z = (@E, 1);", "let z: (felt, u32) = @E;", "assert(@E, 1);", "let z = A[@E];", "let z = @E[r];",
    "for (let i = @E; i < @E; i = i + 1) { v(); }", "const Z: u32 = @E;", "const Z = @E;", "let z = new felt[@E];", "let z: @E = 1;", "let @E = 1;", "const @E = 1;", "{ let z = @E; }", "let z = @E.len();",
];

/// Programs with their items spread over modules: the same diagnostics, each in the file where the
/// construct went.
fn spread(ctx: &Ctx) -> u64 {
    let mut jobs: Vec<(String, String)> = vec![];
    for (place, tpl) in PLACES {
        if tpl.starts_with("fn f") && tpl.contains("fn k") {
            continue;
        }
        for (t, w) in VALS {
            if t.starts_with('[') && (*place == "element of an annotated array" || tpl.contains("new @T")) {
                continue;
            }
            let mut vals: Vec<&str> = VALS.iter().map(|(_, e)| *e).collect();
            vals.extend(c_lits::FORMS.iter().map(|f| f.0).filter(|e| ["1", "1u32", "true"].contains(e)));
            for e in vals {
                jobs.push((place.to_string(), format!("{}{}", c_stmts::PRE, tpl.replace("@P", PARAMS).replace("@T", t).replace("@W", w).replace("@E", e))));
            }
        }
    }
    for s in [
        "const K: u32 = 1; fn f() -> felt { return K; }",
        "const K = 1; fn f() { let x = K; return; }",
        "const K = 1; fn f() { K(); return; }",
        "struct Q { a: felt } fn f() { Q(); return; }",
        "fn k(x: felt, y: u32) -> felt { return x; } fn f() -> felt { return k(true, 1felt); }",
        "fn k(x: felt, y: u32) -> felt { return x; } fn f() -> felt { return k(1); }",
        "fn k(x: felt, y: u32) -> felt { return x; } fn f() -> u32 { return k(1, 2); }",
        "struct Q { a: felt } fn k(q: Q) -> felt { return q.a; } fn f() -> felt { return k(1); }",
        "struct Q { a: felt } fn f(q: Q) -> felt { return q.b + q.a; }",
        "struct Q { a: felt } fn f() -> Q { return Q { a: true }; }",
        "struct Q { a: felt } fn f() -> Q { return Q { a: 1, b: 2 }; }",
        "struct Q { a: felt } fn f() -> Q { return Q { }; }",
        "const K: [u32; 2] = [1, 2]; fn k(a: [u32; 2]) -> u32 { return a[0]; } fn f() -> u32 { return k(K); }",
        "const K: [u32; 2] = [1, 2]; struct Q { a: [u32; 2] } fn f() -> u32 { let q = Q { a: K }; return q.a[0]; }",
        "const K: [u32; 2] = [1, 2]; fn f() -> [u32; 2] { return K; }",
        "const K: [u32; 2] = [1, 2]; fn f() -> u32 { let t = (K, 1); return t.0[0]; }",
        "const K: [u32; 2] = [1, 2]; fn f() -> u32 { return K[2]; }",
        "fn k() { return; } fn f() -> felt { let z = 1; return k; }",
        "fn g() { let z = 1; return; } fn k() { break; return; return; } fn f() -> felt { k(); }",
    ] {
        jobs.push(("plain".into(), s.into()));
    }
    for tpl in USES {
        for e in THINGS {
            jobs.push(("use of an item".into(), format!("{ITEMS} fn f(p: felt, r: u32) -> u32 {{ {} return 1; }}", tpl.replace("@E", e))));
        }
    }
    let n = jobs.len();
    ctx.par(n, |i| {
        let (place, src) = &jobs[i];
        let one = match all(&vec![("main".to_string(), src.clone())]) {
            Ok(v) => v,
            Err(p) => return ctx.violate(format!("analysis panicked ({place}): {p}\n{src}"), json!({"text": src})),
        };
        ctx.outcome(format!("{} diagnostics", one.len().min(5)));
        for k in [1, 2, 3, 9] {
            for (style, many) in [(0, 0), (1, 0), (0, 24), (0, 1)] {
                if !ctx.thorough && (k == 2 || (k == 1 && style == 1)) {
                    continue;
                }
                let Some(mut mods) = c_mods::split(src, k, style) else { continue };
                let at = mods[1].1.len();
                let moved = mods[0].1.len() - (src.len() - at);
                // items that have nothing to do with it
                let filler: String = (0..many).map(|z| format!("fn zz{z}() {{ return; }}\n")).collect();
                let side = if many == 1 { 0 } else { 1 };
                let add = filler.len() * if side == 0 { 20 } else { 1 };
                let pad = if side == 0 { filler.replace("zz0", "zz").lines().cycle().take(20).enumerate().map(|(i, l)| format!("{}\n", l.replace("zz(", &format!("{}(", ["za", "zb", "zc", "zd", "ze", "zf", "zg", "zh", "zi", "zj", "zk", "zl", "zm", "zn", "zo", "zp", "zq", "zr", "zs", "zt"][i])))).collect::<String>() } else { filler.clone() };
                let add = if many == 0 { 0 } else if side == 0 { pad.len() } else { add };
                if many > 0 {
                    // imports stand first: fillers of the importing module go to its end
                    if side == 0 {
                        mods[0].1 += &pad;
                    } else {
                        mods[1].1.insert_str(0, &pad);
                    }
                }
                let shift_m = if many > 0 && side == 1 { add } else { 0 };
                let files: Vec<String> = mods.iter().map(|m| format!("{}.cm", m.0.replace("::", "/"))).collect();
                let to = |(a, b): (usize, usize)| -> (usize, (usize, usize)) {
                    if a >= at {
                        (0, (a - at + moved - 0, b - at + moved))
                    } else {
                        (1, (a + shift_m, b + shift_m))
                    }
                };
                let mut want: Vec<Seen> = one
                    .iter()
                    .map(|d| {
                        let (f, s) = to(d.1);
                        let mut r: Vec<_> = d.4.iter().map(|(s, m)| (to(*s), m.clone())).filter(|r| r.0 .0 == f).map(|(s, m)| (s.1, m)).collect();
                        r.sort();
                        (files[f].clone(), s, d.2.clone(), d.3.clone(), r)
                    })
                    .collect();
                // a constant that another module imports counts as used
                want.retain(|d| !(place == "use of an item" && d.0 == files[1] && d.2 == "Warning UnusedVariable" && ITEMS.contains(&format!("const {}", d.3.split('\'').nth(1).unwrap_or("?")))));
                want.sort();
                ctx.add("transitions", 1);
                match all(&mods) {
                    Err(p) => ctx.violate(format!("analysis panicked ({place}): {p}\n{}", c_mods::show(&mods)), c_mods::rep(&mods)),
                    Ok(mut got) => {
                        // an import that is not used: a warning at its name
                        got.retain(|d| {
                            let own = d.0 == files[0] && d.1 .1 <= moved && d.2 == "Warning UnusedVariable";
                            !(own && d.3 == format!("Unused variable '{}'", &mods[0].1[d.1 .0..d.1 .1]))
                        });
                        // known finding: the note on an imported constant lacks its file
                        let lost: Vec<_> = one.iter().flat_map(|d| d.4.iter().filter(|r| to(r.0).0 != to(d.1).0).map(|r| (to(d.1), (to(r.0).1, r.1.clone())))).filter(|r| ["const defined here", "const variable defined here"].contains(&r.1 .1.as_str())).collect();
                        for d in &mut got {
                            d.4.retain(|r| {
                                let k = ["Error ConstArrayByPointer", "Error AssignmentToConst"].contains(&d.2.as_str()) && lost.iter().any(|(at, l)| files[at.0] == d.0 && at.1 == d.1 && l == r);
                                if k {
                                    ctx.known("imported-const-note");
                                }
                                !k
                            });
                        }
                        if got != want {
                            let g: Vec<_> = got.iter().filter(|d| !want.contains(d)).collect();
                            let w: Vec<_> = want.iter().filter(|d| !got.contains(d)).collect();
                            ctx.violate(format!("with items in another module the diagnostics are others ({place}):\n got  {g:?}\n want {w:?}\n{}", c_mods::show(&mods)), c_mods::rep(&mods));
                        }
                    }
                }
            }
        }
    });
    n as u64
}

const CODES: &[(DiagnosticCode, u32)] = {
    use DiagnosticCode::*;
    &[(LexicalError, 1), (SyntaxError, 2), (UndeclaredVariable, 1001), (UnusedVariable, 1002), (TypeMismatch, 2001), (MissingReturn, 3002), (InternalError, 9001)]
};

/// Line and column (in characters, from 1) of a byte offset.
fn line_col(t: &str, at: usize) -> (usize, usize) {
    if at == t.len() && at > 0 && t.ends_with('\n') {
        // behind the last line break: shown at the end of the line before
        let (l, c) = line_col(t, at - 1);
        return (l, c + 1);
    }
    let lines: Vec<&str> = t[..at].split('\n').collect();
    (lines.len(), lines[lines.len() - 1].chars().count() + 1)
}

/// How diagnostics are shown: every short text, every span in it, with and without a related span.
fn shown(ctx: &Ctx) -> u64 {
    let alpha = ['a', 'é', '(', ' ', '\n', '漢'];
    let max = if ctx.thorough { 6 } else { 5 };
    let mut texts: Vec<String> = vec![String::new()];
    let mut last = texts.clone();
    for _ in 0..max {
        last = last.iter().flat_map(|t| alpha.iter().map(move |c| format!("{t}{c}"))).collect();
        texts.extend(last.iter().cloned());
    }
    for tail in ["fn f() {\n    return 1;\n}\n", "\n\n\nlet é = 漢;\n"] {
        texts.push(tail.into());
    }
    let n = texts.len();
    ctx.par(n, |i| {
        let t = &texts[i];
        let cuts: Vec<usize> = (0..=t.len()).filter(|k| t.is_char_boundary(*k)).collect();
        let mut spans = vec![];
        for &a in &cuts {
            for &b in cuts.iter().filter(|b| **b >= a) {
                spans.push((a, b));
            }
        }
        for (k, &(a, b)) in spans.iter().enumerate() {
            let rels: Vec<Option<(usize, usize)>> = if t.chars().count() > 4 { vec![None, Some(spans[(k * 7 + 3) % spans.len()])] } else { std::iter::once(None).chain(spans.iter().map(|s| Some(*s))).collect() };
            for rel in rels {
                let (code, num) = CODES[(k + i) % CODES.len()];
                let mut d = match (k + i) % 3 {
                    0 => Diagnostic::error(code, "no `x` here".into()),
                    1 => Diagnostic::warning(code, "no `x` here".into()),
                    _ => Diagnostic::info(code, "no `x` here".into()),
                }
                .with_location("d/f.cm".into(), (a..b).into());
                if let Some((c, e)) = rel {
                    d = d.with_related_span("d/f.cm".into(), (c..e).into(), "declared there".into());
                }
                ctx.add("transitions", 1);
                let bad = |what: String, out: &str| ctx.violate(format!("{what}: span {a}..{b}, related {rel:?} of {t:?}\n{out}"), json!({"text": t, "span": [a, b], "related": rel}));
                let out = match guarded(t, || build_diagnostic_message(t, &d, false)) {
                    Ok(o) => o,
                    Err(p) => {
                        bad(format!("showing a diagnostic panics: {p}"), "");
                        continue;
                    }
                };
                let kind = ["Error", "Warning", "Advice"][(k + i) % 3];
                let lines: Vec<&str> = out.lines().collect();
                if lines.first() != Some(&format!("[{num:02}] {kind}: no `x` here").as_str()) {
                    bad("the first line does not name code, severity and message".into(), &out);
                    continue;
                }
                let (l, c) = line_col(t, a);
                if !lines.get(1).is_some_and(|s| s.ends_with(&format!("[ d/f.cm:{l}:{c} ]"))) {
                    bad(format!("the position is not d/f.cm:{l}:{c}"), &out);
                    continue;
                }
                // every label stands below the lines of the text it covers
                let rows: BTreeMap<usize, &str> = lines
                    .iter()
                    .filter_map(|s| {
                        let (n, r) = s.trim_start().split_once(" │ ")?;
                        Some((n.parse().ok()?, r))
                    })
                    .collect();
                let src: Vec<&str> = t.split('\n').collect();
                // the renderer shows an empty place at a line's start behind the line before
                let need: Vec<usize> = std::iter::once((a, b)).chain(rel).filter(|s| s.0 < s.1).map(|s| line_col(t, s.0).0).collect();
                for l in need {
                    if !rows.get(&l).is_some_and(|r| r.ends_with(src[l - 1].trim_end()) ) {
                        bad(format!("line {l} is not shown"), &out);
                    }
                }
                for m in std::iter::once("no `x` here").chain(rel.map(|_| "declared there")) {
                    if !lines[2..].iter().any(|s| s.ends_with(m)) {
                        bad(format!("no label says `{m}`"), &out);
                    }
                }
                // a span within one line is underlined exactly
                if rel.is_none() && a < b && !t[a..b].contains('\n') && !t.contains('漢') {
                    let at = lines.iter().position(|s| s.trim_start().starts_with(&format!("{l} │ "))).unwrap();
                    let marks = lines[at + 1].split_once("│ ").map(|x| x.1).unwrap_or("");
                    let from = marks.chars().take_while(|c| *c == ' ').count();
                    let len = marks.chars().filter(|c| "┬─│".contains(*c)).count();
                    if (from, len) != (c - 1, t[a..b].chars().count()) {
                        bad(format!("the underline covers columns {from}+{len}"), &out);
                    }
                }
                // colours change nothing but colours
                let col = build_diagnostic_message(t, &d, true);
                let mut plain = String::new();
                let mut esc = false;
                for ch in col.chars() {
                    match (esc, ch) {
                        (false, '\u{1b}') => esc = true,
                        (true, 'm') => esc = false,
                        (true, _) => {}
                        _ => plain.push(ch),
                    }
                }
                if plain != out {
                    bad("with colours the text is another".into(), &plain);
                }
            }
        }
    });
    n as u64
}

/// Collections of diagnostics: what they hold and how they select.
fn collections(ctx: &Ctx) -> u64 {
    let mk = |k: usize| {
        let mut d = match k % 3 {
            0 => Diagnostic::error(DiagnosticCode::SyntaxError, format!("m{k}")),
            1 => Diagnostic::warning(DiagnosticCode::UnusedVariable, format!("m{k}")),
            _ => Diagnostic::info(DiagnosticCode::InternalError, format!("m{k}")),
        };
        d = d.with_location(format!("f{}", k % 2), (k..k + 1).into());
        d
    };
    let mut n = 0;
    for len in 0..=5u32 {
        for w in 0..6usize.pow(len) {
            let ks: Vec<usize> = (0..len).map(|i| w / 6usize.pow(i) % 6).collect();
            let v: Vec<Diagnostic> = ks.iter().map(|k| mk(*k)).collect();
            n += 1;
            let mut one = DiagnosticCollection::default();
            for d in &v {
                one.add(d.clone());
            }
            let mut two = DiagnosticCollection::new(v[..v.len() / 2].to_vec());
            two.extend(v[v.len() / 2..].to_vec());
            for c in [&one, &two] {
                let sel = |s: DiagnosticSeverity| v.iter().filter(|d| d.severity == s).cloned().collect::<Vec<_>>();
                let own = |x: Vec<&Diagnostic>| x.into_iter().cloned().collect::<Vec<_>>();
                if c.all() != v || own(c.errors()) != sel(DiagnosticSeverity::Error) || own(c.warnings()) != sel(DiagnosticSeverity::Warning) || c.is_empty() != v.is_empty() || c.len() != v.len() {
                    ctx.violate(format!("a collection of {ks:?} holds {:?}", c.all()), json!(ks));
                }
            }
            ctx.add("transitions", 2);
        }
    }
    n
}

pub fn diags(ctx: &Ctx) -> i32 {
    let s = spread(ctx);
    let r = shown(ctx);
    let c = collections(ctx);
    ctx.add("states", s + r + c);
    ctx.sample(json!({"text": "aé\nbc d", "span": [4, 5]}));
    ctx.finish("model_checking", json!({"programs_spread": s, "texts_shown": r, "collections": c, "exhaustive": true, "bounds": {"text_length": if ctx.thorough {6} else {5}, "collection": 5}}), &[])
}
