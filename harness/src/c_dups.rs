//! Duplicate names: items, parameters, fields, pattern variables.
use crate::refparse;
use crate::sem;
use crate::tree::N;
use crate::util::Ctx;
use serde_json::json;
use std::collections::{BTreeSet, HashSet};

type S = (usize, usize);
fn dup<'a>(ids: impl Iterator<Item = &'a N>, code: &'static str, out: &mut BTreeSet<(S, &'static str)>) {
    let mut seen = HashSet::new();
    for i in ids {
        if !seen.insert(i.l.clone()) {
            out.insert((i.sp.unwrap(), code));
        }
    }
}
fn idents<'a>(n: &'a N, out: &mut Vec<&'a N>) {
    if n.l.starts_with("id:") {
        out.push(n);
    }
    n.k.iter().for_each(|k| idents(k, out));
}
/// Every place where a name is given a second time.
pub fn expected(m: &N) -> BTreeSet<(S, &'static str)> {
    let mut out = BTreeSet::new();
    let mut items = vec![];
    for i in &m.k {
        match i.l.as_str() {
            "fn" | "structDef" | "constT" => items.push(&i.k[0]),
            "use" => idents(i.k.last().unwrap(), &mut items),
            x => panic!("item {x}"),
        }
        if i.l == "fn" {
            if let Some(p) = i.k.iter().find(|k| k.l == "params") {
                dup(p.k.iter().map(|p| &p.k[0]), "DuplicateParameter", &mut out);
            }
        }
        if i.l == "structDef" {
            dup(i.k[1..].iter().step_by(2), "DuplicateStructField", &mut out);
        }
    }
    dup(items.into_iter(), "DuplicateDefinition", &mut out);
    m.walk(&mut |n| {
        if n.l == "let" {
            let mut v = vec![];
            idents(&n.k[0], &mut v);
            dup(v.into_iter(), "DuplicatePatternIdentifier", &mut out);
        }
    });
    out
}
fn judge(ctx: &Ctx, src: &str) {
    let Ok(m) = refparse::parse(src) else {
        ctx.add("not_programs", 1);
        return;
    };
    ctx.add("transitions", 1);
    let exp = expected(&m);
    let ds = match sem::analyze1(src) {
        Ok(d) => d,
        Err(p) => return ctx.violate(format!("analysis panicked: {p}\n{src}"), json!({"text": src})),
    };
    let codes = ["DuplicateParameter", "DuplicateStructField", "DuplicateDefinition", "DuplicatePatternIdentifier"];
    let mine: Vec<_> = ds.iter().filter(|d| codes.contains(&d.code.as_str())).collect();
    let got: BTreeSet<(S, &str)> = mine.iter().map(|d| (d.span, *codes.iter().find(|c| **c == d.code).unwrap())).collect();
    if got != exp {
        return ctx.violate(format!("names given twice: expected {exp:?}, reported {got:?}\n{src}"), json!({"text": src}));
    }
    if let Some(d) = mine.iter().find(|d| !d.err || d.file != "main.cm" || !d.msg.contains(&src[d.span.0..d.span.1])) {
        return ctx.violate(format!("the report is no error naming its name: {d:?}\n{src}"), json!({"text": src}));
    }
    ctx.outcome(format!("{} duplicates", exp.len()));
    ctx.state(&exp);
}

fn seqs(n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut v = vec![vec![]];
    for _ in 0..k {
        v = v.into_iter().flat_map(|x: Vec<usize>| (0..n).map(move |i| { let mut y = x.clone(); y.push(i); y })).collect();
    }
    v
}

pub fn dups(ctx: &Ctx) -> i32 {
    let mut jobs = vec![];
    let names = ["a", "b", "c"];
    // items
    let kinds = ["fn @() { return; }", "struct @ { x: felt }", "const @ = 1;", "use m::@;", "use m::{@, c};"];
    let mut forms = vec![];
    for k in kinds {
        for n in ["a", "b"] {
            forms.push(k.replace('@', n));
        }
    }
    forms.push("use m::{a, a};".into());
    forms.push("use m::{a, b};".into());
    forms.push("fn c(a: felt, a: felt) { let a = 1; let a = 2; return; }".into());
    for k in 1..=if ctx.thorough { 4 } else { 3 } {
        for s in seqs(forms.len(), k) {
            jobs.push(s.iter().map(|i| forms[*i].as_str()).collect::<Vec<_>>().join(" "));
        }
    }
    // parameters and fields
    for k in 0..=4 {
        for s in seqs(3, k) {
            let l: Vec<_> = s.iter().map(|i| format!("{}: felt", names[*i])).collect();
            let l = l.join(", ");
            jobs.push(format!("fn f({l}) {{ return; }}"));
            jobs.push(format!("struct S {{ {l} }}"));
            jobs.push(format!("struct S {{ {l} }} fn f(a: S, {l}) {{ return; }} fn g({l}) {{ return; }} struct T {{ {l} }}"));
        }
    }
    // patterns, in every statement position
    let shapes = ["(@, @)", "(@, @, @)", "((@, @), @)", "(@, (@, @))", "((@, @), (@, @))", "(@, (@, (@, @)))"];
    let places = [
        "fn f() { let @ = g(); return; }",
        "fn f() { { let @ = g(); } return; }",
        "fn f() { if true { let @ = g(); } return; }",
        "fn f() { if true { return; } else { let @ = g(); } return; }",
        "fn f() { if true { return; } else if true { let @ = g(); } return; }",
        "fn f() { loop { let @ = g(); break; } return; }",
        "fn f() { while true { let @ = g(); } return; }",
        "fn f() { for (let i = 0; i != 1; i = i + 1) { let @ = g(); } return; }",
        "fn f() { for (let @ = g(); true; i = 1) { return; } return; }",
        "fn f() { for (let i = 0; i != 1; i = i + 1) { while true { if true { let @ = g(); } } } return; }",
        "fn f() { return; } fn h() { let a = 1; let @ = g(); return; }",
        "fn f(a: felt) { let @ = g(); let @ = g(); return; }",
        "fn f() { let @: ((felt, felt), felt) = g(); return; }",
    ];
    for sh in shapes {
        let h = sh.matches('@').count();
        for s in seqs(3, h) {
            let mut it = s.iter();
            let p: String = sh.split('@').enumerate().map(|(i, x)| if i == 0 { x.to_string() } else { format!("{}{x}", names[*it.next().unwrap()]) }).collect();
            for pl in places {
                jobs.push(pl.replace('@', &p));
            }
        }
    }
    let n = jobs.len();
    let ch = 32;
    ctx.par(n.div_ceil(ch), |i| jobs[i * ch..((i + 1) * ch).min(n)].iter().for_each(|s| judge(ctx, s)));
    for j in jobs.iter().step_by(n / 8 + 1) {
        ctx.sample(json!(j));
    }
    ctx.finish("model_checking", json!({"programs": n, "exhaustive": true, "bounds": {"items": if ctx.thorough {4} else {3}, "parameters": 4, "pattern_names": 4}}), &["reference parser (C04) is right"])
}
