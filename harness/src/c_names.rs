//! Name resolution and unused-variable checks.
use crate::gen::forests;
use crate::refnames::{Res, K};
use crate::refparse;
use crate::sem;
use crate::util::Ctx;
use serde_json::json;
use std::collections::BTreeSet;

const WRAPS: &[(&str, &str)] = &[
    ("fn f() { ", " return; }"),
    ("fn f(a: felt) { ", " return; }"),
    ("const a = 1; fn f(b: felt) { ", " return; }"),
    ("fn f() { ", " return; } const a = 1; const b = a;"),
    ("fn g() { let b = 1; return; } fn f() { ", " return; } fn a() { return; }"),
    ("fn f() { { let a = 1; } ", " return; } fn b(a: felt) { return; }"),
];
const NODES: &[&str] = &[
    "{ @ }",
    "if a == 1 { @ }",
    "if 1 == 1 { @ } else { @ }",
    "while b == 1 { @ }",
    "for (let a = b; a != 1; a = b) { @ }",
    "loop { @ break; }",
];
fn leaves(rich: bool) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for n in ["a", "b"] {
        for e in ["1", "a", "b"] {
            v.push(format!("let {n} = {e};"));
        }
    }
    for (n, e) in [("a", "1"), ("a", "b"), ("b", "a")] {
        v.push(format!("{n} = {e};"));
    }
    v.push("a;".into());
    v.push("const b = a;".into());
    v.push("let (a, b) = (b, a);".into());
    if rich {
        for s in [
            "f();", "a(b);", "let _a = a;", "_a;", "let c = a + b;", "c;", "let a: felt = a + a;", "const a: felt = 1;", "assert(a == b);",
            "a[b] = c;", "a.b = c;", "let b = a.b;", "let (a, (b, c)) = (1, (a, b));", "b = (a, b).0;", "let a = -a;", "let b = [a, b];",
        ] {
            v.push(s.into());
        }
    }
    v
}

/// What the rules say about one module. None: the text is not a program.
pub fn expected(src: &str) -> Option<Res> {
    refparse::parse(src).ok().map(|t| Res::module(&t))
}

fn check_resolution(ctx: &Ctx, src: &str) {
    let Some(r) = expected(src) else {
        ctx.add("not_programs", 1);
        return;
    };
    let n = match sem::names(src) {
        Ok(n) => n,
        Err(p) => return ctx.violate(format!("analysis panicked on\n{src}\n{p}"), json!({"text": src})),
    };
    ctx.add("transitions", 1);
    let mut exp: Vec<_> = r.uses.iter().map(|(sp, _, d)| (*sp, d.map(|d| r.defs[d].sp))).collect();
    let mut act = n.uses.clone();
    exp.sort();
    act.sort();
    if exp != act {
        let bad = exp.iter().filter(|x| !act.contains(x)).map(|(u, d)| {
            let got = act.iter().find(|(s, _)| s == u).map(|x| x.1);
            format!("use {u:?} of {:?}: expected definition {d:?}, got {got:?}", &src[u.0..u.1])
        }).collect::<Vec<_>>().join("\n");
        return ctx.violate(format!("a name resolves to another definition in\n{src}\n{bad}"), json!({"text": src}));
    }
    let und: BTreeSet<&str> = r.uses.iter().filter(|(_, n, d)| d.is_none() && n != "assert").map(|x| x.1.as_str()).collect();
    let got: Vec<_> = n.diags.iter().filter(|d| d.code == "UndeclaredVariable").collect();
    let gots: BTreeSet<&str> = got.iter().map(|d| &src[d.span.0..d.span.1]).collect();
    if und != gots {
        return ctx.violate(format!("undeclared names: expected {und:?}, reported {gots:?} in\n{src}"), json!({"text": src}));
    }
    for g in &got {
        if !g.err || g.file != "main.cm" || !r.uses.iter().any(|(sp, _, d)| *sp == g.span && d.is_none()) {
            return ctx.violate(format!("undeclared-variable error at {:?}, which is no undeclared use, in\n{src}", g.span), json!({"text": src}));
        }
    }
    let sig: Vec<_> = r.uses.iter().map(|u| u.2).collect();
    ctx.state(&sig);
    ctx.outcome(if und.is_empty() { "all names resolve" } else { "undeclared names" });
}

fn check_unused(ctx: &Ctx, src: &str) {
    let Some(r) = expected(src) else {
        ctx.add("not_programs", 1);
        return;
    };
    let ds = match sem::analyze1(src) {
        Ok(n) => n,
        Err(p) => return ctx.violate(format!("analysis panicked on\n{src}\n{p}"), json!({"text": src})),
    };
    ctx.add("transitions", 1);
    let mut exp: Vec<_> = r.defs.iter().filter(|d| !d.used && !d.name.starts_with('_') && !matches!(d.kind, K::Fn | K::Struct)).map(|d| d.sp).collect();
    exp.sort();
    let mut got: Vec<_> = ds.iter().filter(|d| d.code == "UnusedVariable").map(|d| d.span).collect();
    got.sort();
    if exp != got {
        return ctx.violate(format!("unused warnings: expected at {exp:?}, reported at {got:?} in\n{src}"), json!({"text": src}));
    }
    for g in ds.iter().filter(|d| d.code == "UnusedVariable") {
        if g.err || g.file != "main.cm" || !g.msg.contains(&src[g.span.0..g.span.1]) {
            return ctx.violate(format!("unused warning is no warning naming its variable: {g:?} in\n{src}"), json!({"text": src}));
        }
    }
    ctx.state(&exp);
    ctx.outcome(format!("{} unused", exp.len()));
}

fn run(ctx: &Ctx, judge: fn(&Ctx, &str), extra: &[String]) -> usize {
    let max = if ctx.thorough { 4 } else { 3 };
    let fo = forests(&leaves(false), NODES, max);
    let rich = forests(&leaves(true), NODES, 2);
    let mut jobs: Vec<String> = extra.to_vec();
    for (pre, post) in WRAPS {
        for (k, f) in fo.iter().enumerate() {
            if k == 4 && !std::ptr::eq(*pre, WRAPS[1].0) && !std::ptr::eq(*pre, WRAPS[0].0) {
                continue;
            }
            jobs.extend(f.iter().map(|b| format!("{pre}{b}{post}")));
        }
        jobs.extend(rich.iter().flatten().map(|b| format!("{pre}{b}{post}")));
    }
    let n = jobs.len();
    let ch = 64;
    ctx.par(n.div_ceil(ch), |i| {
        for s in &jobs[i * ch..((i + 1) * ch).min(n)] {
            if ctx.stopped() {
                return;
            }
            judge(ctx, s);
        }
    });
    for s in jobs.iter().step_by(jobs.len() / 8 + 1) {
        ctx.sample(json!(s));
    }
    n
}

/// Programs about type names: every position of a type name, with every kind of definition of it.
pub fn type_programs() -> Vec<(String, bool)> {
    let pos = [
        "fn f(x: @) { return; }",
        "fn f() -> @ { loop {} return; }",
        "fn f() { let x: @ = g(); return; }",
        "fn f() { const x: @ = 1; return; }",
        "const X: @ = 1;",
        "struct R { x: @ }",
        "fn f(x: @*) { return; }",
        "fn f(x: [@; 2]) { return; }",
        "fn f(x: (felt, @)) { return; }",
        "struct R { y: felt, x: (@, felt)* }",
        "fn f() { let x = new @[3]; return; }",
        "fn f() { let x = @ { a: 1 }; return; }",
        "fn f() { if true { let x: @* = g(); } return; }",
        "fn f() { { let y = @ { a: 1 }; } return; }",
        "fn f() { while true { let x = [@ { a: 1 }]; } return; }",
    ];
    let defs = [
        ("", false),
        ("struct T { a: felt }", true),
        ("struct U { a: felt }", false),
        ("fn T() { return; }", false),
        ("const T = 1;", false),
    ];
    let mut v = vec![];
    for p in pos {
        for (d, ok) in defs {
            let q = p.replace('@', "T");
            v.push((format!("{d} {q}"), ok));
            v.push((format!("{q} {d}"), ok));
        }
    }
    v
}

pub fn resolution(ctx: &Ctx) -> i32 {
    let n = run(ctx, check_resolution, &[]);
    for (src, ok) in type_programs() {
        match sem::analyze1(&src) {
            Err(p) => ctx.violate(format!("analysis panicked on\n{src}\n{p}"), json!({"text": src})),
            Ok(ds) => {
                ctx.add("transitions", 1);
                let u: Vec<_> = ds.iter().filter(|d| d.code == "UndeclaredType").collect();
                let good = if ok { u.is_empty() } else { !u.is_empty() && u.iter().all(|d| d.err && &src[d.span.0..d.span.1] == "T") };
                if !good {
                    ctx.violate(format!("type name T {} in\n{src}\nreported {u:?}", if ok { "is declared" } else { "is not declared" }), json!({"text": src}));
                }
            }
        }
    }
    ctx.finish("model_checking", json!({"programs": n, "exhaustive": true, "bounds": {"statements": if ctx.thorough {4} else {3}, "names": 2, "contexts": WRAPS.len()},
      "rules": "block scoping: a use refers to the nearest enclosing earlier declaration; items visible in the whole module, constants after their declaration"}),
      &["reference parser (C03, C04) and resolver are right"])
}
pub fn unused(ctx: &Ctx) -> i32 {
    let extra: Vec<String> = [
        "use m::a; fn f() { return; }",
        "use m::{a, b}; fn f() { a(); return; }",
        "use m::_a; fn f() { return; }",
        "const A = 1; const _B = 2; fn f(_p: felt, q: felt) { return; }",
        "struct S { x: felt } fn f() { return; } fn g() { return; }",
        "use m::S; fn f(s: S) { s; return; }",
        "use m::S; fn f() { S { x: 1 }; return; }",
        "const N = 1; fn f() { N = 2; return; }",
    ].iter().map(|s| s.to_string()).collect();
    let n = run(ctx, check_unused, &extra);
    ctx.finish("model_checking", json!({"programs": n, "exhaustive": true, "bounds": {"statements": if ctx.thorough {4} else {3}, "names": 2, "contexts": WRAPS.len()},
      "rules": "a variable, parameter, constant or import is unused when no use refers to it (assignments count as uses); names with a leading underscore, functions and structs are never reported"}),
      &["reference parser (C03, C04) and resolver are right"])
}
