//! Modules and imports.
use crate::c_lits;
use crate::c_stmts::{self, PARAMS, PLACES, VALS};
use crate::refparse;
use crate::sem;
use crate::util::Ctx;
use serde_json::json;

pub type Mods = Vec<(String, String)>;
pub fn show(m: &Mods) -> String {
    m.iter().map(|(n, t)| format!("--- {n}\n{t}")).collect::<Vec<_>>().join("\n")
}
pub fn rep(m: &Mods) -> serde_json::Value {
    json!(m.iter().map(|(n, t)| json!({"module": n, "text": t})).collect::<Vec<_>>())
}

/// Every import graph over the modules.
fn graphs(ctx: &Ctx, n: usize) -> u64 {
    let names: Vec<String> = if n == 4 { vec!["d", "b", "a", "c"] } else { vec!["b", "c", "a"] }.into_iter().map(String::from).collect();
    let total = 1usize << (n * n);
    ctx.par(total.div_ceil(64), |blk| {
        for g in blk * 64..((blk + 1) * 64).min(total) {
            let edge = |i: usize, j: usize| g >> (i * n + j) & 1 == 1;
            let mods: Mods = (0..n)
                .map(|i| {
                    let mut s = String::new();
                    for j in (0..n).filter(|j| edge(i, *j)) {
                        s.push_str(&format!("use {0}::f_{0}_{1};\n", names[j], names[i]));
                    }
                    s.push_str(&format!("fn main_{}() {{ ", names[i]));
                    for j in (0..n).filter(|j| edge(i, *j)) {
                        s.push_str(&format!("f_{}_{}(); ", names[j], names[i]));
                    }
                    s.push_str("return; }\n");
                    for k in 0..n {
                        if k != i || edge(i, i) {
                            s.push_str(&format!("fn f_{}_{}() {{ return; }}\n", names[i], names[k]));
                        }
                    }
                    (names[i].clone(), s)
                })
                .collect();
            // self imports collide with the local definition: leave such a module to the cycle rule
            let mut reach = vec![vec![false; n]; n];
            for i in 0..n {
                for j in 0..n {
                    reach[i][j] = edge(i, j);
                }
            }
            for k in 0..n {
                for i in 0..n {
                    for j in 0..n {
                        reach[i][j] |= reach[i][k] && reach[k][j];
                    }
                }
            }
            let cyclic = (0..n).any(|i| reach[i][i]);
            ctx.add("transitions", 1);
            let ds = match sem::analyze(&mods) {
                Ok(d) => d,
                Err(p) => {
                    ctx.violate(format!("analysis panicked: {p}\n{}", show(&mods)), rep(&mods));
                    continue;
                }
            };
            let errs: Vec<_> = ds.iter().filter(|d| d.err).collect();
            if !cyclic {
                ctx.outcome("acyclic");
                if !errs.is_empty() {
                    ctx.violate(format!("modules that import each other without a cycle are rejected: {:?}\n{}", errs[0], show(&mods)), rep(&mods));
                }
                continue;
            }
            ctx.outcome("cyclic");
            let ok = errs.len() == 1
                && errs[0].msg.split_once("Cyclic import: ").is_some_and(|(_, p)| {
                    let v: Vec<usize> = p.split(" -> ").filter_map(|x| names.iter().position(|n| n == x)).collect();
                    v.len() >= 2 && v.len() == p.split(" -> ").count() && v[0] == v[v.len() - 1] && v.windows(2).all(|w| edge(w[0], w[1]))
                        && v[1..].iter().collect::<std::collections::BTreeSet<_>>().len() == v.len() - 1
                });
            if !ok {
                ctx.violate(format!("an import cycle is not reported by one error that names it: {errs:?}\n{}", show(&mods)), rep(&mods));
            }
        }
    });
    total as u64
}

/// Which imports resolve: every kind of item, existing or not, in every form of import.
fn existence(ctx: &Ctx) -> u64 {
    let targets = ["m", "n", "p::q", "zz", "p", "p::z", "m::m"];
    let exist = ["m", "n", "p::q"];
    let items = [("f", vec!["m", "n", "p::q"]), ("S", vec!["m", "n"]), ("K", vec!["m", "p::q"]), ("only_n", vec!["n"]), ("via", vec!["n", "p::q"]), ("loc", vec![]), ("zz", vec![]), ("x", vec![])];
    let base: Mods = [
        ("m", "struct S { x: felt } const K = 1; fn f() -> felt { let loc = 1; return loc; }"),
        ("n", "use m::S; use p::q::via; fn f() -> felt { via(); return S { x: 1 }.x; } fn only_n() { return; }"),
        ("p::q", "const K = 2; fn f(x: felt) -> felt { return x; } fn via() { return; }"),
    ].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    let has = |t: &str, i: &str| items.iter().any(|(n, w)| *n == i && w.contains(&t));
    let mut n = 0;
    let mut cases: Vec<Vec<(String, Vec<&str>, bool)>> = vec![];
    for t in targets {
        for (i, _) in &items {
            cases.push(vec![(t.to_string(), vec![*i], false)]);
            cases.push(vec![(t.to_string(), vec![*i], true)]);
            for (j, _) in &items {
                if i != j {
                    cases.push(vec![(t.to_string(), vec![*i, *j], true)]);
                }
            }
            for u in targets {
                for (j, _) in &items {
                    if i != j {
                        cases.push(vec![(t.to_string(), vec![*i], false), (u.to_string(), vec![*j], false)]);
                    }
                }
            }
        }
    }
    for c in &cases {
        for pos in [0, 3] {
            n += 1;
            let mut src = String::new();
            let mut exp: Vec<(&str, (usize, usize))> = vec![];
            for (t, is, list) in c {
                let ts = src.len();
                let te = ts + format!("use {t}::{}{}{};", if *list { "{" } else { "" }, is.join(", "), if *list { "}" } else { "" }).len();
                src.push_str("use ");
                src.push_str(t);
                src.push_str(if *list { "::{" } else { "::" });
                for (k, i) in is.iter().enumerate() {
                    if k > 0 {
                        src.push_str(", ");
                    }
                    let a = src.len();
                    src.push_str(i);
                    if !exist.contains(&t.as_str()) {
                        exp.push(("UnresolvedModule", (ts, te)));
                    } else if !has(t, i) {
                        exp.push(("UnresolvedImport", (a, src.len())));
                    }
                }
                src.push_str(if *list { "};\n" } else { ";\n" });
            }
            src.push_str("fn main() { return; }");
            let mut mods = base.clone();
            mods.insert(pos, ("main".into(), src.clone()));
            ctx.add("transitions", 1);
            match sem::analyze(&mods) {
                Err(p) => ctx.violate(format!("analysis panicked: {p}\n{}", show(&mods)), rep(&mods)),
                Ok(ds) => {
                    let mut got: Vec<(&str, (usize, usize))> = ds.iter().filter(|d| d.err).map(|d| (d.code.as_str(), d.span)).collect();
                    got.sort();
                    got.dedup();
                    exp.sort();
                    exp.dedup();
                    let file_ok = ds.iter().filter(|d| d.err).all(|d| d.file == "main.cm");
                    // a module is reported within its import
                    let same = got.len() == exp.len() && got.iter().zip(&exp).all(|(g, e)| g.0 == e.0 && if e.0 == "UnresolvedModule" { g.1 .0 >= e.1 .0 && g.1 .1 <= e.1 .1 } else { g.1 == e.1 });
                    if !same || !file_ok {
                        ctx.violate(format!("imports that do not resolve: expected {exp:?}, reported {got:?}\n{src}"), rep(&mods));
                    }
                    ctx.outcome(format!("{} unresolved", exp.len()));
                }
            }
        }
    }
    n
}

/// Splits the items of a program: the first `k` go to module `m`, the rest imports them.
pub fn split(src: &str, k: usize, style: usize) -> Option<Mods> {
    let t = refparse::parse(src).ok()?;
    if t.k.len() < 2 {
        return None;
    }
    let cut = if k >= t.k.len() { t.k.len() - 1 } else { k };
    let at = t.k[cut].sp.unwrap().0;
    let (head, tail) = src.split_at(at);
    let names: Vec<_> = t.k[..cut].iter().map(|i| i.k[0].l[3..].to_string()).collect();
    let imp = |m: &str, list: bool| if list { format!("use {m}::{{{}}}; ", names.join(", ")) } else { names.iter().map(|n| format!("use {m}::{n}; ")).collect() };
    Some(match style {
        0 => vec![("main".into(), format!("{}{tail}", imp("m", true))), ("m".into(), head.into())],
        1 => vec![("a".into(), format!("{}{tail}", imp("lib::m", false))), ("lib::m".into(), head.into())],
        // imported by way of another module
        _ => vec![("main".into(), format!("{}{tail}", imp("b", false))), ("b".into(), imp("m", false)), ("m".into(), head.into())],
    })
}
fn moved(ctx: &Ctx) -> u64 {
    let mut jobs: Vec<(String, String, bool)> = vec![];
    for (place, tpl) in PLACES {
        if tpl.starts_with("fn f") && tpl.contains("fn k") {
            continue; // the items moved must not need the others
        }
        for (t, w) in VALS {
            if t.starts_with('[') && (*place == "element of an annotated array" || tpl.contains("new @T")) {
                continue;
            }
            let mut vals: Vec<(&str, bool)> = VALS.iter().map(|(u, e)| (*e, t == u)).collect();
            for (e, f, u, b) in c_lits::FORMS {
                if ["1", "1u32", "1felt", "true"].contains(e) {
                    vals.push((e, match *t { "felt" => *f, "u32" => *u, "bool" => *b, _ => false }));
                }
            }
            for (e, ok) in vals {
                if !ctx.thorough && !(tpl.contains("fn k") || tpl.contains("struct F")) && ok {
                    continue;
                }
                let src = format!("{}{}", c_stmts::PRE, tpl.replace("@P", PARAMS).replace("@T", t).replace("@W", w).replace("@E", e));
                jobs.push((place.to_string(), src, ok));
            }
        }
    }
    for (src, ok) in [
        ("const K: u32 = 1; fn f() -> u32 { return K; }", true),
        ("const K: u32 = 1; fn f() -> felt { return K; }", false),
        ("const K = 1; fn f() -> felt { return K; }", true),
        ("const K = 1; fn f() -> u32 { return K; }", false),
        ("const K = 1; fn f() { K = 2; return; }", false),
        ("const K = 1; fn f() -> felt { return K + 2; }", true),
        ("const K = 1; fn f() { K(); return; }", false),
        ("struct Q { a: felt } fn f() { Q(); return; }", false),
        ("fn k() { return; } fn f() -> felt { return k; }", false),
        ("fn k(x: felt) -> felt { return x; } fn f() -> felt { return k(k(1)); }", true),
        ("fn k(x: felt) -> felt { return x; } fn f() -> felt { return k(); }", false),
        ("fn k(x: felt) -> felt { return x; } fn f() -> felt { return k(1, 2); }", false),
        ("struct Q { a: felt } struct R { q: Q } fn f(r: R) -> felt { return r.q.a; }", true),
        ("struct Q { a: felt } struct R { q: Q } fn f(r: R) -> felt { return r.q.b; }", false),
        ("struct Q { a: felt } struct R { q: Q } fn f(r: R) -> R { return R { q: Q { a: 1 } }; }", true),
        ("struct Q { a: felt } struct R { q: Q } fn f(r: R) -> R { return R { q: 1 }; }", false),
        ("struct Q { a: felt } struct R { q: Q* } fn f(r: R) -> felt { return r.q[0].a; }", true),
        ("const K: [u32; 2] = [1, 2]; fn f() -> u32 { return K[0]; }", true),
        ("const K: [u32; 2] = [1, 2]; fn f() -> u32 { return K[2]; }", false),
        ("const K: [u32; 2] = [1, 2]; fn f() { K[0] = 1; return; }", false),
    ] {
        jobs.push(("moved".into(), src.into(), ok));
    }
    let n = jobs.len();
    ctx.par(n, |i| {
        let (place, src, ok) = &jobs[i];
        for k in [1, 2, 3, 9] {
            for style in 0..3 {
                if !ctx.thorough && !(k == 9 || (k == 3 && style == 0)) {
                    continue;
                }
                let Some(mods) = split(src, k, style) else { continue };
                ctx.add("transitions", 1);
                match sem::analyze(&mods) {
                    Err(p) => ctx.violate(format!("analysis panicked ({place}): {p}\n{}", show(&mods)), rep(&mods)),
                    Ok(ds) => {
                        let errs: Vec<_> = ds.iter().filter(|d| d.err).collect();
                        // importing what a module has itself imported is not documented: only no crash there
                        if style < 2 && *ok != errs.is_empty() {
                            ctx.violate(format!("with items moved to another module and imported, the program is {} ({place}): {:?}\n{}", if *ok { "rejected" } else { "accepted" }, errs.iter().map(|e| &e.msg).collect::<Vec<_>>(), show(&mods)), rep(&mods));
                        }
                        let files: Vec<String> = mods.iter().map(|m| format!("{}.cm", m.0.replace("::", "/"))).collect();
                        for e in errs {
                            let t = files.iter().position(|f| *f == e.file);
                            if !t.is_some_and(|t| e.span.1 <= mods[t].1.len() && e.span.0 < e.span.1) {
                                ctx.violate(format!("an error lies in no file ({place}): {e:?}\n{}", show(&mods)), rep(&mods));
                            }
                        }
                    }
                }
            }
        }
    });
    n as u64
}

pub fn modules(ctx: &Ctx) -> i32 {
    let mut n = graphs(ctx, 3);
    if ctx.thorough {
        n += graphs(ctx, 4);
    }
    let e = existence(ctx);
    let m = moved(ctx);
    ctx.add("states", n + e + m);
    ctx.sample(json!("use c::f_c_b; fn main_b() { f_c_b(); return; } ..."));
    ctx.finish("model_checking", json!({"import_graphs": n, "import_forms": e, "moved_programs": m, "exhaustive": true, "bounds": {"modules": if ctx.thorough {4} else {3}}}), &["the typing rules of C12, C13, C15"])
}
