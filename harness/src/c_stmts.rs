//! Statement typing: every place where a value meets a declared type.
use crate::sem;
use crate::util::Ctx;
use serde_json::json;

/// (type, expression of that type) over the parameters below.
pub const VALS: &[(&str, &str)] = &[
    ("felt", "x"),
    ("u32", "y"),
    ("bool", "t"),
    ("S", "s"),
    ("S2", "s2"),
    ("(felt, u32)", "p"),
    ("(u32, felt)", "p2"),
    ("(felt,)", "p1"),
    ("[u32; 2]", "r"),
    ("[u32; 3]", "r3"),
    ("[felt; 2]", "rf"),
    ("felt*", "q"),
    ("u32*", "qu"),
    ("S*", "qs"),
    ("felt**", "qq"),
    ("()", "u()"),
    ("((felt, u32), bool)", "pn"),
    ("[S; 2]", "rs"),
    ("[(felt, u32); 2]", "rp"),
    ("(felt, u32)*", "qp"),
];
pub const PRE: &str = "struct S { a: felt, b: u32 } struct S2 { a: felt, b: u32 } fn u() { return; } ";
pub const PARAMS: &str = "x: felt, y: u32, t: bool, s: S, s2: S2, p: (felt, u32), p2: (u32, felt), p1: (felt,), r: [u32; 2], r3: [u32; 3], rf: [felt; 2], q: felt*, qu: u32*, qs: S*, qq: felt**, pn: ((felt, u32), bool), rs: [S; 2], rp: [(felt, u32); 2], qp: (felt, u32)*";

/// @T expected type, @W a value of that type, @E the value, @P parameters
pub const PLACES: &[(&str, &str)] = &[
    ("annotated let", "fn f(@P) { let v: @T = @E; return; }"),
    ("assignment to a variable", "fn f(@P) { let v = @W; v = @E; return; }"),
    ("assignment to a parameter", "fn f(v: @T, @P) { v = @E; return; }"),
    ("call argument", "fn k(z: @T) { return; } fn f(@P) { k(@E); return; }"),
    ("second call argument", "fn k(c: felt, z: @T) { return; } fn f(@P) { k(x, @E); return; }"),
    ("call argument of a later function", "fn f(@P) { k(@E); return; } fn k(z: @T) { return; }"),
    ("argument in a nested call", "fn k(z: @T) -> felt { return 1; } fn f(@P) { let v = k(@E) + x; return; }"),
    ("return value", "fn f(@P) -> @T { return @E; }"),
    ("return value in a branch", "fn g() { return; } fn f(@P) -> @T { if t { return @E; } else { return @W; } }"),
    ("return value in a loop", "fn g() { return; } fn f(@P) -> @T { while t { return @E; } return @W; }"),
    ("return value in a for loop", "fn f(@P) -> @T { for (let i = 0; i != 1; i = i + 1) { { return @E; } } return @W; }"),
    ("struct field", "struct F { z: @T } fn f(@P) { let v = F { z: @E }; return; }"),
    ("second struct field", "struct F { c: felt, z: @T } fn f(@P) { let v = F { z: @E, c: x }; return; }"),
    ("assignment to a field", "struct F { z: @T } fn f(v: F, @P) { v.z = @E; return; }"),
    ("assignment to a nested field", "struct F { z: @T } struct G { f: F } fn f(v: G, @P) { v.f.z = @E; return; }"),
    ("assignment to a tuple element", "fn f(v: (felt, @T), @P) { v.1 = @E; return; }"),
    ("array element", "fn f(@P) { let v = [@W, @E]; return; }"),
    ("assignment to an array element", "fn f(@P) { let v = [@W, @W]; v[x] = @E; return; }"),
    ("assignment through a pointer", "fn f(@P) { let v = new @T[2]; v[x] = @E; return; }"),
    ("assignment to a field through a pointer", "struct F { z: @T } fn f(v: F*, @P) { v[0].z = @E; return; }"),
    ("element of an annotated tuple", "fn f(@P) { let v: (felt, @T) = (x, @E); return; }"),
    ("annotated destructuring", "fn f(@P) { let (c, d): (felt, @T) = (x, @E); return; }"),
    ("element of an annotated array", "fn f(@P) { let v: [@T; 1] = [@E]; return; }"),
    ("annotated let in a block", "fn f(@P) { if t { loop { let v: @T = @E; break; } } return; }"),
    ("annotated let in a for loop", "fn f(@P) { for (let v: @T = @E; t; x = x) { x; } return; }"),
    ("annotated let in a for body", "fn f(@P) { for (let i = 0; t; i = i) { let v: @T = @E; } return; }"),
    ("step of a for loop", "fn f(@P) { for (let v = @W; t; v = @E) { x; } return; }"),
    ("assignment in a while loop", "fn f(@P) { let v = @W; while t { v = @E; } return; }"),
    ("destructured variable", "fn f(@P) { let (v, c) = (@W, x); v = @E; return; }"),
    ("call result", "fn k(@P) -> @T { return @W; } fn l(z: @T) { return; } fn f(@P) { let v: @T = k(x, y, t, s, s2, p, p2, p1, r, r3, rf, q, qu, qs, qq, pn, rs, rp, qp); l(@E); return; }"),
];
/// Places whose type is fixed.
pub const FIXED: &[(&str, &str, &str)] = &[
    ("if condition", "bool", "fn f(@P) { if @E { x; } return; }"),
    ("if-else condition", "bool", "fn f(@P) { if @E { x; } else { y; } return; }"),
    ("else-if condition", "bool", "fn f(@P) { if t { x; } else if @E { y; } return; }"),
    ("while condition", "bool", "fn f(@P) { while @E { x; } return; }"),
    ("for condition", "bool", "fn f(@P) { for (let i = 0; @E; i = i) { x; } return; }"),
    ("assert argument", "bool", "fn f(@P) { assert(@E); return; }"),
    ("array index", "felt", "fn f(@P) { let v = r[@E]; return; }"),
    ("pointer index", "felt", "fn f(@P) { let v = q[@E]; return; }"),
    ("index of an assignment target", "felt", "fn f(@P) { r[@E] = y; return; }"),
    ("allocation size", "felt", "fn f(@P) { let v = new u32[@E]; return; }"),
    ("nested if condition", "bool", "fn f(@P) { loop { { if @E { break; } } } return; }"),
    ("unit return", "()", "fn f(@P) { return @E; }"),
];

fn judge(ctx: &Ctx, place: &str, src: &str, ok: bool) {
    ctx.add("transitions", 1);
    match sem::analyze1(src) {
        Err(p) => ctx.violate(format!("analysis panicked ({place}): {p}\n{src}"), json!({"text": src})),
        Ok(ds) => {
            let errs: Vec<_> = ds.iter().filter(|d| d.err).collect();
            ctx.outcome(if ok { "accepted" } else { "rejected" });
            if ok && !errs.is_empty() {
                ctx.violate(format!("well-typed program rejected ({place}): {:?}\n{src}", errs.iter().map(|e| &e.msg).collect::<Vec<_>>()), json!({"text": src}));
            } else if !ok && errs.is_empty() {
                ctx.violate(format!("ill-typed program accepted ({place})\n{src}"), json!({"text": src}));
            } else if let Some(e) = errs.iter().find(|e| e.file != "main.cm" || e.span.1 > src.len() || e.span.0 >= e.span.1) {
                ctx.violate(format!("error without a place in the file ({place}): {e:?}\n{src}"), json!({"text": src}));
            }
        }
    }
}

pub fn places(ctx: &Ctx) -> i32 {
    let mut jobs: Vec<(String, String, bool)> = vec![];
    for (place, tpl) in PLACES {
        for (t, w) in VALS {
            // arrays of arrays need no annotation; `new` takes no array type (grammar)
            if t.starts_with('[') && (*place == "element of an annotated array" || tpl.contains("new @T")) {
                continue;
            }
            for (u, e) in VALS {
                let src = format!("{PRE}{}", tpl.replace("@P", PARAMS).replace("@T", t).replace("@W", w).replace("@E", e));
                jobs.push((place.to_string(), src, t == u));
            }
        }
    }
    for (place, t, tpl) in FIXED {
        for (u, e) in VALS {
            let src = format!("{PRE}{}", tpl.replace("@P", PARAMS).replace("@E", e));
            jobs.push((place.to_string(), src, t == u));
        }
    }
    for (src, ok) in TABLE {
        jobs.push(("table".into(), format!("{PRE}{}", src.replace("@P", PARAMS)), *ok));
    }
    // arities
    for n in 0..4usize {
        for m in 0..4usize {
            let ps: Vec<_> = (0..n).map(|i| format!("a{i}: felt")).collect();
            let src = format!("fn k({}) {{ return; }} fn f(x: felt) {{ k({}); return; }}", ps.join(", "), vec!["x"; m].join(", "));
            jobs.push(("number of arguments".into(), src, n == m));
            if n > 1 && m > 0 {
                let tup = |k: usize, s: &str| format!("({}{})", vec![s; k].join(", "), if k == 1 { "," } else { "" });
                let names: Vec<_> = (0..n).map(|i| format!("a{i}")).collect();
                let src = format!("fn f(x: {}) {{ let ({}{}) = x; return; }}", tup(m, "felt"), names.join(", "), if n == 1 { "," } else { "" });
                jobs.push(("number of pattern elements".into(), src, n == m));
            }
        }
    }
    let n = jobs.len();
    ctx.par(n, |i| judge(ctx, &jobs[i].0, &jobs[i].1, jobs[i].2));
    for j in jobs.iter().step_by(n / 8 + 1) {
        ctx.sample(json!({"place": j.0, "text": j.1, "well_typed": j.2}));
    }
    ctx.add("states", n as u64);
    ctx.finish("model_checking", json!({"programs": n, "exhaustive": true, "bounds": {"types": VALS.iter().map(|v| v.0).collect::<Vec<_>>(), "places": PLACES.len() + FIXED.len()}}), &["the listed parameters have the listed types"])
}

const TABLE: &[(&str, bool)] = &[
    // returns
    ("fn f() { return; }", true),
    ("fn f() { return (); }", true),
    ("fn f() -> () { return; }", true),
    ("fn f() -> felt { return; }", false),
    ("fn f() -> felt { return 1; }", true),
    ("fn f() { return 1; }", false),
    ("fn f() -> felt { if true { return; } return 1; }", false),
    ("fn f() -> (felt, bool) { return (1, true); }", true),
    ("fn f() -> (felt, bool) { return (true, 1); }", false),
    ("fn f() -> (felt, bool) { return (1, true, 2); }", false),
    // assignment targets
    ("fn f(@P) { x = x; return; }", true),
    ("fn f(@P) { s.a = x; return; }", true),
    ("fn f(@P) { p.0 = x; return; }", true),
    ("fn f(@P) { r[0] = y; return; }", true),
    ("fn f(@P) { rs[0].a = x; return; }", true),
    ("fn f(@P) { pn.0.1 = y; return; }", true),
    ("fn f(@P) { qs[0].b = y; return; }", true),
    ("fn f(@P) { 1 = x; return; }", false),
    ("fn f(@P) { true = t; return; }", false),
    ("fn f(@P) { x + x = x; return; }", false),
    ("fn f(@P) { -x = x; return; }", false),
    ("fn f(@P) { u() = u(); return; }", false),
    ("fn f(@P) { (x, y) = p; return; }", false),
    ("fn f(@P) { [x, x] = rf; return; }", false),
    ("fn f(@P) { S { a: x, b: y } = s; return; }", false),
    ("fn f(@P) { y as felt = x; return; }", false),
    ("const C = 1; fn f() { C = 2; return; }", false),
    ("fn f() { const C = 1; C = 2; return; }", false),
    ("fn f() { const C = 1; { C = 2; } return; }", false),
    ("const C = 1; fn f() { let C = 2; C = 3; return; }", true),
    ("const C: [u32; 2] = [1, 2]; fn f() { C[0] = 3; return; }", false),
    ("const C: [u32; 2] = [1, 2]; fn f() -> u32 { return C[0]; }", true),
    // constants
    ("const C: felt = 1; fn f() -> felt { return C; }", true),
    ("const C: u32 = 1; fn f() -> u32 { return C; }", true),
    ("const C: u32 = 1; fn f() -> felt { return C; }", false),
    ("const C = 1; fn f() -> felt { return C; }", true),
    ("const C = 1; fn f() -> u32 { return C; }", false),
    ("const C = 1u32; fn f() -> u32 { return C; }", true),
    ("const C: felt = 1u32; fn f() -> felt { return C; }", false),
    ("const C: bool = 1; fn f() { C; return; }", false),
    ("fn f() { const C: felt = 1u32; C; return; }", false),
    ("fn f() { const C: bool = 1; C; return; }", false),
    ("fn f() { const C: bool = true; C; return; }", true),
    // const arrays by pointer
    ("const C: [u32; 2] = [1, 2]; fn k(z: [u32; 2]) { return; } fn f() { k(C); return; }", false),
    ("const C: [u32; 2] = [1, 2]; fn k(z: [u32; 2]) { return; } fn f() { let v = C; k(v); return; }", true),
    ("const C: [u32; 2] = [1, 2]; fn f() -> [u32; 2] { return C; }", false),
    ("struct F { z: [u32; 2] } const C: [u32; 2] = [1, 2]; fn f() { let v = F { z: C }; return; }", false),
    ("const C: [u32; 2] = [1, 2]; fn f() { let v = (C, 1); return; }", false),
    // nested arrays in signatures
    ("fn f(z: [[u32; 2]; 2]) { return; }", false),
    ("fn f(z: (felt, [[u32; 2]; 2])) { return; }", false),
    ("fn f() -> [[u32; 2]; 2] { loop {} return [[1, 2], [3, 4]]; }", false),
    // patterns
    ("fn f(@P) { let (c, d) = x; return; }", false),
    ("fn f(@P) { let (c, d) = s; return; }", false),
    ("fn f(@P) { let (c, d) = p; c = x; d = y; return; }", true),
    ("fn f(@P) { let (c, d) = p; c = y; return; }", false),
    ("fn f(@P) { let ((c, d), e) = pn; c = x; d = y; e = t; return; }", true),
    ("fn f(@P) { let ((c, d), e) = pn; d = x; return; }", false),
    ("fn f(@P) { let ((c, d, g), e) = pn; return; }", false),
    ("fn f(@P) { let ((c, d), (e, g)) = pn; return; }", false),
    // indexing bounds and kinds
    ("fn f(@P) { let v = r[0]; return; }", true),
    ("fn f(@P) { let v = r[1]; return; }", true),
    ("fn f(@P) { let v = r[2]; return; }", false),
    ("fn f(@P) { let v = p[0]; return; }", false),
    ("fn f(@P) { let v = s[0]; return; }", false),
    ("fn f(@P) { let v = x[0]; return; }", false),
    ("fn f(@P) { let v = q[7]; return; }", true),
    // calls
    ("fn f(@P) { x(); return; }", false),
    ("fn f(@P) { S(); return; }", false),
    ("fn f(@P) { s.a(); return; }", false),
    ("fn f(@P) { u()(); return; }", false),
];
