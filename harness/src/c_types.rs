//! Typing checks.
use crate::refparse;
use crate::reftype::{Env, T};
use crate::sem;
use crate::util::Ctx;
use serde_json::json;

pub const PRE: &str = "struct S { a: felt, b: u32 } struct W { s: S, t: bool } fn g(x: felt, y: u32) -> bool { return true; } fn h(s: S) -> u32 { return s.b; } fn u() { return; } ";
pub const PARAMS: &str = "x: felt, y: u32, t: bool, s: S, p: (felt, u32), r: [u32; 2], q: felt*, w: W";
pub fn env() -> Env {
    let mut e = Env::default();
    let st = |s: &str| T::Struct(s.into());
    e.structs.insert("S".into(), vec![("a".into(), T::Felt), ("b".into(), T::U32)]);
    e.structs.insert("W".into(), vec![("s".into(), st("S")), ("t".into(), T::Bool)]);
    e.fns.insert("g".into(), (vec![T::Felt, T::U32], T::Bool));
    e.fns.insert("h".into(), (vec![st("S")], T::U32));
    e.fns.insert("u".into(), (vec![], T::Tuple(vec![])));
    for (n, t) in [
        ("x", T::Felt),
        ("y", T::U32),
        ("t", T::Bool),
        ("s", st("S")),
        ("p", T::Tuple(vec![T::Felt, T::U32])),
        ("r", T::Arr(Box::new(T::U32), 2)),
        ("q", T::Ptr(Box::new(T::Felt))),
        ("w", st("W")),
    ] {
        e.vars.push((n.into(), t));
    }
    e
}
pub const BINOPS: &[&str] = &["+", "-", "*", "/", "%", "==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^"];
pub const ATOMS: &[&str] = &["x", "y", "t", "s", "p", "r", "q", "w", "u()", "1felt", "2u32", "true"];

/// Every constructor applied to `e` (one hole), the other operands being atoms.
pub fn around(e: &str, atoms: &[&str], out: &mut Vec<String>) {
    for op in BINOPS {
        for a in atoms {
            out.push(format!("{e} {op} {a}"));
            out.push(format!("{a} {op} {e}"));
        }
    }
    for op in ["-", "!"] {
        out.push(format!("{op}{e}"));
    }
    for t in ["felt", "u32", "bool", "S"] {
        out.push(format!("{e} as {t}"));
    }
    for f in ["a", "b", "s", "t", "z"] {
        out.push(format!("{e}.{f}"));
    }
    for i in 0..3 {
        out.push(format!("{e}.{i}"));
    }
    for a in atoms {
        out.push(format!("{e}[{a}]"));
        out.push(format!("{a}[{e}]"));
        out.push(format!("g({e}, {a})"));
        out.push(format!("g({a}, {e})"));
        out.push(format!("S {{ a: {e}, b: {a} }}"));
        out.push(format!("S {{ b: {e}, a: {a} }}"));
        out.push(format!("W {{ s: {a}, t: {e} }}"));
        out.push(format!("({e}, {a})"));
        out.push(format!("[{e}, {a}]"));
        out.push(format!("[{a}, {e}]"));
    }
    out.push(format!("h({e})"));
    out.push(format!("g({e})"));
    out.push(format!("h({e}, s)"));
    out.push(format!("g(x, y, {e})"));
    out.push(format!("u({e})"));
    out.push(format!("S {{ a: {e} }}"));
    out.push(format!("S {{ a: x, b: y, z: {e} }}"));
    out.push(format!("S {{ a: x, b: y, a: {e} }}"));
    out.push(format!("({e},)"));
    out.push(format!("({e})"));
    out.push(format!("[{e}; 3]"));
    out.push(format!("new felt[{e}]"));
    out.push(format!("new S[{e}]"));
}
/// Wraps an operand so that it stays one operand.
pub fn opnd(e: &str) -> String {
    let atomic = e.chars().all(|c| c.is_alphanumeric() || c == '_');
    if atomic || (e.starts_with('(') && e.ends_with(')') && e.matches('(').count() == 1) {
        e.to_string()
    } else {
        format!("({e})")
    }
}

/// Checks a batch of expressions in one module, each the initialiser in a function of its own.
fn batch(ctx: &Ctx, exprs: &[String], env: &Env) {
    let mut src = String::from(PRE);
    let mut at = vec![];
    for (i, e) in exprs.iter().enumerate() {
        src.push_str(&format!("fn f{i}({PARAMS}) {{ let v{i} = "));
        let s = src.len();
        src.push_str(e);
        at.push((s, src.len()));
        src.push_str("; return; }\n");
    }
    let (ds, tys) = match sem::let_types(&src) {
        Ok(x) => x,
        Err(p) => {
            if exprs.len() > 1 {
                for e in exprs {
                    batch(ctx, std::slice::from_ref(e), env);
                }
            } else {
                ctx.violate(format!("analysis panicked on the expression {}: {p}", exprs[0]), json!({"text": src}));
            }
            return;
        }
    };
    let syn = ds.iter().any(|d| d.code == "SyntaxError" || d.code == "LexicalError");
    if syn && exprs.len() > 1 {
        for e in exprs {
            batch(ctx, std::slice::from_ref(e), env);
        }
        return;
    }
    for (i, e) in exprs.iter().enumerate() {
        let Ok(m) = refparse::parse(&format!("const A = {e};")) else {
            ctx.add("not_programs", 1);
            continue;
        };
        let exp = env.expr(&m.k[0].k[2]);
        let errs: Vec<_> = ds.iter().filter(|d| d.err && d.span.0 >= at[i].0.saturating_sub(4) && d.span.1 <= at[i].1 + 2).collect();
        ctx.add("transitions", 1);
        match (&exp, errs.is_empty()) {
            (Some(t), true) => {
                let got = tys.get(&format!("v{i}")).cloned().unwrap_or_default();
                ctx.outcome(t.show());
                if got != t.show() {
                    ctx.violate(format!("the type of `{e}` is {}, inferred {got}", t.show()), json!({"expr": e, "env": PARAMS}));
                }
            }
            (None, false) => {
                ctx.outcome("rejected");
                if errs.iter().any(|d| d.span.0 < at[i].0 || d.span.1 > at[i].1 || d.file != "main.cm") {
                    ctx.violate(format!("an error about `{e}` is placed outside it: {errs:?}"), json!({"expr": e, "env": PARAMS}));
                }
            }
            (Some(t), false) => ctx.violate(format!("`{e}` has type {} but is rejected: {}", t.show(), errs[0].msg), json!({"expr": e, "env": PARAMS})),
            (None, true) => ctx.violate(format!("`{e}` has no type but is accepted as {:?}", tys.get(&format!("v{i}"))), json!({"expr": e, "env": PARAMS})),
        }
    }
}

pub fn exprs(ctx: &Ctx) -> i32 {
    let env = env();
    let mut d1: Vec<String> = ATOMS.iter().map(|s| s.to_string()).collect();
    for a in ATOMS {
        around(a, ATOMS, &mut d1);
    }
    d1.sort_by_key(|s| (s.len(), s.clone()));
    d1.dedup();
    let small: &[&str] = &["x", "y", "t", "s", "p", "r", "q", "u()"];
    let mut all = d1.clone();
    let mut bad = std::collections::BTreeSet::new();
    for e in &d1 {
        // quick tier: every well-typed operand, one ill-typed operand per constructor
        if !ctx.thorough {
            let Ok(m) = refparse::parse(&format!("const A = {e};")) else { continue };
            let root = &m.k[0].k[2];
            if env.expr(root).is_none() && !bad.insert(root.l.clone()) {
                continue;
            }
        }
        around(&opnd(e), small, &mut all);
    }
    if ctx.thorough {
        // depth 3: one well-typed representative per type and constructor
        let mut reps: Vec<String> = vec![];
        let mut seen = std::collections::BTreeSet::new();
        for e in &all {
            let Ok(m) = refparse::parse(&format!("const A = {e};")) else { continue };
            let root = &m.k[0].k[2];
            if let Some(t) = env.expr(root) {
                if seen.insert((t, root.l.clone(), root.k.iter().map(|k| k.l.clone()).collect::<Vec<_>>())) {
                    reps.push(e.clone());
                }
            }
        }
        for e in &reps {
            around(&opnd(e), &["x", "y", "t"], &mut all);
        }
    }
    let n = all.len();
    let ch = 2;
    ctx.par(n.div_ceil(ch), |i| batch(ctx, &all[i * ch..((i + 1) * ch).min(n)], &env));
    for s in all.iter().step_by(n / 10 + 1) {
        ctx.sample(json!(s));
    }
    ctx.add("states", n as u64);
    ctx.finish("model_checking", json!({"expressions": n, "exhaustive": true, "bounds": {"depth": if ctx.thorough {3} else {2}, "atoms": ATOMS, "operators": BINOPS}}), &["reference parser and typing rules are right"])
}
