//! Literals: the type a place gives them, and their range.
use crate::c_stmts::{FIXED, PARAMS, PLACES, PRE, VALS};
use crate::c_types::BINOPS;
use crate::sem;
use crate::util::Ctx;
use serde_json::json;

fn one(ctx: &Ctx, what: &str, src: &str, ok: bool) {
    ctx.add("transitions", 1);
    match sem::analyze1(src) {
        Err(p) => ctx.violate(format!("analysis panicked ({what}): {p}\n{src}"), json!({"text": src})),
        Ok(ds) => {
            let e = ds.iter().find(|d| d.err);
            ctx.outcome(if ok { "accepted" } else { "rejected" });
            if ok != e.is_none() {
                ctx.violate(format!("{what}: should be {} but is {}\n{src}", if ok { "accepted" } else { "rejected" }, e.map(|e| e.msg.as_str()).unwrap_or("accepted")), json!({"text": src}));
            }
        }
    }
}
/// (literal, accepted where felt is wanted, u32, bool)
pub const FORMS: &[(&str, bool, bool, bool)] = &[
    ("0", true, true, false),
    ("1", true, true, false),
    ("0xff", true, true, false),
    ("(1)", true, true, false),
    ("((7))", true, true, false),
    ("1 + 1", true, true, false),
    ("2 * (3 + 4)", true, true, false),
    ("2147483647", true, true, false),
    ("1felt", true, false, false),
    ("2147483647felt", true, false, false),
    ("1felt + 1felt", true, false, false),
    ("1u32", false, true, false),
    ("4294967295u32", false, true, false),
    ("1u32 + 1u32", false, true, false),
    ("(1u32)", false, true, false),
    ("true", false, false, true),
    ("(false)", false, false, true),
    ("4294967296", false, false, false),
    ("18446744073709551615", false, false, false),
    ("0x100000000", false, false, false),
    ("4294967296u32", false, false, false),
    ("2147483648felt", false, false, false),
    ("(4294967296)", false, false, false),
    ("1 + 4294967296", false, false, false),
    ("1u32 + 4294967296u32", false, false, false),
    ("1felt + 2147483648felt", false, false, false),
];

pub fn lits(ctx: &Ctx) -> i32 {
    let mut jobs: Vec<(String, String, bool)> = vec![];
    for (place, tpl) in PLACES {
        for (t, w) in VALS {
            if t.starts_with('[') && (*place == "element of an annotated array" || tpl.contains("new @T")) {
                continue;
            }
            for (e, f, u, b) in FORMS {
                let ok = match *t { "felt" => *f, "u32" => *u, "bool" => *b, _ => false };
                let src = format!("{PRE}{}", tpl.replace("@P", PARAMS).replace("@T", t).replace("@W", w).replace("@E", e));
                jobs.push((format!("{e} for {t} ({place})"), src, ok));
            }
        }
    }
    for (place, t, tpl) in FIXED {
        for (e, f, _, b) in FORMS {
            // constant indices out of the array's bounds are reported (C13)
            if *place == "array index" || *place == "index of an assignment target" {
                continue;
            }
            let ok = match *t { "felt" => *f, "bool" => *b, _ => false };
            jobs.push((format!("{e} for {t} ({place})"), format!("{PRE}{}", tpl.replace("@P", PARAMS).replace("@E", e)), ok));
        }
    }
    // declared variables and constants: exact limits of the declared type
    for (form, top) in [("fn f() { let v: @T = @E; v; return; }", false), ("const V: @T = @E;", true), ("fn f() { const v: @T = @E; v; return; }", false), ("fn f() { if true { loop { let v: @T = @E; } } return; }", false)] {
        for (t, max) in [("felt", (1u64 << 31) - 1), ("u32", (1u64 << 32) - 1)] {
            let mut vals: Vec<u64> = vec![0, 1];
            for k in [7, 8, 15, 16, 30, 31, 32, 33, 62, 63] {
                vals.extend([(1u64 << k) - 1, 1u64 << k, (1u64 << k) + 1]);
            }
            vals.push(u64::MAX);
            for v in vals {
                for e in [format!("{v}"), format!("0x{v:x}"), format!("0b{v:b}"), format!("0o{v:o}"), format!("{v}{t}")] {
                    jobs.push((format!("{e} declared as {t}"), form.replace("@T", t).replace("@E", &e), v <= max));
                }
            }
            if !top {
                for e in ["-1", "-0", "-5"] {
                    jobs.push((format!("{e} declared as {t}"), form.replace("@T", t).replace("@E", e), false));
                }
            }
        }
    }
    // a literal on the right takes the type of the operand on the left
    for op in BINOPS {
        for (v, t) in [("x", "felt"), ("y", "u32"), ("t", "bool"), ("s", "S"), ("q", "felt*"), ("r", "[u32; 2]"), ("p", "(felt, u32)")] {
            let num = t == "felt" || t == "u32";
            let ok = match *op {
                "+" | "-" | "*" | "==" | "!=" => num,
                "/" => num,
                "%" | "<" | ">" | "<=" | ">=" | "&" | "|" | "^" => t == "u32",
                _ => false,
            };
            for l in ["1", "(1)"] {
                for (left, e) in [(false, format!("{v} {op} {l}")), (true, format!("{l} {op} {v}"))] {
                    // a literal on the left of a u32 needs a suffix for some operators: not specified
                    if left && t == "u32" {
                        continue;
                    }
                    jobs.push((format!("operand literal {e} with {v}: {t}"), format!("{PRE} fn f({PARAMS}) {{ let v = {e}; return; }}"), ok));
                    let cmp = ["==", "!=", "<", ">", "<=", ">="].contains(op);
                    if ok && !l.starts_with('(') {
                        for rt in ["felt", "u32", "bool"] {
                            let is = if cmp { "bool" } else { t };
                            jobs.push((format!("type of {e}"), format!("{PRE} fn f({PARAMS}) -> {rt} {{ let v = {e}; return v; }}"), rt == is));
                        }
                    }
                }
            }
        }
    }
    let n = jobs.len();
    ctx.par(n, |i| one(ctx, &jobs[i].0, &jobs[i].1, jobs[i].2));
    for j in jobs.iter().step_by(n / 8 + 1) {
        ctx.sample(json!({"what": j.0, "text": j.1, "accepted": j.2}));
    }
    ctx.add("states", n as u64);
    ctx.finish("model_checking", json!({"programs": n, "exhaustive": true, "bounds": {"places": PLACES.len() + FIXED.len(), "forms": FORMS.len()}}), &["the listed parameters have the listed types"])
}
