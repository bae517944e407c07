//! Programs over several modules, orders of items, names, and compiling again.
use crate::run::*;
use crate::util::{guarded, Ctx};
use cairo_m_common::{CairoMValue, InputValue, Program};
use cairo_m_compiler::{compile_project, create_compiler_database, CompilerError};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// Items (name, text); an item uses another one where its name stands as a word. The entry is the
/// last item, `f`, with parameters a: felt, b: felt. `want` is what it computes.
struct Base {
    items: &'static [(&'static str, &'static str)],
    want: fn(u64, u64) -> Vec<u64>,
}
const P: u64 = (1 << 31) - 1;
const ARGS: [(u64, u64); 4] = [(0, 0), (3, 1), (2, 5), (9, 9)];

const BASES: &[Base] = &[
    // control flow and constants
    Base {
        items: &[
            ("K", "const K: felt = 1000;"),
            ("h", "fn h(a: felt) -> felt { if (a == 3felt) { return a + K; } return a * 2felt; }"),
            ("g", "fn g(a: felt, b: felt) -> felt { let s = 0felt; let i = 0felt; while (i != b) { s = s + h(a + i); i = i + 1felt; } return s; }"),
            ("f", "fn f(a: felt, b: felt) -> felt { if (a == b) { return g(b, a) + 7felt; } else { return g(a, b) + h(b); } }"),
        ],
        want: |a, b| {
            let h = |a: u64| if a == 3 { a + 1000 } else { a * 2 };
            let g = |a: u64, b: u64| (0..b).map(|i| h(a + i)).sum::<u64>();
            vec![if a == b { g(b, a) + 7 } else { g(a, b) + h(b) }]
        },
    },
    // structs, tuples
    Base {
        items: &[
            ("In", "struct In { x: u32, y: felt }"),
            ("Out", "struct Out { p: In, k: felt }"),
            ("mk", "fn mk(y: felt) -> In { return In { x: 70000u32, y: y }; }"),
            ("up", "fn up(q: Out) -> Out { let r = q; r.p.y = r.p.y + r.k; r.p.x = r.p.x * 70000u32; return r; }"),
            ("two", "fn two(q: Out) -> (felt, u32) { return (q.p.y * q.k, q.p.x); }"),
            ("f", "fn f(a: felt, b: felt) -> (felt, u32) { let q = Out { p: mk(a), k: b }; let r = up(q); let (s, t) = two(r); return (s + q.p.y, t - q.p.x); }"),
        ],
        want: |a, b| vec![((a + b) * b + a) % P, (70000u64 * 70000 - 70000) % (1 << 32)],
    },
    // constants and arrays
    Base {
        items: &[
            ("N", "const N: felt = 3;"),
            ("T", "const T: [u32; 4] = [70000, 5, 65536, 1];"),
            ("M", "const M = 11;"),
            ("get", "fn get(i: felt) -> u32 { return T[i]; }"),
            ("sum", "fn sum() -> u32 { let s = 0u32; for (let i = 0felt; i != N; i = i + 1felt) { let t = [1u32, 2u32, 3u32]; s = s + get(i) * t[i]; } return s; }"),
            ("f", "fn f(a: felt, b: felt) -> (u32, felt, u32) { let t = [1u32, 2u32, 3u32]; return (sum(), a * M + b * N, t[1] + T[3]); }"),
        ],
        want: |a, b| vec![70000 + 10 + 65536 * 3, a * 11 + b * 3, 3],
    },
    // recursion, logic, casts
    Base {
        items: &[
            ("even", "fn even(n: u32) -> bool { if (n == 0u32) { return true; } if (n == 1u32) { return false; } return even(n - 2u32); }"),
            ("odd", "fn odd(n: u32) -> bool { return !even(n) || (n == 1u32); }"),
            ("pick", "fn pick(c: bool, d: bool) -> u32 { if (c && !d) { return 100000u32; } if (c || d) { return 200000u32; } return 0u32; }"),
            ("cnt", "fn cnt(n: felt) -> u32 { let s = 0u32; let i = 0felt; loop { if (i == n) { break; } s = s + 1u32; i = i + 1felt; } return s; }"),
            ("f", "fn f(a: felt, b: felt) -> (u32, felt, bool) { let n = cnt(a); let m = cnt(b); return (pick(even(n), odd(m)), (n as felt) - (m as felt), n < m || n >= 9u32); }"),
        ],
        want: |a, b| {
            let (c, d) = (a % 2 == 0, b % 2 == 1);
            vec![if c && !d { 100000 } else if c || d { 200000 } else { 0 }, (a + P - b) % P, (a < b || a >= 9) as u64]
        },
    },
    // heap, pointers to structs, calls without results
    Base {
        items: &[
            ("Pt", "struct Pt { x: felt, y: felt }"),
            ("put", "fn put(h: Pt*, i: felt, v: felt) { h[i] = Pt { x: v, y: v * v }; return; }"),
            ("all", "fn all(h: Pt*, n: felt) -> felt { let s = 0felt; let i = 0felt; while (i != n) { s = s + h[i].x * 10felt + h[i].y; i = i + 1felt; } return s; }"),
            ("f", "fn f(a: felt, b: felt) -> felt { let h = new Pt[3]; put(h, 0, a); put(h, 1, b); put(h, 2, a + b); return all(h, 3); }"),
        ],
        want: |a, b| vec![[a, b, a + b].iter().map(|v| v * 10 + v * v).sum()],
    },
];
const MODS: [&str; 3] = ["main", "a", "lib::b"];
type Mods = Vec<(String, String)>;

fn words(t: &str) -> Vec<(usize, &str)> {
    let mut out = vec![];
    let mut st = None;
    for (i, c) in t.char_indices().chain([(t.len(), ' ')]) {
        if c.is_ascii_alphanumeric() || c == '_' {
            st.get_or_insert(i);
        } else if let Some(s) = st.take() {
            out.push((s, &t[s..i]));
        }
    }
    out
}
fn uses(items: &[(String, String)], k: usize) -> Vec<usize> {
    let w: BTreeSet<&str> = words(&items[k].1).into_iter().map(|w| w.1).collect();
    (0..items.len()).filter(|&j| j != k && w.contains(items[j].0.as_str())).collect()
}
fn rename(t: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut at = 0;
    for (s, w) in words(t) {
        if w == from {
            out += &t[at..s];
            out += to;
            at = s + w.len();
        }
    }
    out + &t[at..]
}
/// The modules when item k goes to module `of[k]`; None when they would import each other in a circle.
fn split(items: &[(String, String)], of: &[usize], order: &[usize], list: bool) -> Option<(Mods, Vec<BTreeSet<usize>>)> {
    let n = MODS.len();
    let mut imp: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); n];
    for k in 0..items.len() {
        for j in uses(items, k) {
            if of[j] != of[k] {
                imp[of[k]].insert(j);
            }
        }
    }
    let edge = |a: usize, b: usize| imp[a].iter().any(|&j| of[j] == b);
    for a in 0..n {
        for b in 0..n {
            if a != b && edge(a, b) && (edge(b, a) || (0..n).any(|c| c != a && c != b && edge(b, c) && edge(c, a))) {
                return None;
            }
        }
    }
    let mut mods = vec![];
    let mut seen = vec![];
    for m in 0..n {
        let mut t = String::new();
        if list {
            let mut by: BTreeMap<usize, Vec<&str>> = BTreeMap::new();
            for &j in &imp[m] {
                by.entry(of[j]).or_default().push(&items[j].0);
            }
            for (o, names) in by {
                t += &format!("use {}::{{{}}};\n", MODS[o], names.join(", "));
            }
        } else {
            for &j in &imp[m] {
                t += &format!("use {}::{};\n", MODS[of[j]], items[j].0);
            }
        }
        for &k in order {
            if of[k] == m {
                t += &items[k].1;
                t += "\n";
            }
        }
        seen.push((0..items.len()).filter(|&k| of[k] == m).chain(imp[m].iter().copied()).collect());
        if !t.is_empty() {
            mods.push((MODS[m].to_string(), t));
        }
    }
    Some((mods, seen))
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// Writes the modules as a project and compiles it as the compiler's command line does.
fn build(dir: &Path, mods: &Mods, o: usize) -> Result<Result<Arc<Program>, CompilerError>, String> {
    let src = dir.join("src");
    let _ = std::fs::remove_dir_all(&src);
    std::fs::create_dir_all(&src).unwrap();
    std::fs::write(dir.join("cairom.toml"), "name = \"p\"\nversion = \"0.1.0\"\nentry_point = \"main.cm\"\n").unwrap();
    for (n, t) in mods {
        let p = src.join(format!("{}.cm", n.replace("::", "/")));
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, t).unwrap();
    }
    guarded(&show(mods), || {
        let project = cairo_m_project::discover_project(&src.join("main.cm")).unwrap().unwrap();
        compile_project(&create_compiler_database(), project, options(o)).map(|c| c.program)
    })
}
fn show(mods: &Mods) -> String {
    mods.iter().map(|(n, t)| format!("// {n}\n{t}")).collect()
}
fn flat(v: &[CairoMValue]) -> Vec<u64> {
    v.iter()
        .flat_map(|v| match v {
            CairoMValue::Felt(x) => vec![x.0 as u64],
            CairoMValue::U32(x) => vec![*x as u64],
            CairoMValue::Bool(b) => vec![*b as u64],
            CairoMValue::Tuple(t) => flat(t),
            _ => vec![u64::MAX],
        })
        .collect()
}
fn judge(ctx: &Ctx, what: &str, mods: &Mods, dir: &Path, entry: &str, want: fn(u64, u64) -> Vec<u64>) {
    ctx.add("programs", 1);
    let rep = |o: usize| json!({"modules": mods, "entry": entry, "level": OPTS[o]});
    for o in 0..2 {
        let p = match build(dir, mods, o) {
            Err(e) => return ctx.violate(format!("compiling ({}) panics ({what}): {e}\n{}", OPTS[o], show(mods)), rep(o)),
            Ok(Err(e)) => return ctx.violate(format!("a valid program is not compiled ({}, {what}): {}\n{}", OPTS[o], errtext(&e), show(mods)), rep(o)),
            Ok(Ok(p)) => p,
        };
        // hash tables are seeded anew
        match build(dir, mods, o) {
            Ok(Ok(q)) if same_program(&p, &q) => {}
            _ => return ctx.violate(format!("compiling again gives another program ({}, {what})\n{}", OPTS[o], show(mods)), rep(o)),
        }
        for (a, b) in ARGS {
            let got = exec(&p, entry, &[InputValue::Number(a as i64), InputValue::Number(b as i64)], 3000);
            ctx.add("transitions", 1);
            let ok = matches!(&got, Ok(Ok(r)) if flat(&r.return_values) == want(a, b));
            if !ok {
                return ctx.violate(format!("{}: {entry}({a}, {b}) gives {} but in one module the same items give {:?} ({what})\n{}", OPTS[o], describe(&got), want(a, b), show(mods)), rep(o));
            }
        }
    }
    ctx.outcome(what);
}
fn same_program(p: &Program, q: &Program) -> bool {
    let e = |p: &Program| p.entrypoints.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect::<BTreeMap<_, _>>();
    format!("{:?}", p.data) == format!("{:?}", q.data) && e(p) == e(q)
}
fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            out.push(q);
        }
    }
    out
}
/// Names that functions may have; some look like what a compiler makes up.
const NAMES: [&str; 37] = [
    "main", "x", "x_0", "x_1", "x_2", "x_3", "x_4", "x_5", "x_6", "x_1_0", "x_", "_x", "end", "end_0", "end_1", "end_3", "or_true", "or_end_1", "and_true", "and_end", "not_zero", "not_zero_0", "not_zero_2", "not_end", "neq_end", "neq_non_zero_0",
    "u32_cast_ok", "u32_cast_ok_0", "RODATA", "RODATA_0", "DATA_0", "entry", "start", "return_", "HEAP_CURSOR", "HEAP_CURSOR_", "end_",
];
pub fn modules(ctx: &Ctx) -> i32 {
    let root = Scratch(std::env::temp_dir().join(format!("vp-mods-{}", std::process::id())));
    let mut jobs: Vec<(&'static str, Mods, String, usize)> = vec![];
    for (bi, base) in BASES.iter().enumerate() {
        let items: Vec<(String, String)> = base.items.iter().map(|i| (i.0.to_string(), i.1.to_string())).collect();
        let n = items.len();
        let ident: Vec<usize> = (0..n).collect();
        let one = vec![0; n];
        for o in permutations(n) {
            // a constant stands before the items that use it
            let at = |k: usize| o.iter().position(|&x| x == k).unwrap();
            let early = (0..n).all(|k| uses(&items, k).iter().all(|&j| !items[j].1.starts_with("const") || at(j) < at(k)));
            if early && (ctx.thorough || n < 6 || o[0] + o[5] == 5) {
                jobs.push(("order of items", split(&items, &one, &o, false).unwrap().0, "f".into(), bi));
            }
        }
        for c in 0..3usize.pow(n as u32 - 1) {
            let of: Vec<usize> = (0..n).map(|k| if k == n - 1 { 0 } else { c / 3usize.pow(k as u32) % 3 }).collect();
            for list in [false, true] {
                if list && !ctx.thorough && c % 2 == 0 {
                    continue;
                }
                let Some((mods, seen)) = split(&items, &of, &ident, list) else { continue };
                jobs.push(("split", mods, "f".into(), bi));
                // two items of different modules under one name
                for x in 0..n {
                    for y in 0..n - 1 {
                        if x == y || of[x] == of[y] || seen.iter().any(|s: &BTreeSet<usize>| s.contains(&x) && s.contains(&y)) || (x < y && x != n - 1) {
                            continue;
                        }
                        let mut it = items.clone();
                        for k in 0..n {
                            if seen[of[k]].contains(&y) {
                                it[k].1 = rename(&it[k].1, &items[y].0, &items[x].0);
                            }
                        }
                        // the modules are made from the old names, then renamed
                        let (mods, _) = split(&items, &of, &ident, list).unwrap();
                        let mods: Mods = mods
                            .into_iter()
                            .map(|(n, t)| {
                                let m = MODS.iter().position(|m| *m == n).unwrap();
                                let t = if seen[m].contains(&y) { rename(&t, &items[y].0, &items[x].0) } else { t };
                                (n, t)
                            })
                            .collect();
                        jobs.push(("one name in two modules", mods, "f".into(), bi));
                    }
                }
            }
        }
        // names of functions
        let fns: Vec<usize> = (0..n).filter(|&k| items[k].1.starts_with("fn")).collect();
        let one_text = split(&items, &one, &ident, false).unwrap().0.remove(0).1;
        let k = fns.len();
        let mut pairs: Vec<(usize, usize)> = vec![];
        for i in 0..k {
            for j in 0..k {
                if i < j {
                    pairs.push((fns[i], fns[j]));
                }
            }
        }
        for (i, j) in pairs {
            for p in NAMES {
                for q in NAMES {
                    if p == q {
                        continue;
                    }
                    let t = rename(&rename(&rename(&one_text, &items[i].0, "@1"), &items[j].0, "@2").replace("@1", p), "@2", q).replace("@2", q);
                    let e = if i == n - 1 { p } else if j == n - 1 { q } else { "f" };
                    jobs.push(("names of functions", vec![("main".into(), t)], e.to_string(), bi));
                }
            }
        }
        // many functions
        for count in (0..if ctx.thorough { 140 } else { 72 }).filter(|c| ctx.thorough || c % 32 < 3 || *c > 58) {
            for at in 1..n {
                let mut t = String::new();
                for (k, (_, text)) in items.iter().enumerate() {
                    if k == at {
                        for z in 0..count {
                            t += &format!("fn filler{z}() {{ return; }}\n");
                        }
                    }
                    t += text;
                    t += "\n";
                }
                jobs.push(("number of functions", vec![("main".into(), t)], "f".into(), bi));
            }
        }
        // names of variables
        for (var, list) in [("a", true), ("b", true), ("s", false), ("i", false), ("n", false), ("q", false), ("r", false), ("t", false), ("h", false)] {
            for new in NAMES.iter().copied().chain(items.iter().map(|i| i.0.as_str()).filter(|n| n.len() > 1)) {
                let _ = list;
                let mut t = String::new();
                for (name, text) in &items {
                    // a variable must not hide a function that its function uses
                    let w: Vec<&str> = words(text).into_iter().map(|w| w.1).collect();
                    let free = !w.contains(&new) && name != var && text.contains(&format!("{var}")) && !items.iter().any(|i| i.0 == var);
                    t += &if free { rename(text, var, new) } else { text.clone() };
                    t += "\n";
                }
                if t != one_text {
                    jobs.push(("names of variables", vec![("main".into(), t)], "f".into(), bi));
                }
            }
        }
    }
    let n = jobs.len();
    ctx.par(n, |i| {
        let (what, mods, entry, b) = &jobs[i];
        let dir = root.0.join(format!("{i}"));
        judge(ctx, what, mods, &dir, entry, BASES[*b].want);
        let _ = std::fs::remove_dir_all(&dir);
    });
    ctx.add("states", n as u64);
    drop(root);
    ctx.sample(json!({"modules": jobs[n / 2].1}));
    ctx.finish("model_checking", json!({"programs_compiled_twice": n, "exhaustive": true, "bounds": {"modules": 3, "items": 6, "levels": 2, "function_names": NAMES.len()}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
