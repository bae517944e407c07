//! Edit histories: the incremental database and the diagnostics tracker against a fresh analysis.
use crate::sem::{self, d, D};
use crate::util::{guarded, Ctx};
use cairo_m_compiler_parser::SourceFile;
use cairo_m_compiler_semantic::db::*;
use cairo_m_compiler_semantic::delta_diagnostics::DeltaDiagnosticsTracker;
use salsa::Setter;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;

const NAMES: [&str; 3] = ["lib", "main", "x::y"];
/// Contents a module can have (None: the module does not exist).
fn texts(m: usize) -> Vec<Option<&'static str>> {
    match m {
        0 => vec![
            Some("fn f(x: felt) -> felt { return x; } struct S { a: felt } const K = 1;"),
            Some("fn f(x: u32) -> u32 { return x; }\n\nstruct S { a: u32 } const K = 1u32;"),
            Some("fn g() { return; }"),
            Some("fn f( { return; }"),
            Some("// shifted\nfn f(x: felt) -> felt { let unused = 1; return x; } struct S { a: felt } const K = 1;"),
            Some("use x::y::f; struct S { a: felt } fn K() { f(1); return; }"),
            Some("fn f(x: felt) -> felt { return x; } fn f() { return; }"),
            None,
        ],
        1 => vec![
            Some("use lib::{f, S, K}; fn main() -> felt { let s = S { a: K }; return f(s.a); }"),
            Some("use lib::f; fn main() -> u32 { return f(1u32); }"),
            Some("use x::y::f; fn main() -> felt { return f(2); }"),
            Some("fn main() -> felt { return 1u32; }"),
            Some("fn main( -> felt { return 1; }"),
            None,
        ],
        _ => vec![
            None,
            Some("fn f(x: felt) -> felt { return x; }"),
            Some("use lib::f; fn h() { f(1); return; }"),
            Some("fn f(x: felt) -> felt { return y; }"),
        ],
    }
}
type State = [usize; 3];
fn mods(s: &State) -> Vec<(String, String)> {
    (0..3).filter_map(|i| texts(i)[s[i]].map(|t| (NAMES[i].to_string(), t.to_string()))).collect()
}
/// Everything the queries say about one project.
#[derive(PartialEq, Clone, Debug)]
pub struct Answer {
    project: Vec<D>,
    parse: Vec<D>,
    module: BTreeMap<String, (Vec<D>, Vec<D>)>,
}
fn sorted(it: impl Iterator<Item = D>) -> Vec<D> {
    let mut v: Vec<D> = it.collect();
    v.sort();
    v
}
fn ask(db: &SemanticDatabaseImpl, c: Crate, which: u8) -> Answer {
    let mut a = Answer { project: vec![], parse: vec![], module: BTreeMap::new() };
    if which & 1 != 0 {
        a.project = project_validate_semantics(db, c).iter().map(d).collect();
        a.parse = project_parse_diagnostics(db, c).iter().map(d).collect();
    }
    if which & 2 != 0 {
        let names: BTreeSet<String> = c.modules(db).keys().cloned().collect();
        for n in names {
            let all = sorted(module_all_diagnostics(db, c, n.clone()).iter().map(d));
            let semd = sorted(module_semantic_diagnostics(db, c, n.clone()).iter().map(d));
            a.module.insert(n, (all, semd));
        }
    }
    a
}
fn path(n: &str) -> String {
    format!("{}.cm", n.replace("::", "/"))
}
/// A live database with one source file per module name, as an editor holds them.
struct Live {
    db: SemanticDatabaseImpl,
    c: Crate,
    files: HashMap<&'static str, SourceFile>,
    at: State,
}
impl Live {
    fn new(s: &State) -> Live {
        let db = SemanticDatabaseImpl::default();
        let mut files = HashMap::new();
        let mut m = HashMap::new();
        for i in 0..3 {
            let f = SourceFile::new(&db, texts(i)[s[i]].unwrap_or("").to_string(), path(NAMES[i]));
            files.insert(NAMES[i], f);
            if texts(i)[s[i]].is_some() {
                m.insert(NAMES[i].to_string(), f);
            }
        }
        let c = Crate::new(&db, m, "main".into(), PathBuf::from("."), "t".into());
        Live { db, c, files, at: *s }
    }
    /// One edit: module `i` gets content `k`.
    fn edit(&mut self, i: usize, k: usize) {
        let t = texts(i)[k];
        if let Some(t) = t {
            let f = self.files[NAMES[i]];
            f.set_text(&mut self.db).to(t.to_string());
        }
        let was = texts(i)[self.at[i]].is_some();
        if was != t.is_some() {
            let mut m = self.c.modules(&self.db).clone();
            if t.is_some() {
                m.insert(NAMES[i].to_string(), self.files[NAMES[i]]);
            } else {
                m.remove(NAMES[i]);
            }
            self.c.set_modules(&mut self.db).to(m);
        }
        self.at[i] = k;
    }
}

fn fresh(s: &State) -> Result<Answer, String> {
    guarded(&format!("{:?}", mods(s)), || {
        let l = Live::new(s);
        ask(&l.db, l.c, 3)
    })
}

fn all_states() -> Vec<State> {
    let mut v = vec![];
    for a in 0..texts(0).len() {
        for b in 0..texts(1).len() {
            for c in 0..texts(2).len() {
                let s = [a, b, c];
                if !mods(&s).is_empty() {
                    v.push(s);
                }
            }
        }
    }
    v
}
fn all_edits() -> Vec<(usize, usize)> {
    (0..3).flat_map(|i| (0..texts(i).len()).map(move |k| (i, k))).collect()
}
fn hist(h: &[(usize, usize)]) -> String {
    h.iter().map(|(i, k)| format!("{} := {:?}", NAMES[*i], texts(*i)[*k])).collect::<Vec<_>>().join("; ")
}

pub fn incremental(ctx: &Ctx) -> i32 {
    let states = all_states();
    let table: std::sync::Mutex<HashMap<State, Answer>> = Default::default();
    ctx.par(states.len(), |i| {
        if let Ok(a) = fresh(&states[i]) {
            table.lock().unwrap().insert(states[i], a);
        } else {
            ctx.violate(format!("analysis panicked on {:?}", mods(&states[i])), json!({"modules": mods(&states[i])}));
        }
    });
    let table = table.into_inner().unwrap();
    let edits = all_edits();
    let depth = if ctx.thorough { 3 } else { 2 };
    // every history of edits up to the depth from every start, asking after each edit
    // (all queries, only the project's, or only the modules') or only at the end
    let starts: Vec<State> = if ctx.thorough { states.clone() } else { states.iter().copied().filter(|s| s[2] < 2 && (s[0] < 4 || s[1] == 0)).collect() };
    ctx.par(starts.len() * edits.len(), |job| {
        let (s0, e0) = (starts[job / edits.len()], edits[job % edits.len()]);
        let mut stack = vec![vec![e0]];
        while let Some(h) = stack.pop() {
            if ctx.stopped() {
                return;
            }
            if h.len() < depth {
                for e in &edits {
                    let mut g = h.clone();
                    g.push(*e);
                    stack.push(g);
                }
            }
            for pat in 0..4u8 {
                let case = format!("start {s0:?}, {} (pattern {pat})", hist(&h));
                let r = guarded(&case, || {
                    let mut l = Live::new(&s0);
                    if pat < 3 {
                        ask(&l.db, l.c, [3, 1, 2][pat as usize]);
                    }
                    for (i, k) in &h {
                        l.edit(*i, *k);
                        if mods(&l.at).is_empty() {
                            continue;
                        }
                        if pat < 3 {
                            ask(&l.db, l.c, [3, 1, 2][pat as usize]);
                        }
                    }
                    (l.at, ask(&l.db, l.c, 3))
                });
                ctx.add("transitions", h.len() as u64);
                ctx.add("histories", 1);
                match r {
                    Err(p) => ctx.violate(format!("after edits the analysis panics: {p}\nfrom {:?}\nedits: {}", mods(&s0), hist(&h)), json!({"start": mods(&s0), "edits": hist(&h)})),
                    Ok((at, a)) => {
                        let Some(w) = table.get(&at) else { continue };
                        if a != *w {
                            ctx.violate(format!("after edits the diagnostics differ from those of a fresh analysis\nfrom {:?}\nedits: {}\nincremental {a:?}\nfresh {w:?}", mods(&s0), hist(&h)), json!({"start": mods(&s0), "edits": hist(&h)}));
                        }
                    }
                }
            }
        }
    });
    ctx.add("states", states.len() as u64);
    ctx.sample(json!({"start": mods(&starts[0]), "edits": hist(&[edits[1], edits[9]])}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"modules": 3, "contents": [8, 6, 4], "edits": depth, "starts": starts.len(), "query_patterns": 4}}), &["a fresh database gives the reference answer"])
}

pub fn delta(ctx: &Ctx) -> i32 {
    let states = all_states();
    let table: std::sync::Mutex<HashMap<State, Vec<D>>> = Default::default();
    ctx.par(states.len(), |i| {
        let s = &states[i];
        match fresh(s) {
            Err(p) => ctx.violate(format!("analysis panicked on {:?}: {p}", mods(s)), json!({"modules": mods(s)})),
            Ok(a) => {
                let all: Vec<D> = sorted(a.module.values().flat_map(|(all, _)| all.iter().cloned()));
                // the modules' answers together are the project's, each problem once
                {
                    let mut once = all.clone();
                    once.dedup();
                    if once != all {
                        ctx.violate(format!("a module query reports a problem twice: {all:?}\n{:?}", mods(s)), json!({"modules": mods(s)}));
                    }
                    let mut p = a.project.clone();
                    p.sort();
                    let has_parse = !a.parse.is_empty();
                    if has_parse && !p.iter().all(|d| all.contains(d)) || !has_parse && p != all {
                        ctx.violate(format!("the modules' diagnostics are not those of the project:\n{p:?}\n{all:?}\n{:?}", mods(s)), json!({"modules": mods(s)}));
                    }
                }
                table.lock().unwrap().insert(*s, all);
            }
        }
    });
    let table = table.into_inner().unwrap();
    let edits = all_edits();
    let depth = 3;
    let first: Vec<(usize, usize)> = edits.clone();
    // every sequence of: an edit, asking the tracker, another crate's turn
    let starts: Vec<State> = if ctx.thorough { states.iter().copied().step_by(12).chain([[0, 0, 0], [3, 1, 1], [6, 3, 3]]).collect() } else { vec![[0, 0, 0], [3, 1, 1], [6, 3, 3]] };
    let other: State = [1, 3, 1];
    ctx.par(starts.len() * first.len(), |job| {
        let s0 = starts[job / first.len()];
        let mut stack = vec![vec![first[job % first.len()]]];
        while let Some(h) = stack.pop() {
            if ctx.stopped() {
                return;
            }
            if h.len() < depth {
                for e in &edits {
                    if h.len() + 1 == depth && (e.0 + e.1 + h[0].1) % 2 == 1 && !ctx.thorough {
                        continue;
                    }
                    let mut g = h.clone();
                    g.push(*e);
                    stack.push(g);
                }
            }
            // asks: bit j = ask after edit j; the tracker is always asked twice at the end
            for asks in 0..1u8 << (h.len() - 1) {
                for two in [false, true] {
                    let case = format!("start {s0:?}, {} asks {asks:b} two {two}", hist(&h));
                    let r = guarded(&case, || {
                        let mut l = Live::new(&s0);
                        let mut tr = DeltaDiagnosticsTracker::new();
                        let oc = {
                            let o: HashMap<String, SourceFile> = mods(&other).iter().map(|(n, t)| (n.clone(), SourceFile::new(&l.db, t.clone(), path(n)))).collect();
                            Crate::new(&l.db, o, "main".into(), PathBuf::from("other"), "o".into())
                        };
                        let mut out = vec![];
                        let go = |l: &Live, tr: &mut DeltaDiagnosticsTracker| sorted(tr.get_project_diagnostics(&l.db, l.c).iter().map(d));
                        out.push((l.at, go(&l, &mut tr)));
                        for (j, (i, k)) in h.iter().enumerate() {
                            l.edit(*i, *k);
                            if j + 1 < h.len() && asks >> j & 1 == 1 {
                                out.push((l.at, go(&l, &mut tr)));
                                if two {
                                    out.push((other, sorted(tr.get_project_diagnostics(&l.db, oc).iter().map(d))));
                                }
                            }
                        }
                        out.push((l.at, go(&l, &mut tr)));
                        if two {
                            out.push((other, sorted(tr.get_project_diagnostics(&l.db, oc).iter().map(d))));
                        }
                        out.push((l.at, go(&l, &mut tr)));
                        out
                    });
                    ctx.add("histories", 1);
                    match r {
                        Err(p) => ctx.violate(format!("the tracker panics: {p}\nfrom {:?}\nedits: {}", mods(&s0), hist(&h)), json!({"start": mods(&s0), "edits": hist(&h)})),
                        Ok(out) => {
                            ctx.add("transitions", out.len() as u64);
                            for (n, (at, got)) in out.iter().enumerate() {
                                let empty = vec![];
                                let w = if mods(at).is_empty() { &empty } else if let Some(w) = table.get(at) { w } else { continue };
                                if got != w {
                                    ctx.violate(
                                        format!("the tracker's answer {} differs from a fresh analysis\nfrom {:?}\nedits: {}\nasked after edits {asks:b}, {}\ngot {got:?}\nfresh {w:?}", n + 1, mods(&s0), hist(&h), if two { "another crate between" } else { "one crate" }),
                                        json!({"start": mods(&s0), "edits": hist(&h), "asks": asks, "two_crates": two}),
                                    );
                                    break;
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.add("states", states.len() as u64);
    ctx.sample(json!({"start": mods(&starts[0]), "edits": hist(&[edits[7], edits[9]])}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"modules": 3, "contents": [8, 6, 4], "edits": depth, "starts": starts.len()}}), &["a fresh database gives the reference answer"])
}
