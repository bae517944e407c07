//! Answers to requests: at rest, in flight, and against scopes known by construction.
use crate::explore;
use crate::l_diag::{brief, sequences, texts, world, Dir, A, MAIN};
use crate::server::*;
use crate::util::Ctx;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

/// Questions about every name of a text, and about the text as a whole.
fn asks(f: usize, text: &str) -> Vec<Ask> {
    let mut v = vec![Ask::Format(f)];
    for (l, line) in text.lines().enumerate() {
        let b = line.as_bytes();
        for c in 0..b.len() {
            if b[c].is_ascii_alphabetic() && (c == 0 || !b[c - 1].is_ascii_alphanumeric()) {
                v.push(Ask::Hover(f, l as u32, c as u32));
                v.push(Ask::Definition(f, l as u32, c as u32));
            }
        }
        v.push(Ask::Complete(f, l as u32, 4));
    }
    v
}
/// The answers of a server to which the texts were opened and which has come to rest.
struct Fresh {
    w: Arc<World>,
    known: Mutex<HashMap<(Vec<(usize, String)>, Ask), String>>,
}
impl Fresh {
    fn get(&self, texts: &BTreeMap<usize, String>, a: &Ask) -> String {
        let key = (texts.clone().into_iter().collect::<Vec<_>>(), a.clone());
        if let Some(r) = self.known.lock().unwrap().get(&key) {
            return r.clone();
        }
        let evs: Vec<Ev> = texts.iter().map(|(f, t)| Ev::Open(*f, t.clone())).collect();
        let mut q = asks(a.file(), &texts[&a.file()]);
        if !q.contains(a) {
            q.push(a.clone());
        }
        let (_, h) = run(&self.w, &evs, &q, &[], 0, false);
        let mut k = self.known.lock().unwrap();
        for (i, q) in q.iter().enumerate() {
            k.insert((key.0.clone(), q.clone()), h.answers.get(&(1000 + i)).cloned().unwrap_or("none".into()));
        }
        k[&key].clone()
    }
}
pub fn consistent(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let (_d, w) = world("l02");
    let fresh = Fresh { w: w.clone(), known: Default::default() };
    // at rest: every history, then every question
    let mut rest = sequences(if ctx.thorough { 3 } else { 2 }, 3, true, false);
    if !ctx.thorough {
        rest.extend(sequences(3, 2, true, false));
    }
    // in flight: a settled file, then changes and a question in every order
    let mut flight: Vec<(Vec<Ev>, usize)> = vec![];
    let q: Vec<Ask> = vec![Ask::Hover(0, 2, 11), Ask::Definition(0, 2, 11), Ask::Complete(0, 2, 4), Ask::Format(0)];
    let nt = if ctx.thorough { 3 } else { 2 };
    for (i, first) in MAIN.iter().enumerate().take(nt) {
        for a in &q {
            let start = [Ev::Open(0, first.to_string()), Ev::Settle];
            let mut mid: Vec<Vec<Ev>> = vec![vec![Ev::Ask(a.clone())]];
            for (j, t) in MAIN.iter().enumerate().take(nt) {
                if j != i {
                    let c = Ev::Change(0, t.to_string());
                    mid.push(vec![c.clone(), Ev::Ask(a.clone())]);
                    mid.push(vec![Ev::Ask(a.clone()), c.clone()]);
                    mid.push(vec![c.clone(), Ev::Ask(a.clone()), Ev::Change(0, first.to_string())]);
                    mid.push(vec![c.clone(), Ev::Changes(0, A[0].to_string(), first.to_string()), Ev::Ask(a.clone())]);
                    mid.push(vec![Ev::Ask(a.clone()), c.clone(), Ev::Ask(a.clone())]);
                }
            }
            for (j, t) in A.iter().enumerate() {
                if j > 0 {
                    let c = Ev::Open(1, t.to_string());
                    mid.push(vec![c.clone(), Ev::Ask(a.clone())]);
                    mid.push(vec![Ev::Ask(a.clone()), c.clone()]);
                    mid.push(vec![c.clone(), Ev::Change(1, A[j - 1].to_string()), Ev::Ask(a.clone())]);
                }
            }
            for m in mid {
                flight.push((start.iter().cloned().chain(m).collect(), if ctx.thorough { 2 } else { 1 }));
            }
        }
    }
    let nr = rest.len();
    ctx.add("histories_at_rest", nr as u64);
    ctx.add("histories_in_flight", flight.len() as u64);
    let st = explore::all(
        nr + flight.len(),
        |i| if i < nr { usize::from(i < 40) } else { flight[i - nr].1 },
        |i, script| {
            let mut bad = vec![];
            let (evs, o);
            if i < nr {
                evs = rest[i].clone();
                let now = texts(&evs);
                let last: Vec<Ask> = now.iter().flat_map(|(f, t)| asks(*f, t)).collect();
                let (oo, h) = run(&w, &evs, &last, script, i as u64 % 2, false);
                o = oo;
                bad.extend(o.problems.clone());
                for (k, a) in last.iter().enumerate() {
                    let want = fresh.get(&now, a);
                    let got = h.answers.get(&(1000 + k));
                    ctx.add("answers", 1);
                    if got != Some(&want) && bad.len() < 3 {
                        bad.push(format!("{a:?} is answered {got:?}, by a fresh server {want:?}"));
                    }
                }
            } else {
                evs = flight[i - nr].0.clone();
                let (oo, h) = run(&w, &evs, &[], script, 0, false);
                o = oo;
                bad.extend(o.problems.clone());
                for (n, e) in evs.iter().enumerate() {
                    let Ev::Ask(a) = e else { continue };
                    ctx.add("answers", 1);
                    // the states of the texts from the request on; an opened file counts once its project has been loaded again
                    let mut cand: Vec<BTreeMap<usize, String>> = vec![];
                    for k in n..=evs.len() {
                        let t = texts(&evs[..k]);
                        let mut alt = vec![t.clone()];
                        if t.contains_key(&1) {
                            let mut t2 = t.clone();
                            t2.remove(&1);
                            alt.push(t2);
                        }
                        cand.extend(alt);
                    }
                    let got = h.answers.get(&n);
                    let want: Vec<String> = cand.iter().map(|t| fresh.get(t, a)).collect();
                    if !got.is_some_and(|g| want.contains(g)) {
                        bad.push(format!("request {n} is answered {got:?}, by fresh servers {want:?}"));
                    }
                }
            }
            if !bad.is_empty() {
                let (o2, _) = run(&w, &evs, &[], script, if i < nr { i as u64 % 2 } else { 0 }, true);
                ctx.violate(format!("{}: {script:?}: {}", brief(&evs), bad.join("; ")), json!({"events": format!("{evs:?}"), "schedule": script, "log": o2.log}));
            }
            (o, bad.is_empty())
        },
        || ctx.stopped(),
    );
    ctx.add("schedules", st.schedules.into_inner());
    ctx.add("points", st.points.into_inner());
    ctx.finish("model_checking", json!({"bounds": {"events": 3, "deviations": if ctx.thorough {2} else {1}}}), &[])
}

/// A program under construction, with what each use of a name means.
#[derive(Clone, Default)]
struct Prog {
    text: String,
    /// scopes, innermost last: name -> (position of the definition, type)
    scopes: Vec<Vec<(&'static str, (usize, &'static str))>>,
    uses: Vec<(usize, &'static str, Option<(usize, &'static str)>)>,
    depth: usize,
}
impl Prog {
    fn put(&mut self, s: &str) -> usize {
        let at = self.text.len();
        self.text.push_str(s);
        at
    }
    fn find(&self, n: &str) -> Option<(usize, &'static str)> {
        self.scopes.iter().rev().find_map(|s| s.iter().rev().find(|x| x.0 == n).map(|x| x.1))
    }
    fn usage(&mut self, n: &'static str) -> Option<(usize, &'static str)> {
        let d = self.find(n);
        let at = self.put(n);
        self.uses.push((at, n, d));
        d
    }
    fn ind(&mut self) {
        for _ in 0..self.depth {
            self.put("    ");
        }
    }
    fn stmt(&mut self, k: usize) -> bool {
        if k == 5 && self.depth == 1 {
            return false;
        }
        if k == 5 {
            self.depth -= 1;
        }
        self.ind();
        match k {
            0 | 1 | 2 | 9 | 10 => {
                self.put("let ");
                let n = if k == 2 || k == 10 { "y" } else { "x" };
                let at = self.put(n);
                self.put(" = ");
                let t = match k {
                    0 => self.usage("p"),
                    1 | 2 => self.usage("x"),
                    9 => {
                        self.usage("g");
                        self.put("(");
                        self.usage("K");
                        self.put(")");
                        Some((0, "felt"))
                    }
                    _ => {
                        self.put("7u32");
                        Some((0, "u32"))
                    }
                };
                self.put(";\n");
                self.scopes.last_mut().unwrap().push((n, (at, t.map_or("?", |t| t.1))));
            }
            3 => {
                self.usage("x");
                self.put(" = ");
                self.usage("y");
                self.put(";\n");
            }
            4 => {
                self.put("{\n");
                self.depth += 1;
                self.scopes.push(vec![]);
            }
            5 => {
                self.put("}\n");
                self.scopes.pop();
            }
            6 | 7 => {
                self.put(if k == 6 { "if (" } else { "while (" });
                self.usage("x");
                self.put(" == ");
                self.usage("y");
                self.put(") {\n");
                self.depth += 1;
                self.scopes.push(vec![]);
            }
            8 => {
                self.put("for (let ");
                let at = self.put("x");
                self.put(" = ");
                let t = self.usage("p");
                self.put("; ");
                self.scopes.push(vec![("x", (at, t.map_or("?", |t| t.1)))]);
                self.usage("x");
                self.put(" != ");
                self.usage("y");
                self.put("; ");
                self.usage("x");
                self.put(" = ");
                self.usage("x");
                self.put(" + 1) {\n");
                self.depth += 1;
            }
            _ => unreachable!(),
        }
        true
    }
}
const G: &str = "// gé\nfn g(x: felt) -> felt {\n    return x;\n}\nfn h() -> felt {\n    return g(1);\n}\n";
fn build(ks: &[usize], nested: bool) -> Option<Prog> {
    let mut p = Prog::default();
    p.put("// é😀\n");
    p.put(if nested { "use utils::math::g;\n" } else { "use a::g;\n" });
    // a name of another file: position in G, which the caller tells from the name
    p.scopes.push(vec![("g", (G.find("g(").unwrap(), "fn(felt) -> felt"))]);
    p.put("const ");
    let at = p.put("K");
    p.put(": felt = 3;\nfn f(");
    p.scopes[0].push(("K", (at, "felt")));
    let at = p.put("p");
    p.put(": felt) -> felt {\n");
    p.scopes.push(vec![("p", (at, "felt"))]);
    p.depth = 1;
    for k in ks {
        if !p.stmt(*k) {
            return None;
        }
    }
    while p.depth > 1 {
        p.stmt(5);
    }
    p.put("    return ");
    p.usage("x");
    p.put(";\n}\n");
    Some(p)
}
pub fn scopes(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let d = std::env::temp_dir().join(format!("vpls-{}-l03", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("p/src/utils")).unwrap();
    std::fs::write(d.join("p/cairom.toml"), "name = \"p\"\nversion = \"0.1.0\"\nentry_point = \"main.cm\"\n").unwrap();
    let files = vec![
        (d.join("p/src/main.cm"), "fn m() -> felt {\n    return 1;\n}\n".to_string()),
        (d.join("p/src/a.cm"), G.to_string()),
        (d.join("p/src/utils/math.cm"), G.to_string()),
    ];
    for (p, t) in &files {
        std::fs::write(p, t).unwrap();
    }
    let _d = Dir(d);
    let w = Arc::new(World { files, project: vec![0, 1, 2] });
    let depth = if ctx.thorough { 5 } else { 4 };
    let mut progs: Vec<(Prog, bool)> = vec![];
    fn rec(ks: &mut Vec<usize>, depth: usize, out: &mut Vec<(Prog, bool)>) {
        for nested in [false, true] {
            if nested && ks.len() > 1 {
                continue;
            }
            match build(ks, nested) {
                Some(p) => out.push((p, nested)),
                None => return,
            }
        }
        if ks.len() < depth {
            for k in 0..11 {
                ks.push(k);
                rec(ks, depth, out);
                ks.pop();
            }
        }
    }
    rec(&mut vec![], depth, &mut progs);
    ctx.add("programs", progs.len() as u64);
    // the same with the text of a nested module being asked about
    let st = explore::all(
        progs.len(),
        |_| 0,
        |i, _| {
            let (p, nested) = &progs[i];
            let mut last = vec![];
            let mut want: Vec<(String, Option<String>)> = vec![];
            for (at, name, d) in &p.uses {
                // at its start, and behind its last character
                for off in [*at, at + name.len()] {
                    let c = position(&p.text, off);
                    last.push(Ask::Definition(0, c.line, c.character));
                    let (file, text) = if *name == "g" { (if *nested { 2 } else { 1 }, G) } else { (0, &p.text[..]) };
                    let loc = d.map(|(o, _)| tower_lsp::lsp_types::Location {
                        uri: url(&w, file),
                        range: tower_lsp::lsp_types::Range::new(position(text, o), position(text, o + name.len())),
                    });
                    want.push((format!("{:?}", Ok::<_, ()>(loc.map(tower_lsp::lsp_types::GotoDefinitionResponse::Scalar))), None));
                    last.push(Ask::Hover(0, c.line, c.character));
                    want.push(match d {
                        None => ("Ok(None)".into(), None),
                        Some((_, "?")) => (String::new(), Some(format!("{name}: "))),
                        Some(_) if *name == "g" => (String::new(), Some(format!("\\n```\\n\\n*From module: {}*\"", if *nested { "utils::math" } else { "a" }))),
                        Some((_, t)) => (String::new(), Some(format!("{name}: {t}\\n```\""))),
                    });
                }
            }
            let (o, h) = run(&w, &[Ev::Open(0, p.text.clone())], &last, &[], 0, false);
            let mut bad = o.problems.clone();
            for (k, (exact, part)) in want.iter().enumerate() {
                let got = h.answers.get(&(1000 + k)).cloned().unwrap_or("none".into());
                ctx.add("answers", 1);
                let ok = match part {
                    None => got == *exact,
                    Some(x) => got.contains(x),
                };
                if !ok && bad.len() < 3 {
                    bad.push(format!("{:?} is answered {got}, expected {}", last[k], part.as_ref().unwrap_or(exact)));
                }
            }
            if !bad.is_empty() {
                ctx.violate(format!("{}: {}", p.text, bad.join("; ")), json!({"text": p.text, "bad": bad}));
            }
            (o, true)
        },
        || ctx.stopped(),
    );
    ctx.add("schedules", st.schedules.into_inner());
    ctx.add("points", st.points.into_inner());
    edits(ctx, &w);
    ctx.finish("model_checking", json!({"bounds": {"statements": depth}}), &[])
}
/// Replaces the range of the edit as a client does.
fn apply(text: &str, e: &str) -> Option<String> {
    let v: Vec<(u32, u32, u32, u32, String)> = serde_json::from_str(e).ok()?;
    let mut v: Vec<_> = v.into_iter().map(|e| (offset(text, e.0, e.1), offset(text, e.2, e.3), e.4)).collect();
    v.sort();
    let mut out = text.to_string();
    for (a, b, t) in v.into_iter().rev() {
        out.replace_range(a..b, &t);
    }
    Some(out)
}
/// A formatted document is what the formatter gives; diagnostics lie where the text is.
fn edits(ctx: &Ctx, w: &Arc<World>) {
    let heads = ["", "// é\n", "\n", "// 😀 é\r\n"];
    let bodies = ["fn m() -> felt {\n    return 1;\n}", "fn m()->felt{return 1;}", "fn m() -> felt {\n    return 1\n}", "fn m() -> felt { return /*é😀*/ zz; }", "é😀 zz fn m() -> felt { return q; }", ""];
    let tails = ["", "\n", "\n\n", "\n// é😀", "\n// é😀\n", "  \t", "\r\n", " // 😀😀"];
    let mut all = vec![];
    for h in heads {
        for b in bodies {
            for t in tails {
                all.push(format!("{h}{b}{t}"));
            }
        }
    }
    ctx.add("documents", all.len() as u64);
    explore::all(
        all.len(),
        |_| 0,
        |i, _| {
            let t = &all[i];
            let evs = [Ev::Open(0, t.clone())];
            let (o, h) = run(w, &evs, &[Ask::Format(0)], &[], 0, false);
            let mut bad = crate::l_diag::judge(w, &evs, &o, &h);
            let got = h.answers.get(&1000).cloned().unwrap_or("none".into());
            let db = cairo_m_compiler_semantic::db::SemanticDatabaseImpl::default();
            let f = cairo_m_compiler_parser::SourceFile::new(&db, t.clone(), "f".into());
            let want = cairo_m_formatter::format_source_file(&db, f, &Default::default());
            match apply(t, &got) {
                Some(g) if g == want => {}
                g => bad.push(format!("formatting makes {g:?}, the formatter {want:?}; the answer was {got}")),
            }
            if !bad.is_empty() {
                ctx.violate(format!("{t:?}: {}", bad.join("; ")), json!({"text": t, "bad": bad}));
            }
            (o, true)
        },
        || ctx.stopped(),
    );
}
