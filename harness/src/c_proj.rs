//! Projects: which manifest, which modules, which entry.
use crate::util::{guarded, Ctx};
use cairo_m_compiler_semantic::db::{crate_from_project, project_validate_semantics, SemanticDatabaseImpl};
use cairo_m_project::{discover_project, discover_workspace, find_project_manifest, Project, ProjectManifest};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::path::{Path, PathBuf};

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn put(p: &Path, t: &str) {
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, t).unwrap();
}
fn manifest(name: &str, entry: &str) -> String {
    format!("name = \"{name}\"\nversion = \"0.2.0\"\nentry_point = \"{entry}\"\n")
}

/// What is found from a path: (name, entry file).
fn found(p: &Path) -> Result<Result<Option<(String, PathBuf)>, String>, String> {
    guarded(&p.display().to_string(), || discover_project(p).map(|o| o.map(|p: Project| (p.name.clone(), p.root_directory.clone()))).map_err(|e| format!("{e:#}")))
}

/// Manifests in every subset of nested directories; from every path the nearest one counts.
fn nearest(ctx: &Ctx, root: &Path) -> u64 {
    let dirs = ["", "p", "p/q", "p/src", "p/q/src", "p/q/src/m"];
    let files = ["z.cm", "p/y.cm", "p/src/main.cm", "p/src/x.cm", "p/q/w.cm", "p/q/src/main.cm", "p/q/src/m/v.cm", "p/q/src/m/u u.cm"];
    let absent = ["p/none.cm", "p/src/none.cm", "p/none"];
    let mut n = 0;
    for set in 0..1usize << dirs.len() {
        let base = root.join(format!("n{set}"));
        for f in files {
            put(&base.join(f), "fn main() { return; }\n");
        }
        for (i, d) in dirs.iter().enumerate() {
            fs::create_dir_all(base.join(d)).unwrap();
            if set >> i & 1 == 1 {
                put(&base.join(d).join("cairom.toml"), &manifest(&format!("proj{i}"), "main.cm"));
            }
        }
        let want = |p: &str| -> Option<usize> {
            let mut cur = Some(Path::new(p));
            while let Some(c) = cur {
                if let Some(i) = dirs.iter().position(|d| Path::new(d) == c) {
                    if set >> i & 1 == 1 {
                        return Some(i);
                    }
                }
                cur = c.parent();
            }
            None
        };
        // every path, absolute and relative to every directory
        let mut starts: Vec<(Option<&str>, String, &str)> = vec![];
        for p in files.iter().chain(&dirs).chain(&absent) {
            starts.push((None, base.join(p).display().to_string(), p));
            for cwd in dirs {
                let up = cwd.split('/').filter(|c| !c.is_empty()).count();
                if up == 0 || Path::new(p).starts_with(cwd) {
                    let rel = Path::new(p).strip_prefix(cwd).unwrap().display().to_string();
                    starts.push((Some(cwd), if rel.is_empty() { ".".into() } else { rel.clone() }, p));
                    if !rel.is_empty() {
                        starts.push((Some(cwd), format!("./{rel}"), p));
                    }
                } else {
                    starts.push((Some(cwd), format!("{}{p}", "../".repeat(up)), p));
                }
            }
        }
        for (cwd, start, p) in starts {
            if let Some(c) = cwd {
                std::env::set_current_dir(base.join(c)).unwrap();
            }
            n += 1;
            ctx.add("transitions", 1);
            let tell = format!("manifests in {:?}, from {start} in {cwd:?}", dirs.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|d| d.1).collect::<Vec<_>>());
            let same = |a: &Path, b: &Path| {
                let c = |x: &Path| x.parent().map(|d| if d.as_os_str().is_empty() { Path::new(".") } else { d }).and_then(|d| d.canonicalize().ok()).map(|d| d.join(x.file_name().unwrap_or_default()));
                a == b || c(a).is_some_and(|x| Some(x) == c(b))
            };
            match (found(Path::new(&start)), want(p)) {
                (Err(e), _) => ctx.violate(format!("looking for the project panics: {e}: {tell}"), json!(tell)),
                (Ok(Ok(Some((name, file)))), Some(i)) => {
                    ctx.outcome("project");
                    let f = base.join(dirs[i]).join("src/main.cm");
                    let here = fs::create_dir_all(f.parent().unwrap());
                    if name != format!("proj{i}") || !same(&file, &f) {
                        ctx.violate(format!("the project found is {name} with {}, not proj{i} with {}: {tell} ({here:?})", file.display(), f.display()), json!(tell));
                    }
                    match find_project_manifest(Path::new(&start)) {
                        Ok(Some(m)) if same(&m, &base.join(dirs[i]).join("cairom.toml")) => {}
                        m => ctx.violate(format!("the manifest found is {m:?}: {tell}"), json!(tell)),
                    }
                }
                (Ok(Ok(Some((name, file)))), None) => {
                    ctx.outcome("single file");
                    let at = base.join(p);
                    if at.is_file() && (Some(name.as_str()) != at.file_stem().unwrap().to_str() || !same(&file, &at)) {
                        ctx.violate(format!("without a manifest the file stands for itself, but {name} with {} is found: {tell}", file.display()), json!(tell));
                    }
                }
                (Ok(r), w) => ctx.violate(format!("found {r:?}, expected {w:?}: {tell}"), json!(tell)),
            }
        }
        std::env::set_current_dir(root).unwrap();
        fs::remove_dir_all(&base).unwrap();
    }
    n
}

/// Files below the source directory in every combination: the modules of the project.
fn modules(ctx: &Ctx, root: &Path) -> u64 {
    let files = ["main.cm", "a.cm", "b/a.cm", "b/c/d.cm", "b.cm", "main.txt", "e.cm.bak", "b/cm", "_x1.cm", "f.cm/g.cm", "b/main.cm"];
    let entries = ["main.cm", "src/main.cm", "@abs", "a.cm", "b.cm", "./main.cm"];
    let total = 1usize << files.len();
    ctx.par(total, |set| {
        let base = root.join(format!("m{set}"));
        let src = base.join("src");
        fs::create_dir_all(&src).unwrap();
        let mut want: BTreeMap<String, String> = BTreeMap::new();
        for (i, f) in files.iter().enumerate() {
            if set >> i & 1 == 1 {
                if let Some(m) = f.strip_suffix(".cm") {
                    want.insert(m.replace('/', "::").replace(".cm", ".cm"), String::new());
                }
            }
        }
        // each module calls a function of every module before it
        let names: Vec<String> = want.keys().cloned().filter(|n| !n.contains('.')).collect();
        let text = |m: &str| {
            let mut t = String::new();
            let k = names.iter().position(|n| n == m).unwrap_or(0);
            for (j, o) in names[..k].iter().enumerate() {
                t += &format!("use {o}::f{j};\n");
            }
            t += &format!("fn f{k}() -> felt {{ return {}; }}\n", (0..k).map(|j| format!("f{j}() + ")).collect::<String>() + "1felt");
            t
        };
        for (i, f) in files.iter().enumerate() {
            if set >> i & 1 == 1 {
                let t = match f.strip_suffix(".cm") {
                    Some(m) => text(&m.replace('/', "::")),
                    None => "not a program".to_string(),
                };
                if let Some(m) = f.strip_suffix(".cm") {
                    want.insert(m.replace('/', "::"), t.clone());
                }
                put(&src.join(f), &t);
            }
        }
        for e in entries {
            let file = e.trim_start_matches("./").trim_start_matches("src/").replace("@abs", "main.cm");
            if !src.join(&file).is_file() {
                continue;
            }
            let entry = if e == "@abs" { src.join("main.cm").display().to_string() } else { e.to_string() };
            put(&base.join("cairom.toml"), &manifest("pr", &entry));
            ctx.add("transitions", 1);
            let tell = format!("entry {e}, files {:?}", files.iter().enumerate().filter(|(i, _)| set >> i & 1 == 1).map(|f| f.1).collect::<Vec<_>>());
            let r = guarded(&tell, || -> Result<_, String> {
                let p = discover_project(&base).map_err(|e| format!("{e:#}"))?.ok_or("no project")?;
                let mut names = BTreeSet::new();
                for f in p.source_files().map_err(|e| format!("{e:#}"))? {
                    names.insert(p.module_name_from_path(&f)?);
                }
                let db = SemanticDatabaseImpl::default();
                let c = crate_from_project(&db, p).map_err(|d| format!("{d}"))?;
                let mods: BTreeMap<String, String> = c.modules(&db).iter().map(|(n, f)| (n.clone(), f.text(&db).to_string())).collect();
                let errs: Vec<String> = project_validate_semantics(&db, c).iter().map(|d| format!("{} {}: {}", d.file_path, d.span, d.message)).collect();
                Ok((names, mods, c.entry_point(&db).clone(), errs))
            });
            match r {
                Err(p) => ctx.violate(format!("loading a project panics: {p}: {tell}"), json!(tell)),
                Ok(Err(e)) => ctx.violate(format!("a project is not loaded: {e}: {tell}"), json!(tell)),
                Ok(Ok((names, mods, ep, errs))) => {
                    if names != want.keys().cloned().collect() || mods != want {
                        ctx.violate(format!("the modules are {:?}, not {:?}: {tell}", mods.keys(), want.keys()), json!(tell));
                    }
                    if Some(ep.as_str()) != file.strip_suffix(".cm") {
                        ctx.violate(format!("the entry is {ep}: {tell}"), json!(tell));
                    }
                    if !errs.is_empty() {
                        ctx.violate(format!("modules do not see each other: {errs:?}: {tell}"), json!(tell));
                    }
                    ctx.outcome(format!("{} modules", mods.len()));
                }
            }
        }
        fs::remove_dir_all(&base).unwrap();
    });
    total as u64
}

/// Single files of every kind of name.
fn single(ctx: &Ctx, root: &Path) -> u64 {
    let parts = ["a", "é", "\"", "\\", " ", ".", "'", "\n", "#", "-"];
    let mut stems: Vec<String> = vec![];
    for a in parts {
        stems.push(a.into());
        for b in parts {
            stems.push(format!("{a}{b}"));
            if ctx.thorough {
                stems.extend(parts.iter().map(|c| format!("{a}{b}{c}")));
            }
        }
    }
    let n = stems.len();
    for (i, s) in stems.iter().enumerate() {
        if s.starts_with('.') {
            continue;
        }
        let dir = root.join(format!("s{i}"));
        let f = dir.join(format!("{s}.cm"));
        put(&f, "fn main() { return; }\n");
        put(&dir.join("other.cm"), "not a program");
        ctx.add("transitions", 1);
        let r = guarded(s, || -> Result<_, String> {
            let p = discover_project(&f).map_err(|e| format!("{e:#}"))?.ok_or("no project")?;
            let name = p.name.clone();
            if p.config.name != name {
                return Err(format!("the manifest says {:?}", p.config.name));
            }
            let db = SemanticDatabaseImpl::default();
            let c = crate_from_project(&db, p).map_err(|d| format!("{d}"))?;
            let k: Vec<String> = c.modules(&db).keys().cloned().collect();
            Ok((name, k, c.entry_point(&db).clone(), project_validate_semantics(&db, c).len()))
        });
        match r {
            Err(p) => ctx.violate(format!("a single file named {s:?} panics: {p}"), json!(s)),
            Ok(Ok((name, k, e, 0))) if name == *s && k == [s.clone()] && e == *s => {}
            Ok(o) => ctx.violate(format!("a single file named {s:?} gives {o:?}"), json!(s)),
        }
        fs::remove_dir_all(&dir).unwrap();
    }
    n as u64
}

/// Manifests: every combination of lines.
fn manifests(ctx: &Ctx, root: &Path) -> u64 {
    let lines = ["name = \"x\"", "version = \"1.2.3\"", "entry_point = \"main.cm\"", "extra = 1", "name = 3", "# note", "[table]", "entry_point = ["];
    let total = 1usize << lines.len();
    let mut ok_dirs = vec![];
    let ws = root.join("w");
    for set in 0..total {
        let on = |i: usize| set >> i & 1 == 1;
        let t: String = lines.iter().enumerate().filter(|l| on(l.0)).map(|l| format!("{}\n", l.1)).collect();
        let valid = on(0) && on(2) && !on(4) && !on(7);
        ctx.add("transitions", 1);
        match guarded(&t, || ProjectManifest::from_file_content(&t).map_err(|e| e.to_string())) {
            Err(p) => ctx.violate(format!("a manifest makes the loader panic: {p}\n{t}"), json!(t)),
            Ok(Ok(m)) if valid => {
                if (m.name.as_str(), m.version.as_str(), m.entry_point.as_str()) != ("x", if on(1) { "1.2.3" } else { "0.1.0" }, "main.cm") {
                    ctx.violate(format!("a manifest is read as {m:?}\n{t}"), json!(t));
                }
            }
            Ok(Err(_)) if !valid => {}
            Ok(o) => ctx.violate(format!("a manifest gives {o:?}\n{t}"), json!(t)),
        }
        // the same through files: a broken manifest is an error, never another project
        let d = ws.join(format!("d{set}"));
        put(&d.join("cairom.toml"), &t.replace("\"x\"", &format!("\"x{set}\"")));
        match found(&d) {
            Err(p) => ctx.violate(format!("a manifest makes the loader panic: {p}\n{t}"), json!(t)),
            Ok(r) => {
                if r.is_ok() != valid {
                    ctx.violate(format!("a project with this manifest gives {r:?}\n{t}"), json!(t));
                }
            }
        }
        if valid {
            ok_dirs.push(set);
        }
    }
    match guarded("workspace", || discover_workspace(&ws).map_err(|e| e.to_string())) {
        Ok(Ok(w)) => {
            let names: BTreeSet<String> = w.projects.values().map(|p| p.name.clone()).collect();
            let want: BTreeSet<String> = ok_dirs.iter().map(|s| format!("x{s}")).collect();
            let ids = w.name_to_id.iter().all(|(n, id)| w.projects.get(id).is_some_and(|p| p.name == *n));
            if names != want || w.projects.len() != want.len() || w.name_to_id.len() != want.len() || !ids {
                ctx.violate(format!("a workspace of {} projects holds {}", want.len(), names.len()), json!("workspace"));
            }
        }
        r => ctx.violate(format!("a workspace is not found: {r:?}"), json!("workspace")),
    }
    total as u64
}

pub fn projects(ctx: &Ctx) -> i32 {
    let root = Scratch(std::env::temp_dir().join(format!("vp-proj-{}", std::process::id())));
    fs::create_dir_all(&root.0).unwrap();
    let dir = root.0.canonicalize().unwrap();
    let mut up = Some(dir.as_path());
    while let Some(d) = up {
        assert!(!d.join("cairom.toml").exists(), "a manifest stands above the scratch directory");
        up = d.parent();
    }
    let here = std::env::current_dir().unwrap();
    let a = nearest(ctx, &dir);
    let b = modules(ctx, &dir);
    let c = single(ctx, &dir);
    let d = manifests(ctx, &dir);
    std::env::set_current_dir(here).unwrap();
    drop(root);
    ctx.add("states", a + b + c + d);
    ctx.sample(json!({"files": ["main.cm", "b/a.cm"], "entry": "src/main.cm"}));
    ctx.finish("model_checking", json!({"starts": a, "module_trees": b, "file_names": c, "manifests": d, "exhaustive": true, "bounds": {"manifests": 6, "files": 11}}), &[])
}
