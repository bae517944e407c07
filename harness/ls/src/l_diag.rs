//! Whatever the order of events, the settled server has published what the last texts deserve.
use crate::explore;
use crate::server::*;
use crate::util::Ctx;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::Arc;

pub struct Dir(pub std::path::PathBuf);
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
pub const MAIN: [&str; 3] = [
    "use a::f;\nfn main() -> felt {\n    return f(1);\n}\n",
    "use a::f;\nfn main() -> felt {\n    return g(1);\n}\n",
    "use a::f;\nfn main() -> felt {\n    return f(1, 2);\n}\n",
];
pub const A: [&str; 3] = ["fn f(x: felt) -> felt {\n    return x;\n}\n", "fn f(x: felt) -> felt {\n    return y;\n}\n", "fn g(x: felt) -> felt {\n    return x;\n}\n"];
pub const SOLO: [&str; 2] = ["fn s() -> felt {\n    return 1;\n}\n", "fn s() -> felt {\n    return 1\n}\n"];
/// A scratch project with two modules, and a file of its own.
pub fn world(tag: &str) -> (Dir, Arc<World>) {
    let d = std::env::temp_dir().join(format!("vpls-{}-{tag}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("p/src")).unwrap();
    std::fs::create_dir_all(d.join("q")).unwrap();
    std::fs::write(d.join("p/cairom.toml"), "name = \"p\"\nversion = \"0.1.0\"\nentry_point = \"main.cm\"\n").unwrap();
    let files = vec![(d.join("p/src/main.cm"), MAIN[0].to_string()), (d.join("p/src/a.cm"), A[0].to_string()), (d.join("q/solo.cm"), SOLO[0].to_string())];
    for (p, t) in &files {
        std::fs::write(p, t).unwrap();
    }
    (Dir(d), Arc::new(World { files, project: vec![0, 1] }))
}
/// The texts of the open files after the events.
pub fn texts(evs: &[Ev]) -> BTreeMap<usize, String> {
    let mut m = BTreeMap::new();
    for e in evs {
        if let Ev::Open(f, t) | Ev::Change(f, t) | Ev::Changes(f, _, t) = e {
            m.insert(*f, t.clone());
        }
    }
    m
}
pub fn judge(w: &World, evs: &[Ev], o: &vpsched::Outcome, h: &Heard) -> Vec<String> {
    let mut bad: Vec<String> = o.problems.clone();
    if h.done {
        let want = expected(w, &texts(evs));
        let got = published(w, &h.sent);
        for (f, d) in &want {
            let g = got.get(f);
            if g.is_none_or(|g| g != d) && !(g.is_none() && d.is_empty()) {
                bad.push(format!("{}: published {:?}, expected {:?}", w.files[*f].0.file_name().unwrap().to_string_lossy(), g, d));
            }
        }
    } else if bad.is_empty() {
        bad.push("the scenario does not end".into());
    }
    bad
}

/// All sequences of up to `n` events, each file opened before it changes, ending in a text event.
/// `ntext` texts of each file are used; `odd` admits re-opening, double changes and the manifest.
pub fn sequences(n: usize, ntext: usize, odd: bool, swap: bool) -> Vec<Vec<Ev>> {
    fn rec(cur: &mut Vec<Ev>, n: usize, ntext: usize, odd: bool, swap: bool, out: &mut Vec<Vec<Ev>>) {
        if matches!(cur.last(), Some(Ev::Open(..) | Ev::Change(..) | Ev::Changes(..) | Ev::Manifest)) && (!swap || cur.contains(&Ev::Swap)) {
            out.push(cur.clone());
        }
        if cur.len() == n {
            return;
        }
        let now = texts(cur);
        let mut next = vec![];
        for (f, all) in [(0usize, &MAIN[..]), (1, &A[..]), (2, &SOLO[..])] {
            let all = &all[..ntext.min(all.len())];
            match now.get(&f) {
                // the files are interchangeable as openers of the history only by their own right
                None => next.extend(all.iter().map(|t| Ev::Open(f, t.to_string()))),
                Some(old) => {
                    for t in all.iter().filter(|t| *t != old) {
                        next.push(Ev::Change(f, t.to_string()));
                        if odd {
                            next.push(Ev::Changes(f, all[all.len() - 1].to_string(), t.to_string()));
                            next.push(Ev::Open(f, t.to_string()));
                        }
                    }
                }
            }
        }
        if !cur.is_empty() {
            if cur.last() != Some(&Ev::Settle) {
                next.push(Ev::Settle);
            }
            if odd && !cur.contains(&Ev::Manifest) {
                next.push(Ev::Manifest);
            }
            if swap && !cur.contains(&Ev::Swap) {
                next.push(Ev::Swap);
            }
        }
        for e in next {
            cur.push(e);
            rec(cur, n, ntext, odd, swap, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    rec(&mut vec![], n, ntext, odd, swap, &mut out);
    out
}
pub fn brief(evs: &[Ev]) -> String {
    let t = |f: &usize, t: &String| {
        let all: &[&str] = [&MAIN[..], &A[..], &SOLO[..]][*f];
        format!("{}{}", ["main", "a", "solo"][*f], all.iter().position(|x| x == t).map_or("?".into(), |i| i.to_string()))
    };
    evs.iter()
        .map(|e| match e {
            Ev::Open(f, x) => format!("open {}", t(f, x)),
            Ev::Change(f, x) => format!("change {}", t(f, x)),
            Ev::Changes(f, x, y) => format!("change {} {}", t(f, x), t(f, y)),
            e => format!("{e:?}"),
        })
        .collect::<Vec<_>>()
        .join(", ")
}
pub fn settled(ctx: &Ctx) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let (_d, w) = world("l01");
    // scenario, deviations from the default schedule, seed of the hash orders
    let mut scen: Vec<(Vec<Ev>, usize, u64)> = vec![];
    let add = |v: Vec<Vec<Ev>>, b: usize, seed: u64, scen: &mut Vec<(Vec<Ev>, usize, u64)>| {
        for s in v {
            if !scen.iter().any(|x| x.0 == s && x.1 >= b && x.2 == seed) {
                scen.push((s, b, seed));
            }
        }
    };
    if ctx.thorough {
        add(sequences(2, 2, false, false), 2, 0, &mut scen);
        add(sequences(3, 3, true, false), 1, 0, &mut scen);
        add(sequences(4, 2, false, false), 1, 1, &mut scen);
        add(sequences(3, 2, false, true), 1, 0, &mut scen);
    } else {
        add(sequences(2, 3, true, false), 1, 0, &mut scen);
        add(sequences(3, 2, true, false), 0, 1, &mut scen);
        add(sequences(3, 2, false, false), 1, 1, &mut scen);
        add(sequences(3, 1, false, true), 1, 0, &mut scen);
    }
    if let Ok(x) = std::env::var("SCEN") {
        scen.retain(|s| brief(&s.0) == x);
    }
    ctx.add("scenarios", scen.len() as u64);
    let st = explore::all(
        scen.len(),
        |i| std::env::var("BOUND").ok().and_then(|x| x.parse().ok()).unwrap_or(scen[i].1),
        |i, script| {
            let (evs, _, seed) = &scen[i];
            let (o, h) = run(&w, evs, &[], script, *seed, false);
            if std::env::var("VPDUMP").is_ok() && script.len() < 2 {
                let (o2, _) = run(&w, evs, &[], script, *seed, true);
                eprintln!("{script:?}\n{}", o2.log.join("\n"));
            }
            let bad = judge(&w, evs, &o, &h);
            if !bad.is_empty() {
                let what = || format!("{}: {script:?}: {}", brief(evs), bad.join("; "));
                if evs.contains(&Ev::Swap) && crate::util::listed("L01", "database-swap") {
                    ctx.known("database-swap");
                } else {
                    let (o2, _) = run(&w, evs, &[], script, *seed, true);
                    ctx.violate(what(), json!({"events": format!("{evs:?}"), "schedule": script, "seed": seed, "log": o2.log}));
                }
            }
            (o, bad.is_empty())
        },
        || ctx.stopped(),
    );
    ctx.add("schedules", st.schedules.into_inner());
    ctx.add("points", st.points.into_inner());
    ctx.finish("model_checking", json!({"bounds": {"events": if ctx.thorough {4} else {3}, "deviations": if ctx.thorough {2} else {1}}, "longest": st.longest.into_inner()}), &[])
}
