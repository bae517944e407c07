//! The rows that keep the books: memory boundary, hash trees, clock updates, hashes and tables.
use crate::common::*;
use crate::complete::*;
use crate::refvm::*;
use crate::rows::*;
use crate::sound::Search;
use crate::util::{listed, Ctx};
use cairo_m_prover::adapter::memory::RC20_LIMIT;
use cairo_m_prover::adapter::merkle::TREE_HEIGHT;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::ideal::{Component, RowOut};
use zkhash::ark_ff::PrimeField;
use zkhash::fields::m31::FpM31;
use zkhash::poseidon2::poseidon2::Poseidon2;
use zkhash::poseidon2::poseidon2_instance_m31::POSEIDON2_M31_16_PARAMS;

const ID: &str = "Q04";
/// Tuples of one relation with their number.
fn of<'a>(n: &'a Net, rel: &str) -> Vec<(&'a Vec<u32>, i64)> {
    n.iter().filter(|((r, _), _)| *r == rel).map(|((_, t), m)| (t, *m)).collect()
}
fn only(n: &Net, rels: &[&str]) -> Result<(), String> {
    match n.keys().find(|(r, _)| !rels.contains(r)) {
        Some((r, _)) => Err(format!("tuples of {r}")),
        None => Ok(()),
    }
}
/// Ok(kind of row) or what is wrong; `Err` starting with `known:` names a listed finding.
fn clock_update(o: &RowOut) -> Result<&'static str, String> {
    let n = net(o).ok_or("fractional numbers of tuples")?;
    if n.is_empty() {
        return Ok("nothing");
    }
    only(&n, &["Memory"])?;
    let m = of(&n, "Memory");
    let (Some((a, _)), Some((b, _)), 2) = (m.iter().find(|x| x.1 == -1), m.iter().find(|x| x.1 == 1), m.len()) else {
        return Err(format!("it changes {m:?}"));
    };
    if a[0] != b[0] || a[2..] != b[2..] || b[1] != add(a[1], RC20_LIMIT) || RC20_LIMIT != (1 << 20) - 1 {
        return Err(format!("{a:?} becomes {b:?}"));
    }
    Ok("clock update")
}
/// One cell of the initial or final memory with its four leaves.
fn memory(o: &RowOut) -> Result<&'static str, String> {
    let n = net(o).ok_or("fractional numbers of tuples")?;
    if n.is_empty() {
        return Ok("nothing");
    }
    only(&n, &["Memory", "Merkle"])?;
    let (m, l) = (of(&n, "Memory"), of(&n, "Merkle"));
    if m.len() > 1 || l.len() != 4 || l.iter().any(|x| x.1 != -1) {
        return Err(format!("cells {m:?}, leaves {l:?}"));
    }
    let roots: BTreeSet<u32> = l.iter().map(|x| x.0[3]).collect();
    if roots.len() != 1 || l.iter().any(|x| x.0[1] != TREE_HEIGHT || TREE_HEIGHT != 30) {
        return Err(format!("leaves {l:?}"));
    }
    let Some((t, k)) = m.first() else { return Ok("cell that no step takes") };
    for i in 0..4 {
        let leaf = add(mul(4, t[0]), i);
        if !l.iter().any(|x| x.0[0] == leaf && x.0[2] == t[2 + i as usize]) {
            return Err(format!("cell {t:?} has not its leaf {i} in {l:?}"));
        }
    }
    match k {
        1 if t[1] == 0 => Ok("initial cell"),
        -1 => Ok("final cell"),
        _ => Err("known:memory-boundary-unconstrained".into()),
    }
}
/// A node with its two children and its hash.
fn merkle(o: &RowOut) -> Result<&'static str, String> {
    let n = net(o).ok_or("fractional numbers of tuples")?;
    if n.is_empty() {
        return Ok("nothing");
    }
    only(&n, &["Merkle", "Poseidon2"])?;
    let (t, h) = (of(&n, "Merkle"), of(&n, "Poseidon2"));
    let up: Vec<_> = t.iter().filter(|x| x.1 < 0).collect();
    let [(p, -1)] = up[..] else { return Err(format!("it takes {up:?}")) };
    let depth = add(p[1], 1);
    let mut kids = BTreeMap::new();
    for (c, k) in t.iter().filter(|x| x.1 > 0) {
        let side = sub(c[0], mul(2, p[0]));
        if c[1] != depth || c[3] != p[3] || side > 1 || *k > 2 {
            return Err(format!("{c:?} {k} times below {p:?}"));
        }
        if kids.insert(side, c[2]).is_some() {
            return Err(format!("two values of one child of {p:?}"));
        }
    }
    // the hash is asked for the children and gives the parent (unless all of them cancel)
    let ask: Vec<_> = h.iter().filter(|x| x.1 == 1).collect();
    let give: Vec<_> = h.iter().filter(|x| x.1 == -1).collect();
    match (&ask[..], &give[..], h.len()) {
        ([(a, _)], [(g, _)], 2) => {
            if a[2..].iter().any(|x| *x != 0) || g[1..].iter().any(|x| *x != 0) {
                return Err(format!("hash of {a:?} to {g:?}"));
            }
            if kids.iter().any(|(s, v)| a[*s as usize] != *v) || g[0] != p[2] {
                return Err(format!("children {kids:?} of {p:?} with hash of {a:?} to {g:?}"));
            }
        }
        ([], [], 0) => {
            // asked and given tuple are one and the same: left = parent, right = 0
            if kids.get(&0).is_some_and(|v| *v != p[2]) || kids.get(&1).is_some_and(|v| *v != 0) {
                return Err(format!("children {kids:?} of {p:?} without a hash"));
            }
            return Err("known:poseidon-io-unlinked".into());
        }
        _ => return Err(format!("hashes {h:?}")),
    }
    Ok("node")
}
pub fn permute(s: &[u32]) -> Vec<u32> {
    let v: Vec<FpM31> = s.iter().map(|x| FpM31::from(*x)).collect();
    Poseidon2::new(&POSEIDON2_M31_16_PARAMS).permutation(&v).into_iter().map(|x| x.into_bigint().0[0] as u32).collect()
}
fn poseidon2(o: &RowOut) -> Result<&'static str, String> {
    let n = net(o).ok_or("fractional numbers of tuples")?;
    if n.is_empty() {
        return Ok("nothing");
    }
    only(&n, &["Poseidon2"])?;
    let h = of(&n, "Poseidon2");
    // any number of times the same hash
    let [(x, i), (y, k)] = h[..] else { return Err(format!("hashes {h:?}")) };
    let hash = |a: &Vec<u32>, b: &Vec<u32>| a.len() == 16 && permute(a)[0] == b[0] && b[1..].iter().all(|v| *v == 0);
    if i != -k || !(hash(x, y) || hash(y, x)) {
        return Err(format!("the hash of {x:?} is {y:?}, {i} and {k} times"));
    }
    Ok("hash")
}
type Judge = fn(&RowOut) -> Result<&'static str, String>;
pub fn books(ctx: &Ctx) -> i32 {
    let totals: Mutex<BTreeMap<String, u64>> = Default::default();
    let verdict = |name: &str, judge: Judge, row: &[M31], o: &RowOut| {
        let k = match judge(o) {
            Ok(k) => k.to_string(),
            Err(e) if e.starts_with("known:") && listed(ID, &e[6..]) => {
                ctx.known(&e[6..]);
                e
            }
            Err(e) => {
                ctx.violate(format!("{name} accepts: {e}"), json!({"component": name, "row": row.iter().map(|x| x.0).collect::<Vec<_>>(), "what": e}));
                "wrong".into()
            }
        };
        *totals.lock().unwrap().entry(format!("{name}: {k}")).or_default() += 1;
    };
    let mut r = short();
    r.steps = usize::MAX;
    let p = run(&r).and_then(|x| {
        let s = x.segments.into_iter().next().unwrap();
        prove(import(s, &x.ranges)?)
    });
    let p = match p {
        Ok(p) => p,
        Err(e) => {
            ctx.violate(e, json!({"program": "short"}));
            return ctx.finish("model_checking", json!({}), &[]);
        }
    };
    let a = airs(&p);
    let cols = &p.stark_proof.columns[1];
    let all = a.components.verifiers();
    let judge_of = |c: &dyn Component| -> Option<(&'static str, Judge)> {
        let n = c.name();
        [("memory", memory as Judge), ("merkle", merkle), ("clock_update", clock_update), ("poseidon2", poseidon2)].into_iter().find(|x| n == x.0)
    };
    // honest rows and their neighbours
    let mut seen = BTreeSet::new();
    for c in all.iter().copied() {
        let Some((kind, judge)) = judge_of(c) else { continue };
        seen.insert(kind);
        let n = 1usize << c.log_size();
        let rows: Vec<Vec<M31>> = (0..n).map(|r| row_of(c, cols, r)).collect();
        for row in &rows {
            let o = c.row(row, &nopre);
            if !accepted(&o) {
                ctx.violate(format!("{}: an honest row is refused", c.name()), json!({"component": c.name()}));
            } else if let Err(e) = judge(&o) {
                ctx.violate(format!("{}: an honest row: {e}", c.name()), json!({"component": c.name()}));
            }
        }
        ctx.add("honest_rows", n as u64);
        // a spread of rows; all of the padding ones are the same
        let few = match kind {
            "poseidon2" => if ctx.thorough { 12 } else { 3 },
            _ => if ctx.thorough { 400 } else { 60 },
        };
        let mut picks: Vec<usize> = (0..few).map(|i| i * n / few).collect();
        picks.push(n - 1);
        picks.dedup();
        let j = |row: &[M31], o: &RowOut| verdict(&c.name(), judge, row, o);
        let depth = if kind == "poseidon2" { 1 } else { 2 };
        let s = Search { c, depth, seen: Default::default(), judge: &j, evals: Default::default(), pre: &|i| nopre(i) };
        ctx.par(picks.len(), |i| s.run(&rows[picks[i]], &[]));
        ctx.add("evaluations", s.evals.into_inner());
    }
    if seen.len() != 4 {
        ctx.violate(format!("only the components {seen:?} are there"), json!({"components": seen}));
    }
    // small components: all rows over a grid
    for c in all.iter().copied() {
        let Some((kind, judge)) = judge_of(c) else { continue };
        let width = c.spans()[0].1;
        let grid: Vec<Vec<u32>> = match kind {
            "clock_update" => {
                let v = vec![0, 1, 2, P as u32 - 1];
                let clk = vec![0, 1, RC20_LIMIT, P as u32 - 1, P as u32 - RC20_LIMIT];
                vec![vec![0, 1, 2, P as u32 - 1], v.clone(), clk, v.clone(), vec![0, 7], vec![0, 7], vec![0, 7]]
            }
            "memory" => vec![vec![0, 1, 2, P as u32 - 1], vec![0, 1, 2, 1 << 28], vec![0, 1, 5], vec![0, 3], vec![0, 4], vec![0, 5], vec![0, 6], vec![0, 1, 2, P as u32 - 1, 7], vec![0, 9]],
            "merkle" => {
                let v = vec![0, 1, 5];
                let m = vec![0, 1, 2, 3, P as u32 - 1];
                vec![vec![0, 1, 2, P as u32 - 1], vec![0, 1, 2, 6], vec![1, 30], v.clone(), v.clone(), v, m.clone(), m.clone(), vec![0, 1, 2, P as u32 - 1], vec![0, 9]]
            }
            _ => continue,
        };
        if grid.len() != width {
            ctx.note(format!("{} has {width} columns, the grid {}", c.name(), grid.len()));
            continue;
        }
        let total: usize = grid.iter().map(|g| g.len()).product();
        ctx.add("grid_rows", total as u64);
        let chunk = 4096;
        ctx.par(total.div_ceil(chunk), |b| {
            for k in b * chunk..((b + 1) * chunk).min(total) {
                let mut x = k;
                let row: Vec<M31> = grid.iter().map(|g| {
                    let v = g[x % g.len()];
                    x /= g.len();
                    M31(v)
                }).collect();
                let o = c.row(&row, &nopre);
                if accepted(&o) {
                    verdict(&c.name(), judge, &row, &o);
                }
            }
        });
    }
    // tables: every row gives exactly the entries it stands for
    let mut tables = BTreeSet::new();
    for c in all.iter().copied() {
        if judge_of(c).is_some() || c.spans()[0].1 != 1 || c.log_size() < 8 {
            continue;
        }
        let n = 1usize << c.log_size();
        let mut found: BTreeSet<Vec<u32>> = BTreeSet::new();
        let mut rel = "";
        for r in 0..n {
            let pre = |i: usize| a.pre[i][r];
            let o = c.row(&[M31(1)], &pre);
            let [(rl, m, t)] = &o.entries[..] else {
                ctx.violate(format!("{}: row {r} has {} entries", c.name(), o.entries.len()), json!({"component": c.name(), "row": r}));
                break;
            };
            rel = rl;
            let none = c.row(&[M31(0)], &pre);
            if !o.constraints.iter().all(|x| x.0 == 0) || mult(m) != Some(1) || mult(&none.entries[0].1) != Some(0) || in_table(rl, t) != Some(true) {
                ctx.violate(format!("{}: row {r} offers {t:?} of {rl} {m:?} times", c.name()), json!({"component": c.name(), "row": r}));
                break;
            }
            found.insert(t.iter().map(|x| x.0).collect());
        }
        let want = match rel {
            "RangeCheck8" => 1 << 8,
            "RangeCheck16" => 1 << 16,
            "RangeCheck20" => 1 << 20,
            "Bitwise" => 3 << 16,
            _ => 0,
        };
        if found.len() != want {
            ctx.violate(format!("{} offers {} tuples of {rel} instead of {want}", c.name(), found.len()), json!({"component": c.name()}));
        }
        tables.insert(rel.to_string());
        ctx.add("table_rows", n as u64);
    }
    if tables.len() != 4 {
        ctx.violate(format!("only the tables {tables:?} are there"), json!({"tables": tables}));
    }
    // books of whole proofs balance tuple by tuple
    balance(ctx, &p);
    for (k, n) in totals.lock().unwrap().iter() {
        ctx.outcome_n(k.clone(), *n);
    }
    ctx.finish("model_checking", json!({"bounds": {"program": "22 steps with calls, loops, first reads and writes", "altered_cells": "every cell of the picked rows, up to 1 + 2 repairs (poseidon2: 1 + 1)"}}), &[])
}
/// Everything taken is given exactly as often, table lookups included.
pub fn balance(ctx: &Ctx, p: &TheProof) {
    let a = airs(p);
    let cols = &p.stark_proof.columns[1];
    let mut sum: BTreeMap<(&'static str, Vec<u32>), i64> = BTreeMap::new();
    for c in a.components.verifiers() {
        for r in 0..1usize << c.log_size() {
            let row = row_of(c, cols, r);
            let pre = |i: usize| a.pre[i][r];
            for (rel, m, t) in c.row(&row, &pre).entries {
                let Some(k) = mult(&m) else {
                    ctx.violate(format!("{}: row {r} has {m:?} tuples", c.name()), json!({"component": c.name(), "row": r}));
                    return;
                };
                if k != 0 {
                    *sum.entry((rel, pad(rel, &t))).or_default() += k;
                }
            }
        }
    }
    sum.retain(|_, v| *v != 0);
    // what is left is what the public data takes and gives
    let d = &p.public_data;
    let mut add = |rel: &'static str, t: Vec<u32>, k: i64| {
        let t: Vec<M31> = t.into_iter().map(M31).collect();
        *sum.entry((rel, pad(rel, &t))).or_default() += k;
    };
    add("Registers", vec![d.initial_registers.pc.0, d.initial_registers.fp.0, 1], 1);
    add("Registers", vec![d.final_registers.pc.0, d.final_registers.fp.0, d.clock.0 + 1], -1);
    add("Merkle", vec![0, 0, d.initial_root.0, d.initial_root.0], 1);
    add("Merkle", vec![0, 0, d.final_root.0, d.final_root.0], 1);
    for (list, k, root) in [(&d.public_memory.program, 1, d.initial_root.0), (&d.public_memory.input, 1, d.initial_root.0), (&d.public_memory.output, -1, d.final_root.0)] {
        for (x, v, c) in list.iter().flatten() {
            let w = word(v);
            add("Memory", vec![x.0, c.0, w[0], w[1], w[2], w[3]], k);
            for i in 0..4 {
                add("Merkle", vec![4 * x.0 + i, 30, w[i as usize], root], -1);
            }
        }
    }
    sum.retain(|_, v| *v != 0);
    ctx.add("balanced_proofs", 1);
    if let Some(((r, t), k)) = sum.iter().next() {
        ctx.violate(format!("{} tuples do not balance, first {t:?} of {r} by {k}", sum.len()), json!({"relation": r, "tuple": t, "by": k}));
    }
}
