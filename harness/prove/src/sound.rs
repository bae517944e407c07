//! Altered rows: what the constraints accept must be a correct step.
use crate::common::*;
use crate::gen::*;
use crate::refvm::*;
use crate::rows::*;
use crate::util::Ctx;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::ideal::{Component, RowOut};

fn m(x: u32) -> M31 {
    M31(x)
}
fn invm(x: u32) -> u32 {
    inv(x).unwrap_or(0)
}
/// The first thing wrong with a row: a residue that must vanish.
#[derive(Clone, Copy)]
enum Flaw {
    Constraint(usize),
    Entry(usize),
}
fn flaws(o: &RowOut) -> Vec<Flaw> {
    let mut v: Vec<Flaw> = o.constraints.iter().enumerate().filter(|c| c.1 .0 != 0).map(|c| Flaw::Constraint(c.0)).collect();
    v.extend(o.entries.iter().enumerate().filter(|(_, (r, m, t))| mult(m) != Some(0) && in_table(r, t) == Some(false)).map(|e| Flaw::Entry(e.0)));
    v
}
fn residue(o: &RowOut, f: Flaw, part: usize) -> u32 {
    match f {
        Flaw::Constraint(i) => o.constraints[i].0,
        Flaw::Entry(i) => o.entries[i].2.get(part).map_or(0, |x| x.0),
    }
}
pub struct Search<'a> {
    pub c: &'a dyn Component,
    pub depth: usize,
    pub seen: Mutex<HashSet<Vec<u32>>>,
    pub judge: &'a (dyn Fn(&[M31], &RowOut) + Sync),
    pub evals: std::sync::atomic::AtomicU64,
    pub pre: &'a (dyn Fn(usize) -> M31 + Sync),
}
impl Search<'_> {
    fn eval(&self, row: &[M31]) -> RowOut {
        self.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        self.c.row(row, &|i| (self.pre)(i))
    }
    /// Values tried in cell `k`.
    fn candidates(&self, row: &[M31], k: usize) -> Vec<u32> {
        let v = row[k].0;
        let mut c: Vec<u32> = vec![0, 1, 2, P as u32 - 1, 255, 256, 65535, 65536, (1 << 20) - 1, 1 << 20, invm(1 << 16), invm(1 << 8), 1 << 28];
        for d in [1, 2, 256, 65536, 1 << 20] {
            c.push(add(v, d));
            c.push(sub(v, d));
        }
        c.extend([sub(0, v), mul(v, 2), invm(v), sub(1, v)]);
        if row.len() < 100 {
            c.extend(row.iter().map(|x| x.0));
        } else {
            c = vec![0, add(v, 1), sub(v, 1), mul(v, 2), sub(0, v)];
        }
        c.sort_unstable();
        c.dedup();
        c.retain(|x| *x != v);
        c
    }
    /// Alters every cell of an honest row; repairs what breaks by altering further cells.
    pub fn run(&self, row: &[M31], frozen: &[usize]) {
        let o = self.eval(row);
        if accepted(&o) {
            (self.judge)(row, &o);
        }
        for k in 0..row.len() {
            for v in self.candidates(row, k) {
                let mut r = row.to_vec();
                r[k] = m(v);
                let mut used = frozen.to_vec();
                used.push(k);
                self.repair(&mut r, &used, self.depth);
            }
        }
    }
    fn repair(&self, r: &mut Vec<M31>, used: &[usize], depth: usize) {
        let o = self.eval(r);
        let fl = flaws(&o);
        if fl.is_empty() {
            if self.seen.lock().unwrap().insert(r.iter().map(|x| x.0).collect()) {
                (self.judge)(r, &o);
            }
            return;
        }
        if depth == 0 || fl.len() > 3 * depth {
            return;
        }
        let f = fl[0];
        let parts = match f {
            Flaw::Constraint(_) => 1,
            Flaw::Entry(i) => o.entries[i].2.len(),
        };
        for k in 0..r.len() {
            if used.contains(&k) {
                continue;
            }
            let old = r[k];
            for part in 0..parts {
                let at0 = residue(&o, f, part);
                r[k] = old + m(1);
                let o1 = self.eval(r);
                let at1 = residue(&o1, f, part);
                r[k] = old;
                let slope = sub(at1, at0);
                if slope == 0 {
                    continue;
                }
                let goals: &[u32] = match f {
                    Flaw::Constraint(_) => &[0],
                    Flaw::Entry(_) => &[0, 1, 255, 65535, (1 << 20) - 1],
                };
                for g in goals {
                    let x = add(old.0, mul(sub(*g, at0), invm(slope)));
                    if x == old.0 {
                        continue;
                    }
                    r[k] = m(x);
                    let mut u = used.to_vec();
                    u.push(k);
                    self.repair(r, &u, depth - 1);
                    r[k] = old;
                }
            }
        }
    }
}
/// Rows of one instruction on the grid, from a proof of a program with all of them.
pub fn steps(ctx: &Ctx) -> i32 {
    let totals: Mutex<BTreeMap<String, u64>> = Default::default();
    ctx.par(OPS.len(), |i| {
        let op = &OPS[i];
        let mut b = Build::new();
        grid(&mut b, op, if ctx.thorough { 1 } else { 3 });
        let (code, names) = b.finish();
        if names.is_empty() {
            return;
        }
        let r = run(&Raw { code, args: vec![], nret: 0, steps: usize::MAX }).and_then(|r| {
            let s = r.segments.into_iter().next().unwrap();
            prove(import(s, &r.ranges)?)
        });
        let p = match r {
            Ok(p) => p,
            Err(e) => {
                ctx.violate(format!("{}: {e}", op.name), json!({"instruction": op.name}));
                return;
            }
        };
        let a = airs(&p);
        let code_of = (op.make)(&vec![M31(0); op.kinds.len()]).opcode_value();
        let cols = &p.stark_proof.columns[1];
        for c in a.components.opcodes.verifiers() {
            // honest rows of this instruction
            let mut honest = vec![];
            for r in 0..1usize << c.log_size() {
                let row = row_of(c, cols, r);
                let o = c.row(&row, &nopre);
                let reads = o.entries.iter().any(|(rel, m, t)| *rel == "Memory" && mult(m) == Some(-1) && t.get(2).map(|x| x.0) == Some(code_of) && t.len() > 2 && is_fetch(&o, t[0].0));
                if reads {
                    if !accepted(&o) || !matches!(step(&o), Verdict::Step(_) | Verdict::Aliased) {
                        ctx.violate(format!("{}: the row of an honest step is not one: {:?}", op.name, step(&o)), json!({"instruction": op.name, "row": row.iter().map(|x| x.0).collect::<Vec<_>>()}));
                    }
                    honest.push(row);
                }
            }
            if honest.is_empty() {
                continue;
            }
            ctx.add("honest_rows", honest.len() as u64);
            let judge = |row: &[M31], o: &RowOut| {
                let v = step(o);
                let k = match &v {
                    Verdict::Nothing => "nothing".to_string(),
                    Verdict::Step(_) => "step".into(),
                    Verdict::Aliased => "aliased".into(),
                    Verdict::Unassigned => "unassigned opcode".into(),
                    Verdict::Outside => "outside of memory".into(),
                    Verdict::Refused(i, _) => format!("refused {}", OPS.iter().find(|o| (o.parts)(i).is_some()).unwrap().name),
                    Verdict::Wrong(_) => "wrong".into(),
                };
                *totals.lock().unwrap().entry(k).or_default() += 1;
                let v = match v {
                    Verdict::Refused(i, cells) => Verdict::Wrong(format!("{i:?}, which the machine refuses on {cells:?}")),
                    v => v,
                };
                if let Verdict::Wrong(e) = v {
                    ctx.violate(format!("{} accepts: {e}", c.name()), json!({"component": c.name(), "row": row.iter().map(|x| x.0).collect::<Vec<_>>(), "what": e}));
                }
            };
            let s = Search { c, depth: 2, seen: Default::default(), judge: &judge, evals: Default::default(), pre: &|i| nopre(i) };
            for row in &honest {
                s.run(row, &[]);
            }
            ctx.add("evaluations", s.evals.into_inner());
        }
    });
    for (k, n) in totals.lock().unwrap().iter() {
        ctx.outcome_n(format!("accepted row: {k}"), *n);
    }
    ctx.finish("model_checking", json!({"bounds": {"altered_cells": "every cell, up to 1 + 2 repairs", "operand_values_felt": FELTS, "operand_values_u32": U32S}}), &[])
}
fn is_fetch(o: &RowOut, a: u32) -> bool {
    o.entries.iter().any(|(r, m, t)| *r == "Registers" && mult(m) == Some(-1) && t.first().map(|x| x.0) == Some(a))
}
