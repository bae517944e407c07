//! The rows of a proof and what each of them asserts.
use crate::common::*;
use crate::refvm::*;
use cairo_m_prover::components::{Components, Relations};
use cairo_m_prover::preprocessed::PreProcessedTraceBuilder;
use std::collections::BTreeMap;
use stwo_constraint_framework::TraceLocationAllocator;
use stwo_prover::core::channel::Channel;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;
use stwo_prover::ideal::{Columns, Component, IdealChannel, RowOut};

pub struct Airs {
    pub components: Components,
    pub pre: Columns,
}
pub fn airs(p: &TheProof) -> Airs {
    let pre = PreProcessedTraceBuilder::default().build();
    let mut ch = IdealChannel::default();
    ch.mix_u64(7);
    let relations = Relations::draw(&mut ch);
    let mut alloc = TraceLocationAllocator::new_with_preproccessed_columns(&pre.ids());
    let components = Components::new(&mut alloc, &p.claim, &p.interaction_claim, &relations);
    Airs { components, pre: p.stark_proof.columns[0].clone() }
}
pub fn row_of(c: &dyn Component, cols: &Columns, r: usize) -> Vec<M31> {
    let (a, n) = c.spans()[0];
    cols[a..a + n].iter().map(|c| c[r]).collect()
}
pub fn nopre(_: usize) -> M31 {
    panic!("a preprocessed column in a row of its own")
}
/// Number of copies as a small signed integer.
pub fn mult(q: &QM31) -> Option<i64> {
    let a = q.to_m31_array();
    if a[1..].iter().any(|x| x.0 != 0) {
        return None;
    }
    let v = a[0].0 as i64;
    Some(if v > (P / 2) as i64 { v - P as i64 } else { v })
}
/// Table lookups: does the table hold the tuple?
pub fn in_table(rel: &str, t: &[M31]) -> Option<bool> {
    let g = |i: usize| t.get(i).map_or(0, |x| x.0);
    Some(match rel {
        "RangeCheck8" => t.len() <= 1 && g(0) < 1 << 8,
        "RangeCheck16" => t.len() <= 1 && g(0) < 1 << 16,
        "RangeCheck20" => t.len() <= 1 && g(0) < 1 << 20,
        "Bitwise" => {
            let (a, b) = (g(1), g(2));
            t.len() <= 4
                && a < 256
                && b < 256
                && g(3) == match g(0) {
                    0 => a & b,
                    1 => a | b,
                    2 => a ^ b,
                    _ => return Some(false),
                }
        }
        _ => return None,
    })
}
/// The row satisfies its own constraints and all its table lookups.
pub fn accepted(o: &RowOut) -> bool {
    o.constraints.iter().all(|c| c.0 == 0) && o.entries.iter().all(|(r, m, t)| mult(m) == Some(0) || in_table(r, t) != Some(false))
}
pub type Net = BTreeMap<(&'static str, Vec<u32>), i64>;
pub fn pad(rel: &str, t: &[M31]) -> Vec<u32> {
    let n = match rel {
        "Registers" => 3,
        "Memory" => 6,
        "Merkle" => 4,
        "Poseidon2" => 16,
        _ => t.len(),
    };
    let mut v: Vec<u32> = t.iter().map(|x| x.0).collect();
    v.resize(n.max(v.len()), 0);
    v
}
/// What the row adds to and takes from the relations without tables.
pub fn net(o: &RowOut) -> Option<Net> {
    let mut n = Net::new();
    for (r, m, t) in &o.entries {
        if in_table(r, t).is_none() {
            *n.entry((r, pad(r, t))).or_default() += mult(m)?;
        }
    }
    n.retain(|_, v| *v != 0);
    Some(n)
}
#[derive(Debug)]
pub enum Verdict {
    /// Contributes nothing.
    Nothing,
    Step(String),
    /// Two accesses to one cell: not judged.
    Aliased,
    /// No instruction has this opcode.
    Unassigned,
    /// A cell outside of memory: its leaf is in no tree.
    Outside,
    /// A correct step that the machine itself refuses (reads of ill-formed words).
    Refused(I, Vec<(u32, W)>),
    Wrong(String),
}
use cairo_m_common::Instruction as I;

struct Cells<'a> {
    pairs: &'a [(u32, W, W)],
    now: BTreeMap<u32, W>,
    missing: Option<u32>,
}
impl Mem for Cells<'_> {
    fn load(&mut self, a: u32) -> W {
        if let Some(w) = self.now.get(&a) {
            return *w;
        }
        match self.pairs.iter().find(|p| p.0 == a) {
            Some(p) => p.1,
            None => {
                self.missing = Some(a);
                [0; 4]
            }
        }
    }
    fn store(&mut self, a: u32, w: W) {
        self.now.insert(a, w);
    }
    fn log(&mut self, _: Acc) {}
}
/// Is an accepted row of an instruction's component a correct step?
pub fn step(o: &RowOut) -> Verdict {
    let Some(n) = net(o) else { return Verdict::Wrong("fractional numbers of tuples".into()) };
    if n.is_empty() {
        return Verdict::Nothing;
    }
    let regs: Vec<_> = n.iter().filter(|((r, _), _)| *r == "Registers").collect();
    if let Some(((r, _), _)) = n.iter().find(|((r, _), _)| !["Registers", "Memory"].contains(r)) {
        return Verdict::Wrong(format!("tuples of {r}"));
    }
    let (Some(from), Some(to), 2) = (regs.iter().find(|x| *x.1 == -1), regs.iter().find(|x| *x.1 == 1), regs.len()) else {
        return Verdict::Wrong(format!("registers {regs:?}"));
    };
    let (pc, fp, clk) = (from.0 .1[0], from.0 .1[1], from.0 .1[2]);
    let (npc, nfp, nclk) = (to.0 .1[0], to.0 .1[1], to.0 .1[2]);
    if nclk != add(clk, 1) {
        return Verdict::Wrong(format!("clock {nclk} after {clk}"));
    }
    // accesses, in order, address by address
    let mut neg: BTreeMap<u32, Vec<(u32, W)>> = BTreeMap::new();
    let mut pos: BTreeMap<u32, Vec<(u32, W)>> = BTreeMap::new();
    for (r, m, t) in &o.entries {
        if *r != "Memory" {
            continue;
        }
        let v = pad(r, t);
        let e = (v[1], [v[2], v[3], v[4], v[5]]);
        match mult(m) {
            Some(-1) => neg.entry(v[0]).or_default().push(e),
            Some(1) => pos.entry(v[0]).or_default().push(e),
            Some(0) => {}
            k => return Verdict::Wrong(format!("{k:?} copies of a memory tuple")),
        }
    }
    if neg.values().any(|v| v.len() > 1) || pos.values().any(|v| v.len() > 1) {
        return Verdict::Aliased;
    }
    let mut pairs: Vec<(u32, W, W)> = vec![];
    for (a, v) in &neg {
        let Some(w) = pos.get(a) else { return Verdict::Wrong(format!("cell {a} is taken and not given back")) };
        let (p, c) = (v[0].0, w[0].0);
        if c != clk {
            return Verdict::Wrong(format!("cell {a} is given back at clock {c} instead of {clk}"));
        }
        let d = sub(c, p);
        if d == 0 || d > 1 << 20 {
            return Verdict::Wrong(format!("cell {a} of clock {p} is taken at clock {c}"));
        }
        pairs.push((*a, v[0].1, w[0].1));
    }
    if pos.keys().any(|a| !neg.contains_key(a)) {
        return Verdict::Wrong("a cell is given and not taken".into());
    }
    let at = |a: u32| pairs.iter().find(|p| p.0 == a).map(|p| p.1);
    let Some(w) = at(pc) else { return Verdict::Wrong("the instruction is not read".into()) };
    let Some(op) = OPS.iter().find(|o| (o.make)(&vec![M31(0); o.kinds.len()]).opcode_value() == w[0]) else {
        return Verdict::Unassigned;
    };
    let mut parts: Vec<M31> = w[1..].iter().map(|x| M31(*x)).collect();
    if op.kinds.len() > 3 {
        match at(add(pc, 1)) {
            Some(w) => parts.extend(w.map(M31)),
            None => return Verdict::Wrong("the second word of the instruction is not read".into()),
        }
    }
    let i = (op.make)(&parts[..op.kinds.len()]);
    let mut m = Cells { pairs: &pairs, now: BTreeMap::new(), missing: None };
    let got = exec(&mut m, (pc, fp), &i);
    let Ok((ep, ef)) = got else {
        if pairs.iter().any(|p| p.0 > TOP) {
            return Verdict::Outside;
        }
        return Verdict::Refused(i, pairs.iter().map(|p| (p.0, p.1)).collect());
    };
    if let Some(a) = m.missing {
        return Verdict::Wrong(format!("{i:?} does not read cell {a}"));
    }
    if (ep, ef) != (npc, nfp) {
        return Verdict::Wrong(format!("{i:?} at {pc} with fp {fp} goes to {npc}, {nfp} instead of {ep}, {ef}"));
    }
    for (a, b, c) in &pairs {
        let e = m.now.get(a).unwrap_or(b);
        if e != c {
            return Verdict::Wrong(format!("{i:?} turns cell {a} from {b:?} into {c:?} instead of {e:?} (accesses {pairs:?})"));
        }
    }
    for a in m.now.keys() {
        if at(*a).is_none() {
            return Verdict::Wrong(format!("{i:?} does not write cell {a}"));
        }
    }
    Verdict::Step(op.name.into())
}
