//! A proof is bound to its public data and its claims; forged witnesses have no proof.
use crate::bookkeeping::balance;
use crate::common::*;
use crate::complete::*;
use crate::gen::*;
use crate::refvm::*;
use crate::util::{guarded, listed, Ctx};
use cairo_m_common::Instruction as I;
use cairo_m_prover::adapter::merkle::{build_partial_merkle_tree, TreeType};
use cairo_m_prover::adapter::ProverInput;
use cairo_m_prover::components::{Claim, Components, InteractionClaim, Relations};
use cairo_m_prover::preprocessed::PreProcessedTraceBuilder;
use cairo_m_prover::relations;
use stwo_constraint_framework::TraceLocationAllocator;
use stwo_prover::core::backend::simd::SimdBackend;
use stwo_prover::core::pcs::CommitmentSchemeProver;
use stwo_prover::core::proof_of_work::GrindOps;
use stwo_prover::core::vcs::blake2_merkle::Blake2sMerkleChannel;
use cairo_m_prover::poseidon2::Poseidon2Hash;
use cairo_m_prover::public_data::PublicData;
use serde_json::{json, Value};
use stwo_prover::core::channel::Channel;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;
use stwo_prover::ideal::IdealChannel;

/// Paths of all numbers of a value.
fn leaves(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| leaves(x, &format!("{at}/{k}"), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(k, x)| leaves(x, &format!("{at}/{k}"), out)),
        Value::Number(_) => out.push(at.to_string()),
        _ => {}
    }
}
fn mixed(p: &PublicData, c: &Claim, i: &InteractionClaim) -> [IdealChannel; 3] {
    let mut a = [IdealChannel::default(), IdealChannel::default(), IdealChannel::default()];
    p.mix_into(&mut a[0]);
    c.mix_into(&mut a[1]);
    i.mix_into(&mut a[2]);
    a
}
/// A short program with most kinds of instructions.
fn sample() -> Raw {
    let mut b = Build::new();
    for op in OPS.iter() {
        if !op.name.starts_with("Print") && !matches!(op.name, "Ret") {
            let mut one = Build::new();
            one.next = b.next;
            grid(&mut one, op, 100);
            if one.names.is_empty() || !one.calls.is_empty() || op.name.starts_with('J') {
                continue;
            }
            let pc = one.names[0].0;
            let mut p = 0;
            for i in one.code {
                if p > pc {
                    break;
                }
                p += words(&i);
                b.code.push(i);
            }
            b.next = one.next;
        }
    }
    b.code.push(I::StoreAddFpImm { src_off: o(-5), imm: o(1), dst_off: o(-3) });
    let (code, _) = b.finish();
    Raw { code, args: vec![6], nret: 1, steps: usize::MAX }
}
type Forge = (String, Box<dyn Fn(&mut ProverInput) + Sync>);
/// Rebuilds trees and hashes from the (forged) boundary memories.
fn recommit(i: &mut ProverInput) {
    let (a, ra) = build_partial_merkle_tree::<Poseidon2Hash>(&i.memory.initial_memory, TreeType::Initial, &i.public_address_ranges);
    let (b, rb) = build_partial_merkle_tree::<Poseidon2Hash>(&i.memory.final_memory, TreeType::Final, &i.public_address_ranges);
    i.poseidon2_inputs = a.iter().chain(b.iter()).map(|n| n.to_hash_input()).collect();
    i.merkle_trees.initial_tree = a;
    i.merkle_trees.final_tree = b;
    i.merkle_trees.initial_root = ra;
    i.merkle_trees.final_root = rb;
}
fn forgeries(h: &ProverInput, thorough: bool) -> Vec<Forge> {
    let mut v: Vec<Forge> = vec![];
    let one = M31(1);
    // registers
    v.push(("initial pc".into(), Box::new(move |i| i.instructions.initial_registers.pc += one)));
    v.push(("initial fp".into(), Box::new(move |i| i.instructions.initial_registers.fp += one)));
    v.push(("final pc".into(), Box::new(move |i| i.instructions.final_registers.pc += one)));
    v.push(("final fp".into(), Box::new(move |i| i.instructions.final_registers.fp += one)));
    // every step: registers, clock, and each of its accesses
    let mut ops: Vec<u32> = h.instructions.states_by_opcodes.keys().copied().collect();
    ops.sort_unstable();
    for op in ops {
        let n = h.instructions.states_by_opcodes[&op].len();
        let ks: Vec<usize> = if thorough { (0..n).collect() } else { vec![n - 1] };
        for k in ks {
            let b = h.instructions.states_by_opcodes[&op][k];
            let name = format!("step {} with opcode {op}", b.clock.0);
            v.push((format!("{name} is left out"), Box::new(move |i| {
                i.instructions.states_by_opcodes.get_mut(&op).unwrap().remove(k);
            })));
            v.push((format!("{name} happens twice"), Box::new(move |i| {
                let s = i.instructions.states_by_opcodes.get_mut(&op).unwrap();
                let x = s[k];
                s.push(x);
            })));
            v.push((format!("pc of {name}"), Box::new(move |i| i.instructions.states_by_opcodes.get_mut(&op).unwrap()[k].registers.pc += one)));
            v.push((format!("fp of {name}"), Box::new(move |i| i.instructions.states_by_opcodes.get_mut(&op).unwrap()[k].registers.fp += one)));
            v.push((format!("clock of {name}"), Box::new(move |i| i.instructions.states_by_opcodes.get_mut(&op).unwrap()[k].clock += one)));
            v.push((format!("previous clock of the instruction of {name}"), Box::new(move |i| i.instructions.states_by_opcodes.get_mut(&op).unwrap()[k].instruction.prev_clock += one)));
            for a in 0..b.access_span.len as usize {
                let j = b.access_span.start as usize + a;
                v.push((format!("address of access {a} of {name}"), Box::new(move |i| i.instructions.data_accesses[j].address += one)));
                v.push((format!("previous clock of access {a} of {name}"), Box::new(move |i| i.instructions.data_accesses[j].prev_clock += one)));
                v.push((format!("value of access {a} of {name}"), Box::new(move |i| i.instructions.data_accesses[j].value += one)));
                v.push((format!("previous value of access {a} of {name}"), Box::new(move |i| i.instructions.data_accesses[j].prev_value += one)));
                v.push((format!("both values of access {a} of {name}"), Box::new(move |i| {
                    i.instructions.data_accesses[j].value += one;
                    i.instructions.data_accesses[j].prev_value += one;
                })));
            }
        }
    }
    // every cell of both boundaries, with trees that fit
    let mut cells: Vec<M31> = h.memory.initial_memory.keys().copied().collect();
    cells.sort_unstable_by_key(|a| a.0);
    let every = if thorough { 1 } else { 12 };
    for (n, a) in cells.iter().copied().enumerate() {
        if n % every != 0 {
            continue;
        }
        let q = QM31::from_m31_array([M31(1), M31(0), M31(0), M31(0)]);
        let u = QM31::from_m31_array([M31(0), M31(0), M31(0), M31(1)]);
        for (what, d) in [("first", q), ("last", u)] {
            v.push((format!("{what} part of initial cell {}", a.0), Box::new(move |i| {
                i.memory.initial_memory.get_mut(&a).unwrap().0 += d;
                recommit(i);
            })));
            v.push((format!("{what} part of final cell {}", a.0), Box::new(move |i| {
                i.memory.final_memory.get_mut(&a).unwrap().0 += d;
                recommit(i);
            })));
        }
        v.push((format!("clock of final cell {}", a.0), Box::new(move |i| i.memory.final_memory.get_mut(&a).unwrap().1 += one)));
        v.push((format!("number of final cell {}", a.0), Box::new(move |i| i.memory.final_memory.get_mut(&a).unwrap().2 -= one)));
        v.push((format!("number of initial cell {}", a.0), Box::new(move |i| i.memory.initial_memory.get_mut(&a).unwrap().2 += one)));
    }
    // nodes of the trees
    for (what, n) in [("initial", h.merkle_trees.initial_tree.len()), ("final", h.merkle_trees.final_tree.len())] {
        let picks: Vec<usize> = (0..n).filter(|k| thorough && k % 7 == 0 || k % 100 == 0 || *k + 1 == n).collect();
        for k in picks {
            let t = move |i: &mut ProverInput, f: &dyn Fn(&mut cairo_m_prover::adapter::merkle::NodeData)| f(if what == "initial" { &mut i.merkle_trees.initial_tree[k] } else { &mut i.merkle_trees.final_tree[k] });
            v.push((format!("left child of node {k} of the {what} tree"), Box::new(move |i| t(i, &|n| n.left_value.value += one))));
            v.push((format!("right child of node {k} of the {what} tree"), Box::new(move |i| t(i, &|n| n.right_value.value += one))));
            v.push((format!("value of node {k} of the {what} tree"), Box::new(move |i| t(i, &|n| n.parent_value.value += one))));
            v.push((format!("index of node {k} of the {what} tree"), Box::new(move |i| t(i, &|n| n.index += one))));
            v.push((format!("depth of node {k} of the {what} tree"), Box::new(move |i| t(i, &|n| n.depth -= 1))));
        }
    }
    v.push(("initial root".into(), Box::new(move |i| *i.merkle_trees.initial_root.as_mut().unwrap() += one)));
    v.push(("final root".into(), Box::new(move |i| *i.merkle_trees.final_root.as_mut().unwrap() += one)));
    v.push(("a hash is left out".into(), Box::new(|i| {
        i.poseidon2_inputs.pop();
    })));
    v.push(("another hash".into(), Box::new(move |i| i.poseidon2_inputs[3][0] += one)));
    v
}
pub fn binding(ctx: &Ctx) -> i32 {
    let r = sample();
    let input = run(&r).and_then(|x| import(x.segments.into_iter().next().unwrap(), &x.ranges));
    let input = match input {
        Ok(i) => i,
        Err(e) => {
            ctx.violate(e, json!({}));
            return ctx.finish("model_checking", json!({}), &[]);
        }
    };
    let p = match prove(input.clone()).and_then(|p| verify(p.clone()).map(|_| p)) {
        Ok(p) => p,
        Err(e) => {
            ctx.violate(format!("the honest proof: {e}"), json!({}));
            return ctx.finish("model_checking", json!({}), &[]);
        }
    };
    balance(ctx, &p);
    // every number of the public data, the claims and the nonce, altered in the finished proof
    let whole = json!({"claim": serde_json::to_value(&p.claim).unwrap(), "interaction_claim": serde_json::to_value(&p.interaction_claim).unwrap(), "public_data": serde_json::to_value(&p.public_data).unwrap(), "pow": p.interaction_pow});
    let mut paths = vec![];
    leaves(&whole, "", &mut paths);
    let honest = mixed(&p.public_data, &p.claim, &p.interaction_claim);
    let full = |k: usize| ctx.thorough || k % 6 == 0;
    ctx.par(paths.len() * 2, |n| {
        let (k, d) = (n / 2, [1u64, 0][n % 2]);
        let path = &paths[k];
        let mut w = whole.clone();
        let x = w.pointer_mut(path).unwrap();
        let old = x.as_u64().unwrap();
        let new = if d == 1 { (old + 1) % if path == "/pow" { u64::MAX } else { P as u64 } } else { 0 };
        if new == old || (path.starts_with("/claim") && new > 22) {
            return;
        }
        *x = json!(new);
        let (Ok(claim), Ok(ic), Ok(pd)) = (serde_json::from_value::<Claim>(w["claim"].clone()), serde_json::from_value::<InteractionClaim>(w["interaction_claim"].clone()), serde_json::from_value::<PublicData>(w["public_data"].clone())) else {
            ctx.outcome("altered proof is not read");
            return;
        };
        ctx.add("altered_data", 1);
        // the transcript sees the change
        let part = if path.starts_with("/public_data") { 0 } else if path.starts_with("/claim") { 1 } else { 2 };
        if path != "/pow" {
            let m = guarded("mix", || mixed(&pd, &claim, &ic));
            match m {
                Ok(m) if m[part] == honest[part] => ctx.violate(format!("{path} is not part of the transcript"), json!({"datum": path})),
                Ok(_) => ctx.outcome("transcript changes"),
                Err(e) => ctx.violate(format!("{path} changed to {new}: mixing panics: {e}"), json!({"datum": path})),
            }
        }
        // verification of all public data and claims, in the quick tier of every sixth
        if !full(k) {
            return;
        }
        let mut q = p.clone();
        q.claim = claim;
        q.interaction_claim = ic;
        q.public_data = pd;
        q.interaction_pow = w["pow"].as_u64().unwrap();
        ctx.add("altered_proofs", 1);
        match verify(q) {
            Ok(()) => ctx.violate(format!("the proof verifies with {path} changed from {old} to {new}"), json!({"datum": path, "from": old, "to": new})),
            Err(e) => ctx.outcome(format!("refused: {}", e.split(':').next().unwrap_or(""))),
        }
    });
    // an entry of the public memory left out
    for part in ["program", "input", "output"] {
        let n = whole["public_data"]["public_memory"][part].as_array().map_or(0, |a| a.len());
        for k in 0..n {
            if k % 16 != 0 && k + 1 != n && !ctx.thorough {
                continue;
            }
            for drop in [true, false] {
                let mut w = whole["public_data"].clone();
                let a = w["public_memory"][part].as_array_mut().unwrap();
                if drop {
                    a.remove(k);
                } else {
                    a[k] = Value::Null;
                }
                let pd: PublicData = serde_json::from_value(w).unwrap();
                let mut q = p.clone();
                q.public_data = pd;
                ctx.add("altered_proofs", 1);
                if verify(q).is_ok() {
                    ctx.violate(format!("the proof verifies without entry {k} of the public {part}"), json!({"part": part, "entry": k}));
                }
            }
        }
    }
    // another table in the place of the preprocessed columns
    {
        let mut q = p.clone();
        let cols = &mut q.stark_proof.columns[0];
        // the last range-checked value becomes out of range
        let last = cols.len() - 1;
        let n = cols[last].len() - 1;
        cols[last][n] = M31(1 << 28);
        // the prover would recommit and draw anew; here only the check of the commitment is of interest
        let root = stwo_prover::ideal::commit_hash(&q.stark_proof.columns[0]);
        if root == q.stark_proof.commitments[0] {
            ctx.violate("the stand-in does not see changed columns", json!({}));
        }
        if verify(q).is_ok() {
            ctx.violate("the proof verifies with other preprocessed columns", json!({}));
        }
    }
    // forged witnesses: proved by the real prover, they must not verify
    let fs = forgeries(&input, ctx.thorough);
    let truth = serde_json::to_value(&p.public_data).unwrap();
    ctx.par(fs.len(), |k| {
        let (what, f) = &fs[k];
        let mut i = input.clone();
        f(&mut i);
        ctx.add("forged_witnesses", 1);
        match prove(i) {
            Err(_) => ctx.outcome("forged witness: no proof"),
            Ok(q) => {
                let d = serde_json::to_value(&q.public_data).unwrap();
                match verify(q) {
                    Err(_) => ctx.outcome("forged witness: refused"),
                    Ok(()) if d == truth => ctx.outcome("forged witness: true statement"),
                    Ok(()) => ctx.violate(format!("a forged witness verifies: {what}"), json!({"forgery": what, "public_data": d})),
                }
            }
        }
    });
    match swapped_tables(input) {
        Ok(()) if listed("Q05", "preprocessed-unchecked") => ctx.known("preprocessed-unchecked"),
        Ok(()) => ctx.violate("a proof over other preprocessed tables verifies", json!({"table": "range_check_20", "row": (1 << 20) - 1, "value": 1 << 28})),
        Err(e) => ctx.outcome(format!("other tables: {}", e.split(':').next().unwrap_or(""))),
    }
    ctx.finish("model_checking", json!({"bounds": {"numbers_of_the_proof": paths.len(), "forgeries": fs.len()}}), &[])
}
/// The steps of `prove_cairo_m` with a table that holds a value out of range.
fn swapped_tables(mut input: ProverInput) -> Result<(), String> {
    let input = &mut input;
    let cfg = cairo_m_prover::prover_config::REGULAR_96_BITS;
    let mut ch = IdealChannel::default();
    cfg.mix_into(&mut ch);
    let mut cs = CommitmentSchemeProver::<SimdBackend, Blake2sMerkleChannel>::new(cfg, &());
    let public_data = PublicData::new(input);
    public_data.mix_into(&mut ch);
    let pre = PreProcessedTraceBuilder::default().build();
    let mut evals: Vec<_> = pre.gen_trace().into_iter().collect();
    let last = evals.last_mut().unwrap();
    let n = last.values.0.len() - 1;
    last.values.0[n] = M31(1 << 28);
    let mut tb = cs.tree_builder();
    tb.extend_evals(evals);
    tb.commit(&mut ch);
    let (claim, trace, lookup) = Claim::write_trace::<Blake2sMerkleChannel>(input);
    claim.mix_into(&mut ch);
    let mut tb = cs.tree_builder();
    tb.extend_evals(trace);
    tb.commit(&mut ch);
    let interaction_pow = SimdBackend::grind(&ch, relations::INTERACTION_POW_BITS);
    ch.mix_u64(interaction_pow);
    let rel = Relations::draw(&mut ch);
    let (it, interaction_claim) = InteractionClaim::write_interaction_trace(&rel, &lookup);
    interaction_claim.mix_into(&mut ch);
    let mut tb = cs.tree_builder();
    tb.extend_evals(it);
    tb.commit(&mut ch);
    let mut alloc = TraceLocationAllocator::new_with_preproccessed_columns(&pre.ids());
    let c = Components::new(&mut alloc, &claim, &interaction_claim, &rel);
    let stark_proof = stwo_prover::core::prover::prove::<SimdBackend, _>(&c.provers(), &mut ch, cs).map_err(|e| e.to_string())?;
    verify(TheProof { claim, interaction_claim, public_data, stark_proof, interaction_pow })
}
