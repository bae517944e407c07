//! What a proof makes public is what the run did; consecutive segments meet.
use crate::common::*;
use crate::complete::*;
use crate::refvm::*;
use crate::util::{guarded, Ctx};
use cairo_m_common::execution::Segment;
use cairo_m_common::state::MemoryEntry;
use cairo_m_common::{Instruction as I, PublicAddressRanges, State};
use cairo_m_prover::adapter::io::{MemoryEntryFileIter, TraceFileIter};
use cairo_m_prover::adapter::merkle::{MerkleHasher, TREE_HEIGHT};
use cairo_m_prover::adapter::ProverInput;
use cairo_m_prover::poseidon2::Poseidon2Hash;
use cairo_m_prover::public_data::PublicData;
use serde_json::json;
use std::collections::BTreeMap;
use stwo_prover::core::fields::m31::M31;
use stwo_prover::core::fields::qm31::QM31;

type Cells = BTreeMap<u32, W>;

/// Root of the tree over all of memory, by recursion over the whole index space.
fn root(cells: &Cells) -> u32 {
    let zero: Vec<M31> = {
        let mut v = vec![M31(0)];
        for _ in 0..TREE_HEIGHT {
            let l = *v.last().unwrap();
            v.push(Poseidon2Hash::hash(l, l));
        }
        v
    };
    let leaves: Vec<(u64, u32)> = cells.iter().flat_map(|(a, w)| (0..4).map(move |i| (*a as u64 * 4 + i as u64, w[i]))).collect();
    fn go(l: &[(u64, u32)], lo: u64, h: u32, zero: &[M31]) -> M31 {
        if l.is_empty() {
            return zero[h as usize];
        }
        if h == 0 {
            return M31(l[0].1);
        }
        let mid = lo + (1 << (h - 1));
        let k = l.partition_point(|x| x.0 < mid);
        Poseidon2Hash::hash(go(&l[..k], lo, h - 1, zero), go(&l[k..], mid, h - 1, zero))
    }
    go(&leaves, 0, TREE_HEIGHT, &zero).0
}
/// A segment replayed from what the machine logged.
struct Seg {
    first: (u32, u32),
    last: (u32, u32),
    steps: u32,
    before: Cells,
    after: Cells,
    /// clock of the last access
    clocks: BTreeMap<u32, u32>,
}
/// Accesses of one step of an instruction, by the reference semantics.
struct Count<'a> {
    cells: &'a mut Cells,
    log: Vec<(u32, W)>,
}
impl Mem for Count<'_> {
    fn load(&mut self, a: u32) -> W {
        self.cells.get(&a).copied().unwrap_or_default()
    }
    fn store(&mut self, a: u32, w: W) {
        self.cells.insert(a, w);
    }
    fn log(&mut self, a: Acc) {
        self.log.push(a)
    }
}
fn replay(s: &Segment, start: &Cells) -> Result<Seg, String> {
    let mut cells = start.clone();
    let mut clocks = BTreeMap::new();
    let at = |k: usize| (s.trace[k].pc.0, s.trace[k].fp.0);
    let n = s.trace.len() - 1;
    for k in 0..n {
        let (pc, fp) = at(k);
        let w = cells.get(&pc).copied().unwrap_or_default();
        let op = OPS.iter().find(|o| (o.make)(&vec![M31(0); o.kinds.len()]).opcode_value() == w[0]).ok_or("no instruction")?;
        let mut parts: Vec<M31> = w[1..].iter().map(|x| M31(*x)).collect();
        if op.kinds.len() > 3 {
            clocks.insert(pc + 1, k as u32 + 1);
            parts.extend(cells.get(&(pc + 1)).copied().unwrap_or_default().map(M31));
        }
        clocks.insert(pc, k as u32 + 1);
        let i = (op.make)(&parts[..op.kinds.len()]);
        let mut m = Count { cells: &mut cells, log: vec![] };
        let next = exec(&mut m, (pc, fp), &i).map_err(|_| "the step fails")?;
        for (a, _) in m.log {
            clocks.insert(a, k as u32 + 1);
        }
        if next != at(k + 1) {
            return Err(format!("the step goes to {next:?} instead of {:?}", at(k + 1)));
        }
    }
    Ok(Seg { first: at(0), last: at(n), steps: n as u32, before: start.clone(), after: cells, clocks })
}
fn cells_of(m: &std::collections::HashMap<M31, (QM31, M31, M31)>) -> Cells {
    m.iter().map(|(a, v)| (a.0, word(&v.0))).collect()
}
fn nonzero(c: &Cells) -> Cells {
    c.iter().filter(|x| *x.1 != [0; 4]).map(|(a, w)| (*a, *w)).collect()
}
type Entries = Vec<Option<(M31, QM31, M31)>>;
fn entries(what: &str, got: &Entries, range: std::ops::Range<u32>, cells: &Cells, clocks: Option<&BTreeMap<u32, u32>>) -> Result<(), String> {
    if got.len() != range.len() {
        return Err(format!("{} entries of the {what} instead of {}", got.len(), range.len()));
    }
    for (a, e) in range.zip(got) {
        let want = cells.get(&a).copied().unwrap_or_default();
        let clock = clocks.map_or(0, |c| c.get(&a).copied().unwrap_or(0));
        match e {
            Some((x, v, c)) if (x.0, word(v), c.0) == (a, want, clock) => {}
            // a cell that the run neither held nor touched
            None if want == [0; 4] && clock == 0 => {}
            e => return Err(format!("{what} at {a} is public as {e:?} instead of {want:?} with clock {clock}")),
        }
    }
    Ok(())
}
fn public(input: &ProverInput, s: &Seg, r: &PublicAddressRanges) -> Result<(u32, u32), String> {
    let p = guarded("public", || PublicData::new(input)).map_err(|e| format!("public data: {e}"))?;
    let regs = |x: &State| (x.pc.0, x.fp.0);
    if regs(&p.initial_registers) != s.first || regs(&p.final_registers) != s.last {
        return Err(format!("public registers {:?} to {:?} instead of {:?} to {:?}", regs(&p.initial_registers), regs(&p.final_registers), s.first, s.last));
    }
    if p.clock.0 != s.steps {
        return Err(format!("public clock {} after {} steps", p.clock.0, s.steps));
    }
    let m = &p.public_memory;
    entries("program", &m.program, r.program.clone(), &s.before, None)?;
    entries("input", &m.input, r.input.clone(), &s.before, None)?;
    entries("output", &m.output, r.output.clone(), &s.after, Some(&s.clocks))?;
    let (a, b) = (root(&s.before), root(&s.after));
    if p.final_root.0 != b {
        return Err(format!("public final root {} instead of {b}", p.final_root.0));
    }
    if p.initial_root.0 != a {
        return Err(format!("public initial root {} instead of {a}", p.initial_root.0));
    }
    // values handed out one by one
    let vals = |e: &Entries| e.iter().map(|x| x.map(|y| y.1)).collect::<Vec<_>>();
    if vals(&m.program) != m.get_program_values() || vals(&m.input) != m.get_input_values() || vals(&m.output) != m.get_output_values() {
        return Err("the values of the public entries are not those of the entries".into());
    }
    Ok((p.initial_root.0, p.final_root.0))
}
/// All segments of a run.
fn check(segments: Vec<Segment>, r: &PublicAddressRanges, ctx: &Ctx) -> Result<(), String> {
    let n = segments.len();
    let mut now = cells_of(&segments[0].initial_memory);
    let mut meet: Option<((u32, u32), u32)> = None;
    for (k, s) in segments.into_iter().enumerate() {
        let e = |e: String| if n > 1 { format!("segment {} of {n}: {e}", k + 1) } else { e };
        if nonzero(&cells_of(&s.initial_memory)) != nonzero(&now) {
            return Err(e("it does not start with the memory of the one before".into()));
        }
        let seg = replay(&s, &now).map_err(|x| e(format!("replay: {x}")))?;
        let input = import(s, r).map_err(e)?;
        let (a, b) = public(&input, &seg, r).map_err(e)?;
        if let Some((regs, root)) = meet {
            if regs != seg.first || root != a {
                return Err(e("it does not meet the one before".into()));
            }
        }
        // the adapter's memory is the replayed one
        if nonzero(&cells_of(&input.memory.final_memory)) != nonzero(&seg.after) {
            return Err(e("the final memory is another one".into()));
        }
        meet = Some((seg.last, b));
        now = seg.after;
        ctx.add("segments", 1);
        ctx.add("steps", seg.steps as u64);
    }
    Ok(())
}
/// Programs over a small alphabet whose accesses reach inside, at the edge of, and beyond the memory in use.
fn alphabet() -> Vec<(&'static str, I)> {
    vec![
        ("c0 = 1", I::StoreImm { imm: o(1), dst_off: o(0) }),
        ("r = a0 + 1", I::StoreAddFpImm { src_off: o(-4), imm: o(1), dst_off: o(-3) }),
        ("a0 = c0", I::StoreAddFpImm { src_off: o(0), imm: o(0), dst_off: o(-4) }),
        ("c40 = 65537", I::U32StoreImm { imm_lo: o(1), imm_hi: o(1), dst_off: o(40) }),
        ("c1 = [a0 - 1]", I::StoreDoubleDerefFp { base_off: o(-4), imm: o(-1), dst_off: o(1) }),
        ("[a0] = c0", I::StoreToDoubleDerefFpImm { base_off: o(-4), imm: o(0), src_off: o(0) }),
        ("call", I::CallAbsImm { frame_off: o(6), target: o(1) }),
        ("ret", I::Ret {}),
        ("c3 = c40 / 3", I::U32StoreDivRemFpImm { src_off: o(40), imm_lo: o(3), imm_hi: o(0), dst_off: o(3), dst_rem_off: o(20) }),
        ("jnz r 2", I::JnzFpImm { cond_off: o(-3), offset: o(2) }),
    ]
}
pub fn publics(ctx: &Ctx) -> i32 {
    let al = alphabet();
    let len = if ctx.thorough { 4 } else { 3 };
    // sequences of instructions, ended by a return; every run in segments of every length up to 4 and uncut
    let args: &[u32] = &[0, 2, 200, (1 << 28) - 1];
    let total = al.len().pow(len);
    ctx.par(total, |k| {
        let mut x = k;
        let mut code = vec![];
        let mut names = vec![];
        for _ in 0..len {
            code.push(al[x % al.len()].1);
            names.push(al[x % al.len()].0);
            x /= al.len();
        }
        code.push(I::Ret {});
        // a repeated run of an endless program is cut by the limit on segments
        for a in args {
            for limit in [1usize, 2, 3, 1 << 20] {
                if limit > 1000 && loops(&code, *a) {
                    continue;
                }
                let r = Raw { code: code.clone(), args: vec![*a], nret: 1, steps: limit };
                match run(&r) {
                    Err(_) => ctx.outcome("the machine refuses"),
                    Ok(ran) => {
                        ctx.add("runs", 1);
                        ctx.outcome(format!("run of {} segments", ran.segments.len().min(9)));
                        if let Err(e) = check(ran.segments, &ran.ranges, ctx) {
                            ctx.violate(format!("{names:?} on {a} in segments of {limit}: {e}"), json!({"program": names, "argument": a, "max_steps": limit}));
                        }
                    }
                }
            }
        }
    });
    // compiled programs, at both levels, cut in every way
    let ps = programs();
    ctx.par(ps.len() * 2, |k| {
        let (name, text, f, args) = ps[k / 2];
        let mut steps = 0;
        for limit in [1usize << 20, 1, 2, 3, 5, 8, 13, 21, 34] {
            // runs are cut after 64 segments
            if steps / limit >= 60 {
                continue;
            }
            let Some((s, r)) = source(ctx, name, text, f, args, k % 2, limit) else { return };
            ctx.add("compiled_runs", 1);
            steps = s.iter().map(|s| s.trace.len() - 1).sum();
            if let Err(e) = check(s, &r, ctx) {
                ctx.violate(format!("{name} {args:?} in segments of {limit}: {e}"), json!({"program": text, "function": f, "arguments": args, "max_steps": limit, "level": k % 2}));
            }
        }
    });
    // the short program of the proofs in every cut
    for k in 1..=22 {
        let mut r = short();
        r.steps = k;
        let e = run(&r).and_then(|x| check(x.segments, &x.ranges, ctx));
        if let Err(e) = e {
            ctx.violate(format!("short program in segments of {k}: {e}"), json!({"short_program_in_segments_of": k}));
        }
    }
    files(ctx);
    ctx.finish("model_checking", json!({"bounds": {"alphabet": al.iter().map(|x| x.0).collect::<Vec<_>>(), "length": len, "arguments": args, "segment_lengths": [1, 2, 3, "uncut"]}}), &[])
}
/// Does the program run for more than a thousand steps?
fn loops(code: &[I], a: u32) -> bool {
    let mut cells: Cells = words_of(code).into_iter().enumerate().map(|(i, w)| (i as u32, w)).collect();
    let len = cells.len() as u32;
    let fp = len + 4;
    cells.insert(len, [a, 0, 0, 0]);
    cells.insert(fp - 2, [fp, 0, 0, 0]);
    cells.insert(fp - 1, [len, 0, 0, 0]);
    let mut s = (0, fp);
    for _ in 0..1000 {
        if s.0 >= len {
            return false;
        }
        let w = cells.get(&s.0).copied().unwrap_or_default();
        let Some(op) = OPS.iter().find(|o| (o.make)(&vec![M31(0); o.kinds.len()]).opcode_value() == w[0]) else { return false };
        let mut parts: Vec<M31> = w[1..].iter().map(|x| M31(*x)).collect();
        if op.kinds.len() > 3 {
            parts.extend(cells.get(&(s.0 + 1)).copied().unwrap_or_default().map(M31));
        }
        let i = (op.make)(&parts[..op.kinds.len()]);
        let mut m = Count { cells: &mut cells, log: vec![] };
        match exec(&mut m, s, &i) {
            Ok(n) => s = n,
            Err(_) => return false,
        }
    }
    true
}
/// Trace files as the runner writes them, and every prefix of them.
fn files(ctx: &Ctx) {
    let dir = std::env::temp_dir().join(format!("vpprove-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut r = short();
    r.steps = 9;
    let program = cairo_m_common::Program { data: r.code.iter().map(|i| cairo_m_common::ProgramData::Instruction(*i)).collect(), entrypoints: Default::default(), metadata: Default::default() };
    let len = words_of(&r.code).len() as u32;
    let mut vm = cairo_m_runner::vm::VM::try_from(&program).unwrap();
    let args: Vec<M31> = r.args.iter().map(|x| M31(*x)).collect();
    vm.run_from_entrypoint(0, len + r.args.len() as u32 + r.nret + 2 - len, &args, r.nret as usize, &cairo_m_runner::RunnerOptions { max_steps: r.steps }).unwrap();
    let bad = |e: String, w: serde_json::Value| ctx.violate(e, w);
    let (t, m) = (dir.join("t.bin"), dir.join("m.bin"));
    if vm.write_binary_trace(&t).is_err() || vm.write_binary_memory_trace(&m).is_err() {
        bad("the trace files are not written".into(), json!({}));
    }
    for (k, s) in vm.segments.iter().enumerate() {
        let find = |base: &str| -> Option<Vec<u8>> {
            let mut v: Vec<_> = std::fs::read_dir(&dir).unwrap().map(|e| e.unwrap().path()).filter(|p| {
                let n = p.file_name().unwrap().to_str().unwrap().to_string();
                n.starts_with(base) && n.contains(&format!("{k}"))
            }).collect();
            v.sort();
            v.first().map(|p| std::fs::read(p).unwrap())
        };
        let (Some(tb), Some(mb)) = (find("t"), find("m")) else {
            bad(format!("segment {k} has no trace files"), json!({"segment": k}));
            continue;
        };
        let states: Vec<State> = s.trace.clone();
        let mems: Vec<MemoryEntry> = s.memory_trace.borrow().clone();
        // every prefix of the files gives the entries that are whole in it
        for cut in 0..=tb.len() {
            let p = dir.join("cut");
            std::fs::write(&p, &tb[..cut]).unwrap();
            let got: Vec<State> = TraceFileIter::try_from(p.as_path()).unwrap().map(Into::into).collect();
            ctx.add("file_prefixes", 1);
            if got != states[..cut / 8] || (cut == tb.len() && got.len() != states.len()) {
                bad(format!("{cut} bytes of the trace of segment {k} read as {} states", got.len()), json!({"segment": k, "bytes": cut}));
            }
        }
        for cut in (0..=mb.len()).filter(|c| *c < 200 || *c > mb.len() - 60 || c % 7 == 0) {
            let p = dir.join("cut");
            std::fs::write(&p, &mb[..cut]).unwrap();
            ctx.add("file_prefixes", 1);
            match MemoryEntryFileIter::try_from(p.as_path()) {
                Err(_) if cut < 4 => {}
                Err(e) => bad(format!("{cut} bytes of the memory trace of segment {k}: {e}"), json!({"segment": k, "bytes": cut})),
                Ok(_) if cut < 4 => bad(format!("{cut} bytes are a memory trace"), json!({"segment": k, "bytes": cut})),
                Ok(it) => {
                    let pl = it.program_length();
                    let got: Vec<MemoryEntry> = it.map(Into::into).collect();
                    if pl != len as usize || got != mems[..(cut - 4) / 20] || (cut == mb.len() && got.len() != mems.len()) {
                        bad(format!("{cut} bytes of the memory trace of segment {k} read as {} entries of a program of {pl} words", got.len()), json!({"segment": k, "bytes": cut}));
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
}
