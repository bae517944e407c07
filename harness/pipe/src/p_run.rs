//! Whole runs of the virtual machine: stepping, segments, traces and their files.
use crate::refvm::*;
use crate::util::{guarded, Ctx};
use cairo_m_common::{Instruction as I, Program, ProgramData};
use cairo_m_runner::vm::{VmError, VM, VP_MAX_SEGMENTS};
use cairo_m_runner::RunnerOptions;
use serde_json::json;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use stwo_prover::core::fields::m31::M31;

/// Runs are cut after this many segments.
const SEGMENTS: usize = 9;
/// Parameters and results of the entry point, one cell each.
const NARGS: u32 = 2;
const NRET: u32 = 1;
const ARGS: [u32; 2] = [3, 1 << 28];

fn o(x: i64) -> M31 {
    M31(x.rem_euclid(P as i64) as u32)
}
#[derive(Clone)]
struct Item(&'static str, ProgramData);
fn alphabet(thorough: bool) -> Vec<Item> {
    let i = |n, x| Item(n, ProgramData::Instruction(x));
    let mut v = vec![
        i("c0 = 1", I::StoreImm { imm: o(1), dst_off: o(0) }),
        i("a0 -= 1", I::StoreAddFpImm { src_off: o(-5), imm: o(-1), dst_off: o(-5) }),
        i("r = a0 + c0", I::StoreAddFpFp { src0_off: o(-5), src1_off: o(0), dst_off: o(-3) }),
        i("jnz a0 -1", I::JnzFpImm { cond_off: o(-5), offset: o(-1) }),
        i("jnz c0 2", I::JnzFpImm { cond_off: o(0), offset: o(2) }),
        i("jmp 0", I::JmpAbsImm { target: o(0) }),
        i("jmp +2", I::JmpRelImm { offset: o(2) }),
        // a frame of its own, with return address 3
        i("call 0", I::CallAbsImm { frame_off: o(3), target: o(0) }),
        i("call 2", I::CallAbsImm { frame_off: o(8), target: o(2) }),
        i("ret", I::Ret {}),
        i("(c1, c3) = (r, fp) divrem 65539", I::U32StoreDivRemFpImm { src_off: o(-3), imm_lo: o(3), imm_hi: o(1), dst_off: o(1), dst_rem_off: o(3) }),
        // the word at fp - 6 is the last of the program: its opcode becomes that of ret
        i("code = ret", I::StoreImm { imm: M31(I::Ret {}.opcode_value()), dst_off: o(-6) }),
        i("c2 = fp", I::StoreFramePointer { imm: o(-5), dst_off: o(2) }),
        // near the top of memory
        i("[a1 - 40] = a0", I::StoreToDoubleDerefFpImm { base_off: o(-4), imm: o(-40), src_off: o(-5) }),
        i("assert a0 == 3", I::AssertEqFpImm { src_off: o(-5), imm: o(3) }),
        Item("word", ProgramData::Value(qm([7, 1, 2, 3]))),
    ];
    if thorough {
        v.push(i("c1 = [a1 - 40]", I::StoreDoubleDerefFp { base_off: o(-4), imm: o(-40), dst_off: o(1) }));
        v.push(i("c4 = [c2]", I::StoreDoubleDerefFp { base_off: o(2), imm: o(0), dst_off: o(4) }));
    }
    v
}
#[derive(Debug, PartialEq)]
enum End {
    Done,
    Fails,
    /// still running after all steps
    Runs,
    /// control reaches cells that are no program
    Unspecified,
}
struct Run {
    states: Vec<(u32, u32)>,
    /// accesses per step
    logs: Vec<Vec<Acc>>,
    /// cells changed per step: (address, before)
    undo: Vec<Vec<(u32, Option<W>)>>,
    cells: BTreeMap<u32, W>,
    end: End,
}
struct Journal<'a> {
    cells: &'a mut BTreeMap<u32, W>,
    log: Vec<Acc>,
    undo: Vec<(u32, Option<W>)>,
}
impl Mem for Journal<'_> {
    fn load(&mut self, a: u32) -> W {
        self.cells.get(&a).copied().unwrap_or_default()
    }
    fn store(&mut self, a: u32, w: W) {
        let old = self.cells.insert(a, w);
        self.undo.push((a, old));
    }
    fn log(&mut self, a: Acc) {
        self.log.push(a)
    }
}
fn decode(w: &W, more: Option<&W>) -> Option<I> {
    let op = OPS.iter().find(|o| (o.make)(&vec![M31(0); o.kinds.len()]).opcode_value() == w[0])?;
    let all: Vec<M31> = w.iter().chain(more.into_iter().flatten()).skip(1).map(|x| M31(*x)).collect();
    (all.len() >= op.kinds.len()).then(|| (op.make)(&all[..op.kinds.len()]))
}
fn reference(words_: &[W], entry: u32, steps: usize) -> Run {
    let len = words_.len() as u32;
    let fp = len + NARGS + NRET + 2;
    let mut cells: BTreeMap<u32, W> = words_.iter().enumerate().map(|(i, w)| (i as u32, *w)).collect();
    for (i, a) in ARGS.iter().enumerate() {
        cells.insert(len + i as u32, [*a, 0, 0, 0]);
    }
    cells.insert(fp - 2, [fp, 0, 0, 0]);
    cells.insert(fp - 1, [len, 0, 0, 0]);
    let mut r = Run { states: vec![(entry, fp)], logs: vec![], undo: vec![], cells, end: End::Runs };
    for _ in 0..steps {
        let (pc, fp) = *r.states.last().unwrap();
        if pc == len {
            r.end = End::Done;
            return r;
        }
        let mut j = Journal { cells: &mut r.cells, log: vec![], undo: vec![] };
        let w = j.load(pc);
        if pc > len {
            r.end = if pc > TOP { End::Fails } else { End::Unspecified };
            return r;
        }
        j.log((pc, w));
        let two = OPS.iter().any(|o| (o.make)(&vec![M31(0); o.kinds.len()]).opcode_value() == w[0] && o.kinds.len() > 3);
        let next = j.load(pc + 1);
        let i = decode(&w, two.then_some(&next));
        if two {
            j.log((pc + 1, next));
        }
        match i.ok_or(Fail).and_then(|i| exec(&mut j, (pc, fp), &i)) {
            Ok(s) => {
                let (log, undo) = (j.log, j.undo);
                r.logs.push(log);
                r.undo.push(undo);
                r.states.push(s);
            }
            Err(Fail) => {
                r.end = End::Fails;
                return r;
            }
        }
    }
    if r.states.last().unwrap().0 == len {
        r.end = End::Done;
    }
    r
}
fn check(data: &[ProgramData], entry: u32, steps: usize) -> Result<Option<(End, usize)>, String> {
    let mut ws: Vec<W> = vec![];
    for d in data {
        match d {
            ProgramData::Instruction(i) => {
                let q: Vec<_> = i.to_qm31_vec().iter().map(word).collect();
                assert_eq!(q.len() as u32, words(i));
                ws.extend(q)
            }
            ProgramData::Value(v) => ws.push(word(v)),
        }
    }
    let len = ws.len() as u32;
    if entry > len {
        return Ok(None);
    }
    let r = reference(&ws, entry, SEGMENTS * steps.min(40));
    if r.end == End::Unspecified {
        return Ok(None);
    }
    let program = Program { data: data.to_vec(), entrypoints: Default::default(), metadata: Default::default() };
    let mut vm = VM::try_from(&program).map_err(|e| format!("not loaded: {e}"))?;
    let fp = len + NARGS + NRET + 2;
    let got = vm.run_from_entrypoint(entry, fp - len, &ARGS.map(M31), NRET as usize, &RunnerOptions { max_steps: steps.min(40) });
    let steps = steps.min(40);
    let n = r.logs.len();
    let done = match (&r.end, &got) {
        (End::Done, Ok(())) => true,
        (End::Fails, Err(e)) if !matches!(e, VmError::Io(_)) => false,
        (End::Runs, Err(VmError::Io(_))) => false,
        (e, g) => return Err(format!("{g:?}, but the program {e:?} after {n} steps")),
    };
    if len == 0 {
        // nothing is run: one segment without a trace
        if vm.segments.len() != 1 || !vm.segments[0].trace.is_empty() || !vm.segments[0].memory_trace.borrow().is_empty() {
            return Err("the empty program leaves a trace".into());
        }
        return Ok(Some((r.end, 0)));
    }
    if vm.program_length.0 != len {
        return Err(format!("program length {} instead of {len}", vm.program_length));
    }
    let want = if done { n.div_ceil(steps).max(1) } else { n / steps };
    if vm.segments.len() != want {
        return Err(format!("{} segments of {steps} steps for {n} steps", vm.segments.len()));
    }
    // memory before step k, from the end backwards
    let mut cells = r.cells.clone();
    let touched: Vec<u32> = cells.keys().copied().collect();
    if done {
        if (vm.state.pc.0, vm.state.fp.0) != *r.states.last().unwrap() {
            return Err("wrong final state".into());
        }
        let mut final_cells = vm.memory.clone();
        final_cells.trace = Default::default();
        for (a, w) in &cells {
            if w[1..] == [0; 3] && final_cells.get_data_no_trace(M31(*a)).map(|x| x.0).ok() != Some(w[0]) {
                return Err(format!("wrong final value of cell {a}"));
            }
        }
    }
    // undo the steps of a failing run that are in no segment
    for u in r.undo[(want * steps).min(n)..].iter().rev() {
        undo(&mut cells, u);
    }
    for s in (0..want).rev() {
        let (from, to) = (s * steps, ((s + 1) * steps).min(n));
        let seg = &vm.segments[s];
        for u in r.undo[from..to].iter().rev() {
            undo(&mut cells, u);
        }
        let tr: Vec<(u32, u32)> = seg.trace.iter().map(|s| (s.pc.0, s.fp.0)).collect();
        if tr != r.states[from..=to] {
            return Err(format!("segment {s}: trace {tr:?} instead of {:?}", &r.states[from..=to]));
        }
        let log: Vec<Acc> = seg.memory_trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect();
        let exp: Vec<Acc> = r.logs[from..to].concat();
        if log != exp {
            return Err(format!("segment {s}: accesses {log:?} instead of {exp:?}"));
        }
        for (a, (v, m, c)) in &seg.initial_memory {
            if word(v) != cells.get(&a.0).copied().unwrap_or_default() || m.0 != 0 || c.0 != 0 {
                return Err(format!("segment {s}: cell {a} starts as {v:?} {m} {c}"));
            }
        }
        for a in &touched {
            if cells.get(a).is_some_and(|w| *w != [0; 4]) && !seg.initial_memory.contains_key(&M31(*a)) {
                return Err(format!("segment {s}: cell {a} is missing from the initial memory"));
            }
        }
        let bytes: Vec<u8> = tr.iter().flat_map(|(pc, fp)| [fp.to_le_bytes(), pc.to_le_bytes()].concat()).collect();
        if seg.serialize_segment_trace() != bytes {
            return Err(format!("segment {s}: wrong bytes of the trace"));
        }
        if seg.serialize_segment_memory_trace() != memory_bytes(&exp) {
            return Err(format!("segment {s}: wrong bytes of the memory trace"));
        }
    }
    Ok(Some((r.end, n)))
}
fn undo(cells: &mut BTreeMap<u32, W>, u: &[(u32, Option<W>)]) {
    for (a, old) in u.iter().rev() {
        match old {
            Some(w) => cells.insert(*a, *w),
            None => cells.remove(a),
        };
    }
}
fn memory_bytes(log: &[Acc]) -> Vec<u8> {
    log.iter().flat_map(|(a, w)| std::iter::once(a).chain(w.iter()).flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).collect()
}
/// Trace files of a run of several segments, under all forms of path.
fn files(ctx: &Ctx) {
    let dir = std::env::temp_dir().join(format!("vppipe-p10-{}", std::process::id()));
    let data = [I::StoreAddFpImm { src_off: o(-5), imm: o(-1), dst_off: o(-5) }, I::JnzFpImm { cond_off: o(-5), offset: o(-1) }, I::Ret {}].map(ProgramData::Instruction);
    let program = Program { data: data.to_vec(), entrypoints: Default::default(), metadata: Default::default() };
    for steps in [1, 2, 3, 50] {
        let mut vm = VM::try_from(&program).unwrap();
        vm.run_from_entrypoint(0, NARGS + NRET + 2, &ARGS.map(M31), NRET as usize, &RunnerOptions { max_steps: steps }).unwrap();
        for d in ["plain", "with.dot", "a.b.c", ".hidden", "sub/deep.er/x"] {
            for (f, base, ext) in [("t", "t", ""), ("t.bin", "t", ".bin"), ("t.x.bin", "t.x", ".bin"), ("trace_1", "trace_1", ""), ("a b.t", "a b", ".t")] {
                let at = dir.join(d);
                std::fs::create_dir_all(&at).unwrap();
                for mem in [false, true] {
                    let r = guarded("files", || if mem { vm.write_binary_memory_trace(at.join(f)) } else { vm.write_binary_trace(at.join(f)) });
                    ctx.add("files", vm.segments.len() as u64);
                    let mut want: BTreeMap<String, Vec<u8>> = BTreeMap::new();
                    for (i, s) in vm.segments.iter().enumerate() {
                        let b = if mem { [vm.program_length.0.to_le_bytes().to_vec(), s.serialize_segment_memory_trace()].concat() } else { s.serialize_segment_trace() };
                        want.insert(format!("{base}_segment_{i}{ext}"), b);
                    }
                    let mut got: BTreeMap<String, Vec<u8>> = BTreeMap::new();
                    for e in std::fs::read_dir(&at).unwrap().flatten().filter(|e| e.path().is_file()) {
                        got.insert(e.file_name().to_string_lossy().into(), std::fs::read(e.path()).unwrap());
                        std::fs::remove_file(e.path()).unwrap();
                    }
                    if !matches!(r, Ok(Ok(()))) || got != want {
                        let what = format!("writing the {} trace of {} segments to {d}/{f}: {r:?}, files {:?} instead of {:?}", if mem { "memory" } else { "state" }, vm.segments.len(), got.keys(), want.keys());
                        ctx.violate(what, json!({"path": format!("{d}/{f}"), "segments": vm.segments.len()}));
                    }
                }
            }
        }
    }
    std::fs::remove_dir_all(&dir).ok();
}
pub fn runs(ctx: &Ctx) -> i32 {
    VP_MAX_SEGMENTS.store(SEGMENTS, Ordering::Relaxed);
    let al = alphabet(ctx.thorough);
    let n = al.len();
    let depth = if ctx.thorough { 5u32 } else { 4 };
    for d in 0..=depth {
        let total = n.pow(d);
        ctx.add("programs", total as u64);
        ctx.par(total, |j| {
            let items: Vec<&Item> = (0..d).map(|i| &al[j / n.pow(i) % n]).collect();
            let data: Vec<ProgramData> = items.iter().map(|i| i.1.clone()).collect();
            for entry in 0..2 {
                for steps in [1, 2, 3, 5, usize::MAX] {
                    ctx.add("transitions", 1);
                    match guarded("run", || check(&data, entry, steps)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                        Ok(None) => ctx.outcome("control leaves the program, not compared"),
                        Ok(Some((e, k))) => {
                            ctx.outcome(format!("{e:?}"));
                            ctx.state(&(format!("{e:?}"), k, items.last().map(|i| i.0)));
                        }
                        Err(e) => {
                            let names: Vec<_> = items.iter().map(|i| i.0).collect();
                            ctx.violate(format!("{names:?} from {entry}, segments of {steps} steps: {e}"), json!({"program": names, "entry": entry, "max_steps": steps.min(1 << 20), "what": e}));
                            return;
                        }
                    }
                }
            }
        });
    }
    files(ctx);
    ctx.sample(json!({"case": "a0 -= 1; jnz a0 -1; code = ret; word, from 0, segments of 2 steps"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"program_length": depth, "instructions": n, "entry_points": 2, "segment_lengths": [1, 2, 3, 5, "unlimited"], "segments": SEGMENTS}}), &["M31 arithmetic comes from a stand-in", "a guarded hook stops runs after nine segments"])
}
