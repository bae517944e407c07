//! The virtual machine: instructions, their encoding, and the memory, against `refvm`.
use crate::refvm::*;
use crate::util::{guarded, Ctx};
use cairo_m_common::state::MemoryEntry;
use cairo_m_common::{Instruction, Program, ProgramData, State};
use cairo_m_runner::memory::Memory;
use cairo_m_runner::vm::instructions::instruction_to_fn;
use serde_json::json;
use std::collections::BTreeMap;
use stwo_prover::core::fields::m31::M31;

/// Memory whose cells get their initial value when first read; the choices are enumerated.
struct Lazy<'a> {
    init: BTreeMap<u32, W>,
    cells: BTreeMap<u32, W>,
    log: Vec<Acc>,
    values: &'a [W],
    trail: Vec<usize>,
    at: usize,
}
impl Mem for Lazy<'_> {
    fn load(&mut self, a: u32) -> W {
        if let Some(w) = self.cells.get(&a) {
            return *w;
        }
        if self.at == self.trail.len() {
            self.trail.push(0);
        }
        let w = self.values[self.trail[self.at]];
        self.at += 1;
        self.init.insert(a, w);
        self.cells.insert(a, w);
        w
    }
    fn store(&mut self, a: u32, w: W) {
        self.cells.insert(a, w);
    }
    fn log(&mut self, a: Acc) {
        self.log.push(a)
    }
}
/// The next trail in depth-first order.
fn advance(trail: &mut Vec<usize>, used: usize, n: usize) -> bool {
    trail.truncate(used);
    while let Some(l) = trail.last_mut() {
        *l += 1;
        if *l < n {
            return true;
        }
        trail.pop();
    }
    false
}
pub fn product(sets: &[Vec<u32>], mut f: impl FnMut(&[M31])) {
    let mut ix = vec![0usize; sets.len()];
    loop {
        let v: Vec<M31> = ix.iter().zip(sets).map(|(i, s)| M31(s[*i])).collect();
        f(&v);
        let mut k = 0;
        loop {
            if k == ix.len() {
                return;
            }
            ix[k] += 1;
            if ix[k] < sets[k].len() {
                break;
            }
            ix[k] = 0;
            k += 1;
        }
    }
}
const M: u32 = P as u32;
fn felt(vs: &[u32]) -> Vec<W> {
    vs.iter().map(|v| [*v, 0, 0, 0]).collect()
}
pub fn is_u32(o: &Op) -> bool {
    o.name.starts_with("U32") || o.name == "PrintU32"
}
/// Values that cells may hold before an instruction.
fn contents(o: &Op, fp: u32, thorough: bool) -> Vec<W> {
    let mut v = if is_u32(o) {
        felt(if thorough { &[0, 1, 2, 7, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, M - 1] } else { &[0, 1, 7, 0x7FFF, 0x8000, 0xFFFF, 0x10000] })
    } else if o.name.contains("Deref") {
        felt(&[0, 1, 4, M - 1, fp + 1, TOP, TOP + 1])
    } else {
        felt(&[0, 1, 2, 5, 0xFFFF, 1 << 30, (1 << 30) - 1, M - 2, M - 1])
    };
    v.push([0, 1, 0, 0]);
    v.push([3, 0, 1, 0]);
    v.push([3, 0, 0, 1]);
    v
}
fn operands(o: &Op, thorough: bool) -> Vec<Vec<u32>> {
    o.kinds
        .iter()
        .map(|k| match k {
            K::O if thorough => vec![M - 4, M - 3, M - 2, M - 1, 0, 1, 2, 3, 4],
            K::O => vec![M - 3, M - 2, M - 1, 0, 1, 2, 3],
            K::F => vec![0, 1, 2, 5, 0x10000, (1 << 30) - 1, M - 2, M - 1],
            K::L => vec![0, 1, 7, 0x8000, 0xFFFF, 0x10000, M - 1],
            K::A => vec![0, 1, 9, M - 1],
            K::J => vec![0, 1, 2, 9, M - 1, M - 3],
        })
        .collect()
}
/// P07: one instruction, in every state.
pub fn instructions(ctx: &Ctx) -> i32 {
    let plain: Vec<&Op> = OPS.iter().filter(|o| !o.name.starts_with("Print")).collect();
    // one task per (opcode, frame pointer, first operand)
    let mut tasks = vec![];
    for o in &plain {
        for fp in [20u32, 1, TOP - 1] {
            let ops = operands(o, ctx.thorough);
            if ops.is_empty() {
                tasks.push((*o, fp, None));
            } else {
                for f in &ops[0] {
                    tasks.push((*o, fp, Some(*f)));
                }
            }
        }
    }
    ctx.par(tasks.len(), |t| {
        let (o, fp, first) = tasks[t];
        let mut ops = operands(o, ctx.thorough);
        if let Some(f) = first {
            ops[0] = vec![f];
        }
        let values = contents(o, fp, ctx.thorough);
        let mut n = (0u64, 0u64, 0u64);
        product(&ops, |v| {
            if ctx.stopped() {
                return;
            }
            let i = (o.make)(v);
            let mut trail = vec![];
            loop {
                let mut l = Lazy { init: BTreeMap::new(), cells: BTreeMap::new(), log: vec![], values: &values, trail: std::mem::take(&mut trail), at: 0 };
                let want = exec(&mut l, (7, fp), &i);
                n.0 += 1;
                match one(&i, (7, fp), &l.init, &l.cells, &l.log, &want) {
                    Ok(true) => n.1 += 1,
                    Ok(false) => n.2 += 1,
                    Err(e) => ctx.violate(
                        format!("{i:?} at pc 7, fp {fp}, memory {:?}: {e}", l.init),
                        json!({"instruction": format!("{i:?}"), "fp": fp, "memory": format!("{:?}", l.init), "what": e}),
                    ),
                }
                trail = l.trail;
                let used = l.at;
                if ctx.stopped() || !advance(&mut trail, used, values.len()) {
                    break;
                }
            }
        });
        ctx.add("transitions", n.0);
        ctx.outcome_n("executed", n.1);
        ctx.outcome_n("must fail", n.2);
        ctx.state(&(o.name, fp, first));
    });
    prints(ctx);
    ctx.add("opcodes", OPS.len() as u64);
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": "39 opcodes; offsets in a window of 7 (thorough 9) around fp, aliasing included; 3 frame pointers (low, below two, top of memory); cells and immediates over boundary values, extension words included"}), &["M31 arithmetic comes from a stand-in"])
}
/// Runs one instruction on the real machine and compares. Ok(false): it had to fail and did.
fn one(i: &Instruction, (pc, fp): (u32, u32), init: &BTreeMap<u32, W>, cells: &BTreeMap<u32, W>, log: &[Acc], want: &R<(u32, u32)>) -> Result<bool, String> {
    let mut m = Memory::default();
    for (a, w) in init {
        m.insert(M31(*a), qm(*w)).map_err(|e| format!("initial memory: {e}"))?;
    }
    m.trace.borrow_mut().clear();
    let st = State { pc: M31(pc), fp: M31(fp) };
    let got = guarded("instruction", || instruction_to_fn(*i).map_err(|e| e.to_string()).and_then(|f| f(&mut m, st, i).map_err(|e| e.to_string())));
    match (got, want) {
        (Err(p), Err(Fail)) if p.contains("0 has no inverse") => Ok(false),
        (Err(p), _) => Err(format!("panics: {p}")),
        (Ok(Err(_)), Err(Fail)) => Ok(false),
        (Ok(Err(e)), Ok(w)) => Err(format!("fails with '{e}' instead of going to (pc, fp) {w:?}")),
        (Ok(Ok(s)), Err(Fail)) => Err(format!("goes on to {s:?} where it must fail")),
        (Ok(Ok(s)), Ok(w)) => {
            if (s.pc.0, s.fp.0) != *w {
                return Err(format!("goes to {s:?} instead of (pc, fp) {w:?}"));
            }
            let tr: Vec<Acc> = m.trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect();
            if tr != log {
                return Err(format!("records the accesses {tr:?} instead of {log:?}"));
            }
            for (a, w) in cells {
                let g = m.get_data_no_trace(M31(*a)).ok().map(|x| x.0);
                let x = (w[1..] == [0, 0, 0]).then_some(w[0]);
                if g != x {
                    return Err(format!("leaves {g:?} at {a} instead of {w:?}"));
                }
            }
            Ok(true)
        }
    }
}
/// Print instructions write to standard output, which is captured.
fn prints(ctx: &Ctx) {
    let mut lines = vec![];
    let out = capture(|| {
        for o in OPS.iter().filter(|o| o.name.starts_with("Print")) {
            let values = contents(o, 20, true);
            for off in [M - 2, 0, 3] {
                let i = (o.make)(&[M31(off)]);
                let mut trail = vec![];
                loop {
                    let mut l = Lazy { init: BTreeMap::new(), cells: BTreeMap::new(), log: vec![], values: &values, trail: std::mem::take(&mut trail), at: 0 };
                    let want = exec(&mut l, (7, 20), &i);
                    match one(&i, (7, 20), &l.init, &l.cells, &l.log, &want) {
                        Ok(true) => {
                            let a = add(20, off);
                            let v = l.init[&a][0] + if is_u32(o) { l.init[&(a + 1)][0] << 16 } else { 0 };
                            lines.push((a, v));
                        }
                        Ok(false) => {}
                        Err(e) => ctx.violate(format!("{i:?}, memory {:?}: {e}", l.init), json!({"instruction": format!("{i:?}"), "memory": format!("{:?}", l.init), "what": e})),
                    }
                    ctx.add("transitions", 1);
                    trail = l.trail;
                    let used = l.at;
                    if !advance(&mut trail, used, values.len()) {
                        break;
                    }
                }
            }
        }
    });
    let got: Vec<&str> = out.lines().collect();
    if got.len() != lines.len() {
        ctx.violate(format!("{} values are printed instead of {}", got.len(), lines.len()), json!({"printed": got.len()}));
    }
    for (g, (a, v)) in got.iter().zip(&lines) {
        let shown = g.rsplit('=').next().unwrap_or("").trim();
        if shown != v.to_string() {
            ctx.violate(format!("printing the cell {a} that holds {v} shows '{g}'"), json!({"cell": a, "value": v, "shown": g}));
        }
    }
}
/// Runs `f` with standard output redirected to a scratch file; returns what was written.
fn capture(f: impl FnOnce()) -> String {
    use std::io::{Read, Seek, Write};
    use std::os::fd::AsRawFd;
    let path = format!("{}/vppipe-out-{}", std::env::temp_dir().display(), std::process::id());
    let mut file = std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(&path).unwrap();
    std::io::stdout().flush().unwrap();
    let saved = unsafe { libc::dup(1) };
    unsafe { libc::dup2(file.as_raw_fd(), 1) };
    f();
    std::io::stdout().flush().unwrap();
    unsafe { libc::dup2(saved, 1) };
    unsafe { libc::close(saved) };
    let mut s = String::new();
    file.rewind().unwrap();
    file.read_to_string(&mut s).unwrap();
    std::fs::remove_file(&path).unwrap();
    s
}

/// P08: encodings of instructions and programs.
pub fn encoding(ctx: &Ctx) -> i32 {
    use smallvec::SmallVec;
    let vals = [0u32, 1, 5, 0x10000, M - 1];
    let mut codes: BTreeMap<u32, &'static str> = BTreeMap::new();
    for o in OPS {
        let i = (o.make)(&vec![M31(0); o.kinds.len()]);
        if let Some(x) = codes.insert(i.opcode_value(), o.name) {
            ctx.violate(format!("{x} and {} have the same opcode", o.name), json!({"opcode": i.opcode_value()}));
        }
    }
    ctx.par(OPS.len(), |k| {
        let o = &OPS[k];
        let mut sets: Vec<Vec<u32>> = vec![vals.to_vec(); o.kinds.len()];
        if ctx.thorough {
            sets.iter_mut().for_each(|s| s.extend([2, 255, 0xFFFF, 1 << 24, 1 << 30, M - 2]));
        }
        product(&sets, |v| {
            let i = (o.make)(v);
            ctx.add("transitions", 1);
            if let Err(e) = guarded(o.name, || roundtrip(o, &i, v)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                ctx.violate(format!("{i:?}: {e}"), json!({"instruction": format!("{i:?}"), "what": e}));
            }
            ctx.state(&i.to_smallvec().to_vec());
        });
    });
    // every opcode with every length
    for c in (0..64u32).chain([M - 1]) {
        for n in 0..8usize {
            let mut v: SmallVec<[M31; 6]> = SmallVec::new();
            let full: Vec<M31> = std::iter::once(c).chain(1..8).map(M31).take(n).collect();
            v.extend(full.iter().copied());
            let want = n > 0 && codes.get(&c).is_some_and(|name| OPS.iter().find(|o| o.name == *name).unwrap().kinds.len() + 1 == n);
            let mut sv = SmallVec::new();
            sv.extend(v.iter().copied());
            let got = guarded("decode", || Instruction::try_from(sv));
            ctx.add("transitions", 1);
            match got {
                Err(p) => ctx.violate(format!("decoding {full:?} panics: {p}"), json!({"words": format!("{full:?}")})),
                Ok(Err(_)) if !want => ctx.outcome("rejected"),
                Ok(Ok(i)) if want && i.to_smallvec().to_vec() == full => ctx.outcome("decoded"),
                Ok(g) => ctx.violate(format!("decoding {full:?} gives {g:?}"), json!({"words": format!("{full:?}"), "got": format!("{g:?}")})),
            }
        }
    }
    // texts
    let texts = ["\"0x0\"", "\"0xb\"", "\"0x9\"", "\"b\"", "\"\"", "\"0x\"", "\"zz\"", "\"0x7ffffffe\"", "\"0x80000000\"", "\"-1\"", "\"0x1ffffffff\"", "1", "null", "\"é\""];
    let mut all = vec![vec![]];
    for _ in 0..if ctx.thorough { 4 } else { 3 } {
        let mut next: Vec<Vec<&str>> = vec![];
        for a in &all {
            for t in &texts {
                let mut b: Vec<&str> = a.clone();
                b.push(*t);
                next.push(b);
            }
        }
        for a in &next {
            let s = format!("[{}]", a.join(","));
            ctx.add("transitions", 1);
            match guarded(&s, || serde_json::from_str::<Instruction>(&s)) {
                Err(p) => ctx.violate(format!("reading {s} panics: {p}"), json!({"text": s})),
                Ok(Err(_)) => ctx.outcome("text rejected"),
                Ok(Ok(i)) => {
                    ctx.outcome("text read");
                    let hex: Option<Vec<u32>> = a.iter().map(|t| u32::from_str_radix(t.trim_matches('"').trim_start_matches("0x"), 16).ok()).collect();
                    let w: Vec<u32> = i.to_smallvec().iter().map(|m| m.0).collect();
                    if hex.map(|h| h.iter().map(|x| (*x as u64 % P) as u32).collect::<Vec<_>>()) != Some(w.clone()) {
                        ctx.violate(format!("reading {s} gives {i:?}"), json!({"text": s, "got": format!("{i:?}")}));
                    }
                }
            }
        }
        all = next;
    }
    programs(ctx);
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": "39 opcodes with operands over 5 (thorough 11) values; every opcode number 0..64 with every length 0..7; texts of up to 3 (4) elements from 14; ABI types of depth two in parameters and results"}), &["JSON text is read and written with serde_json in place of sonic-rs"])
}
fn roundtrip(o: &Op, i: &Instruction, v: &[M31]) -> Result<(), String> {
    let w = i.to_smallvec().to_vec();
    if w.len() != v.len() + 1 || w[1..] != *v || w[0].0 != i.opcode_value() || (o.parts)(i).as_deref() != Some(v) {
        return Err(format!("is encoded as {w:?}"));
    }
    if i.size_in_m31s() != w.len() || i.size_in_qm31s() != words(i) || Instruction::size_in_m31s_for_opcode(w[0].0) != Some(w.len()) || Instruction::size_in_qm31s_for_opcode(w[0].0) != Some(words(i)) {
        return Err("sizes disagree".into());
    }
    let q: Vec<u32> = i.to_qm31_vec().iter().flat_map(word).collect();
    let mut pad: Vec<u32> = w.iter().map(|m| m.0).collect();
    pad.resize(4 * words(i) as usize, 0);
    if q != pad {
        return Err(format!("is stored as {q:?}"));
    }
    match Instruction::try_from(i.to_smallvec()) {
        Ok(j) if j == *i => {}
        j => return Err(format!("is decoded as {j:?}")),
    }
    let t = serde_json::to_string(i).map_err(|e| e.to_string())?;
    match serde_json::from_str::<Instruction>(&t) {
        Ok(j) if j == *i => {}
        j => return Err(format!("is read back from {t} as {j:?}")),
    }
    // stored after another word, followed by another
    let mut m = Memory::from_iter(std::iter::once(qm([1, 2, 3, 4])).chain(i.to_qm31_vec()).chain([qm([5, 6, 7, 8])]));
    let _ = &mut m;
    match m.get_instruction(M31(1)) {
        Ok(f) if f.to_vec() == w => {}
        f => return Err(format!("is fetched as {f:?}")),
    }
    let log: Vec<Acc> = m.trace.borrow().iter().map(|e| (e.addr.0, word(&e.value))).collect();
    let want: Vec<Acc> = pad.chunks(4).enumerate().map(|(k, c)| (1 + k as u32, [c[0], c[1], c[2], c[3]])).collect();
    if log != want {
        return Err(format!("fetching it records {log:?}"));
    }
    Ok(())
}
fn abi_types(depth: usize) -> Vec<cairo_m_common::program::AbiType> {
    use cairo_m_common::program::AbiType as A;
    let mut v = vec![A::Felt, A::Bool, A::U32, A::Unit];
    if depth > 0 {
        let inner = abi_types(depth - 1);
        for t in &inner {
            for len in [None, Some(0), Some(3), Some(u32::MAX)] {
                v.push(A::Pointer { element: Box::new(t.clone()), len });
            }
            for size in [0, 2, u32::MAX] {
                v.push(A::FixedSizeArray { element: Box::new(t.clone()), size });
            }
            v.push(A::Tuple(vec![t.clone()]));
            v.push(A::Struct { name: "S".into(), fields: vec![("x".into(), t.clone()), ("é \"q\\".into(), A::U32)] });
        }
        for a in inner.iter().take(6) {
            for b in inner.iter().take(6) {
                v.push(A::Tuple(vec![a.clone(), b.clone()]));
            }
        }
        v.push(A::Tuple(vec![]));
        v.push(A::Struct { name: String::new(), fields: vec![] });
    }
    v
}
fn programs(ctx: &Ctx) {
    use cairo_m_common::program::{AbiSlot, EntrypointInfo, ProgramMetadata};
    let types = abi_types(2);
    let slot = |n: &str, t: &cairo_m_common::program::AbiType| AbiSlot { name: n.into(), ty: t.clone() };
    ctx.par(types.len(), |k| {
        let t = &types[k];
        for (np, nr) in [(0, 0), (1, 0), (0, 1), (2, 1)] {
            for meta in 0..8 {
                let s = |b: usize| (meta >> b & 1 == 1).then(|| format!("a\"\\\n{b}"));
                let mut data = vec![ProgramData::Instruction((OPS[k % OPS.len()].make)(&[M31(1), M31(M - 1), M31(3), M31(4), M31(5)]))];
                if meta & 1 == 1 {
                    data.push(ProgramData::Value(qm([M - 1, 0, 2, 1])));
                    data.push(ProgramData::Instruction(Instruction::Ret {}));
                }
                let e = EntrypointInfo { pc: meta * 1000, params: (0..np).map(|i| slot(&format!("p{i}"), t)).collect(), returns: (0..nr).map(|_| slot("", t)).collect() };
                let p = Program::new(data, [("main".to_string(), e.clone()), ("f::g".to_string(), e)].into_iter().collect(), ProgramMetadata { source_file: s(0), compiled_at: s(1), compiler_version: s(2) });
                ctx.add("transitions", 1);
                let r = guarded("program", || {
                    let text = serde_json::to_string(&p).map_err(|e| e.to_string())?;
                    let q: Program = serde_json::from_str(&text).map_err(|e| format!("{e}: {text}"))?;
                    if q != p {
                        return Err(format!("{text} is read back as {q:?}"));
                    }
                    Ok(())
                });
                if let Err(e) = r.unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                    ctx.violate(format!("a program does not survive its JSON form: {e}"), json!({"type": format!("{t:?}"), "what": e}));
                }
            }
        }
    });
    ctx.outcome_n("program texts", types.len() as u64 * 32);
}

/// P09: histories of memory operations.
#[derive(Clone, Copy, Debug)]
enum A {
    Put(u32, W),
    Get(u32),
    Peek(u32),
    Put32(u32, u32),
    Get32(u32),
    Peek32(u32),
    Fetch(u32),
}
pub fn memory(ctx: &Ctx) -> i32 {
    // the memory starts with two loaded words
    let base = [[11, 0, 0, 0], [19, 1, 2, 3]];
    let addrs = [0u32, 1, 2, 3, 6, TOP - 4, TOP - 1, TOP, TOP + 1, M - 1];
    let mut alpha = vec![];
    for a in addrs {
        alpha.push(A::Put(a, [a % 100 + 1, 0, 0, 0]));
        alpha.push(A::Get(a));
        alpha.push(A::Put32(a, 0xABCD_0012));
        alpha.push(A::Get32(a));
        if a < 8 || a > TOP {
            alpha.push(A::Fetch(a));
        }
    }
    for a in [1, 3, TOP - 1] {
        alpha.push(A::Put(a, [1, 0, 7, 0]));
        alpha.push(A::Put(a, [0x10000, 0, 0, 0]));
        alpha.push(A::Peek(a));
        alpha.push(A::Peek32(a));
    }
    alpha.push(A::Put(0, [23, 5, 6, 3]));
    alpha.push(A::Put(1, [22, 5, 6, 3]));
    alpha.push(A::Put(2, [63, 5, 6, 3]));
    let n = alpha.len();
    let depth = if ctx.thorough { 5 } else { 4 };
    ctx.par(n * n, |k| {
        let head = [alpha[k / n], alpha[k % n]];
        let mut rest = vec![0usize; depth - 2];
        loop {
            let h: Vec<A> = head.iter().copied().chain(rest.iter().map(|i| alpha[*i])).collect();
            ctx.add("transitions", h.len() as u64);
            if let Err(e) = guarded("memory", || history(&base, &h)).unwrap_or_else(|p| Err(format!("panic: {p}"))) {
                ctx.violate(format!("after {h:?}: {e}"), json!({"history": format!("{h:?}"), "what": e}));
            }
            let mut i = 0;
            loop {
                if i == rest.len() {
                    ctx.state(&k);
                    return;
                }
                rest[i] += 1;
                if rest[i] < n {
                    break;
                }
                rest[i] = 0;
                i += 1;
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.add("histories", (n as u64).pow(depth as u32));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": format!("every history of {depth} operations from {n}, over cells at the bottom, the top and beyond the 2^28 cells")}), &["M31 arithmetic comes from a stand-in", "cells in the middle of the address space are left out: the runner allocates all cells up to them"])
}
fn history(base: &[W], h: &[A]) -> Result<(), String> {
    let mut m: Memory = base.iter().map(|w| qm(*w)).collect();
    let mut r: BTreeMap<u32, W> = base.iter().enumerate().map(|(i, w)| (i as u32, *w)).collect();
    let mut low = base.len() as u32; // cells below are loaded or were written below their successors
    let mut log: Vec<Acc> = vec![];
    let val = |r: &BTreeMap<u32, W>, a: u32| -> R<W> {
        if a > TOP {
            return Err(Fail);
        }
        let w = r.get(&a).copied().unwrap_or_default();
        if w[1..] == [0, 0, 0] {
            Ok(w)
        } else {
            Err(Fail)
        }
    };
    for (k, op) in h.iter().enumerate() {
        let bad = |g: String, w: String| Err(format!("operation {k} ({op:?}) gives {g} instead of {w}"));
        match *op {
            A::Put(a, w) => {
                let want = a <= TOP;
                let g = m.insert(M31(a), qm(w));
                if g.is_ok() != want {
                    return bad(format!("{g:?}"), format!("{want}"));
                }
                if want {
                    r.insert(a, w);
                    log.push((a, w));
                    if a < 1000 {
                        low = low.max(a + 1);
                    }
                }
            }
            A::Get(a) | A::Peek(a) => {
                let want = val(&r, a);
                let g = if matches!(op, A::Get(_)) { m.get_data(M31(a)) } else { m.get_data_no_trace(M31(a)) };
                if g.as_ref().ok().map(|x| x.0) != want.ok().map(|w| w[0]) {
                    return bad(format!("{g:?}"), format!("{want:?}"));
                }
                if let (A::Get(_), Ok(w)) = (op, want) {
                    log.push((a, w));
                }
            }
            A::Put32(a, v) => {
                let b = add(a, 1);
                let want = a <= TOP && b <= TOP;
                let g = m.insert_u32(M31(a), v);
                if g.is_ok() != want {
                    return bad(format!("{g:?}"), format!("{want}"));
                }
                if !want {
                    return Ok(()); // what a failed access leaves behind is not specified
                }
                for (a, v) in [(a, v & 0xFFFF), (b, v >> 16)] {
                    r.insert(a, [v, 0, 0, 0]);
                    log.push((a, [v, 0, 0, 0]));
                    if a < 1000 {
                        low = low.max(a + 1);
                    }
                }
            }
            A::Get32(a) | A::Peek32(a) => {
                let b = add(a, 1);
                let want = match (val(&r, a), val(&r, b)) {
                    (Ok(l), Ok(h)) if l[0] < 0x10000 && h[0] < 0x10000 => Some((h[0] << 16 | l[0], l, h)),
                    _ => None,
                };
                let g = if matches!(op, A::Get32(_)) { m.get_u32(M31(a)) } else { m.get_u32_no_trace(M31(a)) };
                if g.as_ref().ok().copied() != want.map(|w| w.0) {
                    return bad(format!("{g:?}"), format!("{want:?}"));
                }
                let Some((_, l, h)) = want else { return Ok(()) };
                if let A::Get32(_) = op {
                    log.push((a, l));
                    log.push((b, h));
                }
            }
            A::Fetch(a) => {
                let g = m.get_instruction(M31(a));
                if a >= low {
                    if g.is_ok() {
                        return bad(format!("{g:?}"), "an error: no code there".into());
                    }
                    return Ok(());
                }
                let w = r.get(&a).copied().unwrap_or_default();
                let len = OPS.iter().map(|o| (o.make)(&[M31(0); 5])).find(|i| i.opcode_value() == w[0]).map(|i| i.size_in_m31s());
                log.push((a, w));
                let mut want: Vec<u32> = w.to_vec();
                if let Some(len) = len {
                    if len > 4 {
                        if a + 1 >= low {
                            if g.is_ok() {
                                return bad(format!("{g:?}"), "an error: the second word is missing".into());
                            }
                            return Ok(());
                        }
                        let x = r.get(&(a + 1)).copied().unwrap_or_default();
                        log.push((a + 1, x));
                        want.extend(x);
                    }
                    want.truncate(len);
                }
                match &g {
                    Ok(s) if s.iter().map(|x| x.0).collect::<Vec<_>>() == want => {}
                    _ => return bad(format!("{g:?}"), format!("{want:?}")),
                }
            }
        }
        let tr: Vec<Acc> = m.trace.borrow().iter().map(|e: &MemoryEntry| (e.addr.0, word(&e.value))).collect();
        if tr != log {
            return Err(format!("operation {k} ({op:?}) leaves the trace {tr:?} instead of {log:?}"));
        }
    }
    let bytes: Vec<u8> = log.iter().flat_map(|(a, w)| std::iter::once(*a).chain(*w)).flat_map(u32::to_le_bytes).collect();
    if m.serialize_trace() != bytes {
        return Err("the trace is serialised wrongly".into());
    }
    // every other cell kept its value
    for (a, w) in &r {
        if m.get_data_no_trace(M31(*a)).ok().map(|x| x.0) != (w[1..] == [0, 0, 0]).then_some(w[0]) {
            return Err(format!("the cell {a} lost its value {w:?}"));
        }
    }
    Ok(())
}
