//! Every run has a proof, and the proof verifies.
use crate::common::*;
use crate::gen::*;
use crate::refvm::*;
use crate::rows;
use crate::util::{guarded, Ctx};
use cairo_m_common::execution::Segment;
use cairo_m_common::{InputValue, Instruction as I, PublicAddressRanges};
use cairo_m_compiler::{compile_cairo, CompilerOptions};
use cairo_m_prover::adapter::ProverInput;
use cairo_m_runner::{run_cairo_program, RunnerOptions};
use serde_json::json;
use stwo_prover::core::fields::m31::M31;

/// Does a step take the same cell twice?
pub fn aliased(i: &ProverInput) -> bool {
    i.instructions.states_by_opcodes.values().flatten().any(|b| {
        let s = b.access_span;
        (s.start..s.start + s.len as u32).any(|k| {
            let a = &i.instructions.data_accesses[k as usize];
            a.prev_clock == b.clock
        })
    })
}
#[derive(Default)]
pub struct Seen {
    pub proofs: u64,
    pub steps: u64,
    pub aliased: bool,
}
/// Proves and verifies all segments of a run.
pub fn segments(segments: Vec<Segment>, ranges: &PublicAddressRanges, seen: &mut Seen) -> Result<(), String> {
    let n = segments.len();
    for (k, s) in segments.into_iter().enumerate() {
        let e = |e: String| if n > 1 { format!("segment {} of {n}: {e}", k + 1) } else { e };
        seen.steps += s.trace.len() as u64 - 1;
        let input = import(s, ranges).map_err(e)?;
        seen.aliased |= aliased(&input);
        let p = prove(input).map_err(e)?;
        degrees(&p).map_err(e)?;
        verify(p).map_err(e)?;
        seen.proofs += 1;
    }
    Ok(())
}
/// No component has a constraint above the degree it announces.
fn degrees(p: &TheProof) -> Result<(), String> {
    let a = rows::airs(p);
    for c in a.components.verifiers() {
        let (bound, deg) = c.degree();
        if deg > bound {
            return Err(format!("the constraints of {} have degree {deg}, its bound is {bound}", c.name()));
        }
    }
    Ok(())
}
fn raw(ctx: &Ctx, what: &str, r: &Raw, witness: serde_json::Value) -> Seen {
    let mut seen = Seen::default();
    let e = run(r).and_then(|ran| {
        if ran.segments.len() > 1 {
            ctx.outcome("run of several segments");
        }
        segments(ran.segments, &ran.ranges, &mut seen)
    });
    ctx.add("proofs", seen.proofs);
    ctx.add("steps_proved", seen.steps);
    match e {
        Ok(()) => ctx.outcome("proved and verified"),
        Err(e) => ctx.violate(format!("{what}: {e}"), witness),
    }
    seen
}
const SOURCES: &[(&str, &str, &[&[i64]], &str)] = &[
    ("fib", "fn fib(n: felt) -> felt { if n == 0 { return 0; } if n == 1 { return 1; } return fib(n - 1) + fib(n - 2); }", &[&[0], &[1], &[5]], "fib"),
    ("sum", "fn sum(n: felt) -> felt { let i = 0; let s = 0; while i != n { s = s + i; i = i + 1; } return s; }", &[&[0], &[1], &[17]], "sum"),
    ("fact", "fn fact(n: u32) -> u32 { let i = 1u32; let r = 1u32; while i <= n { r = r * i; i = i + 1u32; } return r; }", &[&[0], &[13]], "fact"),
    ("mix", "fn mix(a: u32, b: u32) -> u32 { let c = (a & b) | (a ^ 255u32); let d = c / (b | 1u32); let e = c % 7u32; if d < e { return d - e; } return d + e; }", &[&[0, 0], &[4294967295, 65537], &[123456789, 5]], "mix"),
    ("array", "fn array() -> felt { let a: [felt; 4] = [1, 2, 3, 4]; let i = 0; let s = 0; while i != 4 { a[i] = a[i] + 10; s = s + a[i]; i = i + 1; } return s; }", &[&[]], "array"),
    ("words", "fn words(x: u32) -> u32 { let a: [u32; 3] = [x, 70000u32, 3u32]; let i: felt = 2; a[i] = a[0] + a[1]; return a[i]; }", &[&[9]], "words"),
    ("points", "struct Point { x: felt, y: u32 } fn step(p: Point, k: u32) -> Point { return Point { x: p.x + 1, y: p.y * k }; } fn points() -> (felt, u32) { let p = Point { x: 3, y: 66000u32 }; let q = step(p, 3u32); return (q.x, q.y); }", &[&[]], "points"),
    ("even", "fn even(n: felt) -> bool { if n == 0 { return true; } return odd(n - 1); } fn odd(n: felt) -> bool { if n == 0 { return false; } return even(n - 1); }", &[&[0], &[5]], "even"),
    ("check", "fn check(a: felt, b: felt) -> felt { assert(a == b + a - b); let c = a * b; assert(c == b * a); return c / b; }", &[&[5, 7], &[-1, 2147483646]], "check"),
    ("pair", "fn pair(a: felt) -> (felt, felt) { return (a, a * 2); } fn two(a: felt) -> felt { let (x, y) = pair(a); return x - y; }", &[&[4]], "two"),
    ("nothing", "fn nothing() { return; }", &[&[]], "nothing"),
    ("same", "fn same(x: felt, y: u32) -> felt { let s = x + x; let p = x * x; let q = y + y; let r = y / y; let t = y & y; if x == x { s = s - p; } if q == r { return t as felt; } return s + s; }", &[&[5, 9]], "same"),
    ("place", "fn place(x: felt, y: u32) -> felt { x = x + x; x = x * 3; y = y * y; y = y / y; y = y | 4u32; if y == 5u32 { x = x - x; } return x; }", &[&[5, 9]], "place"),
    ("bools", "fn bools(a: felt, b: felt) -> felt { let c = a == 1 && b == 2; let d = a == 1 || b == 2; if c { return 1; } if d { return 2; } if !d { return 3; } return 4; }", &[&[1, 2], &[1, 3], &[0, 0]], "bools"),
];
fn optlevels() -> [(&'static str, CompilerOptions); 2] {
    [("unoptimised", CompilerOptions::no_opts()), ("optimised", CompilerOptions::default())]
}
/// A compiled program; `limit` cuts the run into segments.
pub fn source(ctx: &Ctx, name: &str, text: &str, f: &str, args: &[i64], lvl: usize, limit: usize) -> Option<(Vec<Segment>, PublicAddressRanges)> {
    let opts = optlevels();
    let w = || json!({"program": text, "function": f, "arguments": args, "level": opts[lvl].0, "max_steps": limit});
    let c = match guarded(text, || compile_cairo(text.to_string(), "main.cm".into(), optlevels()[lvl].1.clone())) {
        Ok(Ok(c)) => c,
        other => {
            ctx.violate(format!("{name} does not compile: {:?}", other.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))), w());
            return None;
        }
    };
    let inputs: Vec<InputValue> = args.iter().map(|x| InputValue::Number(*x)).collect();
    match guarded(text, || run_cairo_program(&c.program, f, &inputs, RunnerOptions { max_steps: limit })) {
        Ok(Ok(r)) => Some((r.vm.segments, r.public_address_ranges)),
        other => {
            ctx.violate(format!("{name} does not run: {:?}", other.map(|x| x.map(|_| ()).map_err(|e| e.to_string()))), w());
            None
        }
    }
}
pub fn programs() -> Vec<(&'static str, &'static str, &'static str, &'static [i64])> {
    SOURCES.iter().flat_map(|(n, t, a, f)| a.iter().map(move |a| (*n, *t, *f, *a))).collect()
}
/// A short program with all kinds of accesses: first reads, first writes, rewrites, calls and loops.
pub fn short() -> Raw {
    let mut b = Build::new();
    let i = b.felt(2);
    let s = b.u32(0x1_0002);
    let base = b.fp(s);
    let (d, e, r) = (b.cell(1), b.cell(2), b.cell(2));
    let t = b.cell(1);
    let top = b.pc();
    b.code.push(I::StoreAddFpImm { src_off: o(i), imm: o(-1), dst_off: o(d) });
    b.code.push(I::U32StoreDivRemFpImm { src_off: o(s), imm_lo: o(3), imm_hi: o(0), dst_off: o(e), dst_rem_off: o(r) });
    b.code.push(I::StoreDoubleDerefFp { base_off: o(base), imm: o(1), dst_off: o(t) });
    b.code.push(I::StoreAddFpImm { src_off: o(d), imm: o(0), dst_off: o(i) });
    b.code.push(I::StoreToDoubleDerefFpImm { base_off: o(base), imm: o(60), src_off: o(t) });
    b.calls.push(b.code.len());
    b.code.push(I::CallAbsImm { frame_off: o(40), target: o(0) });
    let here = b.pc() as i64;
    b.code.push(I::JnzFpImm { cond_off: o(i), offset: o(top as i64 - here) });
    // a0 + 1 to the result
    b.code.push(I::StoreAddFpImm { src_off: o(-5), imm: o(1), dst_off: o(-3) });
    let (code, _) = b.finish();
    Raw { code, args: vec![6], nret: 1, steps: usize::MAX }
}
/// All patterns of equal operands of an instruction: each operand is a cell of its own or one used before.
pub fn alias_probes(op: &Op) -> Vec<(String, Vec<I>)> {
    let cells: Vec<usize> = (0..op.kinds.len()).filter(|k| matches!(op.kinds[*k], K::O)).collect();
    let mut v = vec![];
    let is32 = op.name.starts_with("U32") || op.name == "PrintU32";
    let step = if is32 { 2 } else { 1 };
    if cells.len() < 2 || op.name == "CallAbsImm" {
        return v;
    }
    let deref = op.name.contains("DoubleDeref");
    // partitions of the operands as restricted growth strings
    let n = cells.len();
    let mut all = vec![vec![0usize]];
    for _ in 1..n {
        all = all.iter().flat_map(|s| (0..=s.iter().max().unwrap() + 1).map(move |k| [s.clone(), vec![k]].concat())).collect();
    }
    for s in all {
        if deref || s.iter().max().unwrap() + 1 == n {
            continue;
        }
        let mut code = vec![];
        let mut f: Vec<i64> = op.kinds.iter().map(|k| match k {
            K::O => 0,
            _ => 3,
        }).collect();
        for (k, c) in cells.iter().zip(&s) {
            f[*k] = *c as i64 * step;
        }
        for c in 0..=*s.iter().max().unwrap() {
            let c = c as i64 * step;
            code.push(if is32 { I::U32StoreImm { imm_lo: M31(7), imm_hi: M31(1), dst_off: o(c) } } else { I::StoreImm { imm: M31(7), dst_off: o(c) } });
        }
        let i = (op.make)(&f.iter().map(|x| o(*x)).collect::<Vec<_>>());
        code.push(i);
        code.push(I::Ret {});
        v.push((format!("{} with operands {s:?}", op.name), code));
    }
    v
}
pub fn complete(ctx: &Ctx) -> i32 {
    type Job<'a> = Box<dyn Fn() + Sync + 'a>;
    let mut jobs: Vec<Job> = vec![];
    // all instructions on all operand values
    for op in OPS.iter() {
        jobs.push(Box::new(move || {
            let mut b = Build::new();
            grid(&mut b, op, 0);
            let (code, names) = b.finish();
            if names.is_empty() {
                return;
            }
            ctx.add("instances", names.len() as u64);
            let w = json!({"instruction": op.name, "instances": names.len(), "first": names[0].1});
            let s = raw(ctx, op.name, &Raw { code, args: vec![], nret: 0, steps: usize::MAX }, w);
            if s.aliased {
                ctx.note(format!("{}: operands alias", op.name));
            }
        }));
    }
    // numbers of rows around the powers of two: components pad their rows
    let counts: &[usize] = if ctx.thorough { &[0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] } else { &[0, 1, 15, 16, 17, 31, 32, 33, 64, 65] };
    for n in counts {
        jobs.push(Box::new(move || {
            let mut b = Build::new();
            for op in OPS.iter() {
                let mut one = Build::new();
                one.next = b.next;
                grid(&mut one, op, 100);
                let Some((pc, _)) = one.names.first().cloned() else { continue };
                if matches!(op.name, "JmpAbsImm" | "CallAbsImm" | "Ret" | "JnzFpImm" | "JmpRelImm") {
                    continue;
                }
                // the instances up to the first one named
                let mut at = 0;
                for _ in 0..*n {
                    at = 0;
                    let mut p = 0;
                    while p <= pc {
                        let i = one.code[at];
                        p += words(&i);
                        at += 1;
                        b.code.push(i);
                    }
                }
                let _ = at;
                b.next = one.next;
            }
            for _ in 0..*n {
                let t = b.pc() + 1;
                b.code.push(I::JmpAbsImm { target: M31(t) });
                b.code.push(I::JmpRelImm { offset: o(1) });
                b.code.push(I::JnzFpImm { cond_off: o(0), offset: o(1) });
                b.calls.push(b.code.len());
                b.code.push(I::CallAbsImm { frame_off: o(b.next + 4), target: M31(0) });
            }
            let (code, _) = b.finish();
            raw(ctx, &format!("{n} rows of every instruction"), &Raw { code, args: vec![], nret: 0, steps: usize::MAX }, json!({"rows_of_every_instruction": n}));
        }));
    }
    // compiled programs at both levels
    for (name, text, f, args) in programs() {
        for lvl in 0..2 {
            jobs.push(Box::new(move || {
                let Some((s, r)) = source(ctx, name, text, f, args, lvl, usize::MAX) else { return };
                let mut seen = Seen::default();
                let e = segments(s, &r, &mut seen);
                ctx.add("proofs", seen.proofs);
                ctx.add("steps_proved", seen.steps);
                ctx.add("programs", 1);
                if seen.aliased {
                    ctx.outcome(format!("compiled {} takes a cell twice in a step", optlevels()[lvl].0));
                }
                match e {
                    Ok(()) => ctx.outcome("proved and verified"),
                    Err(e) if e.contains("panics") && seen.aliased && crate::util::listed("Q01", "aliased-operands") => ctx.known("aliased-operands"),
                    Err(e) => ctx.violate(format!("{name}{args:?} {}: {e}", optlevels()[lvl].0), json!({"program": text, "function": f, "arguments": args, "level": optlevels()[lvl].0})),
                }
            }));
        }
    }
    // every way to cut a run into segments of equal length
    let total = {
        let r = run(&short()).expect("the short program runs");
        r.segments.iter().map(|s| s.trace.len() - 1).sum::<usize>()
    };
    for k in 1..=total + 1 {
        jobs.push(Box::new(move || {
            let mut r = short();
            r.steps = k;
            ctx.add("cuts", 1);
            raw(ctx, &format!("segments of {k} steps"), &r, json!({"short_program_in_segments_of": k}));
        }));
    }
    // one cell twice in one step
    for op in OPS.iter() {
        for (what, code) in alias_probes(op) {
            jobs.push(Box::new(move || {
                ctx.add("alias_patterns", 1);
                let r = Raw { code: code.clone(), args: vec![], nret: 0, steps: usize::MAX };
                let mut seen = Seen::default();
                let e = run(&r).and_then(|x| segments(x.segments, &x.ranges, &mut seen));
                ctx.add("proofs", seen.proofs);
                match e {
                    Ok(()) => ctx.outcome("proved and verified"),
                    Err(e) if e.starts_with("run:") => ctx.outcome("alias pattern refused by the machine"),
                    Err(e) if e.contains("panics") && seen.aliased && crate::util::listed("Q01", "aliased-operands") => ctx.known("aliased-operands"),
                    Err(e) => ctx.violate(format!("{what}: {e}"), json!({"alias": what})),
                }
            }));
        }
    }
    // prints
    for (n, i) in [("PrintM31", I::PrintM31 { offset: o(0) }), ("PrintU32", I::PrintU32 { offset: o(0) })] {
        jobs.push(Box::new(move || {
            let code = vec![I::U32StoreImm { imm_lo: M31(7), imm_hi: M31(1), dst_off: o(0) }, i, I::Ret {}];
            let r = Raw { code, args: vec![], nret: 0, steps: usize::MAX };
            let mut seen = Seen::default();
            match run(&r).and_then(|x| segments(x.segments, &x.ranges, &mut seen)) {
                Ok(()) => ctx.outcome("proved and verified"),
                Err(_) if crate::util::listed("Q01", "print-has-no-proof") => ctx.known("print-has-no-proof"),
                Err(e) => ctx.violate(format!("{n}: {e}"), json!({"instruction": n})),
            }
        }));
    }
    if ctx.thorough {
        // more than 2^20 steps between two accesses to a cell: clock updates
        for turns in [1u32 << 18, (1 << 19) + 5] {
            jobs.push(Box::new(move || {
                let mut b = Build::new();
                let keep = b.u32(0x12_3456);
                let (i, j) = (b.cell(1), b.cell(1));
                b.code.push(I::StoreImm { imm: M31(turns), dst_off: o(i) });
                let top = b.pc() as i64;
                b.code.push(I::StoreAddFpImm { src_off: o(i), imm: o(-1), dst_off: o(j) });
                b.code.push(I::StoreAddFpImm { src_off: o(j), imm: o(0), dst_off: o(i) });
                let here = b.pc() as i64;
                b.code.push(I::JmpRelImm { offset: o(1) });
                b.code.push(I::JnzFpImm { cond_off: o(i), offset: o(top - here - 1) });
                let d = b.cell(2);
                b.code.push(I::U32StoreAddFpImm { src_off: o(keep), imm_lo: o(1), imm_hi: o(0), dst_off: o(d) });
                b.code.push(I::U32StoreImm { imm_lo: o(1), imm_hi: o(0), dst_off: o(keep) });
                let (code, _) = b.finish();
                raw(ctx, &format!("a loop of {turns} turns"), &Raw { code, args: vec![], nret: 0, steps: usize::MAX }, json!({"loop_of": turns}));
            }));
        }
    }
    ctx.par(jobs.len(), |i| jobs[i]());
    let cov = json!({"bounds": {"operand_values_felt": FELTS, "operand_values_u32": U32S, "rows_per_instruction": counts, "programs": SOURCES.iter().map(|s| s.0).collect::<Vec<_>>(), "segment_lengths": total + 1}});
    ctx.finish("model_checking", cov, &[])
}
