//! Arguments and results of entry points, and their text form.
use crate::util::{guarded, Ctx};
use cairo_m_common::abi_codec::parse_cli_arg;
use cairo_m_common::program::{AbiSlot, AbiType, EntrypointInfo};
use cairo_m_common::{CairoMValue, InputValue, Instruction as I, Program, ProgramData};
use cairo_m_runner::vm::VM;
use cairo_m_runner::{run_cairo_program, RunnerError};
use serde_json::json;
use stwo_prover::core::fields::m31::M31;
use AbiType as T;
use InputValue as V;

const P: i128 = 2147483647;
fn o(x: i64) -> M31 {
    M31(x.rem_euclid(P as i64) as u32)
}
fn slots(t: &T) -> usize {
    match t {
        T::U32 => 2,
        T::Unit => 0,
        T::Tuple(ts) => ts.iter().map(slots).sum(),
        T::Struct { fields, .. } => fields.iter().map(|f| slots(&f.1)).sum(),
        _ => 1,
    }
}
/// What the value means as `t`: pointers are the list of what they point to.
fn meaning(t: &T, v: &V) -> Option<CairoMValue> {
    let all = |t: &T, vs: &[V]| vs.iter().map(|v| meaning(t, v)).collect::<Option<Vec<_>>>();
    Some(match (t, v) {
        (T::Felt, V::Number(n)) => CairoMValue::Felt(M31((*n as i128).rem_euclid(P) as u32)),
        (T::Bool, V::Number(n)) if [0, 1].contains(n) => CairoMValue::Bool(*n == 1),
        (T::Bool, V::Bool(b)) => CairoMValue::Bool(*b),
        (T::U32, V::Number(n)) if *n >= 0 && *n < 1 << 32 => CairoMValue::U32(*n as u32),
        (T::Unit, V::Unit) => CairoMValue::Unit,
        (T::Tuple(ts), V::List(vs)) if ts.len() == vs.len() => CairoMValue::Tuple(ts.iter().zip(vs).map(|(t, v)| meaning(t, v)).collect::<Option<_>>()?),
        (T::Struct { fields, .. }, V::Struct(vs)) if fields.len() == vs.len() => CairoMValue::Struct(fields.iter().zip(vs).map(|((n, t), v)| meaning(t, v).map(|v| (n.clone(), v))).collect::<Option<_>>()?),
        (T::FixedSizeArray { element, size }, V::List(vs)) if *size as usize == vs.len() => CairoMValue::Array(all(element, vs)?),
        (T::Pointer { element, len }, V::List(vs)) if len.is_none_or(|l| l as usize == vs.len()) => CairoMValue::Array(all(element, vs)?),
        _ => return None,
    })
}
/// Reads a value of type `t` at `a`, shaped like `like`; collects the cells behind pointers.
fn read(vm: &VM, t: &T, a: u32, like: &CairoMValue, cells: &mut Vec<(u32, u32)>) -> Result<CairoMValue, String> {
    let get = |a: u32| vm.memory.get_data_no_trace(M31(a)).map(|x| x.0).map_err(|e| e.to_string());
    Ok(match (t, like) {
        (T::Felt, _) => CairoMValue::Felt(M31(get(a)?)),
        (T::Bool, _) => match get(a)? {
            x @ (0 | 1) => CairoMValue::Bool(x == 1),
            x => return Err(format!("bool cell holds {x}")),
        },
        (T::U32, _) => match (get(a)?, get(a + 1)?) {
            (l, h) if l < 65536 && h < 65536 => CairoMValue::U32(h << 16 | l),
            x => return Err(format!("u32 cells hold {x:?}")),
        },
        (T::Unit, _) => CairoMValue::Unit,
        (T::Tuple(ts), CairoMValue::Tuple(vs)) => {
            let mut at = a;
            CairoMValue::Tuple(ts.iter().zip(vs).map(|(t, v)| { let r = read(vm, t, at, v, cells); at += slots(t) as u32; r }).collect::<Result<_, _>>()?)
        }
        (T::Struct { fields, .. }, CairoMValue::Struct(vs)) => {
            let mut at = a;
            CairoMValue::Struct(fields.iter().zip(vs).map(|((n, t), v)| { let r = read(vm, t, at, &v.1, cells); at += slots(t) as u32; r.map(|r| (n.clone(), r)) }).collect::<Result<_, _>>()?)
        }
        (T::FixedSizeArray { element, .. } | T::Pointer { element, .. }, CairoMValue::Array(vs)) => {
            let (base, n) = (get(a)?, slots(element) as u32);
            cells.push((base, base + n * vs.len() as u32));
            CairoMValue::Array(vs.iter().enumerate().map(|(i, v)| read(vm, element, base + n * i as u32, v, cells)).collect::<Result<_, _>>()?)
        }
        _ => return Err("shape".into()),
    })
}
/// The returned value with pointers followed.
fn follow(vm: &VM, t: &T, got: &CairoMValue, like: &CairoMValue) -> Result<CairoMValue, String> {
    Ok(match (t, got, like) {
        (T::Pointer { element, len: None }, CairoMValue::Pointer(p), CairoMValue::Array(vs)) => {
            let n = slots(element) as u32;
            CairoMValue::Array(vs.iter().enumerate().map(|(i, v)| read(vm, element, p.0 + n * i as u32, v, &mut vec![])).collect::<Result<_, _>>()?)
        }
        (T::Tuple(ts), CairoMValue::Tuple(g), CairoMValue::Tuple(l)) if ts.len() == g.len() => CairoMValue::Tuple(ts.iter().zip(g).zip(l).map(|((t, g), l)| follow(vm, t, g, l)).collect::<Result<_, _>>()?),
        (T::Struct { fields, .. }, CairoMValue::Struct(g), CairoMValue::Struct(l)) if fields.len() == g.len() => {
            CairoMValue::Struct(fields.iter().zip(g).zip(l).map(|((t, g), l)| follow(vm, &t.1, &g.1, &l.1).map(|v| (g.0.clone(), v))).collect::<Result<_, _>>()?)
        }
        (T::FixedSizeArray { element, .. } | T::Pointer { element, .. }, CairoMValue::Array(g), CairoMValue::Array(l)) if g.len() == l.len() => {
            CairoMValue::Array(g.iter().zip(l).map(|(g, l)| follow(vm, element, g, l)).collect::<Result<_, _>>()?)
        }
        _ => got.clone(),
    })
}
fn tup(v: &[T]) -> T {
    T::Tuple(v.to_vec())
}
fn st(v: &[T]) -> T {
    T::Struct { name: "S".into(), fields: v.iter().enumerate().map(|(i, t)| (format!("m{i}"), t.clone())).collect() }
}
fn arr(t: &T, n: u32) -> T {
    T::FixedSizeArray { element: Box::new(t.clone()), size: n }
}
fn ptr(t: &T, len: Option<u32>) -> T {
    T::Pointer { element: Box::new(t.clone()), len }
}
fn grow(base: &[T]) -> Vec<T> {
    let mut v = vec![];
    for a in base {
        v.extend([tup(&[a.clone()]), st(&[a.clone()]), arr(a, 1), arr(a, 2), ptr(a, None), ptr(a, Some(2))]);
        for b in [T::Felt, T::U32] {
            v.extend([tup(&[a.clone(), b.clone()]), st(&[b.clone(), a.clone()])]);
        }
    }
    v
}
/// Types by depth.
fn types(depth: usize) -> Vec<T> {
    let leaf = vec![T::Felt, T::Bool, T::U32];
    let mut all = leaf.clone();
    all.extend([T::Unit, tup(&[]), st(&[]), arr(&T::Felt, 0), ptr(&T::U32, Some(0)), arr(&T::U32, 3)]);
    let mut last = leaf;
    for _ in 1..depth {
        last = grow(&last);
        all.extend(last.clone());
    }
    all
}
/// Values of a type, and near misses.
fn values(t: &T) -> Vec<V> {
    let n = V::Number;
    // lists whose elements take each of their values in turn, the others their first
    let each = |ts: &[&T]| -> Vec<Vec<V>> {
        let vs: Vec<Vec<V>> = ts.iter().map(|t| values(t)).collect();
        let first: Vec<V> = vs.iter().enumerate().map(|(i, v)| v[i % 2 % v.len()].clone()).collect();
        let mut out = vec![first.clone()];
        for (i, v) in vs.iter().enumerate() {
            for x in v {
                let mut f = first.clone();
                f[i] = x.clone();
                out.push(f);
            }
        }
        out
    };
    let mut out = match t {
        T::Felt => vec![n(7), n(-1), n(0), n(P as i64), n(i64::MIN), n(i64::MAX), V::Bool(true), V::List(vec![n(1)]), V::Unit],
        T::Bool => vec![V::Bool(true), n(0), V::Bool(false), n(1), n(2), n(-1), V::List(vec![])],
        T::U32 => vec![n(65538), n(4294967295), n(0), n(1 << 32), n(-1), V::Bool(true), V::Struct(vec![])],
        T::Unit => vec![V::Unit, n(0), V::List(vec![])],
        T::Tuple(ts) => each(&ts.iter().collect::<Vec<_>>()).into_iter().map(V::List).collect(),
        T::Struct { fields, .. } => each(&fields.iter().map(|f| &f.1).collect::<Vec<_>>()).into_iter().map(V::Struct).collect(),
        T::FixedSizeArray { element, size } => each(&vec![&**element; *size as usize]).into_iter().map(V::List).collect(),
        T::Pointer { element, len } => each(&vec![&**element; len.unwrap_or(2) as usize]).into_iter().map(V::List).collect(),
    };
    // one element more or less, the other kind of list
    if !matches!(t, T::Felt | T::Bool | T::U32 | T::Unit) {
        let (V::List(f) | V::Struct(f)) = out[0].clone() else { unreachable!() };
        let mk = |v: Vec<V>| if matches!(t, T::Struct { .. }) { V::Struct(v) } else { V::List(v) };
        let other = |v: Vec<V>| if matches!(t, T::Struct { .. }) { V::List(v) } else { V::Struct(v) };
        out.push(mk([f.clone(), vec![f.first().cloned().unwrap_or(n(1))]].concat()));
        if !f.is_empty() {
            out.push(mk(f[1..].to_vec()));
        }
        out.push(other(f));
        out.push(V::Bool(false));
    }
    out
}
fn slot(t: &T) -> AbiSlot {
    AbiSlot { name: "x".into(), ty: t.clone() }
}
/// A program that returns its arguments.
fn identity(ps: &[T]) -> Program {
    let n = ps.iter().map(slots).sum::<usize>() as i64;
    let mut data = vec![ProgramData::Instruction(I::Ret {})];
    for i in 0..n {
        data.push(ProgramData::Instruction(I::StoreAddFpImm { src_off: o(-2 - 2 * n + i), imm: o(0), dst_off: o(-2 - n + i) }));
    }
    data.push(ProgramData::Instruction(I::Ret {}));
    let e = EntrypointInfo { pc: 1, params: ps.iter().map(slot).collect(), returns: ps.iter().map(slot).collect() };
    Program { data, entrypoints: [("id".to_string(), e)].into(), metadata: Default::default() }
}
fn passing(ps: &[T], args: &[V]) -> Result<bool, String> {
    let want: Option<Vec<CairoMValue>> = if ps.len() == args.len() { ps.iter().zip(args).map(|(t, v)| meaning(t, v)).collect() } else { None };
    let p = identity(ps);
    let got = run_cairo_program(&p, "id", args, Default::default());
    let out = match (&want, got) {
        (None, Err(RunnerError::ArgumentCountMismatch { expected, provided })) if ps.len() != args.len() => {
            return if (expected, provided) == (ps.len(), args.len()) { Ok(false) } else { Err(format!("counts {expected} and {provided}")) }
        }
        (None, Err(RunnerError::AbiError(_))) if ps.len() == args.len() => return Ok(false),
        (Some(_), Ok(o)) => o,
        (_, Ok(o)) => return Err(format!("gives {:?}, but the arguments do not match", o.return_values)),
        (_, Err(e)) => return Err(format!("fails: {e}")),
    };
    let want = want.unwrap();
    let n = ps.iter().map(slots).sum::<usize>() as u32;
    // where the calling convention has arguments and results
    let fp = out.vm.state.fp.0;
    let (mut a, mut r) = (fp - 2 - 2 * n, fp - 2 - n);
    let (args_at, rets_at) = (a, r);
    let mut behind = vec![];
    if out.return_values.len() != ps.len() {
        return Err(format!("{} results", out.return_values.len()));
    }
    for ((t, w), g) in ps.iter().zip(&want).zip(&out.return_values) {
        let arg = read(&out.vm, t, a, w, &mut behind)?;
        let ret = read(&out.vm, t, r, w, &mut vec![])?;
        if arg != *w || ret != *w {
            return Err(format!("the argument cells hold {arg:?}, the result cells {ret:?}"));
        }
        let g = follow(&out.vm, t, g, w)?;
        if g != *w {
            return Err(format!("returns {g:?}"));
        }
        a += slots(t) as u32;
        r += slots(t) as u32;
    }
    let len = out.vm.program_length.0;
    let rg = &out.public_address_ranges;
    if rg.program != (0..len) || rg.output != (rets_at..fp - 2) {
        return Err(format!("public ranges {rg:?}, but the program has {len} cells and the results are at {rets_at}..{}", fp - 2));
    }
    for (f, t) in behind.into_iter().chain([(args_at, rets_at)]) {
        if f < t && (f < rg.input.start || t > rg.input.end || rg.input.end > rets_at || rg.input.start < len) {
            return Err(format!("public ranges {rg:?} do not cover the input cells {f}..{t}"));
        }
    }
    Ok(true)
}
/// A program that returns fixed cells.
fn returning(t: &T, raw: &[u32]) -> Result<bool, String> {
    let n = raw.len() as i64;
    let mut data: Vec<_> = raw.iter().enumerate().map(|(i, v)| ProgramData::Instruction(I::StoreImm { imm: M31(*v), dst_off: o(-2 - n + i as i64) })).collect();
    data.push(ProgramData::Instruction(I::Ret {}));
    let e = EntrypointInfo { pc: 0, params: vec![], returns: vec![slot(t)] };
    let p = Program { data, entrypoints: [("f".to_string(), e)].into(), metadata: Default::default() };
    fn decode(t: &T, c: &mut std::slice::Iter<u32>) -> Option<CairoMValue> {
        Some(match t {
            T::Felt => CairoMValue::Felt(M31(*c.next()?)),
            T::Bool => CairoMValue::Bool(match c.next()? { 0 => false, 1 => true, _ => return None }),
            T::U32 => match (*c.next()?, *c.next()?) { (l, h) if l < 65536 && h < 65536 => CairoMValue::U32(h << 16 | l), _ => return None },
            T::Unit => CairoMValue::Unit,
            T::Pointer { len: None, .. } => CairoMValue::Pointer(M31(*c.next()?)),
            T::Tuple(ts) => CairoMValue::Tuple(ts.iter().map(|t| decode(t, c)).collect::<Option<_>>()?),
            T::Struct { fields, .. } => CairoMValue::Struct(fields.iter().map(|(n, t)| decode(t, c).map(|v| (n.clone(), v))).collect::<Option<_>>()?),
            _ => unreachable!(),
        })
    }
    let want = decode(t, &mut raw.iter());
    match (want, run_cairo_program(&p, "f", &[], Default::default())) {
        (Some(w), Ok(o)) if o.return_values == [w.clone()] => Ok(true),
        (None, Err(RunnerError::AbiError(_))) => Ok(false),
        (w, g) => Err(format!("{:?} instead of {w:?}", g.map(|o| o.return_values))),
    }
}
fn by_value(t: &T) -> bool {
    match t {
        T::FixedSizeArray { .. } | T::Pointer { len: Some(_), .. } => false,
        T::Tuple(ts) => ts.iter().all(by_value),
        T::Struct { fields, .. } => fields.iter().all(|f| by_value(&f.1)),
        _ => true,
    }
}
/// The documented grammar: Number | Bool | '[' list ']' | '(' list ')' | '{' list '}', spaces between.
fn grammar(s: &str) -> Option<V> {
    fn ws(s: &str) -> &str {
        s.trim_start_matches([' ', '\t'])
    }
    fn value(s: &str) -> Option<(V, &str)> {
        let s = ws(s);
        for (w, b) in [("true", true), ("false", false)] {
            if let Some(r) = s.strip_prefix(w) {
                return Some((V::Bool(b), r));
            }
        }
        let c = s.chars().next()?;
        if let Some(k) = "[({".find(c) {
            let close = [']', ')', '}'][k];
            let mk = |v| if k == 2 { V::Struct(v) } else { V::List(v) };
            let mut r = ws(&s[1..]);
            let mut items = vec![];
            if let Some(r) = r.strip_prefix(close) {
                return Some((mk(items), r));
            }
            loop {
                let (v, rest) = value(r)?;
                items.push(v);
                r = ws(rest);
                if let Some(rest) = r.strip_prefix(close) {
                    return Some((mk(items), rest));
                }
                r = r.strip_prefix(',')?;
            }
        }
        let end = s.char_indices().find(|(i, c)| !(c.is_ascii_digit() || (*i == 0 && *c == '-'))).map(|x| x.0).unwrap_or(s.len());
        let digits = s[..end].trim_start_matches('-');
        if digits.is_empty() {
            return None;
        }
        let mut n = 0i128;
        for d in digits.bytes() {
            n = n * 10 + (d - b'0') as i128;
            if n > 1 << 64 {
                return None;
            }
        }
        if s.starts_with('-') {
            n = -n;
        }
        Some((V::Number(i64::try_from(n).ok()?), &s[end..]))
    }
    let (v, r) = value(s)?;
    ws(r).is_empty().then_some(v)
}
const TOKENS: [&str; 16] = ["[", "]", "(", ")", "{", "}", ",", "1", "-", "true", "false", " ", "0", "x", "9223372036854775807", "\u{e0}"];
fn texts(ctx: &Ctx) {
    let depth = if ctx.thorough { 6 } else { 5u32 };
    for d in 0..=depth {
        let n = TOKENS.len().pow(d);
        ctx.add("texts", n as u64);
        let heads = if d < 2 { n } else { TOKENS.len().pow(2) };
        ctx.par(heads, |h| {
            let (mut ok, mut bad) = (0, 0);
            for rest in 0..n / heads {
                let mut j = h + rest * heads;
                let mut s = String::new();
                for _ in 0..d {
                    s.push_str(TOKENS[j % TOKENS.len()]);
                    j /= TOKENS.len();
                }
                let want = grammar(&s);
                let got = guarded("parse", || parse_cli_arg(&s).ok());
                if want.is_some() {
                    ok += 1;
                    ctx.state(&s);
                } else {
                    bad += 1;
                }
                if got.as_ref() != Ok(&want) {
                    ctx.violate(format!("argument text `{s}` is read as {got:?}, but means {want:?}"), json!({"text": s}));
                    if ctx.stopped() {
                        return;
                    }
                }
            }
            ctx.outcome_n("text: a value", ok);
            ctx.outcome_n("text: rejected", bad);
        });
    }
    for s in ["9223372036854775808", "-9223372036854775808", "-9223372036854775809", "[ 1 , ( -2 ,{ true } ) ]", "99999999999999999999999999", "--1", "1.0", "+1", "0x10", "1_000", "True", "\t1\t"] {
        ctx.add("texts", 1);
        let got = guarded("parse", || parse_cli_arg(s).ok());
        if got != Ok(grammar(s)) {
            ctx.violate(format!("argument text `{s}` is read as {got:?}, but means {:?}", grammar(s)), json!({"text": s}));
        }
    }
}
pub fn abi(ctx: &Ctx) -> i32 {
    let deep = types(if ctx.thorough { 4 } else { 3 });
    let flat = types(2);
    // (parameter types, arguments)
    let mut jobs: Vec<(Vec<T>, Vec<V>)> = vec![(vec![], vec![])];
    for t in &deep {
        jobs.extend(values(t).into_iter().map(|v| (vec![t.clone()], vec![v])));
    }
    for t in &flat {
        jobs.push((vec![t.clone()], vec![]));
        jobs.push((vec![], vec![values(t)[0].clone()]));
        jobs.push((vec![t.clone()], vec![values(t)[0].clone(); 2]));
        for u in &flat {
            for v in values(t) {
                for w in values(u).into_iter().take(if ctx.thorough { 99 } else { 4 }) {
                    jobs.push((vec![t.clone(), u.clone()], vec![v.clone(), w]));
                }
            }
        }
    }
    for l in 0..flat.len().pow(3) {
        let ts: Vec<T> = (0..3).map(|i| flat[l / flat.len().pow(i) % flat.len()].clone()).collect();
        let vs = ts.iter().enumerate().map(|(i, t)| { let v = values(t); v[i % 2 % v.len()].clone() }).collect();
        jobs.push((ts, vs));
    }
    ctx.add("calls", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (ps, args) = &jobs[j];
        ctx.add("transitions", 1);
        match guarded("call", || passing(ps, args)).unwrap_or_else(|p| Err(format!("panics: {p}"))) {
            Ok(b) => {
                ctx.outcome(if b { "passed" } else { "refused" });
                ctx.state(&format!("{ps:?}{args:?}"));
            }
            Err(e) => ctx.violate(format!("the identity on {ps:?} called with {args:?}: {e}"), json!({"parameters": format!("{ps:?}"), "arguments": format!("{args:?}"), "what": e})),
        }
    });
    // results of every content
    let raw = [0u32, 1, 2, 0xFFFF, 0x10000, P as u32 - 1];
    for t in deep.iter().filter(|t| by_value(t) && slots(t) <= if ctx.thorough { 6 } else { 4 }) {
        let n = slots(t) as u32;
        ctx.par(raw.len().pow(n), |j| {
            let cells: Vec<u32> = (0..n).map(|i| raw[j / raw.len().pow(i) % raw.len()]).collect();
            ctx.add("transitions", 1);
            match guarded("call", || returning(t, &cells)).unwrap_or_else(|p| Err(format!("panics: {p}"))) {
                Ok(b) => ctx.outcome(if b { "decoded" } else { "result refused" }),
                Err(e) => ctx.violate(format!("cells {cells:?} returned as {t:?}: {e}"), json!({"type": format!("{t:?}"), "cells": cells, "what": e})),
            }
        });
    }
    // entry points by name
    let p = identity(&[T::Felt]);
    for n in ["", "i", "id ", "ID", "idd", "main"] {
        match guarded("entry", || run_cairo_program(&p, n, &[V::Number(1)], Default::default())) {
            Ok(Err(RunnerError::EntryPointNotFound(a, l))) if a == n && l == ["id"] => {}
            r => ctx.violate(format!("entry point `{n}` gives {:?}", r.map(|r| r.map(|o| o.return_values))), json!({"entry": n})),
        }
    }
    texts(ctx);
    ctx.sample(json!({"case": "parameters ((felt, [u32; 2]), bool*), arguments [7, [65538, 4294967295]] and [true, 0]"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"type_depth": if ctx.thorough { 4 } else { 3 }, "types": deep.len(), "parameters": 3, "text_tokens": TOKENS.len()}}), &["M31 arithmetic comes from a stand-in"])
}
