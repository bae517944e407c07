//! Calls: argument passing, results, value semantics of parameters, recursion.
use crate::prog::*;
use crate::run;
use crate::util::Ctx;
use serde_json::json;

fn types() -> Vec<T> {
    vec![T::Felt, T::U32, T::Bool, T::Tup(vec![T::Felt, T::U32]), T::St("P"), T::Arr(Box::new(T::Felt), 2)]
}
const PAR: [&str; 3] = ["p0", "p1", "p2"];
fn set(a: E, e: E) -> S {
    S::Set(a, e)
}
fn fld(e: E, n: &'static str) -> E {
    E::Fld(bx(e), n)
}
fn ix(e: E, n: usize) -> E {
    E::Ix(bx(e), n)
}
fn at(e: E, n: u32) -> E {
    E::At(bx(e), bx(E::F(n)))
}
/// Changes a parameter.
fn change(t: &T, n: &'static str) -> Vec<S> {
    match t {
        T::Felt => vec![set(v(n), bin("*", v(n), E::F(7)))],
        T::U32 => vec![set(v(n), bin("-", v(n), E::U(100000)))],
        T::Bool => vec![set(v(n), E::Not(bx(v(n))))],
        T::Tup(_) => vec![set(ix(v(n), 0), bin("+", ix(v(n), 0), E::F(1))), set(ix(v(n), 1), bin("^", ix(v(n), 1), E::U(0xffff0000)))],
        T::St(_) => vec![set(fld(v(n), "x"), bin("+", fld(v(n), "x"), E::U(65536))), set(v(n), E::Sl("P", vec![("x", fld(v(n), "x")), ("y", bin("+", fld(v(n), "y"), E::F(1)))]))],
        T::Arr(..) => vec![set(at(v(n), 1), bin("+", at(v(n), 1), at(v(n), 0)))],
        _ => unreachable!(),
    }
}
/// What can be observed of a value: scalars as they are.
fn parts(t: &T, e: E) -> Vec<(T, E)> {
    match t {
        T::Arr(..) => vec![(T::Felt, at(e.clone(), 0)), (T::Felt, at(e, 1))],
        t => vec![(t.clone(), e)],
    }
}
fn arg(t: &T, k: usize) -> E {
    let two = |a: E, b: E, c: E| [a, b, c][k].clone();
    match t {
        T::Felt => two(v("a"), v("b"), bin("-", v("a"), v("b"))),
        T::U32 => two(v("u"), v("w"), bin("^", v("u"), v("w"))),
        T::Bool => two(v("c"), v("d"), bin("!=", v("c"), v("d"))),
        T::Tup(_) => two(v("t"), v("s"), E::Tup(vec![v("b"), v("u")])),
        T::St(_) => two(v("p"), v("q"), E::Sl("P", vec![("x", v("u")), ("y", ix(v("s"), 0))])),
        T::Arr(..) => two(v("r"), v("z"), E::Arr(vec![v("b"), v("a")])),
        _ => unreachable!(),
    }
}
fn caller_params() -> Vec<(&'static str, T)> {
    vec![("a", T::Felt), ("b", T::Felt), ("u", T::U32), ("w", T::U32), ("c", T::Bool), ("d", T::Bool)]
}
fn locals(used: &[&T]) -> Vec<S> {
    let mut out = vec![];
    for t in used {
        match t {
            T::Tup(_) => out.extend([S::Let("t", None, E::Tup(vec![v("a"), v("w")])), S::Let("s", None, E::Tup(vec![v("b"), v("u")]))]),
            T::St(_) => {
                if !used.iter().any(|t| matches!(t, T::Tup(_))) {
                    out.push(S::Let("s", None, E::Tup(vec![v("b"), v("u")])));
                }
                out.extend([S::Let("p", None, E::Sl("P", vec![("x", v("u")), ("y", v("b"))])), S::Let("q", None, E::Sl("P", vec![("x", v("w")), ("y", v("a"))]))]);
            }
            T::Arr(..) => out.extend([S::Let("r", None, E::Arr(vec![v("a"), v("b")])), S::Let("z", None, E::Arr(vec![v("b"), E::F(9)]))]),
            _ => {}
        }
    }
    out
}
fn observed(used: &[&T]) -> Vec<(T, E)> {
    let mut out = vec![];
    for t in used {
        for k in 0..2 {
            out.extend(parts(t, arg(t, k)));
        }
    }
    out
}
fn structs() -> Vec<(&'static str, Vec<(&'static str, T)>)> {
    vec![("P", vec![("x", T::U32), ("y", T::Felt)])]
}
fn tup(parts: Vec<(T, E)>) -> (T, E) {
    if parts.len() == 1 {
        return parts.into_iter().next().unwrap();
    }
    let (t, e) = parts.into_iter().unzip();
    (T::Tup(t), E::Tup(e))
}
/// The callees for a parameter list: (definition, kind).
fn callees(ps: &[T]) -> Vec<F> {
    let params: Vec<_> = ps.iter().enumerate().map(|(i, t)| (PAR[i], t.clone())).collect();
    let mut out = vec![F { name: "g", params: params.clone(), ret: T::Unit, body: ps.iter().enumerate().flat_map(|(i, t)| change(t, PAR[i])).chain([S::Ret(None)]).collect() }];
    for i in 0..ps.len() {
        let (t, e) = tup(parts(&ps[i], v(PAR[i])));
        // the parameter on its own, unchanged
        out.push(F { name: "g", params: params.clone(), ret: t.clone(), body: vec![S::Ret(Some(e.clone()))] });
        // the parameter after the others changed
        let body = ps.iter().enumerate().filter(|(j, _)| *j != i).flat_map(|(j, t)| change(t, PAR[j])).chain([S::Ret(Some(e))]).collect();
        out.push(F { name: "g", params: params.clone(), ret: t, body });
    }
    if !ps.is_empty() {
        let (t, e) = tup(ps.iter().enumerate().rev().flat_map(|(i, t)| parts(t, v(PAR[i]))).collect());
        out.push(F { name: "g", params: params.clone(), ret: t.clone(), body: vec![S::Ret(Some(e.clone()))] });
        out.push(F { name: "g", params, ret: t, body: ps.iter().enumerate().flat_map(|(i, t)| change(t, PAR[i])).chain([S::Ret(Some(e))]).collect() });
    }
    out
}
fn lists(n: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|l: Vec<T>| types().into_iter().map(move |t| [l.clone(), vec![t]].concat())).collect();
    }
    out
}
fn passing(ctx: &Ctx) {
    let mut jobs = vec![];
    for n in 0..=3 {
        for l in lists(n) {
            for g in callees(&l) {
                for k in 0..3usize.pow(n as u32) {
                    jobs.push((l.clone(), g.clone(), k));
                }
            }
        }
    }
    ctx.add("calls_to_callees", jobs.len() as u64);
    let inputs = [(5, 11, 70000, u32::MAX, 1, 0), (P as u32 - 1, 3, 0, 65535, 0, 0)];
    ctx.par(jobs.len(), |j| {
        let (l, g, k) = &jobs[j];
        let mut used: Vec<&T> = vec![];
        for t in l {
            if !used.contains(&t) {
                used.push(t);
            }
        }
        let mut p = Prog { structs: structs(), fns: vec![g.clone()], ..Default::default() };
        let args: Vec<E> = l.iter().enumerate().map(|(i, t)| arg(t, k / 3usize.pow(i as u32) % 3)).collect();
        let mut body = locals(&used);
        let mut res = observed(&used);
        let c = call("g", args);
        if g.ret == T::Unit {
            body.push(S::Ex(c));
        } else {
            body.push(S::Let("out", None, c));
            res.insert(0, (g.ret.clone(), v("out")));
        }
        if res.is_empty() {
            res.push((T::Felt, v("a")));
        }
        let (ret, e) = tup(res);
        body.push(S::Ret(Some(e)));
        p.fns.push(F { name: "f", params: caller_params(), ret, body });
        let cases: Vec<_> = inputs.iter().map(|&(a, b, u, w, c, d)| ("f", vec![V::F(a), V::F(b), V::U(u), V::U(w), V::B(c == 1), V::B(d == 1)])).collect();
        run::check_cases(ctx, &p, &cases);
    });
}
/// Functions used by the sequences.
fn library(t: &T) -> Vec<F> {
    let k = |x| if *t == T::Felt { E::F(x) } else { E::U(x) };
    let (x, y) = (("x", t.clone()), ("y", t.clone()));
    let arr = T::Arr(Box::new(t.clone()), 2);
    let pair = T::Tup(vec![t.clone(), t.clone()]);
    let f = |name, params, ret, body| F { name, params, ret, body };
    vec![
        f("inc", vec![x.clone()], t.clone(), vec![set(v("x"), bin("+", v("x"), k(1))), S::Ret(Some(v("x")))]),
        f("sub", vec![x.clone(), y.clone()], t.clone(), vec![S::Ret(Some(bin("-", v("x"), v("y"))))]),
        f("swap", vec![x.clone(), y.clone()], pair.clone(), vec![S::Let("t", None, v("x")), set(v("x"), v("y")), set(v("y"), v("t")), S::Ret(Some(E::Tup(vec![v("x"), v("y")])))]),
        f("snd", vec![("t", pair.clone()), x.clone()], pair.clone(), vec![set(ix(v("t"), 0), v("x")), S::Ret(Some(E::Tup(vec![ix(v("t"), 1), ix(v("t"), 0)])))]),
        f("nop", vec![x.clone()], T::Unit, vec![set(v("x"), k(0)), S::Ret(None)]),
        f("fill", vec![("r", arr.clone()), x.clone()], T::Unit, vec![set(at(v("r"), 0), v("x")), set(at(v("r"), 1), bin("+", at(v("r"), 1), v("x"))), S::Ret(None)]),
        f("get", vec![x.clone(), ("r", arr.clone())], t.clone(), vec![S::Ret(Some(bin("+", at(v("r"), 1), v("x"))))]),
        f("sum", vec![x.clone()], t.clone(), vec![S::If(bin("==", v("x"), k(0)), vec![S::Ret(Some(k(0)))], None), S::Ret(Some(bin("+", v("x"), call("sum", vec![bin("-", v("x"), k(1))]))))]),
        f("fib", vec![x.clone()], t.clone(), vec![S::If(bin("==", v("x"), k(0)), vec![S::Ret(Some(k(0)))], Some(vec![S::If(bin("==", v("x"), k(1)), vec![S::Ret(Some(k(1)))], None)])), S::Ret(Some(bin("+", call("fib", vec![bin("-", v("x"), k(1))]), call("fib", vec![bin("-", v("x"), k(2))]))))]),
        f("even", vec![x.clone()], T::Bool, vec![S::If(bin("==", v("x"), k(0)), vec![S::Ret(Some(E::B(true)))], None), S::Ret(Some(call("odd", vec![bin("-", v("x"), k(1))])))]),
        f("odd", vec![x.clone()], T::Bool, vec![S::If(bin("==", v("x"), k(0)), vec![S::Ret(Some(E::B(false)))], None), S::Ret(Some(call("even", vec![bin("-", v("x"), k(1))])))]),
        f("walk", vec![("r", arr.clone()), x.clone()], t.clone(), vec![S::If(bin("==", v("x"), k(0)), vec![S::Ret(Some(at(v("r"), 0)))], None), set(at(v("r"), 0), bin("+", at(v("r"), 0), v("x"))), S::Let("y", None, call("walk", vec![v("r"), bin("-", v("x"), k(1))])), S::Ret(Some(bin("+", v("y"), v("x"))))]),
    ]
}
fn alphabet(t: &T, th: bool) -> Vec<S> {
    let k = |x| if *t == T::Felt { E::F(x) } else { E::U(x) };
    let (x, y, r) = (v("x"), v("y"), v("r"));
    let mut out = vec![
        set(x.clone(), call("inc", vec![y.clone()])),
        set(y.clone(), call("sub", vec![x.clone(), y.clone()])),
        set(x.clone(), call("sub", vec![call("inc", vec![y.clone()]), call("inc", vec![x.clone()])])),
        S::LetT(vec!["x", "y"], call("swap", vec![x.clone(), y.clone()])),
        S::LetT(vec!["y", "x"], call("swap", vec![call("inc", vec![x.clone()]), x.clone()])),
        S::LetT(vec!["x", "y"], call("snd", vec![E::Tup(vec![x.clone(), y.clone()]), call("inc", vec![y.clone()])])),
        S::Ex(call("nop", vec![x.clone()])),
        S::Ex(call("fill", vec![r.clone(), x.clone()])),
        set(x.clone(), call("get", vec![y.clone(), r.clone()])),
        set(at(r.clone(), 0), call("sub", vec![at(r.clone(), 1), x.clone()])),
        set(y.clone(), bin("+", call("sum", vec![k(3)]), x.clone())),
        set(x.clone(), call("walk", vec![r.clone(), k(2)])),
    ];
    out.push(S::If(call("even", vec![x.clone()]), vec![set(x.clone(), call("inc", vec![x.clone()]))], Some(vec![set(y.clone(), call("inc", vec![y.clone()]))])));
    out.push(S::While(bin("!=", x.clone(), k(4)), vec![set(x.clone(), call("inc", vec![x.clone()])), S::Ex(call("fill", vec![r.clone(), x.clone()]))]));
    out.push(S::If(bin("==", x.clone(), y.clone()), vec![set(x.clone(), k(7))], None));
    if th {
        out.push(set(x.clone(), call("sub", vec![call("sub", vec![x.clone(), y.clone()]), call("sub", vec![y.clone(), x.clone()])])));
        out.push(set(y.clone(), call("fib", vec![k(5)])));
        out.push(set(x.clone(), ix(call("swap", vec![y.clone(), x.clone()]), 0)));
    }
    out
}
/// `looped`: the sequence is run twice by a loop.
fn sequences(ctx: &Ctx, depth: usize, looped: bool) {
    for t in [T::Felt, T::U32] {
        let al = alphabet(&t, ctx.thorough);
        let n = al.len();
        let total: usize = (1..=depth).map(|d| n.pow(d as u32)).sum();
        ctx.add("call_sequences", total as u64);
        let arr = |a: E, b: E| E::Arr(vec![a, b]);
        ctx.par(total, |j| {
            let (mut j, mut d) = (j, 1);
            while j >= n.pow(d) {
                j -= n.pow(d);
                d += 1;
            }
            let mut body = vec![S::Let("x", None, v("a")), S::Let("y", None, v("b")), S::Let("r", None, arr(v("b"), v("a")))];
            let s: Vec<S> = (0..d).map(|i| al[j / n.pow(i) % n].clone()).collect();
            if looped {
                body.push(S::For(Box::new(S::Let("i", None, E::F(0))), bin("!=", v("i"), E::F(2)), Box::new(set(v("i"), bin("+", v("i"), E::F(1)))), s));
            } else {
                body.extend(s);
            }
            body.push(S::Ret(Some(E::Tup(vec![v("x"), v("y"), at(v("r"), 0), at(v("r"), 1), v("a"), v("b")]))));
            let mut p = Prog { fns: library(&t), ..Default::default() };
            p.fns.push(F { name: "f", params: vec![("a", t.clone()), ("b", t.clone())], ret: T::Tup(vec![t.clone(); 6]), body });
            let args: Vec<Vec<V>> = [(2, 5), (3, 3), (0, 4)].iter().map(|(a, b)| vec![crate::p_ops::val(&t, *a), crate::p_ops::val(&t, *b)]).collect();
            run::check_flow(ctx, &p.prune("f"), "f", &args);
        });
    }
}
pub fn calls(ctx: &Ctx) -> i32 {
    passing(ctx);
    let depth = if ctx.thorough { 4 } else { 3 };
    sequences(ctx, depth, false);
    sequences(ctx, depth - 1, true);
    ctx.sample(json!({"case": "g(p0: felt, p1: P, p2: (felt, u32)) changes every parameter and returns them reversed; f calls it with (b, P { x: u, y: s.0 }, t) and returns the result and all its own variables"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"parameters": 3, "parameter_types": 6, "argument_forms": 3, "call_sequence_length": depth, "levels": 2}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
