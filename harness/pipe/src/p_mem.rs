//! Memory: arrays (literal, repeated, zero, constant, in aggregates) and heap buffers.
use crate::prog::*;
use crate::run;
use crate::util::Ctx;
use serde_json::json;

fn set(a: E, e: E) -> S {
    S::Set(a, e)
}
fn fld(e: E, n: &'static str) -> E {
    E::Fld(bx(e), n)
}
fn ix(e: E, n: usize) -> E {
    E::Ix(bx(e), n)
}
fn at(e: E, i: E) -> E {
    E::At(bx(e), bx(i))
}
fn f(n: u32) -> E {
    E::F(n)
}
fn inc(e: E, t: &T) -> S {
    set(e.clone(), bin("+", e, if *t == T::U32 { E::U(1) } else { f(1) }))
}
fn pt(x: E, y: E) -> E {
    E::Sl("P", vec![("x", x), ("y", y)])
}
fn ptr(t: T) -> T {
    T::Ptr(Box::new(t))
}
fn new(t: T, n: E) -> E {
    E::New(t, bx(n))
}
fn tt() -> T {
    T::Tup(vec![T::U32, T::Felt])
}
fn arr(t: T, n: usize) -> T {
    T::Arr(Box::new(t), n)
}
fn structs() -> Vec<(&'static str, Vec<(&'static str, T)>)> {
    vec![("P", vec![("x", T::Felt), ("y", T::U32)]), ("W", vec![("h", ptr(T::Felt)), ("n", T::U32), ("z", arr(T::Felt, 2))])]
}
fn consts() -> Vec<(&'static str, Option<T>, E)> {
    vec![
        ("CF", Some(arr(T::Felt, 3)), E::Arr(vec![f(3), E::L(T::Felt, 0), f(2147483646)])),
        ("CU", Some(arr(T::U32, 3)), E::Arr(vec![E::L(T::U32, 4294967295), E::U(7), E::L(T::U32, 65536)])),
        ("CB", Some(arr(T::Bool, 2)), E::Arr(vec![E::B(true), E::B(false)])),
        ("CT", Some(arr(tt(), 2)), E::Arr(vec![E::Tup(vec![E::L(T::U32, 70000), E::L(T::Felt, 5)]), E::Tup(vec![E::L(T::U32, 1), E::L(T::Felt, 0)])])),
        ("CS", Some(T::Felt), E::L(T::Felt, 2)),
        ("CV", Some(T::U32), E::L(T::U32, 300000)),
    ]
}
fn library() -> Vec<F> {
    let z = || v("z");
    let (hf, hp) = (ptr(T::Felt), ptr(T::St("P")));
    let two = |t: T| {
        let k = |n| if t == T::U32 { E::U(n) } else { f(n) };
        (E::Arr(vec![k(0), v("x")]), E::Rep(bx(k(0)), 2))
    };
    let count = |name, t: T, init: E| F {
        name,
        params: vec![("x", t.clone()), ("i", T::Felt)],
        ret: t.clone(),
        body: vec![S::Let("z", None, init), set(at(z(), v("i")), bin("+", at(z(), v("i")), v("x"))), set(at(z(), f(0)), bin("+", at(z(), f(0)), v("x"))), S::Ret(Some(bin("*", at(z(), f(0)), at(z(), f(1)))))],
    };
    let (fa, fr) = two(T::Felt);
    let (ua, ur) = two(T::U32);
    vec![
        count("zf", T::Felt, fr),
        count("zl", T::Felt, fa),
        count("zu", T::U32, ur),
        count("ul", T::U32, ua),
        F { name: "zp", params: vec![("i", T::Felt)], ret: T::U32, body: vec![S::Let("z", None, E::Arr(vec![pt(f(0), E::U(0)), pt(f(0), E::U(0))])), set(fld(at(z(), v("i")), "y"), bin("+", fld(at(z(), v("i")), "y"), E::U(9))), S::Ret(Some(bin("-", fld(at(z(), f(1)), "y"), fld(at(z(), f(0)), "y"))))] },
        F { name: "mk", params: vec![("x", T::Felt)], ret: hf.clone(), body: vec![S::Let("m", Some(hf.clone()), new(T::Felt, f(2))), set(at(v("m"), f(0)), v("x")), set(at(v("m"), f(1)), bin("*", v("x"), v("x"))), S::Ret(Some(v("m")))] },
        F { name: "put", params: vec![("m", hf.clone()), ("i", T::Felt), ("x", T::Felt)], ret: T::Unit, body: vec![set(at(v("m"), v("i")), v("x")), S::Ret(None)] },
        F { name: "cross", params: vec![("m", hp.clone()), ("i", T::Felt)], ret: T::St("P"), body: vec![set(fld(at(v("m"), v("i")), "x"), fld(at(v("m"), f(0)), "x")), S::Ret(Some(at(v("m"), f(1))))] },
        F { name: "cst", params: vec![("i", T::Felt)], ret: tt(), body: vec![S::Const("L", Some(arr(T::U32, 2)), E::Arr(vec![E::L(T::U32, 9), E::L(T::U32, 100000)])), S::Ret(Some(E::Tup(vec![bin("+", at(v("L"), v("i")), at(v("CU"), v("i"))), ix(at(v("CT"), v("i")), 1)])))] },
        F { name: "sumup", params: vec![("n", T::Felt)], ret: T::Felt, body: vec![S::If(bin("==", v("n"), f(0)), vec![S::Ret(Some(f(0)))], None), S::Let("m", Some(hf), new(T::Felt, v("n"))), set(at(v("m"), bin("-", v("n"), f(1))), v("n")), S::Let("r", None, call("sumup", vec![bin("-", v("n"), f(1))])), S::Ret(Some(bin("+", v("r"), at(v("m"), bin("-", v("n"), f(1))))))] },
    ]
}
fn alphabet() -> Vec<S> {
    let (x, u, k, a) = (|| v("x"), || v("u"), || v("k"), || v("a"));
    let (h, g, s, o, z, q, w) = (|| v("h"), || v("g"), || v("s"), || v("o"), || v("z"), || v("q"), || v("w"));
    let hf = || Some(ptr(T::Felt));
    vec![
        // heap buffers
        set(at(h(), f(0)), bin("+", at(h(), f(1)), x())),
        set(at(h(), k()), x()),
        set(x(), at(h(), k())),
        set(at(g(), k()), u()),
        set(u(), bin("^", at(g(), f(0)), at(g(), k()))),
        set(at(s(), k()), pt(x(), u())),
        set(at(s(), f(0)), at(s(), f(1))),
        set(fld(at(s(), f(1)), "y"), bin("+", fld(at(s(), k()), "y"), E::U(1))),
        set(x(), fld(at(s(), k()), "x")),
        set(o(), h()),
        set(at(o(), f(1)), x()),
        set(h(), new(T::Felt, f(2))),
        set(g(), new(T::U32, bin("+", k(), f(1)))),
        set(h(), call("mk", vec![x()])),
        S::Ex(call("put", vec![h(), k(), a()])),
        set(at(s(), f(0)), call("cross", vec![s(), k()])),
        S::Block(vec![S::Let("t", hf(), h()), set(h(), o()), set(o(), v("t"))]),
        S::Block(vec![S::Let("t", None, E::Sl("W", vec![("h", h()), ("n", u()), ("z", E::Arr(vec![x(), f(0)]))])), set(at(fld(v("t"), "h"), k()), fld(v("t"), "n").pipe_felt()), set(x(), bin("+", at(fld(v("t"), "z"), k()), at(fld(v("t"), "h"), f(0))))]),
        set(x(), call("sumup", vec![f(3)])),
        // arrays
        inc(at(z(), k()), &T::Felt),
        set(at(z(), f(1)), bin("+", at(z(), f(0)), a())),
        set(x(), at(z(), k())),
        inc(at(q(), f(1)), &T::U32),
        set(at(q(), k()), bin("+", at(q(), f(0)), u())),
        set(u(), at(q(), k())),
        S::Block(vec![S::Let("t", None, E::Rep(bx(f(0)), 2)), inc(at(v("t"), k()), &T::Felt), set(x(), bin("+", at(v("t"), f(1)), at(v("t"), f(0))))]),
        S::Block(vec![S::Let("t", None, E::Rep(bx(u()), 3)), inc(at(v("t"), k()), &T::U32), set(u(), bin("+", at(v("t"), f(1)), at(v("t"), f(2))))]),
        S::Block(vec![S::Let("t", None, E::Tup(vec![x(), E::Arr(vec![f(0), x()])])), inc(at(ix(v("t"), 1), k()), &T::Felt), set(x(), bin("*", at(ix(v("t"), 1), f(0)), at(ix(v("t"), 1), f(1))))]),
        set(ix(at(w(), k()), 0), bin("+", ix(at(w(), k()), 0), E::U(1))),
        set(u(), ix(at(w(), f(1)), 0)),
        set(x(), call("zf", vec![x(), k()])),
        set(x(), call("zl", vec![a(), f(0)])),
        set(u(), call("zu", vec![u(), k()])),
        set(u(), call("ul", vec![u(), f(0)])),
        set(u(), call("zp", vec![k()])),
        // constants
        set(x(), bin("+", at(v("CF"), k()), at(v("CF"), v("CS")))),
        set(u(), bin("-", at(v("CU"), f(2)), at(v("CU"), k()))),
        S::If(at(v("CB"), k()), vec![set(x(), f(1))], Some(vec![set(u(), v("CV"))])),
        set(x(), bin("+", ix(at(v("CT"), f(0)), 1), ix(at(v("CT"), k()), 1))),
        S::LetT(vec!["u", "x"], call("cst", vec![k()])),
        S::Block(vec![S::Const("L", Some(arr(T::Felt, 2)), E::Arr(vec![f(0), f(8)])), set(x(), bin("+", at(v("L"), k()), x()))]),
    ]
}
trait Felt {
    fn pipe_felt(self) -> E;
}
impl Felt for E {
    /// A small u32 as a felt.
    fn pipe_felt(self) -> E {
        E::Cast(bx(bin("&", self, E::U(65535))))
    }
}
fn arrange(w: usize, s: &[S]) -> Vec<S> {
    let c = || bin("==", v("a"), v("b"));
    let (first, last) = (s[0].clone(), s[1..].to_vec());
    match w {
        0 => s.to_vec(),
        1 => vec![S::For(Box::new(S::Let("i", None, f(0))), bin("!=", v("i"), f(2)), Box::new(set(v("i"), bin("+", v("i"), f(1)))), s.to_vec())],
        2 => vec![first, S::If(c(), last, None)],
        _ => vec![S::If(c(), vec![first], Some(last))],
    }
}
fn program(s: Vec<S>) -> Prog {
    let t = block(&s);
    let uses = |n: &str| t.split(|c: char| !c.is_alphanumeric()).any(|w| w == n);
    let (a, b, p) = (|| v("a"), || v("b"), || v("p"));
    let mut body = vec![S::Let("x", None, b()), S::Let("u", None, p())];
    let mut res = vec![(T::Felt, v("x")), (T::U32, v("u"))];
    let has_o = uses("o");
    if uses("h") || has_o {
        body.extend([S::Let("h", Some(ptr(T::Felt)), new(T::Felt, f(2))), set(at(v("h"), f(0)), a()), set(at(v("h"), f(1)), b())]);
        res.extend([(T::Felt, at(v("h"), f(0))), (T::Felt, at(v("h"), f(1)))]);
    }
    if uses("g") {
        body.extend([S::Let("g", Some(ptr(T::U32)), new(T::U32, f(2))), set(at(v("g"), f(0)), p()), set(at(v("g"), f(1)), E::U(77))]);
        res.extend([(T::U32, at(v("g"), f(0)))]);
    }
    if uses("s") {
        body.extend([S::Let("s", Some(ptr(T::St("P"))), new(T::St("P"), f(2))), set(at(v("s"), f(0)), pt(a(), p())), set(at(v("s"), f(1)), pt(b(), E::U(66)))]);
        res.extend([(T::St("P"), at(v("s"), f(0))), (T::St("P"), at(v("s"), f(1)))]);
    }
    if has_o {
        body.extend([S::Let("o", Some(ptr(T::Felt)), v("h"))]);
        res.extend([(T::Felt, at(v("o"), f(0))), (T::Felt, at(v("o"), f(1)))]);
    }
    if uses("z") && t.contains("z[") {
        body.push(S::Let("z", Some(arr(T::Felt, 2)), E::Rep(bx(E::L(T::Felt, 0)), 2)));
        res.extend([(T::Felt, at(v("z"), f(0))), (T::Felt, at(v("z"), f(1)))]);
    }
    if uses("q") {
        body.push(S::Let("q", Some(arr(T::U32, 2)), E::Arr(vec![E::L(T::U32, 0), p()])));
        res.extend([(T::U32, at(v("q"), f(0))), (T::U32, at(v("q"), f(1)))]);
    }
    if uses("w") {
        body.push(S::Let("w", None, E::Arr(vec![E::Tup(vec![E::U(0), a()]), E::Tup(vec![p(), f(0)])])));
        res.extend([(tt(), at(v("w"), f(0))), (tt(), at(v("w"), f(1)))]);
    }
    body.extend(s);
    let (ret, e): (Vec<_>, Vec<_>) = res.into_iter().unzip();
    body.push(S::Ret(Some(E::Tup(e))));
    let mut fns = library();
    fns.push(F { name: "f", params: vec![("a", T::Felt), ("b", T::Felt), ("p", T::U32), ("k", T::Felt)], ret: T::Tup(ret), body });
    let mut p = Prog { structs: structs(), consts: consts(), fns }.prune("f");
    let t: String = p.fns.iter().map(F::text).collect();
    let mentioned = |n: &str| t.split(|c: char| !c.is_alphanumeric()).any(|w| w == n);
    p.consts.retain(|c| mentioned(c.0));
    p.structs.retain(|c| mentioned(c.0));
    p
}
/// Replays the programs of the listed findings.
fn listed_findings(ctx: &Ctx) {
    for k in crate::util::KNOWN.get().unwrap().iter().filter(|k| k.property == "P06" && k.kind == "known") {
        let text = k.witness["program"].as_str().unwrap();
        let args: Vec<_> = k.witness["args"].as_array().unwrap().iter().map(|a| cairo_m_common::InputValue::Number(a.as_i64().unwrap())).collect();
        for o in 0..2 {
            let got = match run::compile(text, o) {
                Ok(Ok(p)) => run::describe(&run::exec(&p, "f", &args, 3000)),
                _ => "not compiled".into(),
            };
            if got != k.witness["expected"].as_str().unwrap() {
                ctx.known(&k.id);
            }
        }
    }
}
pub fn memory(ctx: &Ctx) -> i32 {
    listed_findings(ctx);
    let al = alphabet();
    let n = al.len();
    // (length, arrangements)
    let plan: &[(u32, usize)] = if ctx.thorough { &[(1, 4), (2, 4), (3, 4)] } else { &[(1, 4), (2, 4), (3, 1)] };
    for &(d, ws) in plan {
        let total = n.pow(d);
        ctx.add("sequences", (total * ws) as u64);
        ctx.par(total * ws, |j| {
            let (w, j) = (j % ws, j / ws);
            let s: Vec<S> = (0..d).map(|i| al[j / n.pow(i) % n].clone()).collect();
            let p = program(arrange(w, &s));
            let args: Vec<Vec<V>> = [(5, 11, 70000, 1), (6, 6, 1, 0)].iter().map(|&(a, b, p, k)| vec![V::F(a), V::F(b), V::U(p), V::F(k)]).collect();
            run::check_flow(ctx, &p, "f", &args);
        });
    }
    ctx.sample(json!({"case": "for .. { h = mk(x); z[k] = z[k] + 1felt; x = zf(x, k); } return (x, u, h[0felt], h[1felt], z[0felt], z[1felt]);"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"statements": n, "length": 3, "arrangements": 4, "levels": 2}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
