//! Aggregates: every short sequence of statements on structs, tuples, nested ones and arrays.
use crate::prog::*;
use crate::run;
use crate::util::Ctx;
use serde_json::json;

fn set(a: E, e: E) -> S {
    S::Set(a, e)
}
fn fld(e: E, n: &'static str) -> E {
    E::Fld(bx(e), n)
}
fn ix(e: E, n: usize) -> E {
    E::Ix(bx(e), n)
}
fn at(e: E, i: E) -> E {
    E::At(bx(e), bx(i))
}
fn pt(x: E, y: E) -> E {
    E::Sl("P", vec![("x", x), ("y", y)])
}
fn tt() -> T {
    T::Tup(vec![T::U32, T::Felt])
}
fn structs() -> Vec<(&'static str, Vec<(&'static str, T)>)> {
    vec![("P", vec![("x", T::Felt), ("y", T::U32)]), ("N", vec![("p", T::St("P")), ("t", tt())])]
}
fn library() -> Vec<F> {
    let p = || T::St("P");
    vec![
        F { name: "idp", params: vec![("s", p())], ret: p(), body: vec![S::Ret(Some(v("s")))] },
        F { name: "mk", params: vec![("x", T::Felt), ("y", T::U32)], ret: p(), body: vec![S::Ret(Some(pt(v("x"), v("y"))))] },
        F { name: "two", params: vec![("s", p()), ("t", tt())], ret: T::Tup(vec![p(), tt()]), body: vec![set(fld(v("s"), "x"), ix(v("t"), 1)), S::Ret(Some(E::Tup(vec![v("s"), v("t")])))] },
        F { name: "poke", params: vec![("r", T::Arr(Box::new(T::St("P")), 2)), ("s", p())], ret: T::Felt, body: vec![set(at(v("r"), E::F(1)), v("s")), S::Ret(Some(fld(at(v("r"), E::F(0)), "x")))] },
    ]
}
fn alphabet() -> Vec<S> {
    let (p, q, t, n, r, ps) = (|| v("p"), || v("q"), || v("t"), || v("n"), || v("r"), || v("ps"));
    let z = || E::F(0);
    let o = || E::F(1);
    let k = || v("k");
    vec![
        set(q(), p()),
        set(fld(p(), "x"), bin("+", fld(q(), "x"), E::F(1))),
        set(fld(p(), "y"), ix(t(), 0)),
        set(ix(t(), 0), bin("^", fld(q(), "y"), E::U(3))),
        set(t(), E::Tup(vec![fld(p(), "y"), fld(q(), "x")])),
        set(p(), pt(ix(t(), 1), ix(t(), 0))),
        set(fld(n(), "p"), q()),
        set(q(), fld(n(), "p")),
        set(fld(fld(n(), "p"), "x"), ix(t(), 1)),
        set(t(), fld(n(), "t")),
        set(ix(fld(n(), "t"), 0), fld(q(), "y")),
        set(n(), E::Sl("N", vec![("p", p()), ("t", t())])),
        S::Let("p", None, fld(n(), "p")),
        set(at(r(), z()), fld(p(), "x")),
        set(ix(t(), 1), at(r(), o())),
        set(at(r(), k()), bin("+", at(r(), z()), at(r(), o()))),
        set(at(ps(), z()), q()),
        set(p(), at(ps(), o())),
        set(fld(at(ps(), o()), "x"), ix(t(), 1)),
        set(fld(q(), "y"), fld(at(ps(), k()), "y")),
        set(at(ps(), k()), p()),
        set(fld(at(ps(), k()), "y"), fld(p(), "y")),
        S::Block(vec![S::LetT(vec!["u", "w"], t()), set(q(), pt(v("w"), v("u")))]),
        S::Block(vec![S::Let("o", None, p()), set(p(), q()), set(q(), v("o"))]),
        set(p(), call("idp", vec![q()])),
        set(q(), call("mk", vec![fld(p(), "x"), ix(t(), 0)])),
        S::LetT(vec!["p", "t"], call("two", vec![q(), t()])),
        set(fld(p(), "x"), call("poke", vec![ps(), q()])),
    ]
}
/// The ways to arrange the statements.
fn arrange(w: usize, s: &[S]) -> Vec<S> {
    let c = || bin("==", v("a"), v("b"));
    let lp = |b: Vec<S>| S::For(Box::new(S::Let("i", None, E::F(0))), bin("!=", v("i"), E::F(2)), Box::new(set(v("i"), bin("+", v("i"), E::F(1)))), b);
    let (first, last) = (s[0].clone(), s[1..].to_vec());
    match w {
        0 => s.to_vec(),
        1 => vec![first, S::If(c(), last, None)],
        2 => vec![S::If(c(), vec![first], Some(last))],
        3 => vec![lp(s.to_vec())],
        _ => [vec![S::If(c(), vec![first], None)], last].concat(),
    }
}
fn uses(s: &[S], n: &str) -> bool {
    let t = block(s);
    t.split(|c: char| !c.is_alphanumeric()).any(|w| w == n)
}
fn program(s: Vec<S>, whole: bool) -> Prog {
    let mut body = vec![];
    let mut res: Vec<(T, E)> = vec![];
    let (a, b, u, w) = (|| v("a"), || v("b"), || v("u"), || v("w"));
    let n = uses(&s, "n");
    for (name, init) in [
        ("p", pt(a(), u())),
        ("q", pt(b(), w())),
        ("t", E::Tup(vec![w(), a()])),
        ("n", E::Sl("N", vec![("p", pt(b(), u())), ("t", E::Tup(vec![u(), b()]))])),
        ("r", E::Arr(vec![a(), b()])),
        ("ps", E::Arr(vec![pt(a(), w()), pt(b(), u())])),
    ] {
        // shadowing needs all of the names it may use
        if !(uses(&s, name) || (n && name == "p")) {
            continue;
        }
        body.push(S::Let(name, None, init));
        let at = |i, j: &str| if j.is_empty() { at(v(name), E::F(i)) } else { E::V(name) };
        match name {
            "p" | "q" if whole => res.push((T::St("P"), v(name))),
            "t" if whole => res.push((tt(), v(name))),
            "n" if whole => res.push((T::St("N"), v(name))),
            "ps" if whole => res.extend([(T::St("P"), at(0, "")), (T::St("P"), at(1, ""))]),
            "p" | "q" => res.extend([(T::U32, fld(v(name), "y")), (T::Felt, fld(v(name), "x"))]),
            "t" => res.extend([(T::U32, ix(v(name), 0)), (T::Felt, ix(v(name), 1))]),
            "n" => res.extend([(T::U32, ix(fld(v(name), "t"), 0)), (T::Felt, fld(fld(v(name), "p"), "x")), (T::Felt, ix(fld(v(name), "t"), 1)), (T::U32, fld(fld(v(name), "p"), "y"))]),
            "r" => res.extend([(T::Felt, at(0, "")), (T::Felt, at(1, ""))]),
            "ps" => res.extend([(T::Felt, fld(at(0, ""), "x")), (T::U32, fld(at(0, ""), "y")), (T::Felt, fld(at(1, ""), "x")), (T::U32, fld(at(1, ""), "y"))]),
            _ => unreachable!(),
        }
    }
    body.extend(s);
    let (ret, e): (Vec<_>, Vec<_>) = res.into_iter().unzip();
    body.push(S::Ret(Some(E::Tup(e))));
    let mut fns = library();
    fns.push(F { name: "f", params: vec![("a", T::Felt), ("b", T::Felt), ("u", T::U32), ("w", T::U32), ("k", T::Felt)], ret: T::Tup(ret), body });
    Prog { structs: structs(), fns, ..Default::default() }.prune("f")
}
pub fn aggregates(ctx: &Ctx) -> i32 {
    let al = alphabet();
    let n = al.len();
    // (length, arrangements)
    let plan: &[(u32, usize)] = if ctx.thorough { &[(1, 5), (2, 5), (3, 5)] } else { &[(1, 5), (2, 5), (3, 1)] };
    for &(d, ws) in plan {
        let total = n.pow(d);
        ctx.add("sequences", (total * ws * 2) as u64);
        ctx.par(total * ws * 2, |j| {
            let (w, j, whole) = (j / 2 % ws, j / 2 / ws, j % 2 == 0);
            let s: Vec<S> = (0..d).map(|i| al[j / n.pow(i) % n].clone()).collect();
            let p = program(arrange(w, &s), whole);
            let args: Vec<Vec<V>> = [(5, 11, 70000, u32::MAX, 1), (6, 6, 1, 65536, 0)].iter().map(|&(a, b, u, w, k)| vec![V::F(a), V::F(b), V::U(u), V::U(w), V::F(k)]).collect();
            run::check_flow(ctx, &p, "f", &args);
        });
    }
    ctx.sample(json!({"case": "n.p.x = t.1; if (a == b) { p = n.p; ps[k] = p; } return (p, t, n, ps[0], ps[1]);"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"statements": n, "length": 3, "arrangements": 5, "levels": 2}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
