//! Trees of operators: grouping, types of unsuffixed literals, optimisation of whole expressions.
use crate::p_ops::{helpers, result, ti, val};
use crate::prog::*;
use crate::run;
use crate::util::Ctx;
use serde_json::json;

/// All trees with exactly `n` operators over `leaves`.
pub fn trees(n: usize, leaves: &[E], ops: &[&'static str], unary: &[fn(E) -> E]) -> Vec<E> {
    if n == 0 {
        return leaves.to_vec();
    }
    let mut out = vec![];
    for k in 0..n {
        let (l, r) = (trees(k, leaves, ops, unary), trees(n - 1 - k, leaves, ops, unary));
        for op in ops {
            for a in &l {
                for b in &r {
                    out.push(bin(op, a.clone(), b.clone()));
                }
            }
        }
    }
    for t in trees(n - 1, leaves, ops, unary) {
        for u in unary {
            out.push(u(t.clone()));
        }
    }
    out
}
fn neg(e: E) -> E {
    E::Neg(bx(e))
}
fn not(e: E) -> E {
    E::Not(bx(e))
}
pub fn has_l(e: &E) -> bool {
    match e {
        E::L(..) => true,
        E::Bin(_, a, b) => has_l(a) || has_l(b),
        E::Neg(a) | E::Not(a) => has_l(a),
        E::Call(_, a) => a.iter().any(has_l),
        _ => false,
    }
}
/// Only unsuffixed literals and operators: typed by its place alone.
fn only_l(e: &E) -> bool {
    match e {
        E::L(..) => true,
        E::Bin(_, a, b) => only_l(a) && only_l(b),
        E::Neg(a) => only_l(a),
        _ => false,
    }
}
/// Whether the value is statically a division by zero somewhere; such programs may be rejected.
pub const PLACES: usize = 12;
fn placed(k: usize, e: E, t: &T) -> (T, Vec<S>) {
    let ret = |e: E| S::Ret(Some(e));
    let id = ["idf", "idu", "idb"][ti(t)];
    let st = ["SF", "SU", "SB"][ti(t)];
    match k {
        0 => (t.clone(), vec![ret(e)]),
        1 => (t.clone(), vec![S::Let("r", Some(t.clone()), e), ret(v("r"))]),
        2 => (t.clone(), vec![ret(call(id, vec![e]))]),
        3 => (T::Tup(vec![T::Bool, t.clone()]), vec![ret(E::Tup(vec![E::B(true), e]))]),
        4 => (t.clone(), vec![S::Let("s", None, E::Sl(st, vec![("x", E::F(4)), ("y", e)])), ret(E::Fld(bx(v("s")), "y"))]),
        5 => (t.clone(), vec![S::Let("s", None, E::Arr(vec![v("a"), e])), ret(E::At(bx(v("s")), bx(E::F(1))))]),
        6 => (t.clone(), vec![S::Let("r", None, v("a")), S::Set(v("r"), e), ret(v("r"))]),
        7 => (t.clone(), vec![S::Let("s", None, E::Sl(st, vec![("x", E::F(4)), ("y", v("b"))])), S::Set(E::Fld(bx(v("s")), "y"), e), ret(E::Fld(bx(v("s")), "y"))]),
        8 => (T::Felt, vec![S::If(bin("==", v("a"), e), vec![ret(E::F(1))], None), ret(E::F(2))]),
        9 => (T::Felt, vec![S::If(bin("!=", e, v("b")), vec![ret(E::F(1))], None), ret(E::F(2))]),
        10 => (t.clone(), vec![S::Let("r", Some(T::Tup(vec![t.clone(), T::Bool])), E::Tup(vec![e, E::B(true)])), ret(E::Ix(bx(v("r")), 0))]),
        _ => (t.clone(), vec![S::Let("r", None, E::Tup(vec![e, v("a")])), ret(E::Ix(bx(v("r")), 0))]),
    }
}
fn structs() -> Vec<(&'static str, Vec<(&'static str, T)>)> {
    [("SF", T::Felt), ("SU", T::U32), ("SB", T::Bool)].map(|(n, t)| (n, vec![("x", T::Felt), ("y", t)])).to_vec()
}
pub fn expressions(ctx: &Ctx) -> i32 {
    let th = ctx.thorough;
    let mut jobs: Vec<(T, E, usize, bool)> = vec![];
    for t in [T::Felt, T::U32] {
        let big = if t == T::Felt { 2147483646 } else { 4294967295 };
        let k = |x: u32| if t == T::Felt { E::F(x) } else { E::U(x) };
        let leaves = vec![v("a"), v("b"), k(big), E::L(t.clone(), 65537), call(["idf", "idu"][ti(&t)], vec![v("a")])];
        let ops: Vec<&'static str> = if t == T::Felt { vec!["+", "-", "*", "/"] } else { vec!["+", "-", "*", "/", "&"] };
        for n in 1..=2 {
            for e in trees(n, &leaves, &ops, &[neg]) {
                for p in 0..PLACES {
                    let l = has_l(&e);
                    // without unsuffixed literals the place does not matter to the value: a few places
                    if n == 2 && !th && !([0].contains(&p) || l && [1, 2, 3, 6, 8].contains(&p)) {
                        continue;
                    }
                    jobs.push((t.clone(), e.clone(), p, l));
                }
            }
        }
        // deeper trees over fewer leaves
        let small = vec![v("a"), v("b"), E::L(t.clone(), 3)];
        let ops3: &[&'static str] = if t == T::Felt { &["+", "-", "*"] } else { &["-", "*", "|"] };
        for e in trees(3, &small, ops3, &[]) {
            if th || !has_l(&e) {
                jobs.push((t.clone(), e.clone(), 0, has_l(&e)));
            }
            if th {
                for p in [1, 2, 3, 6, 8] {
                    jobs.push((t.clone(), e.clone(), p, has_l(&e)));
                }
            }
        }
        // remaining operators, one level
        let rest: &[&'static str] = if t == T::Felt { &[] } else { &["%", "|", "^"] };
        for e in trees(2, &[v("a"), v("b"), k(0), E::L(t.clone(), 1)], &[rest, &["+", "*"]].concat(), &[]) {
            jobs.push((t.clone(), e.clone(), 0, has_l(&e)));
        }
        // identities and absorbing literals next to every operator
        for e in trees(2, &[v("a"), k(0), k(1)], &ops, &[]) {
            jobs.push((t.clone(), e.clone(), 0, false));
            jobs.push((t.clone(), e, 9, false));
        }
    }
    let nb = jobs.len();
    // conditions
    let (f, u) = (|o, x, y| bin(o, v(x), v(y)), E::U);
    let bl = vec![v("p"), v("q"), f("==", "a", "b"), f("<", "c", "d"), bin(">=", v("c"), u(65536)), E::B(true), E::B(false)];
    let bl2 = vec![v("p"), v("q"), bin("!=", v("a"), E::L(T::Felt, 7)), bin("<=", v("d"), v("c")), bin("==", v("c"), u(0)), bin("!=", u(0), v("d"))];
    let bops = ["&&", "||", "==", "!="];
    let mut conds = vec![];
    for l in [&bl, &bl2] {
        for n in 0..=2 {
            conds.extend(trees(n, l, &bops, &[not]));
        }
    }
    conds.extend(trees(3, &[v("p"), v("q"), bin("<", v("c"), v("d"))], &["&&", "||"], &[not]));
    let cplaces = if th { 6 } else { 3 };
    let total = nb + conds.len();
    ctx.par(total, |j| {
        if j < nb {
            let (t, e, p, l) = &jobs[j];
            // a negative literal with a declared type is no value of the language
            if [1, 10].contains(p) && matches!(e, E::Neg(x) if matches!(**x, E::L(..) | E::F(_) | E::U(_))) {
                return;
            }
            let (ret, body) = placed(*p, e.clone(), t);
            let mut pr = Prog { structs: structs(), fns: helpers(), ..Default::default() };
            pr.fns.push(F { name: "f", params: vec![("a", t.clone()), ("b", t.clone())], ret, body });
            let vs: &[(u32, u32)] = if *t == T::Felt {
                &[(0, 0), (1, 2147483646), (2147483646, 2), (65537, 65537), (5, 0)]
            } else {
                &[(0, 0), (1, u32::MAX), (0x8000_0000, 0x1_0001), (65537, 65537), (7, 0)]
            };
            let cases: Vec<_> = vs.iter().map(|(a, b)| ("f", vec![val(t, *a), val(t, *b)])).collect();
            // literals on the left take the default type where nothing else types them
            let may_reject = *l && *t == T::U32 && ([9, 11].contains(p) || !only_l(e));
            run::check_cases_opt(ctx, &pr, &cases, may_reject, *p == 11 && *l);
        } else {
            let e = &conds[j - nb];
            let ret = |x: E| S::Ret(Some(x));
            let n1 = || S::Set(v("n"), bin("+", v("n"), E::F(1)));
            let forms: Vec<(T, Vec<S>)> = vec![
                (T::Bool, vec![ret(e.clone())]),
                (T::Felt, vec![S::If(e.clone(), vec![ret(E::F(1))], Some(vec![ret(E::F(2))]))]),
                (T::Felt, vec![S::Let("n", None, E::F(0)), S::While(e.clone(), vec![n1(), S::If(bin("==", v("n"), E::F(2)), vec![S::Break], None)]), ret(v("n"))]),
                (T::Felt, vec![S::Let("n", None, E::F(0)), S::Let("r", None, e.clone()), S::If(v("r"), vec![n1()], None), S::If(E::Not(bx(v("r"))), vec![n1(), n1()], None), ret(v("n"))]),
                (T::Felt, vec![S::Ex(call("assert", vec![e.clone()])), ret(E::F(5))]),
                (T::Felt, vec![S::Let("n", None, E::F(0)), S::For(Box::new(S::Let("i", None, E::F(0))), bin("&&", bin("!=", v("i"), E::F(3)), e.clone()), Box::new(S::Set(v("i"), bin("+", v("i"), E::F(1)))), vec![n1()]), ret(v("n"))]),
            ];
            for (ret, body) in forms.into_iter().take(cplaces) {
                let mut pr = Prog { fns: helpers(), ..Default::default() };
                let params = vec![("p", T::Bool), ("q", T::Bool), ("a", T::Felt), ("b", T::Felt), ("c", T::U32), ("d", T::U32)];
                pr.fns.push(F { name: "f", params, ret, body });
                let mut cases = vec![];
                for i in 0..4 {
                    for (a, b) in [(7, 7), (0, 7)] {
                        for (c, d) in [(65536, 65536), (0, 65536), (131072, 1), (65535, 0)] {
                            cases.push(("f", vec![V::B(i & 1 == 1), V::B(i & 2 == 2), V::F(a), V::F(b), V::U(c), V::U(d)]));
                        }
                    }
                }
                run::check_cases_opt(ctx, &pr, &cases, false, false);
            }
        }
    });
    ctx.sample(json!({"case": "fn f(a: u32, b: u32) -> (bool, u32) { return (true, a + (65537 * 65537)); }"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"arithmetic_trees_and_places": nb, "conditions": conds.len(), "condition_places": cplaces, "max_operators": 3, "levels": 2}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
