//! Operators on boundary operands, in every form of operand and every place of the result.
use crate::prog::*;
use crate::run;
use crate::util::Ctx;
use serde_json::json;

pub fn felts(thorough: bool) -> Vec<u32> {
    let p = P as u32;
    let mut v = vec![0, 1, 2, 7, 65535, 65536, p / 2, p / 2 + 1, p - 2, p - 1];
    if thorough {
        v.extend([3, 255, 32768, 65537, p - 3, p - 65536, 1000003, 46341]);
    }
    v
}
pub fn u32s(thorough: bool) -> Vec<u32> {
    let mut v = vec![0, 1, 2, 7, 0xffff, 0x10000, 0x10001, 0x7fff_ffff, 0x8000_0000, 0xffff_0000, 0xffff_ffff];
    if thorough {
        v.extend([3, 10, 0x7fff, 0x8000, 0xfffe, 0x1_ffff, 0xfffe_0001, 0xaaaa_5555, 0x7fff_fffe, 0xffff_fffe, 46341]);
    }
    v
}
fn lit(t: &T, x: u32) -> E {
    match t {
        T::Felt => E::F(x),
        T::U32 => E::U(x),
        _ => E::B(x == 1),
    }
}
pub fn val(t: &T, x: u32) -> V {
    match t {
        T::Felt => V::F(x),
        T::U32 => V::U(x),
        _ => V::B(x == 1),
    }
}
/// Forms of an operand: parameter, literal, module constant, local initialised with the literal,
/// local initialised with the parameter, tuple element, result of a call, unsuffixed literal.
const FORMS: usize = 8;
fn operand(form: usize, t: &T, par: &'static str, x: u32, side: usize, pre: &mut Vec<S>, consts: &mut Vec<(&'static str, Option<T>, E)>) -> E {
    let l = ["l0", "l1"][side];
    match form {
        0 => v(par),
        1 => lit(t, x),
        2 => {
            let n = leak(format!("K{}_{x}", ["F", "U", "B"][ti(t)]));
            if !consts.iter().any(|c| c.0 == n) {
                consts.push((n, None, lit(t, x)));
            }
            v(n)
        }
        3 => {
            pre.push(S::Let(l, Some(t.clone()), lit(t, x)));
            v(l)
        }
        4 => {
            pre.push(S::Let(l, None, v(par)));
            v(l)
        }
        5 => {
            pre.push(S::Let(l, None, E::Tup(vec![v(par), lit(t, x)])));
            E::Ix(bx(v(l)), 0)
        }
        6 => call(["idf", "idu", "idb"][ti(t)], vec![v(par)]),
        _ => E::L(t.clone(), x),
    }
}
pub fn ti(t: &T) -> usize {
    match t {
        T::Felt => 0,
        T::U32 => 1,
        _ => 2,
    }
}
pub fn leak(s: String) -> &'static str {
    use std::collections::HashSet;
    use std::sync::Mutex;
    static POOL: Mutex<Option<HashSet<&'static str>>> = Mutex::new(None);
    let mut g = POOL.lock().unwrap();
    let p = g.get_or_insert_with(HashSet::new);
    if let Some(x) = p.get(s.as_str()) {
        return x;
    }
    let l: &'static str = Box::leak(s.into_boxed_str());
    p.insert(l);
    l
}
/// Places of the result; the function returns the value (or a felt for the branch forms).
fn place(ctx: usize, e: E, rt: &T) -> Option<(T, Vec<S>)> {
    let ret = |e: E| S::Ret(Some(e));
    let b = *rt == T::Bool;
    Some(match ctx {
        0 => (rt.clone(), vec![ret(e)]),
        1 => (rt.clone(), vec![S::Let("r", None, e), ret(v("r"))]),
        2 if b => (T::Felt, vec![S::If(e, vec![ret(E::F(1))], Some(vec![ret(E::F(2))]))]),
        3 if b => (T::Felt, vec![S::If(E::Not(bx(e)), vec![ret(E::F(1))], None), ret(E::F(2))]),
        4 if b => (T::Felt, vec![S::Let("n", None, E::F(0)), S::While(bin("&&", e, bin("!=", v("n"), E::F(2))), vec![S::Set(v("n"), bin("+", v("n"), E::F(1)))]), ret(v("n"))]),
        5 if b => (T::Bool, vec![S::Let("r", None, bin("||", e, E::B(false))), ret(E::Not(bx(v("r"))))]),
        6 => (rt.clone(), vec![S::Let("r", None, lit(rt, 1)), S::Set(v("r"), e), S::If(E::B(true), vec![ret(v("r"))], None), ret(v("r"))]),
        7 => (rt.clone(), vec![ret(call(["idf", "idu", "idb"][ti(rt)], vec![e]))]),
        8 => (rt.clone(), vec![S::Let("t", None, E::Tup(vec![E::F(9), e])), ret(E::Ix(bx(v("t")), 1))]),
        9 if b => (T::Felt, vec![S::Ex(call("assert", vec![e])), ret(E::F(3))]),
        _ => return None,
    })
}
pub fn helpers() -> Vec<F> {
    let id = |name, t: T| F { name, params: vec![("x", t.clone())], ret: t, body: vec![S::Ret(Some(v("x")))] };
    vec![id("idf", T::Felt), id("idu", T::U32), id("idb", T::Bool)]
}
pub fn ops(t: &T) -> Vec<&'static str> {
    match t {
        T::Felt => vec!["+", "-", "*", "/", "==", "!="],
        T::U32 => vec!["+", "-", "*", "/", "%", "&", "|", "^", "==", "!=", "<", ">", "<=", ">="],
        _ => vec!["==", "!=", "&&", "||"],
    }
}
pub fn result(t: &T, op: &str) -> T {
    if ["==", "!=", "<", ">", "<=", ">=", "&&", "||"].contains(&op) {
        T::Bool
    } else {
        t.clone()
    }
}
fn vals(t: &T, th: bool) -> Vec<u32> {
    match t {
        T::Felt => felts(th),
        T::U32 => u32s(th),
        _ => vec![0, 1],
    }
}

pub fn operators(ctx: &Ctx) -> i32 {
    let mut jobs = vec![];
    for t in [T::Felt, T::U32, T::Bool] {
        for op in ops(&t) {
            for fa in 0..FORMS {
                for fb in 0..FORMS {
                    // an unsuffixed literal takes its type from a left operand
                    if fa == 7 || fb == 7 && t == T::Bool {
                        continue;
                    }
                    for pl in 0..10 {
                        // quick: the plain forms (parameter, literal) in all places, the others returned and branched on
                        let plain = fa < 2 && fb < 2;
                        if !ctx.thorough && !plain && ![0, 2].contains(&pl) {
                            continue;
                        }
                        jobs.push((t.clone(), op, fa, fb, pl));
                    }
                }
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (t, op, fa, fb, pl) = &jobs[j];
        let vs = vals(t, ctx.thorough);
        let isl = |f: usize| (1..=3).contains(&f) || f == 7;
        let xs: Vec<u32> = if isl(*fa) { vs.clone() } else { vec![vs[0]] };
        let ys: Vec<u32> = if isl(*fb) { vs.clone() } else { vec![vs[0]] };
        // a literal divisor of zero gets a program of its own
        let alone = isl(*fb) && ["/", "%"].contains(op);
        for (x, ys) in xs.iter().flat_map(|x| if alone { vec![(*x, &ys[..1]), (*x, &ys[1..])] } else { vec![(*x, &ys[..])] }) {
            // all functions with this left literal share one program
            let mut p = Prog { fns: helpers(), ..Default::default() };
            let mut names = vec![];
            for &y in ys {
                let mut pre = vec![];
                let a = operand(*fa, t, "a", x, 0, &mut pre, &mut p.consts);
                let b = operand(*fb, t, "b", y, 1, &mut pre, &mut p.consts);
                let Some((rt, mut body)) = place(*pl, bin(op, a, b), &result(t, op)) else { return };
                pre.append(&mut body);
                let name = leak(format!("f{y}"));
                p.fns.push(F { name, params: vec![("a", t.clone()), ("b", t.clone())], ret: rt, body: pre });
                names.push((name, y));
            }
            let mut cases = vec![];
            for (n, y) in &names {
                let av = if isl(*fa) { vec![x] } else { vs.clone() };
                let bv = if isl(*fb) { vec![*y] } else { vs.clone() };
                for a in &av {
                    for b in &bv {
                        cases.push((*n, vec![val(t, *a), val(t, *b)]));
                    }
                }
            }
            run::check_cases(ctx, &p, &cases);
        }
    });
    // unary operators and casts
    let un: Vec<(T, E, T)> = vec![
        (T::Felt, E::Neg(bx(v("a"))), T::Felt),
        (T::Felt, E::Neg(bx(E::Neg(bx(v("a"))))), T::Felt),
        (T::U32, E::Neg(bx(v("a"))), T::U32),
        (T::Bool, E::Not(bx(v("a"))), T::Bool),
        (T::Bool, E::Not(bx(E::Not(bx(v("a"))))), T::Bool),
        (T::U32, E::Cast(bx(v("a"))), T::Felt),
        (T::U32, bin("+", E::Cast(bx(v("a"))), E::Cast(bx(bin("+", v("a"), E::U(1))))), T::Felt),
    ];
    for (t, e, rt) in un {
        for pl in 0..10 {
            if let Some((r, body)) = place(pl, e.clone(), &rt) {
                let mut p = Prog { fns: helpers(), ..Default::default() };
                p.fns.push(F { name: "f", params: vec![("a", t.clone())], ret: r.clone(), body: body.clone() });
                let mut extra = vals(&t, true);
                extra.extend(if t == T::U32 { vec![P as u32 - 1, P as u32, P as u32 + 1] } else { vec![] });
                run::check_cases(ctx, &p, &extra.iter().map(|x| ("f", vec![val(&t, *x)])).collect::<Vec<_>>());
                // the same on literals
                for x in &extra {
                    let mut b2 = vec![S::Let("a", Some(t.clone()), lit(&t, *x))];
                    b2.extend(body.clone());
                    let mut p = Prog { fns: helpers(), ..Default::default() };
                    p.fns.push(F { name: "f", params: vec![], ret: r.clone(), body: b2 });
                    run::check_cases(ctx, &p, &[("f", vec![])]);
                }
            }
        }
    }
    ctx.sample(json!({"case": "fn f(a: u32, b: u32) -> u32 { let l0: u32 = 65536u32; return l0 / b; }"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"operand_forms": FORMS, "result_places": 10, "felt_values": felts(ctx.thorough).len(), "u32_values": u32s(ctx.thorough).len(), "levels": 2}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
