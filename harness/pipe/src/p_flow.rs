//! Control flow and variables: every function body up to a number of statements.
use crate::p_ops::{helpers, val};
use crate::prog::*;
use crate::run;
use crate::util::Ctx;
use serde_json::json;

pub struct Lang {
    pub t: T,
    leaves: Vec<S>,
    conds: Vec<E>,
    /// loop headers: (init, cond, step)
    args: Vec<(u32, u32)>,
}
fn k(t: &T, x: u32) -> E {
    match t {
        T::Felt => E::F(x),
        T::U32 => E::U(x),
        _ => E::B(x == 1),
    }
}
fn set(n: &'static str, e: E) -> S {
    S::Set(v(n), e)
}
pub fn langs() -> Vec<Lang> {
    let mut out = vec![];
    for t in [T::Felt, T::U32] {
        let leaves = vec![
            set("x", bin("+", v("x"), k(&t, 1))),
            set("y", v("x")),
            S::Let("x", None, bin("-", v("y"), k(&t, 1))),
            set("a", bin("*", v("x"), v("y"))),
            S::LetT(vec!["x", "y"], E::Tup(vec![v("y"), v("a")])),
        ];
        let mut leaves = leaves;
        let tmp = |e: E| S::Let("t", None, e);
        leaves.push(S::Block(vec![tmp(v("x")), set("x", v("y")), set("y", v("t"))]));
        leaves.push(S::Block(vec![tmp(v("x")), set("x", v("y")), set("y", v("a")), set("a", v("t"))]));
        let conds = if t == T::Felt { vec![bin("==", v("x"), v("y")), bin("!=", v("x"), k(&t, 3))] } else { vec![bin("<", v("x"), v("y")), bin(">=", k(&t, 2), v("x"))] };
        let args = if t == T::Felt { vec![(0, 0), (1, 3), (2, 1), (3, 2)] } else { vec![(0, 0), (1, 3), (3, 1), (u32::MAX, 2)] };
        out.push(Lang { t, leaves, conds, args });
    }
    let t = T::Bool;
    out.push(Lang {
        t: t.clone(),
        leaves: vec![set("x", E::Not(bx(v("x")))), set("y", v("x")), S::Let("x", None, bin("==", v("y"), v("a"))), set("a", bin("&&", v("x"), v("y")))],
        conds: vec![v("x"), bin("||", v("a"), E::Not(bx(v("y"))))],
        args: vec![(0, 0), (0, 1), (1, 0), (1, 1)],
    });
    out
}
#[derive(Clone, Copy)]
struct Where {
    in_loop: bool,
    in_for: bool,
}
/// All blocks of exactly `n` statements; a compound statement counts one more than its blocks.
fn blocks(l: &Lang, n: usize, w: Where) -> Vec<Vec<S>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for k in 1..=n {
        let first = stmts(l, k, w);
        if first.is_empty() {
            continue;
        }
        let rest = blocks(l, n - k, w);
        for f in &first {
            // nothing after a jump: one such program per jump is enough
            let jump = matches!(f, S::Ret(_) | S::Break | S::Cont);
            for r in &rest {
                if jump && r.len() > 1 {
                    continue;
                }
                let mut b = vec![f.clone()];
                b.extend(r.iter().cloned());
                out.push(b);
            }
        }
    }
    out
}
/// All single statements of size `n`.
fn stmts(l: &Lang, n: usize, w: Where) -> Vec<S> {
    let mut out = vec![];
    if n == 1 {
        out.extend(l.leaves.iter().cloned());
        out.push(S::Ret(Some(E::Tup(vec![v("y"), v("x")]))));
        if w.in_loop {
            out.push(S::Break);
            out.push(S::Cont);
        }
        if w.in_for && l.t == T::Felt {
            out.push(set("x", bin("+", v("x"), v("i"))));
        }
        return out;
    }
    let inner = blocks(l, n - 1, w);
    for b in &inner {
        for c in &l.conds {
            out.push(S::If(c.clone(), b.clone(), None));
        }
        out.push(S::Block(b.clone()));
    }
    for k in 1..n - 1 {
        for t in blocks(l, k, w) {
            for e in blocks(l, n - 1 - k, w) {
                out.push(S::If(l.conds[0].clone(), t.clone(), Some(e)));
            }
        }
    }
    for b in blocks(l, n - 1, Where { in_loop: true, ..w }) {
        out.push(S::While(l.conds[1].clone(), b.clone()));
        out.push(S::Loop(b));
    }
    for b in blocks(l, n - 1, Where { in_loop: true, in_for: true }) {
        out.push(S::For(Box::new(S::Let("i", None, E::F(0))), bin("!=", v("i"), E::F(2)), Box::new(set("i", bin("+", v("i"), E::F(1)))), b));
    }
    out
}
pub fn flow(ctx: &Ctx) -> i32 {
    let depth = if ctx.thorough { [5, 4, 5] } else { [4, 4, 4] };
    let mut jobs = vec![];
    let ls = langs();
    for (i, l) in ls.iter().enumerate() {
        for n in 1..=depth[i] {
            for b in blocks(l, n, Where { in_loop: false, in_for: false }) {
                jobs.push((i, b));
            }
        }
    }
    ctx.add("bodies", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (i, b) = &jobs[j];
        let l = &ls[*i];
        let mut body = vec![S::Let("x", None, v("a")), S::Let("y", None, v("b"))];
        body.extend(b.iter().cloned());
        body.push(S::Ret(Some(E::Tup(vec![v("x"), bin(if l.t == T::Bool { "!=" } else { "+" }, v("y"), v("a"))]))));
        let mut p = Prog { fns: helpers(), ..Default::default() };
        p.fns = vec![F { name: "f", params: vec![("a", l.t.clone()), ("b", l.t.clone())], ret: T::Tup(vec![l.t.clone(), l.t.clone()]), body }];
        let args: Vec<Vec<V>> = l.args.iter().map(|(a, b)| vec![val(&l.t, *a), val(&l.t, *b)]).collect();
        run::check_flow(ctx, &p, "f", &args);
    });
    ctx.sample(json!({"case": "fn f(a: felt, b: felt) -> (felt, felt) { let x = a; let y = b; while (x != 3felt) { x = x + 1felt; if (x == y) { continue; } let x = y - 1felt; } return (x, y + a); }"}));
    ctx.finish("model_checking", json!({"exhaustive": true, "bounds": {"statements": depth, "types": 3, "inputs_per_program": 4, "levels": 2, "reference_statements": 4000, "vm_steps": 3000}}), &["run on stand-ins for M31 arithmetic and JSON (see DESIGN.md)"])
}
