//! Compiles and runs programs on the real toolchain and compares with the reference interpreter.
use crate::prog::*;
use crate::util::{guarded, Ctx};
use cairo_m_common::{CairoMValue, InputValue, Program};
use cairo_m_compiler::{compile_cairo, CompilerError, CompilerOptions};
use cairo_m_runner::{run_cairo_program, RunnerError, RunnerOptions, RunnerOutput};
use serde_json::json;
use std::sync::Arc;

pub const OPTS: [&str; 2] = ["unoptimised", "optimised"];
pub fn options(o: usize) -> CompilerOptions {
    if o == 0 {
        CompilerOptions::no_opts()
    } else {
        CompilerOptions::default()
    }
}
/// Err(text): a panic; Ok(Err): rejected.
pub fn compile(text: &str, o: usize) -> Result<Result<Arc<Program>, CompilerError>, String> {
    guarded(text, || compile_cairo(text.to_string(), "main.cm".into(), options(o)).map(|c| c.program))
}
pub fn exec(p: &Program, f: &str, args: &[InputValue], steps: usize) -> Result<Result<RunnerOutput, RunnerError>, String> {
    guarded(f, || run_cairo_program(p, f, args, RunnerOptions { max_steps: steps }))
}
pub fn input(v: &V) -> InputValue {
    match v {
        V::F(x) | V::U(x) => InputValue::Number(*x as i64),
        V::B(b) => InputValue::Bool(*b),
        V::Unit => InputValue::Unit,
        V::Tup(x) => InputValue::List(x.iter().map(input).collect()),
        V::St(x) => InputValue::Struct(x.iter().map(|f| input(&f.1)).collect()),
        V::No => unreachable!(),
        V::Arr(a) => InputValue::List(a.borrow().iter().map(input).collect()),
    }
}
pub fn same(v: &V, c: &CairoMValue) -> bool {
    match (v, c) {
        (V::F(x), CairoMValue::Felt(y)) => *x == y.0,
        (V::U(x), CairoMValue::U32(y)) => x == y,
        (V::B(x), CairoMValue::Bool(y)) => x == y,
        (V::Unit, CairoMValue::Unit) => true,
        (V::Tup(x), CairoMValue::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (V::St(x), CairoMValue::Struct(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && same(&a.1, &b.1)),
        (V::Arr(x), CairoMValue::Array(y)) => x.borrow().len() == y.len() && x.borrow().iter().zip(y).all(|(a, b)| same(a, b)),
        _ => false,
    }
}
/// What a run gave, in comparable form.
pub fn describe(r: &Result<Result<RunnerOutput, RunnerError>, String>) -> String {
    match r {
        Err(p) => format!("runner panic: {p}"),
        Ok(Err(e)) => format!("error: {e}"),
        Ok(Ok(o)) => format!("{:?}", o.return_values),
    }
}
pub fn agrees(want: &Result<V, Stop>, got: &Result<Result<RunnerOutput, RunnerError>, String>) -> bool {
    match (want, got) {
        // documented: felt division by zero panics
        (Err(Stop::Panic), Err(p)) => p.contains("0 has no inverse"),
        (_, Err(_)) => false,
        (Ok(V::Unit), Ok(Ok(o))) => o.return_values.is_empty() || o.return_values.iter().all(|v| *v == CairoMValue::Unit),
        // a returned tuple is a list of return values
        (Ok(V::Tup(x)), Ok(Ok(o))) => x.len() == o.return_values.len() && x.iter().zip(&o.return_values).all(|(a, b)| same(a, b)),
        (Ok(v), Ok(Ok(o))) => o.return_values.len() == 1 && same(v, &o.return_values[0]),
        (Err(Stop::Panic), Ok(Err(e))) => !e.to_string().contains("too many segments"),
        (Err(Stop::Fuel), Ok(Err(e))) => e.to_string().contains("too many segments"),
        _ => false,
    }
}
/// As `check_cases`, for programs that may not end: one that takes the reference more than 4000
/// statements must still be running after 3000 steps; one that takes it 300 must end by then.
pub fn check_flow(ctx: &Ctx, p: &Prog, f: &str, args: &[Vec<V>]) {
    check_fuel(ctx, p, f, args, 4000, 3000)
}
pub fn check_fuel(ctx: &Ctx, p: &Prog, f: &str, args: &[Vec<V>], fuel: u64, steps: usize) {
    let text = p.text();
    if std::env::var("PV_LOG").is_ok() {
        eprintln!("{text}");
    }
    let want: Vec<Result<V, Stop>> = args
        .iter()
        .map(|a| {
            let mut i = Interp::new(p, fuel);
            let r = i.run(f, a.iter().map(deep).collect());
            if r.is_ok() && fuel - i.fuel > 300 {
                return Err(Stop::Undefined);
            }
            r
        })
        .collect();
    ctx.add("programs", 1);
    for o in 0..2 {
        match compile(&text, o) {
            Err(e) => ctx.violate(format!("compiling ({}) panics: {e}\n{text}", OPTS[o]), json!({"program": text, "level": OPTS[o]})),
            Ok(Err(e)) => ctx.violate(format!("a valid program is not compiled ({}): {}\n{text}", OPTS[o], errtext(&e)), json!({"program": text, "level": OPTS[o]})),
            Ok(Ok(prog)) => {
                for (a, w) in args.iter().zip(&want) {
                    if matches!(w, Err(Stop::Undefined)) {
                        ctx.outcome("undefined, not compared");
                        continue;
                    }
                    let got = exec(&prog, f, &a.iter().map(input).collect::<Vec<_>>(), steps);
                    ctx.add("transitions", 1);
                    ctx.outcome(match w {
                        Ok(_) => "value",
                        Err(Stop::Panic) => "must fail",
                        Err(_) => "does not end",
                    });
                    if let Ok(v) = w {
                        ctx.state(&format!("{v:?}"));
                    }
                    if !agrees(w, &got) {
                        ctx.violate(format!("{}: {f}({a:?}) gives {} but the language says {w:?}\n{text}", OPTS[o], describe(&got)), json!({"program": text, "level": OPTS[o], "entry": f, "args": format!("{a:?}"), "expected": format!("{w:?}"), "got": describe(&got)}));
                        break;
                    }
                }
            }
        }
    }
}
pub fn errtext(e: &CompilerError) -> String {
    match e {
        CompilerError::ParseErrors(d) | CompilerError::SemanticErrors(d) => d.iter().map(|d| d.message.clone()).collect::<Vec<_>>().join("; "),
        e => e.to_string(),
    }
}
/// Compiles `p` on both levels and runs every (function, arguments) on it.
pub fn check_cases(ctx: &Ctx, p: &Prog, cases: &[(&'static str, Vec<V>)]) {
    check_cases_opt(ctx, p, cases, false, false)
}
/// `may_reject`: the program has unsuffixed literals that nothing may type; a semantic error is allowed.
/// `loose`: an unsuffixed literal may take the default type here; the value is compared when it has the expected type.
pub fn check_cases_opt(ctx: &Ctx, p: &Prog, cases: &[(&'static str, Vec<V>)], may_reject: bool, loose: bool) {
    let _ = loose;
    let text = p.text();
    let want: Vec<Result<V, Stop>> = cases.iter().map(|(f, a)| Interp::new(p, 2000).run(f, a.iter().map(deep).collect())).collect();
    ctx.add("programs", 1);
    for o in 0..2 {
        let prog = match compile(&text, o) {
            Err(e) => {
                ctx.violate(format!("compiling ({}) panics: {e}\n{text}", OPTS[o]), json!({"program": text, "level": OPTS[o]}));
                continue;
            }
            // a division that always fails may be rejected when compiling
            Ok(Err(e)) if want.iter().any(|w| *w == Err(Stop::Panic)) && ["ivision by zero", "does not fit in an M31"].iter().any(|m| e.to_string().contains(m)) => {
                ctx.outcome("rejected when compiling: must fail");
                continue;
            }
            Ok(Err(CompilerError::SemanticErrors(_))) if may_reject => {
                ctx.outcome("rejected: untyped literal");
                continue;
            }
            Ok(Err(e)) => {
                ctx.violate(format!("a valid program is not compiled ({}): {}\n{text}", OPTS[o], errtext(&e)), json!({"program": text, "level": OPTS[o]}));
                continue;
            }
            Ok(Ok(p)) => p,
        };
        let (mut vals, mut fails) = (0, 0);
        for ((f, a), w) in cases.iter().zip(&want) {
            if *w == Err(Stop::Undefined) {
                continue;
            }
            let got = exec(&prog, f, &a.iter().map(input).collect::<Vec<_>>(), 20000);
            if w.is_ok() {
                vals += 1;
            } else {
                fails += 1;
            }
            if !agrees(w, &got) {
                ctx.violate(format!("{}: {f}({a:?}) gives {} but the language says {w:?}\n{text}", OPTS[o], describe(&got)), json!({"program": text, "level": OPTS[o], "entry": f, "args": format!("{a:?}"), "expected": format!("{w:?}"), "got": describe(&got)}));
                break;
            }
        }
        ctx.add("transitions", cases.len() as u64);
        ctx.outcome_n("value", vals);
        ctx.outcome_n("must fail", fails);
    }
    ctx.state(&text);
}
