//! Parser checks: exhaustive exploration of the prefix graph of the token language.
use crate::imp;
use crate::reflex;
use crate::refparse::{self, P};
use crate::tree::N;
use crate::util::Ctx;
use serde_json::json;
use std::sync::Mutex;

pub struct Lang {
    pub name: &'static str,
    pub pre: &'static str,
    pub post: &'static str,
    pub alpha: &'static [&'static str],
    pub full: usize,
    pub deep: usize,
    pub cap: usize,
}

pub fn text(l: &Lang, seq: &[u8], sep: &str) -> String {
    let mut s = String::from(l.pre);
    for t in seq {
        s.push_str(l.alpha[*t as usize]);
        s.push_str(sep);
    }
    s.push_str(l.post);
    s
}

pub enum Cmp {
    Agree(Option<N>),
    Differ(String),
}

pub fn compare_spans(src: &str) -> Cmp {
    compare_(src, true)
}
pub fn known_syntax_pub(ctx: &Ctx, id: &str) {
    known_syntax(ctx, id)
}
pub fn compare(src: &str) -> Cmp {
    compare_(src, false)
}
fn compare_(src: &str, spans: bool) -> Cmp {
    let r = refparse::parse(src);
    let i = match imp::parse(src) {
        Ok(i) => i,
        Err(p) => return Cmp::Differ(format!("parser panicked on {src:?}: {p}")),
    };
    cmp_trees(src, r, i, spans)
}
fn cmp_trees(src: &str, r: Result<N, bool>, i: imp::Parsed, spans: bool) -> Cmp {
    match (r, i.tree) {
        (Ok(r), Some(t)) => {
            if !r.shape_eq(&t) {
                return Cmp::Differ(format!("different tree for {src:?}\nexpected {}\nactual   {}", r.show(), t.show()));
            }
            if spans && r != t {
                let mut d = String::new();
                span_diff(&r, &t, src, &mut d);
                return Cmp::Differ(format!("different source span for {src:?}\n{d}"));
            }
            Cmp::Agree(Some(t))
        }
        (Ok(r), None) => {
            let m: Vec<_> = i.diags.iter().map(|d| d.message.clone()).collect();
            Cmp::Differ(format!("valid text rejected: {src:?}\nexpected {}\ndiagnostics {m:?}", r.show()))
        }
        (Err(_), Some(t)) => Cmp::Differ(format!("invalid text accepted: {src:?}\nactual {}", t.show())),
        (Err(_), None) => Cmp::Agree(None),
    }
}
fn span_diff(r: &N, t: &N, src: &str, out: &mut String) {
    if r.sp != t.sp && out.len() < 400 {
        let f = |s: Option<(usize, usize)>| s.map(|(a, b)| format!("{a}..{b} {:?}", src.get(a..b))).unwrap_or("none".into());
        out.push_str(&format!("{}: expected {} actual {}\n", r.l, f(r.sp), f(t.sp)));
    }
    for (a, b) in r.k.iter().zip(&t.k) {
        span_diff(a, b, src, out);
    }
}

/// Breadth-first over token sequences. Every sequence up to `full` tokens is compared; beyond it,
/// only prefixes that either side can still extend to a program.
pub fn explore(ctx: &Ctx, l: &Lang, on_ok: &(dyn Fn(&[u8], &str, &N) + Sync)) {
    explore_with(ctx, l, true, on_ok)
}
/// `judge`: whether a disagreement about the text itself is this check's business (otherwise the
/// text is skipped; another check reports it).
pub fn explore_with(ctx: &Ctx, l: &Lang, judge: bool, on_ok: &(dyn Fn(&[u8], &str, &N) + Sync)) {
    let mut level: Vec<Vec<u8>> = vec![vec![]];
    let pre_toks = reflex::lex(l.pre).unwrap().len();
    let mut done = 0;
    for depth in 1..=l.deep {
        let prune_from = l.full;
        let next: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
        let stats = Mutex::new((0u64, 0u64, 0u64));
        let cap = level.len() * l.alpha.len() > l.cap;
        if cap && depth > prune_from {
            break;
        }
        let chunk = 64;
        let n = level.len().div_ceil(chunk);
        ctx.par(n, |ci| {
            let mut loc = vec![];
            let (mut tr, mut acc, mut rej) = (0, 0, 0);
            for p in &level[ci * chunk..((ci + 1) * chunk).min(level.len())] {
                if ctx.stopped() {
                    return;
                }
                for a in 0..l.alpha.len() as u8 {
                    let mut q = p.clone();
                    q.push(a);
                    let src = text(l, &q, " ");
                    tr += 1;
                    let toks = reflex::lex(&src).unwrap();
                    let mut rp = P::new(&toks, src.len(), false);
                    let r = rp.module().ok_or(false);
                    let far = rp.far;
                    let ref_ok = r.is_ok();
                    let imp = match imp::parse(&src) {
                        Ok(i) => i,
                        Err(e) => {
                            if judge {
                                ctx.violate(format!("parser panicked on {src:?}: {e}"), json!({"text": src}));
                            }
                            continue;
                        }
                    };
                    let post_start = src.len() - l.post.len();
                    let imp_dead = imp.tree.is_none() && imp.diags.iter().all(|d| d.span.start < post_start);
                    let ref_dead = !ref_ok && far < pre_toks + q.len();
                    match cmp_trees(&src, r, imp, judge) {
                        Cmp::Differ(w) if judge => ctx.violate(w, json!({"text": src})),
                        Cmp::Differ(_) => {}
                        Cmp::Agree(Some(t)) => {
                            acc += 1;
                            on_ok(&q, &src, &t);
                        }
                        Cmp::Agree(None) => rej += 1,
                    }
                    if depth < prune_from || !(ref_dead && imp_dead) {
                        loc.push(q);
                    }
                }
            }
            next.lock().unwrap().extend(loc);
            let mut s = stats.lock().unwrap();
            s.0 += tr;
            s.1 += acc;
            s.2 += rej;
        });
        let (tr, acc, rej) = *stats.lock().unwrap();
        ctx.add("transitions", tr);
        ctx.add("accepted", acc);
        ctx.add("rejected", rej);
        level = next.into_inner().unwrap();
        level.sort();
        ctx.add("states", level.len() as u64);
        if ctx.stopped() {
            return;
        }
        done = depth;
    }
    ctx.note(format!(
        "{}: alphabet of {} tokens, all sequences up to length {}, all viable ones up to length {}",
        l.name,
        l.alpha.len(),
        l.full.min(done),
        done
    ));
}


pub const EXPRS: Lang = Lang {
    name: "expressions",
    pre: "const K = ",
    post: ";",
    alpha: &["a", "1", "(", ")", "[", "]", "{", "}", ",", ".", ":", ";", "-", "!", "+", "*", "==", "&&", "||", "&", "as", "new", "true"],
    full: 4,
    deep: 6,
    cap: 12_000_000,
};
/// One token per precedence tier plus the wrappers: reaches deeper.
pub const OPS: Lang = Lang {
    name: "operators",
    pre: "const K = ",
    post: ";",
    alpha: &["a", "(", ")", "-", "!", "||", "&&", "^", "<=", "+", "%", "as felt"],
    full: 5,
    deep: 7,
    cap: 6_000_000,
};
pub const ALLOPS: Lang = Lang {
    name: "operator pairs",
    pre: "const K = a",
    post: ";",
    alpha: &[
        "+ b", "- b", "* b", "/ b", "% b", "== b", "!= b", "< b", "> b", "<= b", ">= b", "&& b", "|| b", "& b", "| b", "^ b", "as t", ".m", ".0",
        "[ i ]", "( )", "( x , )",
    ],
    full: 4,
    deep: 4,
    cap: 6_000_000,
};
pub const STMTS: Lang = Lang {
    name: "statements",
    pre: "fn f ( ) {",
    post: "}",
    alpha: &[
        "let", "return", "if", "else", "while", "loop", "for", "break", "continue", "const", "{", "}", "(", ")", ";", "=", "a", "1", "==", ",",
    ],
    full: 4,
    deep: 8,
    cap: 8_000_000,
};
pub const STMTS2: Lang = Lang {
    name: "statement nesting",
    pre: "fn f ( ) {",
    post: "}",
    alpha: &["if a", "if ( a )", "else", "while ( a )", "loop", "for ( a = 1 ; a ; a = 1 )", "{", "}", "break ;", "a ( ) ;", "return ;"],
    full: 5,
    deep: 9,
    cap: 6_000_000,
};
pub const ITEMS: Lang = Lang {
    name: "items",
    pre: "",
    post: "",
    alpha: &["fn", "struct", "use", "const", "let", "a", "felt", "(", ")", "{", "}", ":", "::", ",", ";", "=", "->", "1"],
    full: 4,
    deep: 9,
    cap: 8_000_000,
};
pub const TYPES: Lang = Lang {
    name: "types",
    pre: "struct S { x :",
    post: "}",
    alpha: &["felt", "a", "(", ")", "[", "]", ";", ",", "*", "1", ":"],
    full: 5,
    deep: 8,
    cap: 6_000_000,
};
pub const PATS: Lang = Lang {
    name: "patterns",
    pre: "fn f ( ) { let",
    post: "= a ; }",
    alpha: &["(", ")", ",", "a", "b", ":", "felt", "1", "_"],
    full: 5,
    deep: 9,
    cap: 4_000_000,
};
pub const CONDS: Lang = Lang {
    name: "conditions",
    pre: "fn f ( ) { if",
    post: "{ } }",
    alpha: &["a", "1", "(", ")", "{", "}", "==", "&&", "-", "!", ".", ",", "[", "]", ";", "as", "*", "="],
    full: 4,
    deep: 6,
    cap: 8_000_000,
};
pub const FORS: Lang = Lang {
    name: "for headers",
    pre: "fn f ( ) { for (",
    post: ") a ; }",
    alpha: &["let", "a", "=", "1", ";", "<", "(", ")", ":", "felt", "+", "b"],
    full: 4,
    deep: 10,
    cap: 6_000_000,
};

const PARSE_ASSUME: &[&str] = &[
    "the reference grammar (harness/src/refparse.rs, reflex.rs) states the language as documented in the parser's README and docs",
    "tokens are separated by single spaces in this check; layout is varied by C05",
];
fn spot(ctx: &Ctx) -> impl Fn(&[u8], &str, &N) + Sync + '_ {
    let n = std::sync::atomic::AtomicU64::new(0);
    move |_: &[u8], s: &str, t: &N| {
        let k = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        if k.is_power_of_two() {
            ctx.sample(json!({"text": s, "tree": t.show()}));
        }
    }
}
fn run(ctx: &Ctx, langs: Vec<Lang>) {
    for mut l in langs {
        if ctx.stopped() {
            return;
        }
        if ctx.thorough {
            l.full += 1;
            l.deep += 3;
            l.cap *= 8;
        }
        explore(ctx, &l, &spot(ctx));
        if std::env::var("VPMC_TRACE").is_ok() {
            eprintln!("{} {:.1}s", l.name, ctx.elapsed());
        }
    }
}
fn traces(ctx: &Ctx) {
    let n = ctx.get("accepted");
    ctx.add("traces_validated_against_impl", n);
}

/// C03: the tree of an expression.
pub fn exprs(ctx: &Ctx) -> i32 {
    run(ctx, vec![EXPRS, OPS, ALLOPS]);
    known_syntax(ctx, "C03");
    traces(ctx);
    ctx.finish("model_checking", json!({}), PARSE_ASSUME)
}
/// C04: statements, items, types, patterns, conditions.
pub fn stmts(ctx: &Ctx) -> i32 {
    run(ctx, vec![STMTS, STMTS2, ITEMS, TYPES, PATS, CONDS, FORS]);
    known_syntax(ctx, "C04");
    traces(ctx);
    ctx.finish("model_checking", json!({}), PARSE_ASSUME)
}

/// Replays the witnesses of the listed deviations from the documented grammar.
fn known_syntax(ctx: &Ctx, id: &str) {
    let list = crate::util::KNOWN.get().unwrap();
    for k in list.iter().filter(|k| k.property == id && k.kind == "known") {
        let src = k.witness["text"].as_str().unwrap();
        let want = k.witness["expected"].as_str().unwrap();
        let show = |t: &N| if id == "C05" { t.show_spans() } else { t.show() };
        let r = crate::refparse::parse_strict(src).map(|t| show(&t)).unwrap_or("rejected".into());
        if !k.witness["doc_only"].as_bool().unwrap_or(false) {
            assert_eq!(r, want, "witness of {}", k.id);
        }
        let i = imp::parse(src).map(|p| p.tree.map(|t| show(&t)).unwrap_or("rejected".into())).unwrap_or_else(|e| e);
        if i != want {
            ctx.known(&k.id);
        }
    }
}
