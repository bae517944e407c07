//! Control flow: returns on all paths, unreachable statements, break and continue.
use crate::gen::forests;
use crate::refparse;
use crate::sem;
use crate::tree::N;
use crate::util::Ctx;
use serde_json::json;
use std::collections::{BTreeSet, HashMap};

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    /// The executions themselves, each condition going either way.
    Exact,
    /// A `break` no path reaches still counts as a way out of its loop.
    Breaks,
    /// As `Breaks`, and a `loop` may end after any turn.
    Ends,
}
/// Control-flow graph of one body. Node 0 is the end of the body, node 1 a return.
struct Cfg {
    succ: Vec<Vec<usize>>,
    mode: Mode,
    /// statement spans in sequences: (sequence start node, [(statement span, node)])
    seqs: Vec<(usize, Vec<((usize, usize), usize)>)>,
    outside: BTreeSet<((usize, usize), bool)>,
}
impl Cfg {
    fn new(mode: Mode) -> Self {
        Cfg { succ: vec![vec![], vec![]], mode, seqs: vec![], outside: BTreeSet::new() }
    }
    fn node(&mut self, s: Vec<usize>) -> usize {
        self.succ.push(s);
        self.succ.len() - 1
    }
    fn seq(&mut self, k: &[N], next: usize, lp: Option<(usize, usize)>) -> usize {
        let mut at = next;
        let mut v = vec![];
        for s in k.iter().rev() {
            at = self.stmt(s, at, lp);
            v.push((s.sp.unwrap(), at));
        }
        v.reverse();
        self.seqs.push((at, v));
        at
    }
    fn has_break(s: &N) -> bool {
        match s.l.as_str() {
            "break" => true,
            "block" | "if" => s.k.iter().any(Self::has_break),
            _ => false,
        }
    }
    fn stmt(&mut self, s: &N, next: usize, lp: Option<(usize, usize)>) -> usize {
        match s.l.as_str() {
            "return" => self.node(vec![1]),
            "block" => {
                let b = self.seq(&s.k, next, lp);
                self.node(vec![b])
            }
            "if" => {
                let a = self.stmt(&s.k[1], next, lp);
                let b = if s.k.len() > 2 { self.stmt(&s.k[2], next, lp) } else { next };
                self.node(vec![a, b])
            }
            "loop" | "while" | "for" => {
                let head = self.node(vec![]);
                let body = self.stmt(s.k.last().unwrap(), head, Some((next, head)));
                self.succ[head].push(body);
                let always = s.l == "loop";
                if !always || (self.mode != Mode::Exact && Self::has_break(s.k.last().unwrap())) {
                    self.succ[head].push(next);
                }
                if always && self.mode == Mode::Ends {
                    // a turn may be the last: leaving is possible once the body has been gone through
                    let turn = self.node(vec![head, next]);
                    let body = self.stmt(s.k.last().unwrap(), turn, Some((next, turn)));
                    self.succ[head].clear();
                    self.succ[head].push(body);
                    if Self::has_break(s.k.last().unwrap()) {
                        self.succ[head].push(next);
                    }
                }
                head
            }
            "break" | "continue" => match lp {
                Some((b, c)) => self.node(vec![if s.l == "break" { b } else { c }]),
                None => {
                    self.outside.insert((s.sp.unwrap(), s.l == "break"));
                    self.node(vec![next])
                }
            },
            _ => self.node(vec![next]),
        }
    }
    fn reach(&self, from: usize) -> Vec<bool> {
        let mut seen = vec![false; self.succ.len()];
        let mut st = vec![from];
        seen[from] = true;
        while let Some(n) = st.pop() {
            for &m in &self.succ[n] {
                if !seen[m] {
                    seen[m] = true;
                    st.push(m);
                }
            }
        }
        seen
    }
    fn unreachable(&self) -> BTreeSet<(usize, usize)> {
        let mut out = BTreeSet::new();
        for (start, v) in &self.seqs {
            let r = self.reach(*start);
            out.extend(v.iter().filter(|(_, n)| !r[*n]).map(|x| x.0));
        }
        out
    }
}

fn judge(ctx: &Ctx, src: &str) {
    let Ok(m) = refparse::parse(src) else {
        ctx.add("not_programs", 1);
        return;
    };
    let ds = match sem::analyze1(src) {
        Ok(d) => d,
        Err(p) => return ctx.violate(format!("analysis panicked on\n{src}\n{p}"), json!({"text": src})),
    };
    ctx.add("transitions", 1);
    let get = |code: &str| -> Vec<(usize, usize)> {
        let mut v: Vec<_> = ds.iter().filter(|d| d.code == code).map(|d| d.span).collect();
        v.sort();
        v
    };
    let bad = |what: String| ctx.violate(format!("{what} in\n{src}"), json!({"text": src}));
    let (mut must, mut may): (BTreeSet<_>, BTreeSet<_>) = Default::default();
    let (mut mustr, mut mayr): (BTreeSet<_>, BTreeSet<_>) = Default::default();
    let mut outside = BTreeSet::new();
    let mut names: HashMap<(usize, usize), String> = HashMap::new();
    for f in m.k.iter().filter(|k| k.l == "fn") {
        let body = f.k.iter().find(|k| k.l == "body").map(|b| b.k.clone()).unwrap_or_default();
        let name = f.k[0].sp.unwrap();
        names.insert(name, f.k[0].l[3..].to_string());
        let g = |mode| {
            let mut c = Cfg::new(mode);
            let e = c.seq(&body, 0, None);
            (c, e)
        };
        let (c, e) = g(Mode::Exact);
        ctx.add("cfg_states", c.succ.len() as u64);
        if c.reach(e)[0] {
            mustr.insert(name);
        }
        may.extend(c.unreachable());
        outside.extend(c.outside.clone());
        let (c, _) = g(Mode::Breaks);
        must.extend(c.unreachable());
        let (c, e) = g(Mode::Ends);
        if c.reach(e)[0] {
            mayr.insert(name);
        }
    }
    let un = get("UnreachableCode");
    if let Some(s) = must.iter().find(|s| !un.contains(s)) {
        return bad(format!("no path reaches `{}` at {s:?}, but there is no warning", &src[s.0..s.1]));
    }
    if let Some(s) = un.iter().find(|s| !may.contains(s)) {
        return bad(format!("`{}` at {s:?} is reached, but reported unreachable", &src[s.0..s.1]));
    }
    if un.windows(2).any(|w| w[0] == w[1]) {
        return bad("an unreachable statement is reported twice".into());
    }
    let mr = get("MissingReturn");
    if let Some(s) = mustr.iter().find(|s| !mr.contains(s)) {
        return bad(format!("a path through `{}` ends without a return, but there is no error", names[s]));
    }
    if let Some(s) = mr.iter().find(|s| !mayr.contains(s)) {
        return bad(format!("all paths through `{}` return, but a missing return is reported", &src[s.0..s.1]));
    }
    let mut out: BTreeSet<_> = get("BreakOutsideLoop").into_iter().map(|s| (s, true)).collect();
    out.extend(get("ContinueOutsideLoop").into_iter().map(|s| (s, false)));
    if out != outside {
        return bad(format!("break/continue outside a loop: expected at {outside:?}, reported at {out:?}"));
    }
    for d in &ds {
        let want_err = match d.code.as_str() {
            "UnreachableCode" => false,
            "MissingReturn" | "BreakOutsideLoop" | "ContinueOutsideLoop" => true,
            _ => continue,
        };
        if d.err != want_err || d.file != "main.cm" {
            return bad(format!("severity or file of {d:?}"));
        }
        if d.code == "MissingReturn" && !d.msg.contains(names[&d.span].as_str()) {
            return bad(format!("the error does not name its function: {d:?}"));
        }
    }
    ctx.outcome(format!("unreachable {} missing {} outside {}", un.len().min(3), mr.len(), out.len().min(2)));
    ctx.state(&(un.len(), mr, out.len(), src.len()));
}

const NODES: &[&str] = &["{ @ }", "if x == 1 { @ }", "if x == 1 { @ } else { @ }", "loop { @ }", "while x == 1 { @ }", "for (let i = 0; c; i = 1) { @ }"];

pub fn flow(ctx: &Ctx) -> i32 {
    let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    let small = s(&["return;", "break;", "continue;", "x = 1;"]);
    let rich = s(&[
        "return;", "break;", "continue;", "x = 1;", "let y = 1;", "const z = 1;", "x;", "g();", "if c return;", "loop break;", "while c continue;", "loop return;",
        "if c return; else break;", "if c { return; } else if c { return; }", "if c { return; } else if c { return; } else { return; }", "loop {}", "while true {}", "if true { return; }",
    ]);
    let max = if ctx.thorough { 5 } else { 4 };
    let mut jobs: Vec<String> = vec![];
    for f in forests(&small, NODES, max).iter().flatten() {
        jobs.push(format!("fn f(x: felt, c: bool) {{ {f} }}"));
    }
    for f in forests(&rich, NODES, 3).iter().flatten() {
        jobs.push(format!("fn f(x: felt, c: bool) {{ {f} }}"));
    }
    for f in forests(&small, NODES, 3).iter().flatten() {
        jobs.push(format!("fn g() {{ return; }} fn f(x: felt, c: bool) {{ {f} }} fn h(c: bool) {{ loop {{ if c {{ break; }} }} }}"));
        let v = f.replace("return;", "return 1;");
        jobs.push(format!("fn h(c: bool) -> felt {{ if c {{ return 1; }} }} fn f(x: felt, c: bool) -> felt {{ {v} }} fn g() {{ return; }}"));
    }
    let n = jobs.len();
    let ch = 64;
    ctx.par(n.div_ceil(ch), |i| {
        for s in &jobs[i * ch..((i + 1) * ch).min(n)] {
            if ctx.stopped() {
                return;
            }
            judge(ctx, s);
        }
    });
    for s in jobs.iter().step_by(n / 8 + 1) {
        ctx.sample(json!(s));
    }
    ctx.finish("model_checking", json!({"programs": n, "exhaustive": true, "bounds": {"statements": max, "nestings": NODES}}),
      &["each condition may go either way", "reference parser (C04) is right"])
}
