//! Independent reference parser (ordered choice, recursive descent) over the reference tokens.
//! It decides, for any token sequence, whether it is a program and which tree it denotes.
use crate::reflex::{Tok, T, SUFFIXES};
use crate::tree::{Sp, N};

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
    end: usize,
    /// Furthest token index examined (t.len() when the end of input was examined).
    pub far: usize,
    /// Strict: `&&` binds tighter than `||`; call/index spans reach the closing delimiter; etc.
    pub strict: bool,
}
type R = Option<N>;

/// Tokens after a parenthesized condition that continue the condition as an expression.
const CONT: &[&str] =
    &["==", "!=", "<", ">", "<=", ">=", "&&", "||", "&", "|", "^", "+", "-", "*", "/", "%", "as", "."];

impl<'a> P<'a> {
    pub fn new(t: &'a [Tok], end: usize, strict: bool) -> Self {
        P { t, i: 0, end, far: 0, strict }
    }
    fn peek(&mut self) -> Option<&'a T> {
        self.far = self.far.max(self.i);
        self.t.get(self.i).map(|t| &t.t)
    }
    fn is(&mut self, p: &str) -> bool {
        matches!(self.peek(), Some(T::P(q)) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, p: &str) -> Option<()> {
        self.eat(p).then_some(())
    }
    fn start(&self) -> usize {
        self.t.get(self.i).map(|t| t.sp.0).unwrap_or(self.end)
    }
    fn prev_end(&self) -> usize {
        self.t[self.i - 1].sp.1
    }
    fn span_from(&self, st: usize) -> Option<Sp> {
        Some((st, self.prev_end()))
    }
    fn ident(&mut self) -> R {
        match self.peek() {
            Some(T::Id(s)) => {
                let sp = self.t[self.i].sp;
                self.i += 1;
                Some(N::new(format!("id:{s}"), Some(sp), vec![]))
            }
            _ => None,
        }
    }
    /// Ordered choice with rewinding.
    fn attempt<X>(&mut self, f: impl FnOnce(&mut Self) -> Option<X>) -> Option<X> {
        let i = self.i;
        let r = f(self);
        if r.is_none() {
            self.i = i;
        }
        r
    }

    pub fn module(&mut self) -> R {
        let mut k = vec![];
        while let Some(x) = self.attempt(|p| p.item()) {
            k.push(x);
        }
        self.far = self.far.max(self.i);
        if self.i < self.t.len() {
            return None;
        }
        // Literals with an unknown suffix are rejected wherever they appear as expressions.
        let m = N::new("module", None, k);
        let mut bad = false;
        m.walk(&mut |n| {
            if let Some(r) = n.l.strip_prefix("lit:") {
                let suf = r.split_once(':').unwrap().1;
                if !suf.is_empty() && !SUFFIXES.contains(&suf) {
                    bad = true;
                }
            }
        });
        (!bad).then_some(m)
    }
    fn item(&mut self) -> R {
        let st = self.start();
        match self.peek()? {
            T::P("fn") => {
                self.i += 1;
                let name = self.ident()?;
                self.need("(")?;
                let ps = self.list(")", true, |p| {
                    let n = p.ident()?;
                    p.need(":")?;
                    let t = p.ty()?;
                    Some(N::new("param", None, vec![n, t]))
                })?;
                let rt = if self.eat("->") { self.ty()? } else { N::new("tyTup", None, vec![]) };
                self.need("{")?;
                let body = self.stmts()?;
                Some(N::new(
                    "fn",
                    self.span_from(st),
                    vec![name, N::new("params", None, ps), rt, N::new("body", None, body)],
                ))
            }
            T::P("struct") => {
                self.i += 1;
                let mut k = vec![self.ident()?];
                self.need("{")?;
                for f in self.list("}", true, |p| {
                    let n = p.ident()?;
                    p.need(":")?;
                    let t = p.ty()?;
                    Some(N::new("", None, vec![n, t]))
                })? {
                    k.extend(f.k);
                }
                Some(N::new("structDef", self.span_from(st), k))
            }
            T::P("const") => {
                let k = self.const_tail()?;
                Some(N::new("constT", self.span_from(st), k))
            }
            T::P("use") => {
                self.i += 1;
                let mut path = vec![self.ident()?];
                let mut items = None;
                while self.eat("::") {
                    if self.is("{") {
                        self.i += 1;
                        let l = self.list("}", true, |p| p.ident())?;
                        items = Some(N::new("list", None, l));
                        break;
                    }
                    path.push(self.ident()?);
                }
                let items = items.unwrap_or_else(|| N::new("single", None, vec![path.pop().unwrap()]));
                self.need(";")?;
                Some(N::new("use", self.span_from(st), vec![N::new("path", None, path), items]))
            }
            _ => None,
        }
    }
    fn const_tail(&mut self) -> Option<Vec<N>> {
        self.need("const")?;
        let n = self.ident()?;
        let t = if self.eat(":") { self.ty()? } else { none() };
        self.need("=")?;
        let e = self.expr()?;
        self.need(";")?;
        Some(vec![n, t, e])
    }
    /// Comma separated elements up to the closing token (which is consumed).
    fn list(&mut self, close: &str, trailing: bool, f: impl Fn(&mut Self) -> R) -> Option<Vec<N>> {
        let mut k = vec![];
        if self.eat(close) {
            return Some(k);
        }
        loop {
            k.push(f(self)?);
            if self.eat(close) {
                return Some(k);
            }
            self.need(",")?;
            if trailing && self.eat(close) {
                return Some(k);
            }
        }
    }
    fn stmts(&mut self) -> Option<Vec<N>> {
        let mut k = vec![];
        loop {
            if self.eat("}") {
                return Some(k);
            }
            k.push(self.stmt()?);
        }
    }
    fn stmt(&mut self) -> R {
        let st = self.start();
        let (l, k): (&str, Vec<N>) = match self.peek()? {
            T::P("{") => {
                self.i += 1;
                ("block", self.stmts()?)
            }
            T::P("if") => {
                self.i += 1;
                let c = self.cond()?;
                let mut k = vec![c, self.stmt()?];
                // optional else
                if let Some(e) = self.attempt(|p| {
                    p.need("else")?;
                    p.stmt()
                }) {
                    k.push(e);
                }
                ("if", k)
            }
            T::P("loop") => {
                self.i += 1;
                ("loop", vec![self.stmt()?])
            }
            T::P("while") => {
                self.i += 1;
                let c = self.cond()?;
                ("while", vec![c, self.stmt()?])
            }
            T::P("for") => {
                self.i += 1;
                self.need("(")?;
                let st2 = self.start();
                let init = if self.is("let") {
                    let k = self.let_tail()?;
                    N::new("let", self.span_from(st2), k)
                } else {
                    let (l, k) = self.assign_or_expr()?;
                    self.need(";")?;
                    N::new(l, self.span_from(st2), k)
                };
                let c = self.expr()?;
                self.need(";")?;
                let st3 = self.start();
                let (l, k) = self.assign_or_expr()?;
                let step = N::new(l, self.span_from(st3), k);
                self.need(")")?;
                ("for", vec![init, c, step, self.stmt()?])
            }
            T::P("break") => {
                self.i += 1;
                self.need(";")?;
                ("break", vec![])
            }
            T::P("continue") => {
                self.i += 1;
                self.need(";")?;
                ("continue", vec![])
            }
            T::P("let") => ("let", self.let_tail()?),
            T::P("const") => ("constS", self.const_tail()?),
            T::P("return") => {
                self.i += 1;
                let v = self.attempt(|p| p.expr());
                self.need(";")?;
                ("return", v.into_iter().collect())
            }
            _ => {
                let r = self.assign_or_expr()?;
                self.need(";")?;
                r
            }
        };
        Some(N::new(l, self.span_from(st), k))
    }
    fn let_tail(&mut self) -> Option<Vec<N>> {
        self.need("let")?;
        let p = self.pat()?;
        let t = if self.eat(":") { self.ty()? } else { none() };
        self.need("=")?;
        let e = self.expr()?;
        self.need(";")?;
        Some(vec![p, t, e])
    }
    fn assign_or_expr(&mut self) -> Option<(&'static str, Vec<N>)> {
        let l = self.expr()?;
        if let Some(r) = self.attempt(|p| {
            p.need("=")?;
            p.expr()
        }) {
            Some(("assign", vec![l, r]))
        } else {
            Some(("exprS", vec![l]))
        }
    }
    fn cond(&mut self) -> R {
        if let Some(e) = self.attempt(|p| {
            p.need("(")?;
            let e = p.expr()?;
            p.need(")")?;
            if let Some(T::P(t)) = p.peek() {
                if CONT.contains(t) {
                    return None;
                }
            }
            Some(e)
        }) {
            return Some(e);
        }
        self.expr()
    }
    fn pat(&mut self) -> R {
        if self.eat("(") {
            let mut k = vec![self.pat()?];
            while !self.eat(")") {
                self.need(",")?;
                k.push(self.pat()?);
            }
            if k.len() < 2 {
                return None;
            }
            return Some(N::new("patTup", None, k));
        }
        self.ident()
    }
    fn named_ty(&mut self) -> R {
        let n = self.ident()?;
        let w = &n.l[3..];
        let l = if matches!(w, "felt" | "bool" | "u32") { format!("ty:{w}") } else { format!("ty:custom:{w}") };
        Some(N::new(l, n.sp, vec![]))
    }
    fn ty(&mut self) -> R {
        self.ty_(true)
    }
    fn ty_(&mut self, arrays: bool) -> R {
        let st = self.start();
        let mut base = match self.peek()? {
            T::P("(") => {
                self.i += 1;
                let mut k = vec![];
                let mut comma = false;
                loop {
                    if self.eat(")") {
                        break;
                    }
                    if !k.is_empty() || comma {
                        if comma {
                            // after a comma another element is needed
                        } else {
                            self.need(",")?;
                            comma = true;
                            continue;
                        }
                    } else if !self.strict && self.eat(",") {
                        // quirk: `(,)` is read as the unit type
                        self.need(")")?;
                        break;
                    }
                    k.push(self.ty_(arrays)?);
                    comma = false;
                }
                if k.len() == 1 && !comma {
                    k.pop().unwrap()
                } else {
                    N::new("tyTup", self.span_from(st), k)
                }
            }
            T::P("[") if arrays => {
                self.i += 1;
                let e = self.ty_(arrays)?;
                self.need(";")?;
                // The size: an expression that must be an unsuffixed literal.
                let n = self.expr()?;
                let v = n.l.strip_prefix("lit:")?.strip_suffix(':')?.to_string();
                self.need("]")?;
                N::new("tyArr", self.span_from(st), vec![e, N::new(format!("n:{v}"), n.sp, vec![])])
            }
            _ => self.named_ty()?,
        };
        while self.eat("*") {
            let bst = base.sp.unwrap().0;
            base = N::new("tyPtr", self.span_from(bst), vec![base]);
        }
        Some(base)
    }

    pub fn expr(&mut self) -> R {
        if self.strict {
            self.binary(0, STRICT)
        } else {
            self.binary(0, TIERS)
        }
    }
    fn binary(&mut self, tier: usize, tiers: &'static [&'static [&'static str]]) -> R {
        if tier == tiers.len() {
            return self.cast();
        }
        let mut l = self.binary(tier + 1, tiers)?;
        loop {
            let Some(T::P(op)) = self.peek() else { return Some(l) };
            if !tiers[tier].contains(op) {
                return Some(l);
            }
            let Some(r) = self.attempt(|p| {
                p.i += 1;
                p.binary(tier + 1, tiers)
            }) else {
                return Some(l);
            };
            let sp = Some((l.sp.unwrap().0, r.sp.unwrap().1));
            l = N::new(format!("bin{op}"), sp, vec![l, r]);
        }
    }
    fn cast(&mut self) -> R {
        let mut e = self.unary()?;
        while let Some(t) = self.attempt(|p| {
            p.need("as")?;
            p.named_ty()
        }) {
            let sp = Some((e.sp.unwrap().0, t.sp.unwrap().1));
            e = N::new("cast", sp, vec![e, t]);
        }
        Some(e)
    }
    fn unary(&mut self) -> R {
        let st = self.start();
        if let Some(T::P(op @ ("!" | "-"))) = self.peek() {
            self.i += 1;
            let e = self.unary()?;
            return Some(N::new(format!("un{op}"), Some((st, e.sp.unwrap().1)), vec![e]));
        }
        self.postfix()
    }
    fn postfix(&mut self) -> R {
        let mut e = self.atom()?;
        let st = e.sp.unwrap().0;
        loop {
            let Some(T::P(p)) = self.peek() else { return Some(e) };
            let next = match *p {
                "(" => self.attempt(|p| {
                    p.i += 1;
                    let args = p.list(")", true, |p| p.expr())?;
                    let end = if p.strict {
                        p.prev_end()
                    } else if let Some(a) = args.last() {
                        a.sp.unwrap().1
                    } else {
                        e.sp.unwrap().1 + 2
                    };
                    let mut k = vec![e.clone()];
                    k.extend(args);
                    Some(N::new("call", Some((st, end)), k))
                }),
                "." => self.attempt(|p| {
                    p.i += 1;
                    match p.peek()? {
                        T::Num(v, None) => {
                            p.i += 1;
                            Some(N::new(format!("tupidx:{v}"), p.span_from(st), vec![e.clone()]))
                        }
                        T::Id(_) => {
                            let f = p.ident()?;
                            Some(N::new("member", p.span_from(st), vec![e.clone(), f]))
                        }
                        _ => None,
                    }
                }),
                "[" => self.attempt(|p| {
                    p.i += 1;
                    let ix = p.expr()?;
                    p.need("]")?;
                    let end = if p.strict { p.prev_end() } else { ix.sp.unwrap().1 };
                    Some(N::new("index", Some((st, end)), vec![e.clone(), ix]))
                }),
                _ => None,
            };
            match next {
                Some(n) => e = n,
                None => return Some(e),
            }
        }
    }
    fn atom(&mut self) -> R {
        let st = self.start();
        match self.peek()? {
            T::Num(v, s) => {
                self.i += 1;
                Some(N::new(format!("lit:{v}:{}", s.as_deref().unwrap_or("")), self.span_from(st), vec![]))
            }
            T::P(b @ ("true" | "false")) => {
                self.i += 1;
                Some(N::new(format!("bool:{b}"), self.span_from(st), vec![]))
            }
            T::P("new") => {
                self.i += 1;
                let t = self.ty_(false)?;
                self.need("[")?;
                let c = self.expr()?;
                self.need("]")?;
                Some(N::new("new", self.span_from(st), vec![t, c]))
            }
            T::Id(_) => {
                if let Some(n) = self.attempt(|p| {
                    let mut k = vec![p.ident()?];
                    p.need("{")?;
                    for f in p.list("}", true, |p| {
                        let n = p.ident()?;
                        p.need(":")?;
                        let e = p.expr()?;
                        Some(N::new("", None, vec![n, e]))
                    })? {
                        k.extend(f.k);
                    }
                    Some(N::new("struct", p.span_from(st), k))
                }) {
                    return Some(n);
                }
                let n = self.ident()?;
                Some(N::new("var", n.sp, vec![n]))
            }
            T::P("[") => {
                self.i += 1;
                if self.eat("]") {
                    return Some(N::new("array", self.span_from(st), vec![]));
                }
                let first = self.expr()?;
                if self.eat(";") {
                    let Some(T::Num(v, None)) = self.peek() else { return None };
                    self.i += 1;
                    let n = N::new(format!("n:{v}"), Some(self.t[self.i - 1].sp), vec![]);
                    self.need("]")?;
                    return Some(N::new("repeat", self.span_from(st), vec![first, n]));
                }
                let mut k = vec![first];
                loop {
                    if self.eat("]") {
                        break;
                    }
                    self.need(",")?;
                    if self.eat("]") {
                        break;
                    }
                    k.push(self.expr()?);
                }
                Some(N::new("array", self.span_from(st), k))
            }
            T::P("(") => {
                self.i += 1;
                if self.eat(")") {
                    return Some(N::new("tuple", self.span_from(st), vec![]));
                }
                let first = self.expr()?;
                if self.eat(")") {
                    return Some(N::new("paren", self.span_from(st), vec![first]));
                }
                let mut k = vec![first];
                loop {
                    if self.eat(")") {
                        break;
                    }
                    self.need(",")?;
                    if self.eat(")") {
                        break;
                    }
                    k.push(self.expr()?);
                }
                Some(N::new("tuple", self.span_from(st), k))
            }
            _ => None,
        }
    }
}
fn none() -> N {
    N::new("-", None, vec![])
}
/// As implemented: `&&` and `||` share a tier (known finding `and-or-tier`).
const TIERS: &[&[&str]] = &[
    &["&&", "||"],
    &["&", "|", "^"],
    &["==", "!=", "<", ">", "<=", ">="],
    &["+", "-"],
    &["*", "/", "%"],
];
const STRICT: &[&[&str]] = &[
    &["||"],
    &["&&"],
    &["&", "|", "^"],
    &["==", "!=", "<", ">", "<=", ">="],
    &["+", "-"],
    &["*", "/", "%"],
];

/// Whole-text reference parse. Err(true) = lexical error, Err(false) = syntax error.
pub fn parse(src: &str) -> Result<N, bool> {
    let toks = crate::reflex::lex(src).map_err(|_| true)?;
    P::new(&toks, src.len(), false).module().ok_or(false)
}
/// As the documentation states the grammar (the deviations are known findings).
pub fn parse_strict(src: &str) -> Result<N, bool> {
    let toks = crate::reflex::lex(src).map_err(|_| true)?;
    P::new(&toks, src.len(), true).module().ok_or(false)
}
