//! A neutral syntax tree: what the parser's AST and the reference parser are both turned into.
use cairo_m_compiler_parser::parser::*;

pub type Sp = (usize, usize);

#[derive(Debug, Clone, PartialEq, Eq, Hash)]
pub struct N {
    pub l: String,
    pub sp: Option<Sp>,
    pub k: Vec<N>,
}
impl N {
    pub fn new(l: impl Into<String>, sp: Option<Sp>, k: Vec<N>) -> N {
        N { l: l.into(), sp, k }
    }
    /// S-expression without spans.
    pub fn sx(&self, out: &mut String) {
        if self.k.is_empty() {
            out.push_str(&self.l);
        } else {
            out.push('(');
            out.push_str(&self.l);
            for c in &self.k {
                out.push(' ');
                c.sx(out);
            }
            out.push(')');
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.sx(&mut s);
        s
    }
    /// S-expression with spans.
    pub fn show_spans(&self) -> String {
        let sp = self.sp.map(|(a, b)| format!("@{a}-{b}")).unwrap_or_default();
        if self.k.is_empty() {
            format!("{}{sp}", self.l)
        } else {
            format!("({}{sp} {})", self.l, self.k.iter().map(|c| c.show_spans()).collect::<Vec<_>>().join(" "))
        }
    }
    pub fn shape_eq(&self, o: &N) -> bool {
        self.l == o.l && self.k.len() == o.k.len() && self.k.iter().zip(&o.k).all(|(a, b)| a.shape_eq(b))
    }
    pub fn size(&self) -> usize {
        1 + self.k.iter().map(|c| c.size()).sum::<usize>()
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a N)) {
        f(self);
        for c in &self.k {
            c.walk(f);
        }
    }
    /// Same tree with every parenthesis node replaced by its content.
    pub fn strip_parens(&self) -> N {
        if self.l == "paren" {
            return self.k[0].strip_parens();
        }
        N { l: self.l.clone(), sp: self.sp, k: self.k.iter().map(|c| c.strip_parens()).collect() }
    }
}

fn s(sp: chumsky_span::Span) -> Option<Sp> {
    Some((sp.start, sp.end))
}
mod chumsky_span {
    pub type Span = chumsky::span::SimpleSpan<usize>;
}
pub fn ident(x: &Spanned<String>) -> N {
    N::new(format!("id:{}", x.value()), s(x.span()), vec![])
}
fn named(t: &NamedType) -> String {
    match t {
        NamedType::Felt => "felt".into(),
        NamedType::Bool => "bool".into(),
        NamedType::U32 => "u32".into(),
        NamedType::Custom(c) => c.clone(),
    }
}
pub fn ty(t: &Spanned<TypeExpr>) -> N {
    let sp = s(t.span());
    match t.value() {
        TypeExpr::Named(n) => {
            let custom = matches!(n.value(), NamedType::Custom(_));
            N::new(format!("ty:{}{}", if custom { "custom:" } else { "" }, named(n.value())), sp, vec![])
        }
        TypeExpr::Pointer(i) => N::new("tyPtr", sp, vec![ty(i)]),
        TypeExpr::Tuple(v) => N::new("tyTup", sp, v.iter().map(ty).collect()),
        TypeExpr::FixedArray { element_type, size } => {
            N::new("tyArr", sp, vec![ty(element_type), N::new(format!("n:{}", size.value()), s(size.span()), vec![])])
        }
    }
}
pub fn expr(e: &Spanned<Expression>) -> N {
    let sp = s(e.span());
    match e.value() {
        Expression::Literal(v, suf) => N::new(format!("lit:{}:{}", v, suf.as_deref().unwrap_or("")), sp, vec![]),
        Expression::BooleanLiteral(b) => N::new(format!("bool:{b}"), sp, vec![]),
        Expression::Identifier(i) => N::new("var", sp, vec![ident(i)]),
        Expression::UnaryOp { op, expr: e } => N::new(format!("un{op}"), sp, vec![expr(e)]),
        Expression::BinaryOp { op, left, right } => N::new(format!("bin{op}"), sp, vec![expr(left), expr(right)]),
        Expression::FunctionCall { callee, args } => {
            let mut k = vec![expr(callee)];
            k.extend(args.iter().map(expr));
            N::new("call", sp, k)
        }
        Expression::MemberAccess { object, field } => N::new("member", sp, vec![expr(object), ident(field)]),
        Expression::IndexAccess { array, index } => N::new("index", sp, vec![expr(array), expr(index)]),
        Expression::StructLiteral { name, fields } => {
            let mut k = vec![ident(name)];
            for (n, v) in fields {
                k.push(ident(n));
                k.push(expr(v));
            }
            N::new("struct", sp, k)
        }
        Expression::Tuple(v) => N::new("tuple", sp, v.iter().map(expr).collect()),
        Expression::TupleIndex { tuple, index } => N::new(format!("tupidx:{index}"), sp, vec![expr(tuple)]),
        Expression::ArrayLiteral(v) => N::new("array", sp, v.iter().map(expr).collect()),
        Expression::ArrayRepeat { element, count } => {
            N::new("repeat", sp, vec![expr(element), N::new(format!("n:{}", count.value()), s(count.span()), vec![])])
        }
        Expression::Cast { expr: e, target_type } => N::new("cast", sp, vec![expr(e), ty(target_type)]),
        Expression::New { elem_type, count } => N::new("new", sp, vec![ty(elem_type), expr(count)]),
        Expression::Parenthesized(i) => N::new("paren", sp, vec![expr(i)]),
    }
}
pub fn pat(p: &Pattern) -> N {
    match p {
        Pattern::Identifier(i) => ident(i),
        Pattern::Tuple(v) => N::new("patTup", None, v.iter().map(pat).collect()),
    }
}
fn none() -> N {
    N::new("-", None, vec![])
}
pub fn stmt(st: &Spanned<Statement>) -> N {
    let sp = s(st.span());
    match st.value() {
        Statement::Let { pattern, statement_type, value } => {
            N::new("let", sp, vec![pat(pattern), statement_type.as_ref().map(ty).unwrap_or_else(none), expr(value)])
        }
        Statement::Const(c) => {
            N::new("constS", sp, vec![ident(&c.name), c.ty.as_ref().map(ty).unwrap_or_else(none), expr(&c.value)])
        }
        Statement::Assignment { lhs, rhs } => N::new("assign", sp, vec![expr(lhs), expr(rhs)]),
        Statement::Return { value } => N::new("return", sp, value.iter().map(expr).collect()),
        Statement::If { condition, then_block, else_block } => {
            let mut k = vec![expr(condition), stmt(then_block)];
            if let Some(e) = else_block {
                k.push(stmt(e));
            }
            N::new("if", sp, k)
        }
        Statement::Expression(e) => N::new("exprS", sp, vec![expr(e)]),
        Statement::Block(v) => N::new("block", sp, v.iter().map(stmt).collect()),
        Statement::Loop { body } => N::new("loop", sp, vec![stmt(body)]),
        Statement::While { condition, body } => N::new("while", sp, vec![expr(condition), stmt(body)]),
        Statement::For { init, condition, step, body } => {
            N::new("for", sp, vec![stmt(init), expr(condition), stmt(step), stmt(body)])
        }
        Statement::Break => N::new("break", sp, vec![]),
        Statement::Continue => N::new("continue", sp, vec![]),
    }
}
pub fn item(i: &TopLevelItem) -> N {
    match i {
        TopLevelItem::Function(f) => {
            let v = f.value();
            let ps = v.params.iter().map(|p| N::new("param", None, vec![ident(&p.name), ty(&p.type_expr)])).collect();
            let mut rt = ty(&v.return_type);
            if rt.l == "tyTup" && rt.k.is_empty() && rt.sp == Some((0, 0)) {
                rt.sp = None;
            }
            N::new(
                "fn",
                s(f.span()),
                vec![ident(&v.name), N::new("params", None, ps), rt, N::new("body", None, v.body.iter().map(stmt).collect())],
            )
        }
        TopLevelItem::Struct(d) => {
            let mut k = vec![ident(&d.value().name)];
            for (n, t) in &d.value().fields {
                k.push(ident(n));
                k.push(ty(t));
            }
            N::new("structDef", s(d.span()), k)
        }
        TopLevelItem::Const(c) => {
            let c2 = c.value();
            N::new("constT", s(c.span()), vec![ident(&c2.name), c2.ty.as_ref().map(ty).unwrap_or_else(none), expr(&c2.value)])
        }
        TopLevelItem::Use(u) => {
            let v = u.value();
            let items = match &v.items {
                UseItems::Single(i) => N::new("single", None, vec![ident(i)]),
                UseItems::List(l) => N::new("list", None, l.iter().map(ident).collect()),
            };
            N::new("use", s(u.span()), vec![N::new("path", None, v.path.iter().map(ident).collect()), items])
        }
    }
}
pub fn module(m: &ParsedModule) -> N {
    N::new("module", None, m.items().iter().map(item).collect())
}
