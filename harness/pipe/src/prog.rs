//! Typed miniature of the language: programs, their text and a reference interpreter.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

pub const P: u64 = (1 << 31) - 1;

#[derive(Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum T {
    Felt,
    U32,
    Bool,
    Unit,
    Tup(Vec<T>),
    St(&'static str),
    Arr(Box<T>, usize),
    Ptr(Box<T>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    F(u32),
    U(u32),
    B(bool),
    /// An unsuffixed literal whose place makes it a value of this type.
    L(T, u32),
    V(&'static str),
    Bin(&'static str, Box<E>, Box<E>),
    Neg(Box<E>),
    Not(Box<E>),
    Call(&'static str, Vec<E>),
    Tup(Vec<E>),
    Fld(Box<E>, &'static str),
    Ix(Box<E>, usize),
    At(Box<E>, Box<E>),
    Sl(&'static str, Vec<(&'static str, E)>),
    Arr(Vec<E>),
    Rep(Box<E>, usize),
    Cast(Box<E>),
    New(T, Box<E>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum S {
    Let(&'static str, Option<T>, E),
    LetT(Vec<&'static str>, E),
    Const(&'static str, Option<T>, E),
    Set(E, E),
    Ret(Option<E>),
    If(E, Vec<S>, Option<Vec<S>>),
    While(E, Vec<S>),
    Loop(Vec<S>),
    For(Box<S>, E, Box<S>, Vec<S>),
    Break,
    Cont,
    Ex(E),
    Block(Vec<S>),
}
#[derive(Clone, Debug)]
pub struct F {
    pub name: &'static str,
    pub params: Vec<(&'static str, T)>,
    pub ret: T,
    pub body: Vec<S>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub structs: Vec<(&'static str, Vec<(&'static str, T)>)>,
    pub consts: Vec<(&'static str, Option<T>, E)>,
    pub fns: Vec<F>,
}

pub fn bx(e: E) -> Box<E> {
    Box::new(e)
}
pub fn bin(op: &'static str, a: E, b: E) -> E {
    E::Bin(op, bx(a), bx(b))
}
pub fn v(n: &'static str) -> E {
    E::V(n)
}
pub fn call(f: &'static str, a: Vec<E>) -> E {
    E::Call(f, a)
}

impl T {
    pub fn text(&self) -> String {
        match self {
            T::Felt => "felt".into(),
            T::U32 => "u32".into(),
            T::Bool => "bool".into(),
            T::Unit => "()".into(),
            T::Tup(ts) if ts.len() == 1 => format!("({},)", ts[0].text()),
            T::Tup(ts) => format!("({})", ts.iter().map(T::text).collect::<Vec<_>>().join(", ")),
            T::St(n) => n.to_string(),
            T::Arr(t, n) => format!("[{}; {n}]", t.text()),
            T::Ptr(t) => format!("{}*", t.text()),
        }
    }
}
impl E {
    fn atom(&self) -> String {
        match self {
            E::Bin(..) | E::Cast(..) | E::Neg(..) | E::Not(..) | E::New(..) => format!("({})", self.text()),
            _ => self.text(),
        }
    }
    pub fn text(&self) -> String {
        let list = |v: &[E]| v.iter().map(|e| e.text()).collect::<Vec<_>>().join(", ");
        match self {
            E::F(n) => format!("{n}felt"),
            E::U(n) => format!("{n}u32"),
            E::L(_, n) => n.to_string(),
            E::B(b) => b.to_string(),
            E::V(n) => n.to_string(),
            E::Bin(op, a, b) => format!("{} {op} {}", a.atom(), b.atom()),
            E::Neg(a) => format!("-{}", a.atom()),
            E::Not(a) => format!("!{}", a.atom()),
            E::Call(f, a) => format!("{f}({})", list(a)),
            E::Tup(a) if a.len() == 1 => format!("({},)", a[0].text()),
            E::Tup(a) => format!("({})", list(a)),
            E::Fld(a, n) => format!("{}.{n}", a.atom()),
            E::Ix(a, n) => format!("{}.{n}", a.atom()),
            E::At(a, i) => format!("{}[{}]", a.atom(), i.text()),
            E::Sl(n, f) => format!("{n} {{ {} }}", f.iter().map(|(k, e)| format!("{k}: {}", e.text())).collect::<Vec<_>>().join(", ")),
            E::Arr(a) => format!("[{}]", list(a)),
            E::Rep(a, n) => format!("[{}; {n}]", a.text()),
            E::Cast(a) => format!("{} as felt", a.atom()),
            E::New(t, n) => format!("new {}[{}]", t.text(), n.text()),
        }
    }
}
pub fn block(b: &[S]) -> String {
    format!("{{ {}}}", b.iter().map(|s| s.text() + " ").collect::<String>())
}
impl S {
    pub fn text(&self) -> String {
        let ty = |t: &Option<T>| t.as_ref().map(|t| format!(": {}", t.text())).unwrap_or_default();
        match self {
            S::Let(n, t, e) => format!("let {n}{} = {};", ty(t), e.text()),
            S::LetT(n, e) => format!("let ({}{}) = {};", n.join(", "), if n.len() == 1 { "," } else { "" }, e.text()),
            S::Const(n, t, e) => format!("const {n}{} = {};", ty(t), e.text()),
            S::Set(a, e) => format!("{} = {};", a.text(), e.text()),
            S::Ret(None) => "return;".into(),
            S::Ret(Some(e)) => format!("return {};", e.text()),
            S::If(c, t, None) => format!("if ({}) {}", c.text(), block(t)),
            S::If(c, t, Some(e)) if matches!(e.as_slice(), [S::If(..)]) => format!("if ({}) {} else {}", c.text(), block(t), e[0].text()),
            S::If(c, t, Some(e)) => format!("if ({}) {} else {}", c.text(), block(t), block(e)),
            S::While(c, b) => format!("while ({}) {}", c.text(), block(b)),
            S::Loop(b) => format!("loop {}", block(b)),
            S::For(i, c, s, b) => format!("for ({} {}; {}) {}", i.text(), c.text(), s.text().trim_end_matches(';'), block(b)),
            S::Break => "break;".into(),
            S::Cont => "continue;".into(),
            S::Ex(e) => format!("{};", e.text()),
            S::Block(b) => block(b),
        }
    }
}
impl F {
    pub fn text(&self) -> String {
        let ps = self.params.iter().map(|(n, t)| format!("{n}: {}", t.text())).collect::<Vec<_>>().join(", ");
        let r = if self.ret == T::Unit { String::new() } else { format!(" -> {}", self.ret.text()) };
        format!("fn {}({ps}){r} {}\n", self.name, block(&self.body))
    }
}
impl Prog {
    /// Keeps the functions that `f` reaches.
    pub fn prune(mut self, f: &'static str) -> Prog {
        let mut keep = vec![f];
        let mut i = 0;
        while i < keep.len() {
            let t = block(&self.fns.iter().find(|g| g.name == keep[i]).unwrap().body);
            for g in &self.fns {
                if !keep.contains(&g.name) && t.contains(&format!("{}(", g.name)) {
                    keep.push(g.name);
                }
            }
            i += 1;
        }
        self.fns.retain(|g| keep.contains(&g.name));
        self
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (n, f) in &self.structs {
            s += &format!("struct {n} {{ {} }}\n", f.iter().map(|(k, t)| format!("{k}: {}", t.text())).collect::<Vec<_>>().join(", "));
        }
        for (n, t, e) in &self.consts {
            s += &S::Const(n, t.clone(), e.clone()).text();
            s += "\n";
        }
        for f in &self.fns {
            s += &f.text();
        }
        s
    }
}

/// Values of the reference interpreter. Arrays and heap buffers are shared by reference.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    F(u32),
    U(u32),
    B(bool),
    Unit,
    Tup(Vec<V>),
    St(Vec<(&'static str, V)>),
    Arr(Rc<RefCell<Vec<V>>>),
    /// A heap cell that was never written.
    No,
}
/// Why an execution has no result.
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// The program must fail at run time (failed assertion, division by zero, cast out of range).
    Panic,
    /// More steps than the budget.
    Fuel,
    /// Outside the specified language (index out of bounds, ..).
    Undefined,
}
enum Flow {
    Next,
    Break,
    Cont,
    Ret(V),
}
pub fn inv(a: u64) -> u64 {
    let (mut r, mut b, mut e) = (1u64, a % P, P - 2);
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % P;
        }
        b = b * b % P;
        e >>= 1;
    }
    r
}
/// The documented meaning of a binary operator on two values.
pub fn binop(op: &str, a: &V, b: &V) -> Result<V, Stop> {
    Ok(match (a, b) {
        (V::F(x), V::F(y)) => {
            let (x, y) = (*x as u64, *y as u64);
            match op {
                "+" => V::F(((x + y) % P) as u32),
                "-" => V::F(((x + P - y) % P) as u32),
                "*" => V::F((x * y % P) as u32),
                "/" if y == 0 => return Err(Stop::Panic),
                "/" => V::F((x * inv(y) % P) as u32),
                "==" => V::B(x == y),
                "!=" => V::B(x != y),
                _ => unreachable!("{op}"),
            }
        }
        (V::U(x), V::U(y)) => match op {
            "+" => V::U(x.wrapping_add(*y)),
            "-" => V::U(x.wrapping_sub(*y)),
            "*" => V::U(x.wrapping_mul(*y)),
            "/" | "%" if *y == 0 => return Err(Stop::Panic),
            "/" => V::U(x / y),
            "%" => V::U(x % y),
            "&" => V::U(x & y),
            "|" => V::U(x | y),
            "^" => V::U(x ^ y),
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            "<" => V::B(x < y),
            ">" => V::B(x > y),
            "<=" => V::B(x <= y),
            ">=" => V::B(x >= y),
            _ => unreachable!("{op}"),
        },
        (V::B(x), V::B(y)) => match op {
            "==" => V::B(x == y),
            "!=" => V::B(x != y),
            "&&" => V::B(*x && *y),
            "||" => V::B(*x || *y),
            _ => unreachable!("{op}"),
        },
        _ => unreachable!("{a:?} {op} {b:?}"),
    })
}
pub struct Interp<'a> {
    p: &'a Prog,
    pub fuel: u64,
    depth: usize,
    consts: BTreeMap<&'static str, V>,
}
type Env = Vec<Vec<(&'static str, V)>>;
/// Copies a value; arrays inside keep their identity only when `share`.
pub fn deep(v: &V) -> V {
    match v {
        V::Tup(x) => V::Tup(x.iter().map(deep).collect()),
        V::St(x) => V::St(x.iter().map(|(k, v)| (*k, deep(v))).collect()),
        V::Arr(a) => V::Arr(Rc::new(RefCell::new(a.borrow().iter().map(deep).collect()))),
        v => v.clone(),
    }
}
impl<'a> Interp<'a> {
    pub fn new(p: &'a Prog, fuel: u64) -> Self {
        Interp { p, fuel, depth: 0, consts: BTreeMap::new() }
    }
    pub fn run(&mut self, f: &str, args: Vec<V>) -> Result<V, Stop> {
        for (n, _, e) in &self.p.consts {
            let x = self.expr(e, &mut vec![vec![]])?;
            self.consts.insert(n, x);
        }
        self.call(f, args)
    }
    fn call(&mut self, f: &str, args: Vec<V>) -> Result<V, Stop> {
        let f = self.p.fns.iter().find(|g| g.name == f).unwrap();
        self.depth += 1;
        if self.depth > 200 {
            return Err(Stop::Undefined);
        }
        let mut env: Env = vec![f.params.iter().map(|p| p.0).zip(args).collect()];
        let r = self.block(&f.body, &mut env)?;
        self.depth -= 1;
        Ok(match r {
            Flow::Ret(v) => v,
            _ => panic!("function without return"),
        })
    }
    fn block(&mut self, b: &[S], env: &mut Env) -> Result<Flow, Stop> {
        env.push(vec![]);
        for s in b {
            let f = self.stmt(s, env)?;
            if !matches!(f, Flow::Next) {
                env.pop();
                return Ok(f);
            }
        }
        env.pop();
        Ok(Flow::Next)
    }
    fn cond(&mut self, c: &E, env: &mut Env) -> Result<bool, Stop> {
        match self.expr(c, env)? {
            V::B(b) => Ok(b),
            x => panic!("condition {x:?}"),
        }
    }
    fn stmt(&mut self, s: &S, env: &mut Env) -> Result<Flow, Stop> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        match s {
            S::Let(n, _, e) | S::Const(n, _, e) => {
                let x = self.expr(e, env)?;
                env.last_mut().unwrap().push((n, x));
            }
            S::LetT(ns, e) => {
                let V::Tup(xs) = self.expr(e, env)? else { panic!() };
                for (n, x) in ns.iter().zip(xs) {
                    env.last_mut().unwrap().push((n, x));
                }
            }
            S::Set(a, e) => {
                // the value first or the place first: programs here do not depend on it
                let x = self.expr(e, env)?;
                self.assign(a, x, env)?;
            }
            S::Ret(None) => return Ok(Flow::Ret(V::Unit)),
            S::Ret(Some(e)) => return Ok(Flow::Ret(self.expr(e, env)?)),
            S::If(c, t, e) => {
                return if self.cond(c, env)? {
                    self.block(t, env)
                } else if let Some(e) = e {
                    self.block(e, env)
                } else {
                    Ok(Flow::Next)
                }
            }
            S::While(c, b) => {
                while self.cond(c, env)? {
                    if self.fuel == 0 {
                        return Err(Stop::Fuel);
                    }
                    self.fuel -= 1;
                    match self.block(b, env)? {
                        Flow::Break => break,
                        Flow::Ret(v) => return Ok(Flow::Ret(v)),
                        _ => {}
                    }
                }
            }
            S::Loop(b) => loop {
                if self.fuel == 0 {
                    return Err(Stop::Fuel);
                }
                self.fuel -= 1;
                match self.block(b, env)? {
                    Flow::Break => break,
                    Flow::Ret(v) => return Ok(Flow::Ret(v)),
                    _ => {}
                }
            },
            S::For(i, c, st, b) => {
                env.push(vec![]);
                self.stmt(i, env)?;
                while self.cond(c, env)? {
                    if self.fuel == 0 {
                        return Err(Stop::Fuel);
                    }
                    self.fuel -= 1;
                    match self.block(b, env)? {
                        Flow::Break => break,
                        Flow::Ret(v) => {
                            env.pop();
                            return Ok(Flow::Ret(v));
                        }
                        _ => {}
                    }
                    self.stmt(st, env)?;
                }
                env.pop();
            }
            S::Break => return Ok(Flow::Break),
            S::Cont => return Ok(Flow::Cont),
            S::Ex(e) => {
                self.expr(e, env)?;
            }
            S::Block(b) => return self.block(b, env),
        }
        Ok(Flow::Next)
    }
    fn assign(&mut self, a: &E, x: V, env: &mut Env) -> Result<(), Stop> {
        // path from the root variable
        match a {
            E::V(n) => {
                for sc in env.iter_mut().rev() {
                    if let Some(c) = sc.iter_mut().rev().find(|c| c.0 == *n) {
                        c.1 = x;
                        return Ok(());
                    }
                }
                panic!("{n}")
            }
            E::Fld(b, k) => {
                let V::St(mut f) = self.expr(b, env)? else { panic!() };
                f.iter_mut().find(|c| c.0 == *k).unwrap().1 = x;
                self.assign(b, V::St(f), env)
            }
            E::Ix(b, k) => {
                let V::Tup(mut f) = self.expr(b, env)? else { panic!() };
                f[*k] = x;
                self.assign(b, V::Tup(f), env)
            }
            E::At(b, i) => {
                let V::F(i) = self.expr(i, env)? else { panic!() };
                let V::Arr(c) = self.expr(b, env)? else { panic!() };
                let mut c = c.borrow_mut();
                *c.get_mut(i as usize).ok_or(Stop::Undefined)? = x;
                Ok(())
            }
            _ => panic!("{a:?}"),
        }
    }
    fn exprs(&mut self, es: &[E], env: &mut Env) -> Result<Vec<V>, Stop> {
        es.iter().map(|e| self.expr(e, env)).collect()
    }
    pub fn expr(&mut self, e: &E, env: &mut Env) -> Result<V, Stop> {
        Ok(match e {
            E::F(n) | E::L(T::Felt, n) => V::F(*n),
            E::U(n) | E::L(T::U32, n) => V::U(*n),
            E::L(..) => panic!(),
            E::B(b) => V::B(*b),
            E::V(n) => {
                for sc in env.iter().rev() {
                    if let Some(c) = sc.iter().rev().find(|c| c.0 == *n) {
                        return Ok(c.1.clone());
                    }
                }
                deep(&self.consts[n])
            }
            // whether the right side is evaluated when the left one decides is not specified
            E::Bin(op @ ("&&" | "||"), a, b) => {
                let l = self.cond(a, env)?;
                match self.cond(b, env) {
                    Ok(r) => V::B(if *op == "&&" { l && r } else { l || r }),
                    Err(Stop::Panic) if l == (*op == "||") => return Err(Stop::Undefined),
                    Err(s) => return Err(s),
                }
            }
            E::Bin(op, a, b) => {
                let (a, b) = (self.expr(a, env)?, self.expr(b, env)?);
                binop(op, &a, &b)?
            }
            E::Neg(a) => match self.expr(a, env)? {
                V::F(x) => V::F(((P - x as u64) % P) as u32),
                V::U(x) => V::U(x.wrapping_neg()),
                x => panic!("{x:?}"),
            },
            E::Not(a) => match self.expr(a, env)? {
                V::B(x) => V::B(!x),
                x => panic!("{x:?}"),
            },
            E::Call("assert", a) => {
                if self.cond(&a[0], env)? {
                    V::Unit
                } else {
                    return Err(Stop::Panic);
                }
            }
            E::Call(f, a) => {
                let a = self.exprs(a, env)?;
                self.call(f, a)?
            }
            E::Tup(a) => V::Tup(self.exprs(a, env)?),
            E::Fld(a, k) => match self.expr(a, env)? {
                V::St(f) => f.into_iter().find(|c| c.0 == *k).unwrap().1,
                x => panic!("{x:?}"),
            },
            E::Ix(a, k) => match self.expr(a, env)? {
                V::Tup(f) => f[*k].clone(),
                x => panic!("{x:?}"),
            },
            E::At(a, i) => {
                let a = self.expr(a, env)?;
                let V::F(i) = self.expr(i, env)? else { panic!() };
                match a {
                    V::Arr(c) => c.borrow().get(i as usize).filter(|v| **v != V::No).cloned().ok_or(Stop::Undefined)?,
                    x => panic!("{x:?}"),
                }
            }
            E::Sl(n, f) => {
                let mut vals = vec![];
                for (k, e) in f {
                    vals.push((*k, self.expr(e, env)?));
                }
                let order = &self.p.structs.iter().find(|s| s.0 == *n).unwrap().1;
                V::St(order.iter().map(|(k, _)| vals.iter().find(|v| v.0 == *k).unwrap().clone()).collect())
            }
            E::Arr(a) => V::Arr(Rc::new(RefCell::new(self.exprs(a, env)?))),
            E::Rep(a, n) => {
                let x = self.expr(a, env)?;
                V::Arr(Rc::new(RefCell::new((0..*n).map(|_| deep(&x)).collect())))
            }
            E::Cast(a) => match self.expr(a, env)? {
                V::U(x) if (x as u64) < P => V::F(x),
                V::U(_) => return Err(Stop::Panic),
                x => panic!("{x:?}"),
            },
            E::New(_, n) => {
                let V::F(n) = self.expr(n, env)? else { panic!() };
                V::Arr(Rc::new(RefCell::new((0..n).map(|_| V::No).collect())))
            }
        })
    }
}
