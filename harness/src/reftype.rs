//! Reference typing of expressions over the neutral tree (types of operators as documented).
use crate::tree::N;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum T {
    Felt,
    U32,
    Bool,
    Struct(String),
    Tuple(Vec<T>),
    Ptr(Box<T>),
    Arr(Box<T>, u64),
}
impl T {
    pub fn show(&self) -> String {
        match self {
            T::Felt => "felt".into(),
            T::U32 => "u32".into(),
            T::Bool => "bool".into(),
            T::Struct(s) => s.clone(),
            T::Tuple(v) if v.len() == 1 => format!("({},)", v[0].show()),
            T::Tuple(v) => format!("({})", v.iter().map(|t| t.show()).collect::<Vec<_>>().join(", ")),
            T::Ptr(t) => format!("{}*", t.show()),
            T::Arr(t, n) => format!("[{}; {}]", t.show(), n),
        }
    }
    pub fn num(&self) -> bool {
        matches!(self, T::Felt | T::U32)
    }
}
#[derive(Default, Clone)]
pub struct Env {
    pub vars: Vec<(String, T)>,
    pub fns: BTreeMap<String, (Vec<T>, T)>,
    pub structs: BTreeMap<String, Vec<(String, T)>>,
}
pub fn ty(n: &N) -> T {
    match n.l.as_str() {
        "ty:felt" => T::Felt,
        "ty:u32" => T::U32,
        "ty:bool" => T::Bool,
        "tyPtr" => T::Ptr(Box::new(ty(&n.k[0]))),
        "tyTup" => T::Tuple(n.k.iter().map(ty).collect()),
        "tyArr" => T::Arr(Box::new(ty(&n.k[0])), n.k[1].l[2..].parse().unwrap()),
        l => T::Struct(l.strip_prefix("ty:custom:").unwrap().to_string()),
    }
}
fn id(n: &N) -> &str {
    n.l.strip_prefix("id:").unwrap()
}
pub fn binary(op: &str, a: &T, b: &T) -> Option<T> {
    let same = a == b;
    match op {
        "+" | "-" | "*" | "/" if same && a.num() => Some(a.clone()),
        "%" | "&" | "|" | "^" if same && *a == T::U32 => Some(T::U32),
        "==" | "!=" if same && (a.num() || *a == T::Bool) => Some(T::Bool),
        "<" | ">" | "<=" | ">=" if same && *a == T::U32 => Some(T::Bool),
        "&&" | "||" if same && *a == T::Bool => Some(T::Bool),
        _ => None,
    }
}
impl Env {
    pub fn var(&self, n: &str) -> Option<&T> {
        self.vars.iter().rev().find(|v| v.0 == n).map(|v| &v.1)
    }
    /// The type of an expression, or None when it has none.
    pub fn expr(&self, e: &N) -> Option<T> {
        let l = e.l.as_str();
        if let Some(r) = l.strip_prefix("lit:") {
            return match r.split(':').nth(1).unwrap() {
                "u32" => Some(T::U32),
                _ => Some(T::Felt),
            };
        }
        if l.starts_with("bool:") {
            return Some(T::Bool);
        }
        if let Some(op) = l.strip_prefix("bin") {
            let (a, b) = (self.expr(&e.k[0])?, self.expr(&e.k[1])?);
            return binary(op, &a, &b);
        }
        if let Some(op) = l.strip_prefix("un") {
            let a = self.expr(&e.k[0])?;
            return match op {
                "-" if a.num() => Some(a),
                "!" if a == T::Bool => Some(a),
                _ => None,
            };
        }
        if let Some(i) = l.strip_prefix("tupidx:") {
            return match self.expr(&e.k[0])? {
                T::Tuple(v) => v.get(i.parse::<usize>().unwrap()).cloned(),
                _ => None,
            };
        }
        match l {
            "var" => self.var(id(&e.k[0])).cloned(),
            "paren" => self.expr(&e.k[0]),
            "cast" => {
                let a = self.expr(&e.k[0])?;
                (a == T::U32 && ty(&e.k[1]) == T::Felt).then_some(T::Felt)
            }
            "member" => match self.expr(&e.k[0])? {
                T::Struct(s) => self.structs.get(&s)?.iter().find(|f| f.0 == id(&e.k[1])).map(|f| f.1.clone()),
                _ => None,
            },
            "index" => {
                let a = self.expr(&e.k[0]);
                let i = self.expr(&e.k[1]);
                match (a?, i?) {
                    (T::Arr(t, _), T::Felt) | (T::Ptr(t), T::Felt) => Some(*t),
                    _ => None,
                }
            }
            "call" => {
                if e.k[0].l != "var" {
                    return None;
                }
                let name = id(&e.k[0].k[0]);
                if self.var(name).is_some() {
                    return None;
                }
                let args: Option<Vec<T>> = e.k[1..].iter().map(|a| self.expr(a)).collect();
                let (ps, r) = self.fns.get(name)?;
                (args? == *ps).then(|| r.clone())
            }
            "struct" => {
                let s = id(&e.k[0]);
                let fs = self.structs.get(s)?;
                let mut seen = vec![];
                for p in e.k[1..].chunks(2) {
                    let n = id(&p[0]);
                    let t = self.expr(&p[1])?;
                    let f = fs.iter().find(|f| f.0 == n)?;
                    if f.1 != t || seen.contains(&n) {
                        return None;
                    }
                    seen.push(n);
                }
                (seen.len() == fs.len()).then(|| T::Struct(s.into()))
            }
            "tuple" => Some(T::Tuple(e.k.iter().map(|k| self.expr(k)).collect::<Option<_>>()?)),
            "array" => {
                let v: Vec<T> = e.k.iter().map(|k| self.expr(k)).collect::<Option<_>>()?;
                let f = v.first()?;
                v.iter().all(|t| t == f).then(|| T::Arr(Box::new(f.clone()), v.len() as u64))
            }
            "repeat" => Some(T::Arr(Box::new(self.expr(&e.k[0])?), e.k[1].l[2..].parse().unwrap())),
            "new" => (self.expr(&e.k[1])? == T::Felt).then(|| T::Ptr(Box::new(ty(&e.k[0])))),
            x => panic!("expression {x}"),
        }
    }
}
