//! Reference name resolution over the neutral tree: lexical block scoping, top-level items visible
//! everywhere except constants (visible after their declaration), a `let` visible after itself.
use crate::tree::{Sp, N};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum K {
    Fn,
    Struct,
    Const,
    Use,
    Param,
    Let,
}
#[derive(Debug, Clone)]
pub struct Def {
    pub name: String,
    pub sp: Sp,
    pub kind: K,
    pub used: bool,
}
#[derive(Default, Debug)]
pub struct Res {
    pub defs: Vec<Def>,
    /// (span of the use, definition)
    pub uses: Vec<(Sp, String, Option<usize>)>,
    pub types: Vec<(Sp, String, Option<usize>)>,
    scopes: Vec<Vec<usize>>,
}
fn nm(n: &N) -> String {
    n.l.strip_prefix("id:").unwrap().to_string()
}
impl Res {
    fn def(&mut self, n: &N, kind: K) {
        let i = self.defs.len();
        self.defs.push(Def { name: nm(n), sp: n.sp.unwrap(), kind, used: false });
        self.scopes.last_mut().unwrap().push(i);
    }
    fn find(&self, name: &str) -> Option<usize> {
        for s in self.scopes.iter().rev() {
            if let Some(i) = s.iter().rev().find(|i| self.defs[**i].name == name) {
                return Some(*i);
            }
        }
        None
    }
    fn scoped(&mut self, f: impl FnOnce(&mut Self)) {
        self.scopes.push(vec![]);
        f(self);
        self.scopes.pop();
    }
    fn ty(&mut self, t: &N) {
        if let Some(c) = t.l.strip_prefix("ty:custom:") {
            let r = self.find(c);
            if let Some(i) = r {
                self.defs[i].used = true;
            }
            self.types.push((t.sp.unwrap(), c.to_string(), r));
        }
        for k in &t.k {
            if !k.l.starts_with("n:") {
                self.ty(k);
            }
        }
    }
    fn expr(&mut self, e: &N) {
        match e.l.as_str() {
            "var" => {
                let n = nm(&e.k[0]);
                let r = self.find(&n);
                if let Some(i) = r {
                    self.defs[i].used = true;
                }
                self.uses.push((e.k[0].sp.unwrap(), n, r));
            }
            "member" => self.expr(&e.k[0]),
            "struct" => {
                let n = nm(&e.k[0]);
                let r = self.find(&n);
                if let Some(i) = r {
                    self.defs[i].used = true;
                }
                self.types.push((e.k[0].sp.unwrap(), n, r));
                for p in e.k[1..].chunks(2) {
                    self.expr(&p[1]);
                }
            }
            "cast" => {
                self.expr(&e.k[0]);
                self.ty(&e.k[1]);
            }
            "new" => {
                self.ty(&e.k[0]);
                self.expr(&e.k[1]);
            }
            "repeat" => self.expr(&e.k[0]),
            _ => {
                for k in &e.k {
                    self.expr(k);
                }
            }
        }
    }
    fn pat(&mut self, p: &N, kind: K) {
        if p.l == "patTup" {
            for k in &p.k {
                self.pat(k, kind);
            }
        } else {
            self.def(p, kind);
        }
    }
    fn stmt(&mut self, s: &N) {
        match s.l.as_str() {
            "let" | "constS" => {
                self.expr(&s.k[2]);
                if s.k[1].l != "-" {
                    self.ty(&s.k[1]);
                }
                self.pat(&s.k[0], if s.l == "let" { K::Let } else { K::Const });
            }
            "assign" | "return" | "exprS" => {
                for k in &s.k {
                    self.expr(k);
                }
            }
            "if" => {
                self.expr(&s.k[0]);
                for b in &s.k[1..] {
                    self.scoped(|r| r.stmt(b));
                }
            }
            "block" => self.scoped(|r| {
                for x in &s.k {
                    r.stmt(x);
                }
            }),
            "loop" => self.scoped(|r| r.stmt(&s.k[0])),
            "while" => {
                self.expr(&s.k[0]);
                self.scoped(|r| r.stmt(&s.k[1]));
            }
            "for" => self.scoped(|r| {
                r.stmt(&s.k[0]);
                r.expr(&s.k[1]);
                r.scoped(|r| r.stmt(&s.k[3]));
                r.stmt(&s.k[2]);
            }),
            "break" | "continue" => {}
            x => panic!("statement {x}"),
        }
    }
    pub fn module(m: &N) -> Res {
        let mut r = Res::default();
        r.scopes.push(vec![]);
        for i in &m.k {
            match i.l.as_str() {
                "fn" => r.def(&i.k[0], K::Fn),
                "structDef" => r.def(&i.k[0], K::Struct),
                "use" => {
                    if !i.k[0].k.is_empty() {
                        for it in &i.k[1].k {
                            r.def(it, K::Use);
                        }
                    }
                }
                _ => {}
            }
        }
        for i in &m.k {
            match i.l.as_str() {
                "fn" => r.scoped(|r| {
                    r.ty(&i.k[2]);
                    for p in &i.k[1].k {
                        r.ty(&p.k[1]);
                        r.def(&p.k[0], K::Param);
                    }
                    for s in &i.k[3].k {
                        r.stmt(s);
                    }
                }),
                "structDef" => {
                    for p in i.k[1..].chunks(2) {
                        r.ty(&p[1]);
                    }
                }
                "constT" => {
                    r.expr(&i.k[2]);
                    if i.k[1].l != "-" {
                        r.ty(&i.k[1]);
                    }
                    r.def(&i.k[0], K::Const);
                }
                _ => {}
            }
        }
        r
    }
}
