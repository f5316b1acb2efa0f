//! The reference model of names and contexts, on program trees (not text).
use crate::json::{J, R};
use crate::render::{ident, tag};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St { Reserved, Declared, Defined }

/// A variable: the scope instance it belongs to, and its name.
pub type Var = (u64, String);

#[derive(Clone, Debug, PartialEq)]
pub struct Binding {
    pub kind: &'static str, // Variable, Assign, Super, Var
    pub name: String,
    pub distance: Option<u32>,
    pub var: Var,
}

#[derive(Clone, Debug)]
struct Scope { id: u64, vars: BTreeMap<String, St>, over: bool }

#[derive(Clone, Debug, PartialEq)]
pub struct Fault { pub what: &'static str, pub name: String }

#[derive(Clone, Copy, PartialEq)]
enum F { No, Plain, Init, Method }
#[derive(Clone, Copy, PartialEq)]
enum C { No, Plain, Sub }

#[derive(Clone)]
pub struct Model {
    scopes: Vec<Scope>,
    next: u64,
    fun: F,
    class: C,
    loops: usize,
    /// Some scope grew past what may be rejected for its size.
    pub near_limit: bool,
    pub over_limit: bool,
}

pub struct Verdict {
    /// For each top-level statement: its fault, if any.
    pub faults: Vec<Option<Fault>>,
    /// Statements that name a variable whose state an earlier faulty statement
    /// of the same entry leaves open.
    pub unclear: Vec<bool>,
    pub syntax: bool,
    pub bindings: Vec<Binding>,
    pub near_limit: bool,
    pub over_limit: bool,
}
impl Verdict {
    pub fn accepted(&self) -> bool {
        !self.syntax && self.faults.iter().all(|f| f.is_none())
    }
}

pub const SOFT_LIMIT: usize = 240;
pub const HARD_LIMIT: usize = 256;

type Rec = Result<Vec<Binding>, Fault>;
/// Outer: malformed tree. Inner: a broken rule.
type RR = R<Rec>;

macro_rules! tr {
    ($e:expr) => { match $e? { Ok(v) => v, Err(f) => return Ok(Err(f)) } };
}

fn fault(what: &'static str, name: &str) -> RR { Ok(Err(Fault { what, name: name.into() })) }

impl Default for Model { fn default() -> Self { Self::new() } }

impl Model {
    pub fn new() -> Model {
        let mut m = Model { scopes: vec![], next: 0, fun: F::No, class: C::No, loops: 0, near_limit: false, over_limit: false };
        m.push();
        m
    }
    pub fn globals(&self) -> Vec<String> { self.scopes[0].vars.keys().cloned().collect() }
    pub fn has_global(&self, n: &str) -> bool { self.scopes[0].vars.contains_key(n) }

    fn push(&mut self) {
        self.scopes.push(Scope { id: self.next, vars: BTreeMap::new(), over: false });
        self.next += 1;
    }
    fn pop(&mut self) { self.scopes.pop(); }
    fn grew(&mut self, i: usize) {
        let n = self.scopes[i].vars.len();
        if n > SOFT_LIMIT { self.near_limit = true; }
        if n > HARD_LIMIT { self.over_limit = true; self.scopes[i].over = true; }
    }

    /// Judge an entry; the session changes only if it is accepted.
    pub fn entry(&mut self, stmts: &[J]) -> R<Verdict> {
        let saved = self.clone();
        self.near_limit = false;
        self.over_limit = false;
        let mut faults = vec![];
        let mut unclear = vec![];
        let mut bindings = vec![];
        let mut tainted: Vec<String> = vec![];
        let mut syntax = false;
        for s in stmts {
            self.fun = F::No;
            self.class = C::No;
            self.loops = 0;
            let mut names = vec![];
            all_names(s, &mut names);
            unclear.push(names.iter().any(|n| tainted.contains(n)));
            if has_raw(s) || breaks(s, 0) { syntax = true; }
            let depth = self.scopes.len();
            match self.stmt(s)? {
                Ok(b) => { bindings.extend(b); faults.push(None) }
                Err(f) => {
                    self.scopes.truncate(depth);
                    // A global left declared but not defined.
                    if matches!(tag(s)?.0, "var" | "bvar") { tainted.push(s.arr()?[1].str()?.to_string()); }
                    faults.push(Some(f))
                }
            }
        }
        let v = Verdict { faults, unclear, syntax, bindings, near_limit: self.near_limit, over_limit: self.over_limit };
        if !v.accepted() { let n = self.next; *self = saved; self.next = n; }
        Ok(v)
    }

    fn seq(&mut self, l: &[J]) -> RR {
        let mut out = vec![];
        for s in l { out.extend(tr!(self.stmt(s))); }
        Ok(Ok(out))
    }
    fn body(&mut self, j: &J) -> RR {
        let (t, a) = tag(j)?;
        match t {
            "in" => self.stmt(a.first().ok_or("body")?),
            "blk" | "br" => {
                self.push();
                let r = self.seq(a.first().ok_or("body")?.arr()?);
                if let Ok(Ok(_)) = r { self.pop(); }
                r
            }
            _ => Err("bad body".into()),
        }
    }

    fn declare(&mut self, n: &str) -> Result<(), Fault> {
        let g = self.scopes.len() == 1;
        let s = self.scopes.last_mut().unwrap();
        match s.vars.get(n) {
            None => { s.vars.insert(n.into(), St::Declared); }
            Some(St::Reserved) => { s.vars.insert(n.into(), St::Declared); }
            Some(_) if g => {}
            Some(_) => return Err(Fault { what: "duplicate", name: n.into() }),
        }
        let i = self.scopes.len() - 1;
        self.grew(i);
        Ok(())
    }
    fn define(&mut self, n: &str) -> Result<(), Fault> {
        let g = self.scopes.len() == 1;
        let s = self.scopes.last_mut().unwrap();
        if s.vars.get(n) == Some(&St::Defined) && !g {
            return Err(Fault { what: "duplicate", name: n.into() });
        }
        s.vars.insert(n.into(), St::Defined);
        let i = self.scopes.len() - 1;
        self.grew(i);
        Ok(())
    }
    fn find(&mut self, n: &str) -> (u32, Var) {
        let len = self.scopes.len();
        for i in (0..len).rev() {
            if self.scopes[i].vars.contains_key(n) {
                return ((len - 1 - i) as u32, (self.scopes[i].id, n.into()));
            }
        }
        self.scopes[0].vars.insert(n.into(), St::Reserved);
        self.grew(0);
        ((len - 1) as u32, (self.scopes[0].id, n.into()))
    }
    fn function(&mut self, params: &J, body: &J, f: F) -> RR {
        let old = self.fun;
        let loops = std::mem::take(&mut self.loops);
        self.fun = f;
        self.push();
        for p in params.arr()? {
            if let Err(e) = self.define(ident(p)?) { return Ok(Err(e)); }
        }
        let b = tr!(self.seq(body.arr()?));
        self.pop();
        self.fun = old;
        self.loops = loops;
        Ok(Ok(b))
    }

    fn stmt(&mut self, s: &J) -> RR {
        let (t, a) = tag(s)?;
        let arg = |i: usize| a.get(i).ok_or_else(|| "missing child".to_string());
        match t {
            "expr" | "print" => self.expr(arg(0)?),
            "return" => {
                if self.fun == F::No { return fault("return", "return"); }
                let e = arg(0)?;
                if self.fun == F::Init && *e != J::Null && tag(e)?.0 != "nil" { return fault("init-return", "return"); }
                if *e == J::Null { Ok(Ok(vec![])) } else { self.expr(e) }
            }
            "break" | "continue" | "raw" => Ok(Ok(vec![])),
            "var" | "bvar" => {
                let n = ident(arg(0)?)?;
                if let Err(e) = self.declare(n) { return Ok(Err(e)); }
                let var = (self.scopes.last().unwrap().id, n.to_string());
                let mut out = vec![Binding { kind: "Var", name: n.into(), distance: None, var }];
                if *arg(1)? != J::Null { out.extend(tr!(self.expr(arg(1)?))); }
                if let Err(e) = self.define_declared(n) { return Ok(Err(e)); }
                Ok(Ok(out))
            }
            "fun" | "bfun" => {
                if let Err(e) = self.define(ident(arg(0)?)?) { return Ok(Err(e)); }
                self.function(arg(1)?, arg(2)?, F::Plain)
            }
            "class" | "bclass" => {
                let n = ident(arg(0)?)?;
                let sup = arg(1)?;
                let old = self.class;
                self.class = if *sup == J::Null { C::Plain } else { C::Sub };
                if let Err(e) = self.define(n) { return Ok(Err(e)); }
                let mut out = vec![];
                if *sup != J::Null {
                    if ident(sup)? == n { return fault("self-inherit", n); }
                    out.extend(tr!(self.read(ident(sup)?)));
                    self.push();
                    let _ = self.define("super");
                }
                self.push();
                let _ = self.define("this");
                for m in arg(2)?.arr()? {
                    let m = m.arr()?;
                    if m.len() < 4 { return Err("method".into()); }
                    let f = if ident(&m[1])? == "init" { F::Init } else { F::Method };
                    out.extend(tr!(self.function(&m[2], &m[3], f)));
                }
                self.pop();
                if *sup != J::Null { self.pop(); }
                self.class = old;
                Ok(Ok(out))
            }
            "block" => {
                self.push();
                let b = tr!(self.seq(arg(0)?.arr()?));
                self.pop();
                Ok(Ok(b))
            }
            "if" => {
                let mut out = tr!(self.expr(arg(0)?));
                out.extend(tr!(self.body(arg(1)?)));
                if *arg(2)? != J::Null { out.extend(tr!(self.stmt(arg(2)?))); }
                Ok(Ok(out))
            }
            "while" => {
                let mut out = tr!(self.expr(arg(0)?));
                out.extend(tr!(self.body(arg(1)?)));
                Ok(Ok(out))
            }
            "for" => {
                let init = *arg(0)? != J::Null;
                let mut out = vec![];
                if init { self.push(); out.extend(tr!(self.stmt(arg(0)?))); }
                if *arg(1)? != J::Null { out.extend(tr!(self.expr(arg(1)?))); }
                out.extend(tr!(self.body(arg(3)?)));
                if *arg(2)? != J::Null { out.extend(tr!(self.expr(arg(2)?))); }
                if init { self.pop(); }
                Ok(Ok(out))
            }
            _ => Err(format!("bad statement {t}")),
        }
    }
    fn define_declared(&mut self, n: &str) -> Result<(), Fault> {
        let s = self.scopes.last_mut().unwrap();
        s.vars.insert(n.into(), St::Defined);
        Ok(())
    }

    fn read(&mut self, n: &str) -> RR {
        if self.scopes.last().unwrap().vars.get(n) == Some(&St::Declared) {
            return fault("own-initializer", n);
        }
        let (d, var) = self.find(n);
        Ok(Ok(vec![Binding { kind: "Variable", name: n.into(), distance: Some(d), var }]))
    }
    fn all(&mut self, es: &[&J]) -> RR {
        let mut out = vec![];
        for e in es { out.extend(tr!(self.expr(e))); }
        Ok(Ok(out))
    }

    fn expr(&mut self, e: &J) -> RR {
        let (t, a) = tag(e)?;
        let arg = |i: usize| a.get(i).ok_or_else(|| "missing child".to_string());
        match t {
            "num" | "str" | "bool" | "nil" => Ok(Ok(vec![])),
            "id" => self.read(ident(arg(0)?)?),
            "this" => {
                if self.class == C::No { return fault("this", "this"); }
                self.read("this")
            }
            "super" => {
                if self.class != C::Sub { return fault("super", "super"); }
                let (d, var) = self.find("super");
                Ok(Ok(vec![Binding { kind: "Super", name: "super".into(), distance: Some(d), var }]))
            }
            "assign" => {
                let n = ident(arg(0)?)?;
                let rhs = tr!(self.expr(arg(1)?));
                let (d, var) = self.find(n);
                let mut out = vec![Binding { kind: "Assign", name: n.into(), distance: Some(d), var }];
                out.extend(rhs);
                Ok(Ok(out))
            }
            "bin" | "logic" => self.all(&[arg(1)?, arg(2)?]),
            "un" => self.expr(arg(1)?),
            "group" => self.expr(arg(0)?),
            "get" => self.expr(arg(0)?),
            "set" => self.all(&[arg(0)?, arg(2)?]),
            "idx" => self.all(&[arg(0)?, arg(1)?]),
            "setidx" => self.all(&[arg(0)?, arg(1)?, arg(2)?]),
            "call" | "jcall" => {
                let mut v = vec![arg(0)?];
                v.extend(arg(1)?.arr()?);
                self.all(&v)
            }
            "arr" => { let v: Vec<&J> = arg(0)?.arr()?.iter().collect(); self.all(&v) }
            "map" | "imap" | "bmap" => {
                let mut v = vec![];
                let mut keys = vec![];
                for en in arg(0)?.arr()? {
                    let en = en.arr()?;
                    if en.len() < 2 { return Err("entry".into()); }
                    let k = en[0].str()?;
                    // A repeated key is a syntax error; the generator does not use it.
                    if keys.contains(&k) { return Err("repeated key".into()); }
                    keys.push(k);
                    v.push(&en[1]);
                }
                self.all(&v)
            }
            "lam" => self.function(arg(0)?, arg(1)?, F::Plain),
            _ => Err(format!("bad expression {t}")),
        }
    }
}

fn has_raw(j: &J) -> bool {
    match j {
        J::Arr(v) => v.first() == Some(&J::Str("raw".into())) || v.iter().any(has_raw),
        _ => false,
    }
}
/// A break or continue outside a loop.
fn breaks(j: &J, loops: usize) -> bool {
    let J::Arr(v) = j else { return false };
    match v.first() {
        Some(J::Str(t)) if (t == "break" || t == "continue") && v.len() == 1 => loops == 0,
        Some(J::Str(t)) if ["fun", "lam", "class", "bfun", "bclass"].contains(&t.as_str()) => v.iter().any(|x| breaks(x, 0)),
        Some(J::Str(t)) if t == "while" || t == "for" => {
            let n = v.len() - 1;
            v[..n].iter().any(|x| breaks(x, loops)) || breaks(&v[n], loops + 1)
        }
        _ => v.iter().any(|x| breaks(x, loops)),
    }
}
/// All identifiers anywhere in the statement.
pub fn all_names(j: &J, out: &mut Vec<String>) {
    match j {
        J::Str(s) => out.push(s.clone()),
        J::Arr(v) => v.iter().for_each(|x| all_names(x, out)),
        _ => {}
    }
}
