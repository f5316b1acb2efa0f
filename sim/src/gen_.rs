//! Generates programs and session entries as trees (see render.rs).
use crate::jarr;
use crate::json::J;
use crate::rng::Rng;

#[derive(Clone)]
pub struct Cfg {
    pub single: bool,  // only statements that fit on a line
    pub bad: usize,    // percent of places where a rule is broken
    pub raw: usize,    // percent of entries that are not even statements
    pub depth: usize,
    pub stmts: usize,  // statements per list
    pub names: usize,  // size of the name pool
    pub unicode: bool,
    pub ml_str: bool,
    pub multiline_raw: bool,
    pub open_end: bool, // the last statement may end the text in a brace
}
impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            single: false,
            bad: *r.pick(&[0, 0, 1, 3, 10]),
            raw: *r.pick(&[0, 0, 5, 20]),
            depth: r.range(1, 5),
            stmts: r.range(1, 5),
            names: r.range(2, 12),
            unicode: r.pct(50),
            ml_str: r.pct(30),
            multiline_raw: false,
            open_end: false,
        }
    }
}

const NAMES: [&str; 14] = ["a", "b", "c", "x", "y", "foo", "n", "bar_2", "_t", "i", "item", "acc", "left", "zz9"];
const UNAMES: [&str; 10] = ["é", "名前", "größe", "ñandú", "переменная", "e\u{301}t", "ét", "ß", "ﬁx", "Å"];
/// Names close to keywords, to names with a meaning, or to each other.
const ODD: [&str; 20] = [
    "init", "Foo", "FOO", "thisx", "superb", "printer", "nilly", "o", "an", "classy", "self", "e1", "x1", "X", "__", "If", "THIS", "vars", "func", "a_",
];
const CLASSES: [&str; 4] = ["A", "B", "Shape", "Node"];
const PROPS: [&str; 6] = ["p", "len", "next", "add", "init", "val"];
const STRS: [&str; 10] = ["", "s", "hello world", "line // not a comment", "héllo", "日本語テキスト", "👩‍👩‍👧 family", "a\\n", "{}", "e\u{301}e\u{301}"];
const NUMS: [&str; 16] = ["00", "007", "1.0", "1.50", "0.30000000000000004", "16777217", "3.141592653589793238", "0", "1", "2", "10", "42", "3.25", "0.1", "123456789012", "9007199254740993"];
pub const RAW: [&str; 23] = [
    "print", "var 1", "1 = 2", ")", "this = 1", "var", "fun", "class", "if", "while (", "return return", "x = = 1",
    "@", "a $ b", "\tprint 1", "{a: 1, a: 2} b", "for (i)", "super", "super.", "print 1 2 3)", "foo(1, ", "[1, 2", "f(a: 1, a: 2)",
];
/// Raw lines that are complete lines (they neither continue nor open a string).
pub const RAW_LINE: [&str; 13] = [
    "print", "var 1", "1 = 2", ")", "this = 1", "var", "return return", "x = = 1", "@", "a $ b", "super", "print 1 2 3)", "]",
];

pub struct Gen<'a> {
    pub r: &'a mut Rng,
    pub c: Cfg,
    names: Vec<String>,
    scopes: Vec<Vec<String>>, // names declared in the local scopes
    braces: usize,            // open lists in braces
    fun: u8,                  // 0 none, 1 plain or method, 2 init
    class: u8,                // 0 none, 1 plain, 2 sub
    loops: usize,
    depth: usize,
    avoid: Vec<String>,
    budget: isize,
}

fn node(t: &str, mut a: Vec<J>) -> J {
    let mut v = vec![J::from(t)];
    v.append(&mut a);
    J::Arr(v)
}

impl<'a> Gen<'a> {
    pub fn new(r: &'a mut Rng, c: Cfg) -> Gen<'a> {
        let mut names: Vec<String> = vec![];
        if r.below(40) == 0 {
            // Long names that differ at one place.
            let k = *r.pick(&[15usize, 31, 62, 63, 127, 255, 256, 1024]);
            let first = r.pct(20);
            while names.len() < c.names {
                let l = "n".repeat(k);
                names.push(if first { format!("v{}{l}", names.len()) } else { format!("{l}{}", names.len()) });
            }
        }
        let odd = r.pct(15);
        while names.len() < c.names {
            if odd && r.pct(40) {
                let n = r.pick(&ODD).to_string();
                if !names.contains(&n) { names.push(n); continue; }
            }
            let n = if c.unicode && r.pct(25) { r.pick(&UNAMES).to_string() } else { r.pick(&NAMES).to_string() };
            let n = if names.contains(&n) { format!("{n}{}", r.below(30)) } else { n };
            if !names.contains(&n) && crate::render::ident(&J::from(n.as_str())).is_ok() { names.push(n); }
            else if !names.is_empty() && r.pct(30) { break; }
        }
        Gen { r, c, names, scopes: vec![], fun: 0, class: 0, loops: 0, depth: 0, avoid: vec![], budget: 0, braces: 0 }
    }
    pub fn names(&self) -> &Vec<String> { &self.names }

    /// One entry: a list of top-level statements.
    pub fn entry(&mut self) -> Vec<J> {
        self.budget = if self.c.single { 25 } else { 30 + self.r.skew(120) as isize };
        let n = self.r.range(1, self.c.stmts);
        let mut v: Vec<J> = vec![];
        for _ in 0..n {
            if self.c.raw > 0 && self.r.below(100 * n) < self.c.raw {
                let l = if self.c.multiline_raw { *self.r.pick(&RAW) } else { *self.r.pick(&RAW_LINE) };
                v.push(node("raw", vec![J::from(l)]));
            } else if v.is_empty() && self.r.pct(2) {
                let m = self.entries(true);
                v.push(if m.is_empty() { self.stmt() } else { node("expr", vec![node("bmap", vec![J::Arr(m)])]) });
            } else {
                v.push(self.stmt());
            }
        }
        if !(self.c.open_end && self.r.pct(50)) { fix_blocks(&mut v); }
        v
    }
    fn bad(&mut self) -> bool { self.c.bad > 0 && self.r.below(100) < self.c.bad }
    fn name(&mut self) -> String {
        for _ in 0..5 {
            let n = if self.r.pct(8) { self.r.pick(&CLASSES).to_string() } else { self.r.pick(&self.names).clone() };
            if !self.avoid.contains(&n) { return n; }
        }
        "other".into()
    }
    fn prop(&mut self) -> String { self.r.pick(&PROPS).to_string() }
    /// A name that can be declared here.
    fn fresh(&mut self) -> String {
        let bad = self.bad();
        for _ in 0..6 {
            let n = self.r.pick(&self.names).clone();
            if let Some(s) = self.scopes.last() {
                if s.contains(&n) == bad { return n; }
            } else {
                return n;
            }
        }
        for k in 0.. {
            let n = format!("v{k}");
            if self.scopes.last().is_none_or(|s| !s.contains(&n)) { return n; }
        }
        unreachable!()
    }
    fn decl(&mut self, n: &str) {
        if let Some(s) = self.scopes.last_mut() { s.push(n.into()); }
    }

    fn list(&mut self) -> Vec<J> {
        let n = self.r.range(1, self.c.stmts.min(4));
        let mut v: Vec<J> = (0..n).map(|_| self.stmt()).collect();
        fix_blocks(&mut v);
        v
    }
    fn scoped_list(&mut self) -> Vec<J> {
        self.depth += 1;
        self.scopes.push(vec![]);
        let v = self.list();
        self.scopes.pop();
        self.depth -= 1;
        v
    }
    fn inline(&mut self) -> J {
        if self.bad() && self.r.pct(35) {
            if let Some(s) = self.context_fault() { return s; }
        }
        match self.r.below(if self.loops > 0 { 6 } else { 4 }) {
            0 | 1 => { let e = self.top_expr(); node("expr", vec![e]) }
            2 => { let e = self.top(); node("print", vec![e]) }
            3 => if self.fun > 0 { self.ret() } else { let e = self.top(); node("print", vec![e]) },
            4 => node("break", vec![]),
            _ => node("continue", vec![]),
        }
    }
    /// A list in braces. On one line it holds only statements that end in a
    /// brace themselves.
    fn brace_list(&mut self) -> Vec<J> {
        self.depth += 1;
        self.braces += 1;
        let mut v = vec![];
        if self.depth <= self.c.depth && self.budget > 0 {
            let tight = self.c.single || self.r.pct(40);
            for _ in 0..self.r.skew(4) {
                v.push(if tight { self.braced() } else { self.stmt() });
            }
            if self.r.pct(30) {
                let n = self.fresh();
                self.avoid.push(n.clone());
                let m = self.entries(false);
                self.avoid.pop();
                let mut m = jarr!["map", J::Arr(m)];
                if self.bad() && self.r.pct(30) { implant(self.r, &mut m, &jarr!["id", n.as_str()]); }
                self.decl(&n);
                v.push(jarr!["bvar", n, m]);
            }
        }
        self.depth -= 1;
        self.braces -= 1;
        v
    }
    fn scoped_braces(&mut self) -> Vec<J> {
        self.scopes.push(vec![]);
        let v = self.brace_list();
        self.scopes.pop();
        v
    }
    fn brace_function(&mut self, fun: u8) -> (J, J) {
        let (pj, ps) = self.params();
        let (f, l) = (self.fun, self.loops);
        self.fun = fun;
        self.loops = 0;
        self.scopes.push(ps);
        let b = self.brace_list();
        self.scopes.pop();
        self.fun = f;
        self.loops = l;
        (pj, J::Arr(b))
    }
    /// A statement that ends in a brace.
    fn braced(&mut self) -> J {
        self.budget -= 1;
        if self.bad() && self.r.pct(25) {
            let n = self.r.pick(&CLASSES).to_string();
            return match self.r.below(3) {
                0 => jarr!["bclass", n.as_str(), n.as_str(), J::Arr(vec![])],
                1 => jarr!["bfun", "twice", J::from(vec!["q".to_string(), "q".to_string()]), J::Arr(vec![])],
                _ => jarr!["while", if self.class == 0 { jarr!["this"] } else { jarr!["nil"] }, jarr!["br", J::Arr(vec![])]],
            };
        }
        match self.r.below(8) {
            0 | 1 => {
                let n = self.fresh();
                self.decl(&n);
                let (p, b) = self.brace_function(1);
                node("bfun", vec![J::from(n), p, b])
            }
            2 => self.class_(true),
            3 => {
                let c = self.e(2);
                let t = self.scoped_braces();
                let e = if self.r.pct(60) { J::Null } else { let l = self.scoped_braces(); node("block", vec![J::Arr(l)]) };
                node("if", vec![c, node("br", vec![J::Arr(t)]), e])
            }
            4 => {
                let c = self.e(2);
                self.loops += 1;
                let b = self.scoped_braces();
                self.loops -= 1;
                node("while", vec![c, node("br", vec![J::Arr(b)])])
            }
            5 => {
                self.scopes.push(vec![]);
                let n = self.fresh();
                self.avoid.push(n.clone());
                let mut e = self.e(1);
                self.avoid.pop();
                if self.bad() && self.r.pct(30) { implant(self.r, &mut e, &jarr!["id", n.as_str()]); }
                self.decl(&n);
                let c = self.e(2);
                let inc = if self.r.pct(70) { self.e(2) } else { J::Null };
                self.loops += 1;
                let b = self.scoped_braces();
                self.loops -= 1;
                self.scopes.pop();
                node("for", vec![jarr!["var", n, e], c, inc, node("br", vec![J::Arr(b)])])
            }
            _ => { let l = self.scoped_braces(); node("block", vec![J::Arr(l)]) }
        }
    }
    fn body(&mut self) -> J {
        if self.c.single || self.r.pct(20) || self.budget < 0 || self.depth >= self.c.depth {
            let s = self.inline();
            node("in", vec![s])
        } else {
            let l = self.scoped_list();
            node("blk", vec![J::Arr(l)])
        }
    }
    fn loop_body(&mut self) -> J {
        self.loops += 1;
        let b = self.body();
        self.loops -= 1;
        b
    }
    fn ret(&mut self) -> J {
        let value = if self.fun == 2 { self.bad() } else { self.r.pct(75) };
        let e = if value { self.top() } else { J::Null };
        node("return", vec![e])
    }
    fn params(&mut self) -> (J, Vec<String>) {
        let mut n = self.r.skew(3);
        if self.r.below(150) == 0 { n = self.r.range(4, 40); }
        self.scopes.push(vec![]);
        let mut ps = vec![];
        for _ in 0..n {
            let p = self.fresh();
            self.decl(&p);
            ps.push(p);
        }
        self.scopes.pop();
        (J::from(ps.clone()), ps)
    }
    fn function(&mut self, fun: u8) -> (J, J) {
        let (pj, ps) = self.params();
        let (f, l) = (self.fun, self.loops);
        self.fun = fun;
        self.loops = 0;
        self.depth += 1;
        self.scopes.push(ps);
        let b = self.list();
        self.scopes.pop();
        self.depth -= 1;
        self.fun = f;
        self.loops = l;
        (pj, J::Arr(b))
    }

    pub fn stmt(&mut self) -> J {
        self.budget -= 1;
        if self.bad() && self.r.pct(35) {
            if !self.c.single && self.r.pct(20) {
                let n = self.r.pick(&CLASSES).to_string();
                return jarr!["class", n.as_str(), n.as_str(), J::Arr(vec![jarr![false, "m", J::Arr(vec![]), J::Arr(vec![jarr!["print", jarr!["nil"]]])]])];
            }
            if let Some(s) = self.context_fault() { return s; }
        }
        let deep = self.depth >= self.c.depth || self.budget < 0;
        if !deep && self.r.pct(8) { return self.braced(); }
        let k = self.r.below(if self.c.single { 60 } else if deep { 55 } else { 100 });
        match k {
            0..=17 => { let e = self.top_expr(); node("expr", vec![e]) }
            18..=27 => { let e = self.top(); node("print", vec![e]) }
            28..=49 => self.var(),
            50..=54 => {
                if self.loops > 0 && self.r.pct(40) { node(if self.r.pct(50) { "break" } else { "continue" }, vec![]) }
                else if self.fun > 0 { self.ret() } else { self.var() }
            }
            55..=56 | 60..=67 => {
                let c = self.e(2);
                let t = self.body();
                let inline_if = tag_of(&t) == "in";
                let e = if self.c.single || self.r.pct(60) || inline_if && has_open_if(&t) { J::Null } else { self.else_(3) };
                node("if", vec![c, t, e])
            }
            57..=58 | 68..=73 => { let c = self.e(2); let b = self.loop_body(); node("while", vec![c, b]) }
            59 | 74..=79 => {
                self.scopes.push(vec![]);
                let init = if self.r.pct(70) {
                    let n = self.fresh();
                    self.avoid.push(n.clone());
                    let mut e = if self.r.pct(80) { self.e(1) } else { J::Null };
                    self.avoid.pop();
                    if self.bad() && self.r.pct(30) { implant(self.r, &mut e, &jarr!["id", n.as_str()]); }
                    self.decl(&n);
                    jarr!["var", n, e]
                } else { J::Null };
                let c = if self.r.pct(80) { self.e(2) } else { J::Null };
                let inc = if self.r.pct(70) { self.e(2) } else { J::Null };
                let b = self.loop_body();
                self.scopes.pop();
                node("for", vec![init, c, inc, b])
            }
            80..=88 => {
                let n = self.fresh();
                self.decl(&n);
                let (p, b) = self.function(1);
                node("fun", vec![J::from(n), p, b])
            }
            89..=96 => self.class(),
            _ => { let l = self.scoped_braces(); node("block", vec![J::Arr(l)]) }
        }
    }
    /// A line that has no business here.
    fn context_fault(&mut self) -> Option<J> {
        match self.r.below(4) {
            0 if self.fun == 0 => { let e = if self.r.pct(30) { J::Null } else { self.top() }; Some(node("return", vec![e])) }
            1 if self.class == 0 => {
                let mut e = if self.r.pct(60) { self.e(3) } else { J::Null };
                if !implant(self.r, &mut e, &jarr!["this"]) { e = jarr!["this"]; }
                Some(jarr!["print", e])
            }
            2 if self.class != 2 => {
                let mut e = if self.r.pct(60) { self.e(3) } else { J::Null };
                if implant(self.r, &mut e, &jarr!["super", "m"]) { return Some(jarr!["print", e]); }
                Some(jarr!["expr", jarr!["call", jarr!["super", "m"], J::Arr(vec![])]])
            }
            3 if self.loops == 0 && self.r.pct(40) => Some(node(if self.r.pct(50) { "break" } else { "continue" }, vec![])),
            _ => None,
        }
    }
    fn else_(&mut self, n: usize) -> J {
        if n > 0 && self.r.pct(30) {
            let c = self.e(1);
            let l = self.scoped_list();
            let e = if self.r.pct(50) { J::Null } else { self.else_(n - 1) };
            node("if", vec![c, node("blk", vec![J::Arr(l)]), e])
        } else {
            self.inline()
        }
    }
    fn var(&mut self) -> J {
        let n = self.fresh();
        let own = self.bad() && self.r.pct(50);
        let e = if own {
            let mut e = if !self.c.single && self.r.pct(8) {
                let m = self.entries(true);
                if m.is_empty() { self.top() } else { node("imap", vec![J::Arr(m)]) }
            } else if self.r.pct(80) { self.top() } else { J::Null };
            if !implant(self.r, &mut e, &jarr!["id", n.as_str()]) {
                e = J::Arr(vec![J::from("bin"), J::from("+"), jarr!["num", "1"], jarr!["id", n.as_str()]]);
            }
            e
        } else if self.r.pct(10) {
            J::Null
        } else {
            self.avoid.push(n.clone());
            let e = if !self.c.single && self.r.pct(6) {
                let m = self.entries(true);
                if m.is_empty() { self.top() } else { node("imap", vec![J::Arr(m)]) }
            } else {
                self.top()
            };
            self.avoid.pop();
            e
        };
        self.decl(&n);
        node("var", vec![J::from(n), e])
    }
    fn class(&mut self) -> J { self.class_(false) }
    fn class_(&mut self, braces: bool) -> J {
        let mut n = self.r.pick(&CLASSES).to_string();
        if let Some(s) = self.scopes.last() {
            while s.contains(&n) { n.push('1'); }
        }
        self.decl(&n);
        let sup = if self.r.pct(45) {
            let s = if self.r.pct(70) { self.r.pick(&CLASSES).to_string() } else { self.name() };
            if s == n { J::from("Base") } else { J::from(s) }
        } else { J::Null };
        let (c, _) = (self.class, 0);
        self.class = if sup == J::Null { 1 } else { 2 };
        self.depth += 1;
        let most = if self.r.pct(8) { 6 } else { 3 };
        let k = if braces { self.r.below(most) } else { self.r.range(1, most) };
        let mut ms = vec![];
        for _ in 0..k {
            let m = self.prop();
            let is_class = self.r.pct(15);
            let f = if m == "init" { 2 } else { 1 };
            let (p, b) = if braces { self.brace_function(f) } else { self.function(f) };
            ms.push(jarr![is_class, m, p, b]);
        }
        self.depth -= 1;
        self.class = c;
        jarr![if braces { "bclass" } else { "class" }, n, sup, J::Arr(ms)]
    }

    /// An expression statement. One that starts like a map entry would carry on
    /// the map of the line before.
    fn top_expr(&mut self) -> J {
        let e = self.top();
        if tag_of(&e) == "bmap" { self.e(2) } else { e }
    }
    /// Whole right-hand sides and expression statements.
    pub fn top(&mut self) -> J {
        let k = self.r.below(100);
        // A map without braces, which only an end of line can end.
        if self.braces == 0 && self.r.pct(4) {
            let m = self.entries(true);
            if !m.is_empty() { return node("bmap", vec![J::Arr(m)]); }
        }
        match k {
            0..=11 => {
                let f = self.callee();
                let n = self.r.range(1, 3);
                let mut a: Vec<J> = (0..n).map(|_| self.e(1)).collect();
                if self.braces == 0 && self.r.pct(12) {
                    let m = self.entries(false);
                    if !m.is_empty() { a.pop(); a.push(node("bmap", vec![J::Arr(m)])); }
                }
                node("jcall", vec![f, J::Arr(a)])
            }
            12..=27 => {
                let n = self.name_any();
                let e = if self.r.pct(30) { self.top() } else { self.e(2) };
                node("assign", vec![J::from(n), e])
            }
            28..=35 => {
                let o = self.callee();
                let p = self.prop();
                let e = self.e(2);
                node("set", vec![o, J::from(p), e])
            }
            36..=41 => {
                let o = self.callee();
                let i = self.e(1);
                let e = self.e(2);
                node("setidx", vec![o, i, e])
            }
            _ => self.e(3),
        }
    }
    fn name_any(&mut self) -> String { self.r.pick(&self.names).clone() }
    fn callee(&mut self) -> J {
        if self.class == 2 && self.r.pct(30) { let p = self.prop(); return jarr!["super", p]; }
        if self.class > 0 && self.r.pct(30) { return jarr!["this"]; }
        let n = self.name();
        let id = jarr!["id", n];
        if self.r.pct(25) { let p = self.prop(); jarr!["get", id, p] } else { id }
    }
    fn entries(&mut self, deep: bool) -> Vec<J> {
        let n = self.r.skew(5);
        let mut keys: Vec<String> = vec![];
        let mut out = vec![];
        for _ in 0..n {
            let k = match self.r.below(3) {
                0 => self.prop(),
                1 => format!("k{}", self.r.below(20)),
                _ => ["key with space", "é!", "#1", "日本", "a_b", "_", "__x9", "größe", "k_1", "aK", "", "{", "//"][self.r.below(13)].to_string(),
            };
            if keys.contains(&k) { continue; }
            keys.push(k.clone());
            let e = self.e(if deep { 2 } else { 1 });
            out.push(jarr![k, e]);
        }
        out
    }
    pub fn e(&mut self, d: usize) -> J {
        self.budget -= 1;
        let leaf = d == 0 || self.budget < 0;
        let k = self.r.below(if leaf { 40 } else { 100 });
        match k {
            0..=7 => node("num", vec![J::from(*self.r.pick(&NUMS))]),
            8..=12 => {
                let mut s = if self.c.unicode { self.r.pick(&STRS).to_string() } else { self.r.pick(&STRS[..4]).to_string() };
                if self.c.ml_str && !self.c.single && self.r.pct(30) { s.push_str("\nsecond"); }
                node("str", vec![J::from(s)])
            }
            13..=14 => node("bool", vec![J::from(self.r.pct(50))]),
            15 => node("nil", vec![]),
            16..=36 => { let n = self.name(); jarr!["id", n] }
            37..=39 => {
                if self.class > 0 { jarr!["this"] } else { let n = self.name(); jarr!["id", n] }
            }
            40..=54 => {
                let op = *self.r.pick(&["==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/"]);
                let l = self.e(d - 1);
                let r = self.e(d - 1);
                jarr!["bin", op, l, r]
            }
            55..=59 => { let l = self.e(d - 1); let r = self.e(d - 1); jarr!["logic", if k % 2 == 0 { "and" } else { "or" }, l, r] }
            60..=64 => { let e = self.e(d - 1); jarr!["un", if k % 2 == 0 { "-" } else { "!" }, e] }
            65..=72 => {
                let f = self.callee();
                let n = self.r.skew(3);
                let a: Vec<J> = (0..n).map(|_| self.e(d - 1)).collect();
                node("call", vec![f, J::Arr(a)])
            }
            73..=76 => { let o = self.callee(); let p = self.prop(); jarr!["get", o, p] }
            77..=79 => { let o = self.callee(); let i = self.e(d - 1); jarr!["idx", o, i] }
            80..=83 => { let e = self.e(d - 1); jarr!["group", e] }
            84..=87 => { let n = self.r.skew(4); let a: Vec<J> = (0..n).map(|_| self.e(d - 1)).collect(); node("arr", vec![J::Arr(a)]) }
            88..=91 => { let m = self.entries(false); node("map", vec![J::Arr(m)]) }
            92..=94 => { let n = self.name_any(); let e = self.e(d - 1); jarr!["group", jarr!["assign", n, e]] }
            _ => {
                if self.depth >= self.c.depth || self.r.pct(30) {
                    let (p, _) = self.params();
                    jarr!["lam", p, J::Arr(vec![])]
                } else {
                    let av = std::mem::take(&mut self.avoid);
                    let (p, b) = self.brace_function(1);
                    self.avoid = av;
                    jarr!["lam", p, b]
                }
            }
        }
    }
}

fn tag_of(j: &J) -> &str {
    match j { J::Arr(v) => v.first().and_then(|x| x.str().ok()).unwrap_or(""), _ => "" }
}
fn has_open_if(j: &J) -> bool {
    match j { J::Arr(v) => tag_of(j) == "if" || v.iter().any(has_open_if), _ => false }
}
/// A statement that ends in a brace cannot be the last of its list.
fn fix_blocks(v: &mut Vec<J>) {
    if v.last().is_some_and(|s| crate::render::tight(s).unwrap_or(false)) {
        v.push(jarr!["print", jarr!["nil"]]);
    }
}

/// Puts `what` in the place of some plain part of an expression, outside the
/// functions in it.
fn implant(r: &mut Rng, e: &mut J, what: &J) -> bool {
    fn go(e: &mut J, n: &mut i64, what: &J) -> bool {
        let t = tag_of(e).to_string();
        let J::Arr(v) = e else { return false };
        let list = |x: Option<&mut J>, n: &mut i64| match x { Some(J::Arr(l)) => l.iter_mut().any(|x| go(x, n, what)), _ => false };
        match t.as_str() {
            "id" | "num" | "str" | "bool" | "nil" => {
                *n -= 1;
                if *n == 0 { *e = what.clone(); return true; }
                false
            }
            "map" | "bmap" | "imap" => match v.get_mut(1) {
                Some(J::Arr(l)) => l.iter_mut().any(|x| match x { J::Arr(p) => p.get_mut(1).is_some_and(|x| go(x, n, what)), _ => false }),
                _ => false,
            },
            "arr" => list(v.get_mut(1), n),
            "call" | "jcall" => list(v.get_mut(2), n),
            "bin" | "logic" => v[2..].iter_mut().any(|x| go(x, n, what)),
            "un" | "assign" => go(&mut v[2], n, what),
            "group" => go(&mut v[1], n, what),
            "idx" => go(&mut v[2], n, what),
            "set" => go(&mut v[3], n, what),
            "setidx" => v[2..].iter_mut().any(|x| go(x, n, what)),
            _ => false,
        }
    }
    let mut n = 1 + r.skew(6) as i64;
    while n > 0 {
        let k = n;
        if go(e, &mut n, what) { return true; }
        // Fewer places than that.
        if n == k { return false; }
        n = 1 + r.below((k - n) as usize) as i64;
    }
    true
}

/// One statement that sits in a chain of contexts, each with uses and
/// declarations of a few names around it. Deep chains are made of braces.
pub fn nest(r: &mut Rng, levels: usize, bad: usize) -> J {
    const N: [&str; 6] = ["a", "b", "x", "foo", "t", "this_"];
    let deep = levels > 12;
    let p_side = if deep { 4 } else { 45 };
    // Names already declared in the list under construction.
    fn use_(r: &mut Rng) -> J {
        let n = *r.pick(&N);
        match r.below(4) {
            0 | 1 => jarr!["print", jarr!["id", n]],
            2 => jarr!["expr", jarr!["assign", n, jarr!["num", "1"]]],
            _ => jarr!["expr", jarr!["call", jarr!["id", n], J::Arr(vec![jarr!["id", *r.pick(&N)]])]],
        }
    }
    fn side(r: &mut Rng, v: &mut Vec<J>, had: &mut Vec<String>, bad: usize) {
        if r.pct(50) { v.push(use_(r)); return; }
        let n = *r.pick(&N);
        if had.iter().any(|h| h == n) && !r.pct(bad) { v.push(use_(r)); return; }
        let e = if r.pct(bad / 2) { jarr!["id", n] } else if r.pct(40) { let m = *r.pick(&N); if m == n { jarr!["nil"] } else { jarr!["id", m] } } else { jarr!["num", "2"] };
        had.push(n.into());
        v.push(jarr!["var", n, e]);
    }
    let leaf = |r: &mut Rng| match r.below(16) {
        0 => jarr!["return", J::Null],
        1 => jarr!["return", jarr!["num", "1"]],
        2 => jarr!["return", jarr!["this"]],
        3 => jarr!["print", jarr!["this"]],
        4 => jarr!["expr", jarr!["set", jarr!["this"], "p", jarr!["id", "a"]]],
        5 => jarr!["expr", jarr!["super", "m"]],
        6 => jarr!["expr", jarr!["call", jarr!["super", "init"], J::Arr(vec![])]],
        7 => jarr!["break"],
        8 => jarr!["continue"],
        9 => jarr!["return", jarr!["nil"]],
        _ => use_(r),
    };
    let mut inner: Vec<J> = vec![];
    let mut tight = deep || r.pct(20);
    let mut had: Vec<String> = vec![];
    if !tight {
        while r.pct(40) { side(r, &mut inner, &mut had, bad); }
        inner.push(leaf(r));
        if r.pct(30) { inner.push(leaf(r)); }
        while r.pct(30) { side(r, &mut inner, &mut had, bad); }
    } else {
        // Something that ends in a brace and uses names.
        let n = *r.pick(&N);
        inner.push(match r.below(3) {
            0 => jarr!["while", jarr!["id", n], jarr!["br", J::Arr(vec![])]],
            1 => jarr!["if", if r.pct(30) { jarr!["this"] } else { jarr!["id", n] }, jarr!["br", J::Arr(vec![])], J::Null],
            _ => jarr!["bclass", "L", n, J::Arr(vec![])],
        });
    }
    // A chain of one kind, at times.
    let only = r.pct(30).then(|| r.below(if deep { 10 } else { 16 }));
    for k in 0..levels {
        if tight && !deep && r.pct(30) {
            inner.push(jarr!["print", jarr!["id", *r.pick(&N)]]);
            tight = false;
        }
        let params: Vec<J> = {
            let mut p: Vec<J> = vec![];
            for n in N { if r.pct(12) { p.push(J::from(n)); } }
            if !p.is_empty() && r.pct(bad / 3) { let x = p[0].clone(); p.push(x); }
            // A parameter and a local of the same name in one scope.
            let clash = |v: &J| matches!(v, J::Arr(a) if matches!(a.first(), Some(J::Str(t)) if t == "var" || t == "fun" || t == "bfun" || t == "class" || t == "bclass"));
            if !r.pct(bad) {
                p.retain(|x| !inner.iter().any(|s| clash(s) && s.arr().unwrap()[1] == *x));
            }
            p
        };
        let cond = if r.pct(20) { jarr!["id", *r.pick(&N)] } else { jarr!["bool", true] };
        let braces = tight || r.pct(10);
        if !braces { fix_blocks(&mut inner); }
        let list = J::Arr(std::mem::take(&mut inner));
        let kind = match only { Some(k) if r.pct(90) => k, _ => r.below(if deep { 10 } else { 16 }) };
        // Deep chains stay flat in syntax: mostly blocks.
        let s = match kind {
            0 | 1 => node("block", vec![list]),
            2 | 3 if deep => node("block", vec![list]),
            2 => jarr!["if", cond, jarr![if braces { "br" } else { "blk" }, list], J::Null],
            3 => jarr!["while", cond, jarr![if braces { "br" } else { "blk" }, list]],
            4 => {
                let i = *r.pick(&["i", "a", "x"]);
                jarr!["for", jarr!["var", i, jarr!["num", "0"]], cond, J::Null, jarr![if braces { "br" } else { "blk" }, list]]
            }
            5 | 10 | 11 => jarr![if braces { "bfun" } else { "fun" }, format!("f{k}"), J::Arr(params), list],
            6 | 12 | 13 => {
                let sup = if r.pct(55) { J::from(*r.pick(&["S", "a", "Base"])) } else { J::Null };
                let m = if r.pct(40) { "init" } else { "m" };
                let st = r.pct(12);
                let mut ms = vec![jarr![st, m, J::Arr(params), list]];
                if r.pct(20) {
                    let o = jarr![false, "other", J::Arr(vec![]), if braces { J::Arr(vec![]) } else { J::Arr(vec![jarr!["print", jarr!["this"]]]) }];
                    if r.pct(50) { ms.push(o) } else { ms.insert(0, o) }
                }
                jarr![if braces { "bclass" } else { "class" }, format!("K{k}"), sup, J::Arr(ms)]
            }
            7 if !deep => jarr!["if", cond, jarr!["br", list], if r.pct(50) { jarr!["block", J::Arr(vec![])] } else {
                match leaf(r) { J::Arr(a) if a.first() == Some(&J::from("var")) => jarr!["block", J::Arr(vec![])], l => l }
            }],
            7..=9 if deep => jarr!["if", cond, jarr!["br", list], J::Null],
            _ => {
                // In an expression: the statement ends its line.
                let lam = jarr!["lam", J::Arr(params), list];
                let n = *r.pick(&["g", "h", "foo"]);
                match r.below(3) {
                    0 => jarr!["var", n, lam],
                    1 => jarr!["expr", jarr!["call", jarr!["id", n], J::Arr(vec![lam])]],
                    _ => jarr!["return", lam],
                }
            }
        };
        tight = crate::render::tight(&s).unwrap_or(false);
        let mut had: Vec<String> = vec![];
        if let J::Arr(a) = &s { if matches!(&a[0], J::Str(t) if t == "var") { had.push(a[1].str().unwrap_or("").into()); } }
        let mut v = vec![];
        if !deep || !tight {
            while r.pct(p_side) { side(r, &mut v, &mut had, bad); }
        }
        v.push(s);
        if !deep { while r.pct(p_side / 2) { side(r, &mut v, &mut had, bad); tight = false; } }
        if !v.iter().all(|s| crate::render::tight(s).unwrap_or(false)) { tight = false; }
        inner = v;
    }
    // One statement for the top level.
    if inner.len() == 1 { inner.pop().unwrap() } else { node("block", vec![J::Arr(inner)]) }
}
