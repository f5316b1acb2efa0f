//! Turns a program tree (J) into source text. Strict: a malformed tree is an
//! error, so that shrinking cannot leave the language.
use crate::json::{J, R};
use crate::rng::Rng;

pub struct Style {
    pub seed: u64,    // 0: plain
    pub crlf: bool,
    pub single: bool, // one line per statement, no decoration
    pub nl_at_end: bool,
}

impl Style {
    pub fn plain() -> Style {
        Style { seed: 0, crlf: false, single: false, nl_at_end: true }
    }
    pub fn from(j: &J) -> Style {
        Style {
            seed: j.u_or("style", 0),
            crlf: j.u_or("crlf", 0) == 1,
            single: j.u_or("single", 0) == 1,
            nl_at_end: j.u_or("no_nl", 0) == 0,
        }
    }
}

pub struct Rendered {
    pub text: String,
    /// First and last line of each top-level statement, 1-based.
    pub spans: Vec<(u32, u32)>,
    pub lines: u32,
}

struct Out<'a> {
    b: String,
    line: u32,
    indent: usize,
    rng: Rng,
    fancy: bool,
    st: &'a Style,
    at_bol: bool,
    depth: usize,
}

pub fn tag(j: &J) -> R<(&str, &[J])> {
    let v = j.arr()?;
    let t = v.first().ok_or("empty node")?.str()?;
    Ok((t, &v[1..]))
}
fn arg(a: &[J], i: usize) -> R<&J> {
    a.get(i).ok_or_else(|| "missing child".to_string())
}
const KEYWORDS: [&str; 18] = [
    "and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print", "return",
    "super", "this", "true", "var", "while",
];
pub fn ident(j: &J) -> R<&str> {
    let s = j.str()?;
    let mut it = s.chars();
    let c = it.next().ok_or("empty identifier")?;
    if !(c.is_alphabetic() || c == '_') || !it.all(|c| c.is_alphanumeric() || c == '_' || ('\u{300}'..'\u{370}').contains(&c)) || KEYWORDS.contains(&s) {
        return Err("bad identifier".into());
    }
    Ok(s)
}

pub fn render(stmts: &[J], st: &Style) -> R<Rendered> {
    let mut o = Out {
        b: String::new(),
        line: 1,
        indent: 0,
        rng: Rng::new(st.seed),
        fancy: st.seed != 0 && !st.single,
        st,
        at_bol: true,
        depth: 0,
    };
    let spans = o.stmts(stmts, if st.nl_at_end { Ctx::Top } else { Ctx::Open })?;
    let mut text = o.b;
    if !st.nl_at_end {
        while text.ends_with('\n') || text.ends_with('\r') {
            text.pop();
        }
        // The blank after a closing brace is for a statement to follow.
        if text.ends_with("} ") && st.seed % 2 == 0 { text.pop(); }
    }
    Ok(Rendered { text, spans, lines: o.line })
}

fn level(t: &str, op: &str) -> u8 {
    match t {
        "assign" | "set" | "setidx" | "jcall" => 0,
        "logic" => if op == "or" { 1 } else { 2 },
        "bin" => match op {
            "==" | "!=" => 3,
            "<" | "<=" | ">" | ">=" => 4,
            "+" | "-" => 5,
            _ => 6,
        },
        "un" => 7,
        _ => 9,
    }
}
/// The tag of the leftmost token of the expression as rendered.
fn leftmost(e: &J) -> R<&str> {
    let (t, a) = tag(e)?;
    Ok(match t {
        "bin" | "logic" => {
            let op = arg(a, 0)?.str()?;
            let l = arg(a, 1)?;
            let (lt, la) = tag(l)?;
            let lop = if lt == "bin" || lt == "logic" { arg(la, 0)?.str()? } else { "" };
            if level(lt, lop) < level(t, op) { "group" } else { leftmost(l)? }
        }
        "call" | "jcall" | "get" | "set" | "idx" | "setidx" => {
            let l = arg(a, 0)?;
            match tag(l)?.0 {
                "id" | "this" | "super" | "call" | "get" | "idx" => leftmost(l)?,
                _ => "group",
            }
        }
        "assign" => "id",
        _ => t,
    })
}

#[derive(Clone, Copy, PartialEq)]
enum Ctx { Top, Open, Indent, Brace, Tight }

/// Does the statement end in a brace instead of a line end?
pub fn tight(s: &J) -> R<bool> {
    let (t, a) = tag(s)?;
    Ok(match t {
        "block" | "bfun" | "bclass" | "bvar" => true,
        "while" => tight_body(arg(a, 1)?)?,
        "for" => tight_body(arg(a, 3)?)?,
        "if" => match arg(a, 2)? {
            J::Null => tight_body(arg(a, 1)?)?,
            e => tight(e)?,
        },
        _ => false,
    })
}
fn tight_body(b: &J) -> R<bool> {
    let (t, a) = tag(b)?;
    Ok(match t { "br" => true, "in" => tight(arg(a, 0)?)?, _ => false })
}

impl Out<'_> {
    fn put(&mut self, s: &str) {
        if self.at_bol {
            for _ in 0..self.indent { self.b.push(' '); }
            self.at_bol = false;
        }
        self.b.push_str(s);
    }
    fn nl(&mut self) {
        self.b.push_str(if self.st.crlf { "\r\n" } else { "\n" });
        self.line += 1;
        self.at_bol = true;
    }
    fn eol(&mut self) {
        if self.fancy {
            if self.rng.pct(6) { self.b.push_str("   "); }
            if self.rng.pct(6) { self.b.push_str(" // tail é(\"{"); }
        }
        self.nl();
    }
    fn decorate(&mut self) {
        if !self.fancy || !self.at_bol { return; }
        if self.rng.pct(8) { self.nl_raw(); }
        if self.rng.pct(4) { self.b.push_str("     "); self.nl_raw(); }
        if self.rng.pct(8) {
            let c = ["// note", "//", "// 日本語 \"quote", "// if (x) {"][self.rng.below(4)];
            self.put(c);
            self.nl();
        }
    }
    fn nl_raw(&mut self) {
        self.b.push_str(if self.st.crlf { "\r\n" } else { "\n" });
        self.line += 1;
        self.at_bol = true;
    }
    /// Inside an expression, after a token that continues the line.
    fn cont(&mut self) {
        if self.fancy && self.rng.pct(5) { self.cont_now(); }
    }
    /// A space or a continued line.
    fn gap(&mut self) {
        if self.fancy && self.rng.pct(5) { self.cont_now(); } else { self.put(" "); }
    }
    fn cont_now(&mut self) {
        self.nl();
        let n = self.rng.below(6);
        self.put(&" ".repeat(n));
    }
    fn sp(&mut self) {
        if self.fancy && self.rng.pct(10) { self.b.push(' '); }
    }

    /// The lines of each statement. A statement that ends in a brace must be
    /// followed by another on its line, or by the end of a brace list or text.
    fn stmts(&mut self, list: &[J], ctx: Ctx) -> R<Vec<(u32, u32)>> {
        let mut spans = vec![];
        let mut after_brace = false;
        for (i, s) in list.iter().enumerate() {
            if !after_brace { self.decorate(); }
            let a = self.line;
            let last = i + 1 == list.len();
            let t = tight(s)?;
            if t && last && matches!(ctx, Ctx::Top | Ctx::Indent) { return Err("a brace must be followed".into()); }
            if !t && ctx == Ctx::Tight { return Err("statement in a one-line list".into()); }
            if tag(s)?.0 == "bvar" && !(last && matches!(ctx, Ctx::Brace | Ctx::Tight)) { return Err("map not at the end of its list".into()); }
            self.stmt(s)?;
            // A statement that ended its line ended on the line before.
            let b = if t { self.line } else { self.line - 1 };
            if t { self.put(" "); }
            after_brace = t;
            spans.push((a, b.max(a)));
        }
        Ok(spans)
    }
    /// A list in braces, without a newline after.
    fn braces(&mut self, list: &[J]) -> R<()> {
        self.depth += 1;
        if self.depth > 1200 { return Err("too deep".into()); }
        let mut all = true;
        for s in list { all &= tight(s)?; }
        self.put("{");
        if list.is_empty() {
            self.sp();
        } else if self.st.single || all && (!self.fancy || self.rng.pct(50)) {
            self.put(" ");
            self.stmts(list, Ctx::Tight)?;
        } else {
            self.nl();
            self.stmts(list, Ctx::Brace)?;
        }
        self.put("}");
        self.depth -= 1;
        Ok(())
    }

    fn block(&mut self, list: &[J]) -> R<()> {
        if list.is_empty() { return Err("empty body".into()); }
        if self.st.single { return Err("block in single-line program".into()); }
        self.depth += 1;
        if self.depth > 1200 { return Err("too deep".into()); }
        let old = self.indent;
        self.indent += if self.fancy { self.rng.range(1, 4) } else { 2 };
        self.stmts(list, Ctx::Indent)?;
        self.indent = old;
        self.depth -= 1;
        Ok(())
    }
    fn body(&mut self, j: &J) -> R<()> {
        let (t, a) = tag(j)?;
        match t {
            "in" => {
                self.put(" ");
                let s = arg(a, 0)?;
                match tag(s)?.0 {
                    "expr" | "print" | "return" | "break" | "continue" | "while" | "for" => self.stmt(s),
                    _ => Err("not an inline statement".into()),
                }
            }
            "blk" => {
                self.eol();
                self.block(arg(a, 0)?.arr()?)
            }
            "br" => {
                self.put(" ");
                self.braces(arg(a, 0)?.arr()?)
            }
            _ => Err("bad body".into()),
        }
    }
    fn params(&mut self, j: &J) -> R<()> {
        self.put("(");
        for (i, p) in j.arr()?.iter().enumerate() {
            if i > 0 { self.put(","); self.gap(); }
            self.put(ident(p)?);
        }
        self.put(")");
        Ok(())
    }

    fn stmt(&mut self, s: &J) -> R<()> {
        let (t, a) = tag(s)?;
        match t {
            "expr" => {
                let e = arg(a, 0)?;
                if matches!(leftmost(e)?, "map") { self.paren(e)?; } else { self.top(e)?; }
                self.eol();
            }
            "print" => { self.put("print "); self.top(arg(a, 0)?)?; self.eol(); }
            "return" => {
                self.put("return");
                if *arg(a, 0)? != J::Null { self.put(" "); self.top(arg(a, 0)?)?; }
                self.eol();
            }
            "break" => { self.put("break"); self.eol(); }
            "continue" => { self.put("continue"); self.eol(); }
            "var" => {
                self.put("var ");
                self.put(ident(arg(a, 0)?)?);
                let e = arg(a, 1)?;
                if *e == J::Null { self.eol(); return Ok(()); }
                let (et, ea) = tag(e)?;
                self.put(" =");
                if et == "imap" {
                    if self.st.single { return Err("imap in single-line program".into()); }
                    let ents = arg(ea, 0)?.arr()?;
                    if ents.is_empty() { return Err("empty imap".into()); }
                    self.eol();
                    let old = self.indent;
                    self.indent += 2;
                    for en in ents {
                        let en = en.arr()?;
                        self.key(arg(en, 0)?)?;
                        self.put(": ");
                        self.expr(arg(en, 1)?, 1, false)?;
                        self.eol();
                    }
                    self.indent = old;
                } else {
                    self.put(" ");
                    self.top(e)?;
                    self.eol();
                }
            }
            "block" => self.braces(arg(a, 0)?.arr()?)?,
            "bvar" => {
                self.put("var ");
                self.put(ident(arg(a, 0)?)?);
                self.put(" = ");
                let e = arg(a, 1)?;
                if tag(e)?.0 != "map" { return Err("not a map".into()); }
                self.expr(e, 1, false)?;
            }
            "bfun" => {
                self.put("fun ");
                self.put(ident(arg(a, 0)?)?);
                self.params(arg(a, 1)?)?;
                self.put(" ");
                self.braces(arg(a, 2)?.arr()?)?;
            }
            "bclass" => {
                self.put("class ");
                self.put(ident(arg(a, 0)?)?);
                if *arg(a, 1)? != J::Null { self.put(" < "); self.put(ident(arg(a, 1)?)?); }
                self.put(" { ");
                self.depth += 1;
                for m in arg(a, 2)?.arr()? {
                    let m = m.arr()?;
                    if arg(m, 0)?.bool()? { self.put("class "); }
                    self.put(ident(arg(m, 1)?)?);
                    self.params(arg(m, 2)?)?;
                    self.put(" ");
                    self.braces(arg(m, 3)?.arr()?)?;
                    self.put(" ");
                }
                self.depth -= 1;
                self.put("}");
            }
            "fun" => {
                self.put("fun ");
                self.put(ident(arg(a, 0)?)?);
                self.params(arg(a, 1)?)?;
                self.eol();
                self.block(arg(a, 2)?.arr()?)?;
            }
            "class" => {
                self.put("class ");
                self.put(ident(arg(a, 0)?)?);
                if *arg(a, 1)? != J::Null { self.put(" < "); self.put(ident(arg(a, 1)?)?); }
                self.eol();
                let ms = arg(a, 2)?.arr()?;
                if ms.is_empty() || self.st.single { return Err("class without methods".into()); }
                let old = self.indent;
                self.depth += 1;
                self.indent += if self.fancy { self.rng.range(1, 4) } else { 2 };
                for m in ms {
                    let m = m.arr()?;
                    self.decorate();
                    if arg(m, 0)?.bool()? { self.put("class "); }
                    self.put(ident(arg(m, 1)?)?);
                    self.params(arg(m, 2)?)?;
                    self.eol();
                    self.block(arg(m, 3)?.arr()?)?;
                }
                self.depth -= 1;
                self.indent = old;
            }
            "if" => {
                self.put("if (");
                self.expr(arg(a, 0)?, 0, false)?;
                self.put(")");
                let th = arg(a, 1)?;
                self.body(th)?;
                let el = arg(a, 2)?;
                if *el != J::Null {
                    let braced = tag(th)?.0 == "br";
                    if self.st.single && !braced { return Err("else in single-line program".into()); }
                    self.put(if braced { " else " } else { "else " });
                    match tag(el)?.0 {
                        "expr" | "print" | "return" | "break" | "continue" | "if" | "block" => self.stmt(el)?,
                        _ => return Err("bad else".into()),
                    }
                }
            }
            "while" => {
                self.put("while (");
                self.expr(arg(a, 0)?, 0, false)?;
                self.put(")");
                self.body(arg(a, 1)?)?;
            }
            "for" => {
                self.put("for (");
                match arg(a, 0)? {
                    J::Null => self.put(";"),
                    i => {
                        let (it, ia) = tag(i)?;
                        if it != "var" { return Err("bad for init".into()); }
                        self.put("var ");
                        self.put(ident(arg(ia, 0)?)?);
                        if *arg(ia, 1)? != J::Null {
                            self.put(" = ");
                            self.expr(arg(ia, 1)?, 1, false)?;
                        }
                        self.put(";");
                    }
                }
                if *arg(a, 1)? != J::Null { self.put(" "); self.expr(arg(a, 1)?, 0, false)?; }
                self.put(";");
                if *arg(a, 2)? != J::Null { self.put(" "); self.expr(arg(a, 2)?, 0, false)?; }
                self.put(")");
                self.body(arg(a, 3)?)?;
            }
            // A line that is not a statement of the language; the model takes
            // the entry for rejected.
            "raw" => {
                let l = arg(a, 0)?.str()?;
                if l.contains('\n') { return Err("raw line break".into()); }
                self.put(l);
                self.nl();
            }
            _ => return Err(format!("bad statement {t}")),
        }
        Ok(())
    }

    fn key(&mut self, k: &J) -> R<()> {
        let s = k.str()?;
        if ident(k).is_ok() && !self.rng.pct(20) {
            self.put(s);
        } else {
            if s.contains(['"', '\n', '\r']) { return Err("bad key".into()); }
            self.put("\"");
            self.put(s);
            self.put("\"");
        }
        Ok(())
    }
    fn paren(&mut self, e: &J) -> R<()> {
        self.put("(");
        self.cont();
        self.expr(e, 0, true)?;
        self.put(")");
        Ok(())
    }
    fn top(&mut self, e: &J) -> R<()> {
        self.expr(e, 0, true)
    }
    /// Operand of a call, property access or index.
    fn head(&mut self, e: &J) -> R<()> {
        match tag(e)?.0 {
            "id" | "this" | "super" | "call" | "get" | "idx" | "group" => self.expr(e, 8, false),
            _ => self.paren(e),
        }
    }
    fn expr(&mut self, e: &J, min: u8, top: bool) -> R<()> {
        self.depth += 1;
        if self.depth > 1220 { return Err("too deep".into()); }
        let r = self.expr_(e, min, top);
        self.depth -= 1;
        r
    }
    fn expr_(&mut self, e: &J, min: u8, top: bool) -> R<()> {
        let (t, a) = tag(e)?;
        let op = if matches!(t, "bin" | "logic" | "un") { arg(a, 0)?.str()? } else { "" };
        if level(t, op) < min || (matches!(t, "jcall" | "bmap") && !top) {
            return self.paren(e);
        }
        match t {
            "num" => {
                let s = arg(a, 0)?.str()?;
                if s.is_empty() || !s.chars().all(|c| c.is_ascii_digit() || c == '.') || s.starts_with('.') || s.ends_with('.') || s.matches('.').count() > 1 { return Err("bad number".into()); }
                self.put(s)
            }
            "str" => {
                let s = arg(a, 0)?.str()?;
                if s.contains('"') || s.contains('\r') || (s.contains('\n') && self.st.single) { return Err("bad string".into()); }
                self.put("\"");
                let s = if self.st.crlf { s.replace('\n', "\r\n") } else { s.to_string() };
                self.b.push_str(&s);
                self.line += s.matches('\n').count() as u32;
                self.put("\"");
            }
            "bool" => self.put(if arg(a, 0)?.bool()? { "true" } else { "false" }),
            "nil" => self.put("nil"),
            "id" => { let s = ident(arg(a, 0)?)?; self.put(s) }
            "this" => self.put("this"),
            "super" => { self.put("super."); self.put(ident(arg(a, 0)?)?); }
            "assign" => {
                self.put(ident(arg(a, 0)?)?);
                self.put(" = ");
                self.expr(arg(a, 1)?, 0, top)?;
            }
            "set" => {
                self.head(arg(a, 0)?)?;
                self.put(".");
                self.put(ident(arg(a, 1)?)?);
                self.put(" = ");
                self.expr(arg(a, 2)?, 0, top)?;
            }
            "setidx" => {
                self.head(arg(a, 0)?)?;
                self.put("[");
                self.expr(arg(a, 1)?, 0, false)?;
                self.put("] = ");
                self.expr(arg(a, 2)?, 0, top)?;
            }
            "bin" | "logic" => {
                let ok = if t == "bin" { ["==", "!=", "<", "<=", ">", ">=", "+", "-", "*", "/"].contains(&op) } else { op == "and" || op == "or" };
                if !ok { return Err("bad operator".into()); }
                let l = level(t, op);
                self.expr(arg(a, 1)?, l, false)?;
                self.put(" ");
                self.put(op);
                if t == "bin" && op != "==" && op != "!=" { self.gap(); } else { self.put(" "); }
                self.expr(arg(a, 2)?, l + 1, false)?;
            }
            "un" => {
                if op != "-" && op != "!" { return Err("bad operator".into()); }
                self.put(op);
                self.sp();
                self.expr(arg(a, 1)?, 7, false)?;
            }
            "call" => {
                self.head(arg(a, 0)?)?;
                self.put("(");
                self.cont();
                for (i, x) in arg(a, 1)?.arr()?.iter().enumerate() {
                    if i > 0 { self.put(","); self.gap(); }
                    self.expr(x, 0, false)?;
                }
                self.put(")");
            }
            "jcall" => {
                self.head(arg(a, 0)?)?;
                let args = arg(a, 1)?.arr()?;
                if args.is_empty() { return Err("juxtaposed call without arguments".into()); }
                self.put(" ");
                for (i, x) in args.iter().enumerate() {
                    if i > 0 { self.put(","); self.gap(); }
                    if i == 0 && !matches!(leftmost(x)?, "num" | "str" | "bool" | "nil" | "id" | "lam" | "group" | "super" | "map" | "bmap") {
                        self.paren(x)?;
                    } else {
                        self.expr(x, 0, i + 1 == args.len() && tag(x)?.0 == "bmap")?;
                    }
                }
            }
            "get" => {
                self.head(arg(a, 0)?)?;
                self.put(".");
                self.put(ident(arg(a, 1)?)?);
            }
            "idx" => {
                self.head(arg(a, 0)?)?;
                self.put("[");
                self.cont();
                self.expr(arg(a, 1)?, 0, false)?;
                self.put("]");
            }
            "group" => self.paren(arg(a, 0)?)?,
            "arr" => {
                self.put("[");
                self.cont();
                let v = arg(a, 0)?.arr()?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { self.put(","); self.gap(); }
                    self.expr(x, 0, false)?;
                }
                if !v.is_empty() && self.fancy && self.rng.pct(20) { self.put(","); }
                self.put("]");
            }
            "map" => {
                self.put("{");
                self.sp();
                for (i, en) in arg(a, 0)?.arr()?.iter().enumerate() {
                    let en = en.arr()?;
                    if i > 0 { self.put(", "); }
                    self.key(arg(en, 0)?)?;
                    self.put(": ");
                    self.expr(arg(en, 1)?, 1, false)?;
                }
                self.put("}");
            }
            "bmap" => {
                let m = arg(a, 0)?.arr()?;
                if m.is_empty() { return Err("empty map without braces".into()); }
                let lines = !self.st.single && self.rng.pct(40);
                for (i, en) in m.iter().enumerate() {
                    let en = en.arr()?;
                    if i > 0 { if lines { self.eol(); } else { self.put(", "); } }
                    self.key(arg(en, 0)?)?;
                    self.put(": ");
                    self.expr(arg(en, 1)?, 1, false)?;
                }
            }
            "lam" => {
                self.put("fun ");
                self.params(arg(a, 0)?)?;
                self.put(" ");
                self.braces(arg(a, 1)?.arr()?)?;
            }
            _ => return Err(format!("bad expression {t}")),
        }
        Ok(())
    }
}
