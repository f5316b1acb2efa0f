//! The code under test, called in process.
use crate::rt;
use std::panic::{AssertUnwindSafe, catch_unwind};
use whitespace::error::ParseError;
use whitespace::parser;
use whitespace::resolver::{self, Resolver};

#[derive(Clone, Debug, PartialEq)]
pub struct Diag {
    pub line: u32,
    pub col: u32,
    pub token: Option<String>,
    pub msg: String,
}
impl Diag {
    /// As the command-line program prints it.
    pub fn cli(&self) -> String {
        match &self.token {
            Some(t) => format!("[line {}:{}] Error at '{}': {}\n", self.line, self.col, t, self.msg),
            None => format!("[line {}:{}] Error: {}\n", self.line, self.col, self.msg),
        }
    }
    /// As one item of the library's Display (and of the browser's message).
    pub fn lib(&self) -> String {
        match &self.token {
            Some(t) => format!("{}:{} at {t:?}: {}\n", self.line, self.col, self.msg),
            None => format!("{}:{}: {}\n", self.line, self.col, self.msg),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    /// Compact and pretty Debug text of the statements.
    Tree(String, String),
    Rejected(Vec<Diag>),
    Panic(String),
}
impl Out {
    pub fn accepted(&self) -> bool { matches!(self, Out::Tree(..)) }
    pub fn text(&self) -> String {
        match self {
            Out::Tree(c, _) => format!("tree {c}"),
            Out::Rejected(d) => format!("rejected {}", d.iter().map(|d| d.cli()).collect::<String>()),
            Out::Panic(m) => format!("panic {m}"),
        }
    }
    pub fn brief(&self) -> String {
        let t = self.text();
        if t.chars().count() > 300 { t.chars().take(300).collect::<String>() + "..." } else { t }
    }
}

fn diags(e: ParseError) -> Vec<Diag> {
    e.causes
        .iter()
        .map(|c| Diag { line: c.source_loc.line, col: c.source_loc.column as u32, token: c.token.clone(), msg: c.message.clone() })
        .collect()
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = rt::INSIDE.replace(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    rt::INSIDE.set(was);
    r.map_err(|e| {
        if let Some(s) = e.downcast_ref::<&str>() { s.to_string() }
        else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
        else { "panic".into() }
    })
}

/// `Once`: a script resolved by the free function, without a session.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Script, Line, Expr, Once }
impl Mode {
    pub fn name(self) -> &'static str {
        match self { Mode::Script => "script", Mode::Line => "line", Mode::Expr => "expr", Mode::Once => "once" }
    }
    pub fn from(s: &str) -> Result<Mode, String> {
        Ok(match s { "script" => Mode::Script, "line" => Mode::Line, "expr" => Mode::Expr, "once" => Mode::Once, _ => return Err("mode".into()) })
    }
}

/// A session: one resolver.
pub struct Session(Option<Resolver>);
impl Session {
    pub fn new() -> Session { Session(guard(Resolver::new).ok()) }
    pub fn submit(&mut self, src: &str, mode: Mode) -> Out { self.submit_fmt(src, mode, true) }
    /// Without `pretty` the pretty text is left empty (it costs time).
    pub fn submit_fmt(&mut self, src: &str, mode: Mode, pretty: bool) -> Out {
        let Some(r) = self.0.as_mut() else { return Out::Panic("no resolver".into()) };
        let x = guard(|| -> Result<(String, String), ParseError> {
            let ast = match mode {
                Mode::Script | Mode::Once => parser::parse(src)?,
                Mode::Line => parser::parse_repl_line(src)?,
                Mode::Expr => {
                    let e = parser::parse_expression(src)?;
                    return Ok((format!("{e:?}"), if pretty { format!("{e:#?}") } else { String::new() }));
                }
            };
            let code = if mode == Mode::Once { resolver::resolve(ast)? } else { r.resolve(ast)? };
            Ok((format!("{:?}", code.statements), if pretty { format!("{:#?}", code.statements) } else { String::new() }))
        });
        match x {
            Ok(Ok((a, b))) => Out::Tree(a, b),
            Ok(Err(e)) => Out::Rejected(diags(e)),
            Err(m) => Out::Panic(m),
        }
    }
}

/// Bytes of stack that f uses inside the code under test.
pub fn stack_of<T>(f: impl FnOnce() -> T) -> usize {
    use std::sync::atomic::Ordering::Relaxed;
    let base = 0u8;
    rt::STACK_LOW.store(usize::MAX, Relaxed);
    f();
    (&raw const base as usize).saturating_sub(rt::STACK_LOW.load(Relaxed))
}
/// Is this text's tree so deep that pretty-printing it takes ages (a known
/// finding)?
pub fn prints_deep(src: &str, mode: Mode) -> bool {
    struct W { at: usize, bol: bool, deep: bool }
    impl std::fmt::Write for W {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            for b in s.bytes() {
                match b {
                    b'\n' => { self.at = 0; self.bol = true }
                    b' ' if self.bol => self.at += 1,
                    _ => self.bol = false,
                }
                if self.at > 4 * 250 { self.deep = true; return Err(std::fmt::Error) }
            }
            Ok(())
        }
    }
    let mut w = W { at: 0, bol: true, deep: false };
    let _ = guard(|| {
        let ast = if mode == Mode::Line { parser::parse_repl_line(src) } else { parser::parse(src) };
        if let Ok(t) = ast { let _ = std::fmt::write(&mut w, format_args!("{t:#?}")); }
    });
    w.deep
}

pub fn once(src: &str, mode: Mode) -> Out { Session::new().submit(src, mode) }

/// Runs f on a fresh thread with a big stack and the given seed of randomness.
pub fn on_thread<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(512 << 20)
            .spawn_scoped(s, move || {
                rt::seed_thread(seed);
                f()
            })
            .expect("thread")
            .join()
            .expect("harness thread panicked")
    })
}

/// What the command-line program prints for a script.
pub struct Cli { pub out: String, pub err: String, pub code: i32 }
pub fn script(bytes: &[u8]) -> Option<Cli> {
    let s = std::str::from_utf8(bytes).ok()?;
    Some(match once(s, Mode::Script) {
        Out::Tree(_, p) => Cli { out: p + "\n", err: String::new(), code: 0 },
        Out::Rejected(d) => Cli { out: String::new(), err: d.iter().map(|d| d.cli()).collect(), code: 65 },
        Out::Panic(m) => Cli { out: String::new(), err: m, code: 101 },
    })
}
/// What the REPL prints for each complete line (and a last one without
/// newline), up to the first line that is not UTF-8.
pub struct Repl { pub out: Vec<String>, pub err: Vec<String>, pub ends: Vec<usize>, pub invalid: bool, pub panicked: bool }
pub fn repl(bytes: &[u8]) -> Repl {
    let mut s = Session::new();
    let mut r = Repl { out: vec![], err: vec![], ends: vec![], invalid: false, panicked: false };
    let mut p = 0;
    for l in bytes.split_inclusive(|b| *b == b'\n') {
        p += l.len();
        let Ok(t) = std::str::from_utf8(l) else { r.invalid = true; break };
        match s.submit(t, Mode::Line) {
            Out::Tree(_, t) => { r.out.push(t + "\n"); r.err.push(String::new()); }
            Out::Rejected(d) => { r.out.push(String::new()); r.err.push(d.iter().map(|d| d.cli()).collect()); }
            Out::Panic(m) => { r.out.push(String::new()); r.err.push(m); r.panicked = true; }
        }
        r.ends.push(p);
    }
    r
}

/// The bindings printed in the compact Debug text of a tree, in order.
#[derive(Clone, Debug, PartialEq)]
pub struct Seen { pub kind: String, pub name: String, pub distance: Option<u32>, pub slot: u32 }
pub fn bindings(t: &str) -> Result<Vec<Seen>, String> {
    let b = t.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    let mut last_str = String::new();
    let mut ids: Vec<String> = vec![];
    while i < b.len() {
        let c = b[i];
        if c == b'"' {
            let mut s = String::new();
            i += 1;
            let mut it = t[i..].char_indices();
            let mut end = None;
            while let Some((k, ch)) = it.next() {
                match ch {
                    '"' => { end = Some(k); break }
                    '\\' => match it.next() {
                        Some((_, 'n')) => s.push('\n'),
                        Some((_, 't')) => s.push('\t'),
                        Some((_, 'r')) => s.push('\r'),
                        Some((_, '0')) => s.push('\0'),
                        Some((_, 'u')) => {
                            let mut h = String::new();
                            for (_, d) in it.by_ref() {
                                if d == '}' { break }
                                if d != '{' { h.push(d) }
                            }
                            if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) { s.push(x) }
                        }
                        Some((_, x)) => s.push(x),
                        None => {}
                    },
                    x => s.push(x),
                }
            }
            i += end.ok_or("unterminated string in debug text")? + 1;
            last_str = s;
        } else if c.is_ascii_alphabetic() {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
            let id = &t[st..i];
            if id == "VarLoc" {
                let n = nums(&t[i..])?;
                if n.len() < 2 { return Err("VarLoc".into()); }
                let kind = ids.iter().rev().find(|k| ["Assign", "Variable", "Super"].contains(&k.as_str())).cloned().unwrap_or_default();
                let name = if kind == "Super" { "super".into() } else { last_str.clone() };
                out.push(Seen { kind, name, distance: Some(n[0]), slot: n[1] });
            } else if id == "SlotIndex" {
                let n = nums(&t[i..])?;
                out.push(Seen { kind: "Var".into(), name: last_str.clone(), distance: None, slot: *n.first().ok_or("SlotIndex")? });
            } else {
                if id.as_bytes()[0].is_ascii_uppercase() {
                    ids.push(id.to_string());
                    if ids.len() > 4 { ids.remove(0); }
                }
            }
        } else {
            i += 1;
        }
    }
    Ok(out)
}
/// The numbers up to the next closing bracket.
fn nums(t: &str) -> Result<Vec<u32>, String> {
    let end = t.find(['}', ')']).ok_or("bracket")?;
    let mut v = vec![];
    let mut cur = String::new();
    for c in t[..end].chars().chain(" ".chars()) {
        if c.is_ascii_digit() { cur.push(c) } else if !cur.is_empty() {
            v.push(cur.parse().map_err(|_| "number")?);
            cur.clear();
        }
    }
    Ok(v)
}
