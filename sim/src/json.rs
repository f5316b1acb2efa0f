//! A small JSON value: cases, replay files, evidence.

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl From<bool> for J { fn from(x: bool) -> J { J::Bool(x) } }
impl From<i64> for J { fn from(x: i64) -> J { J::Int(x) } }
impl From<u64> for J { fn from(x: u64) -> J { J::Int(x as i64) } }
impl From<i32> for J { fn from(x: i32) -> J { J::Int(x as i64) } }
impl From<u32> for J { fn from(x: u32) -> J { J::Int(x as i64) } }
impl From<usize> for J { fn from(x: usize) -> J { J::Int(x as i64) } }
impl From<f64> for J { fn from(x: f64) -> J { J::Float(x) } }
impl From<&str> for J { fn from(x: &str) -> J { J::Str(x.to_string()) } }
impl From<String> for J { fn from(x: String) -> J { J::Str(x) } }
impl<T: Into<J>> From<Vec<T>> for J { fn from(x: Vec<T>) -> J { J::Arr(x.into_iter().map(|v| v.into()).collect()) } }

#[macro_export]
macro_rules! jobj {
    ($($k:literal : $v:expr),* $(,)?) => { $crate::json::J::Obj(vec![$(($k.to_string(), $crate::json::J::from($v))),*]) };
}
#[macro_export]
macro_rules! jarr {
    ($($v:expr),* $(,)?) => { $crate::json::J::Arr(vec![$($crate::json::J::from($v)),*]) };
}

pub type R<T> = Result<T, String>;

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        match self {
            J::Obj(v) => v.iter().find(|(n, _)| n == k).map(|(_, x)| x),
            _ => None,
        }
    }
    pub fn set(&mut self, k: &str, v: J) {
        if let J::Obj(o) = self {
            if let Some(e) = o.iter_mut().find(|(n, _)| n == k) {
                e.1 = v;
            } else {
                o.push((k.to_string(), v));
            }
        }
    }
    pub fn need(&self, k: &str) -> R<&J> {
        self.get(k).ok_or_else(|| format!("missing {k}"))
    }
    pub fn str(&self) -> R<&str> {
        match self { J::Str(s) => Ok(s), _ => Err("not a string".into()) }
    }
    pub fn int(&self) -> R<i64> {
        match self { J::Int(s) => Ok(*s), _ => Err("not an int".into()) }
    }
    pub fn bool(&self) -> R<bool> {
        match self { J::Bool(s) => Ok(*s), _ => Err("not a bool".into()) }
    }
    pub fn arr(&self) -> R<&Vec<J>> {
        match self { J::Arr(s) => Ok(s), _ => Err("not an array".into()) }
    }
    pub fn s(&self, k: &str) -> R<&str> { self.need(k)?.str() }
    pub fn i(&self, k: &str) -> R<i64> { self.need(k)?.int() }
    pub fn b(&self, k: &str) -> R<bool> { self.need(k)?.bool() }
    pub fn a(&self, k: &str) -> R<&Vec<J>> { self.need(k)?.arr() }
    pub fn u_or(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|v| v.int().ok()).map(|v| v as u64).unwrap_or(d)
    }
    pub fn strs(&self, k: &str) -> R<Vec<String>> {
        self.a(k)?.iter().map(|x| x.str().map(|s| s.to_string())).collect()
    }

    pub fn write(&self, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => out.push_str(&i.to_string()),
            J::Float(f) => out.push_str(&format!("{f}")),
            J::Str(s) => {
                out.push('"');
                for c in s.chars() {
                    match c {
                        '"' => out.push_str("\\\""),
                        '\\' => out.push_str("\\\\"),
                        '\n' => out.push_str("\\n"),
                        '\r' => out.push_str("\\r"),
                        '\t' => out.push_str("\\t"),
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => out.push_str(&format!("\\u{:04x}", c as u32)),
                        c => out.push(c),
                    }
                }
                out.push('"');
            }
            J::Arr(v) => {
                out.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    x.write(out);
                }
                out.push(']');
            }
            J::Obj(v) => {
                out.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 { out.push(','); }
                    J::Str(k.clone()).write(out);
                    out.push(':');
                    x.write(out);
                }
                out.push('}');
            }
        }
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.write(&mut s);
        s
    }
    pub fn parse(s: &str) -> R<J> {
        let b = s.as_bytes();
        let mut p = 0;
        let v = val(s, b, &mut p)?;
        ws(b, &mut p);
        if p != b.len() { return Err(format!("trailing data at {p}")); }
        Ok(v)
    }
}

fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_ascii_whitespace() { *p += 1; }
}
fn val(s: &str, b: &[u8], p: &mut usize) -> R<J> {
    ws(b, p);
    if *p >= b.len() { return Err("end".into()); }
    match b[*p] {
        b'{' => {
            *p += 1;
            let mut o = vec![];
            ws(b, p);
            if *p < b.len() && b[*p] == b'}' { *p += 1; return Ok(J::Obj(o)); }
            loop {
                ws(b, p);
                let k = match val(s, b, p)? { J::Str(k) => k, _ => return Err("key".into()) };
                ws(b, p);
                if *p >= b.len() || b[*p] != b':' { return Err("colon".into()); }
                *p += 1;
                let v = val(s, b, p)?;
                o.push((k, v));
                ws(b, p);
                if *p >= b.len() { return Err("end in object".into()); }
                *p += 1;
                match b[*p - 1] { b',' => continue, b'}' => return Ok(J::Obj(o)), _ => return Err("object".into()) }
            }
        }
        b'[' => {
            *p += 1;
            let mut o = vec![];
            ws(b, p);
            if *p < b.len() && b[*p] == b']' { *p += 1; return Ok(J::Arr(o)); }
            loop {
                o.push(val(s, b, p)?);
                ws(b, p);
                if *p >= b.len() { return Err("end in array".into()); }
                *p += 1;
                match b[*p - 1] { b',' => continue, b']' => return Ok(J::Arr(o)), _ => return Err("array".into()) }
            }
        }
        b'"' => {
            *p += 1;
            let mut out = String::new();
            loop {
                if *p >= b.len() { return Err("end in string".into()); }
                match b[*p] {
                    b'"' => { *p += 1; return Ok(J::Str(out)); }
                    b'\\' => {
                        *p += 2;
                        match b.get(*p - 1).copied() {
                            Some(b'n') => out.push('\n'),
                            Some(b't') => out.push('\t'),
                            Some(b'r') => out.push('\r'),
                            Some(b'b') => out.push('\u{8}'),
                            Some(b'f') => out.push('\u{c}'),
                            Some(b'u') => {
                                let h = s.get(*p..*p + 4).ok_or("short \\u")?;
                                let mut c = u32::from_str_radix(h, 16).map_err(|e| e.to_string())?;
                                *p += 4;
                                if (0xd800..0xdc00).contains(&c) && s.get(*p..*p + 2) == Some("\\u") {
                                    let h2 = s.get(*p + 2..*p + 6).ok_or("short \\u")?;
                                    let d = u32::from_str_radix(h2, 16).map_err(|e| e.to_string())?;
                                    if (0xdc00..0xe000).contains(&d) {
                                        c = 0x10000 + ((c - 0xd800) << 10) + (d - 0xdc00);
                                        *p += 6;
                                    }
                                }
                                out.push(char::from_u32(c).unwrap_or('\u{fffd}'));
                            }
                            Some(c) => out.push(c as char),
                            None => return Err("end in string".into()),
                        }
                    }
                    _ => {
                        let c = s[*p..].chars().next().unwrap();
                        out.push(c);
                        *p += c.len_utf8();
                    }
                }
            }
        }
        b't' if s[*p..].starts_with("true") => { *p += 4; Ok(J::Bool(true)) }
        b'f' if s[*p..].starts_with("false") => { *p += 5; Ok(J::Bool(false)) }
        b'n' if s[*p..].starts_with("null") => { *p += 4; Ok(J::Null) }
        _ => {
            let st = *p;
            while *p < b.len() && matches!(b[*p], b'0'..=b'9' | b'-' | b'+' | b'.' | b'e' | b'E') { *p += 1; }
            let t = &s[st..*p];
            if let Ok(i) = t.parse::<i64>() { Ok(J::Int(i)) } else { t.parse::<f64>().map(J::Float).map_err(|_| format!("bad token at {st}")) }
        }
    }
}
