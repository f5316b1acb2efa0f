//! Generators shared by the properties: source texts, damage, delivery plans.
use crate::gen_::{Cfg, Gen};
use crate::json::J;
use crate::proc::{EV_DATA, EV_ERR};
use crate::render::{Style, render};
use crate::rng::Rng;

pub type Evs = Vec<(u32, u32)>;

pub const EINTR: u32 = 4;

pub fn style(r: &mut Rng) -> Style {
    Style { seed: if r.pct(15) { 0 } else { r.next() >> 16 }, crlf: r.pct(15), single: false, nl_at_end: r.pct(85) }
}

/// A program as text.
pub fn program(r: &mut Rng, bad: bool) -> String {
    let mut c = Cfg::random(r);
    if !bad { c.bad = 0; c.raw = 0; }
    c.multiline_raw = bad;
    let e = Gen::new(r, c).entry();
    let st = style(r);
    render(&e, &st).map(|x| x.text).unwrap_or_default()
}
/// Lines for a session: mostly complete statements, some faulty or torn.
pub fn line(r: &mut Rng, bad: usize) -> String {
    let c = Cfg { single: true, bad: *r.pick(&[0, 0, bad]), raw: *r.pick(&[0, 0, bad * 2]), depth: 3, stmts: 1, names: 5, unicode: r.pct(50), ml_str: false, multiline_raw: true, open_end: r.pct(20) };
    let e = Gen::new(r, c).entry();
    let st = Style { seed: 0, crlf: false, single: true, nl_at_end: false };
    let mut t = render(&e, &st).map(|x| x.text).unwrap_or_default();
    if r.pct(bad) { t = damage(r, &t, 1).0; }
    t = t.chars().map(|c| if c == '\n' { ' ' } else { c }).collect();
    if r.pct(4) { t = String::new(); }
    if r.pct(4) { t = command(r); }
    if r.pct(3) { t = format!("{}{t}", ["  ", "\t", "// ", " \\ "][r.below(4)]); }
    t
}

/// What a user may try at a prompt.
pub fn command(r: &mut Rng) -> String {
    const W: [&str; 46] = [
        "exit", "quit", "help", "q", "h", "clear", "history", "reset", "restart", "load", "run", "list", "undo", "redo", "save", "open", "stop", "end", "done", "bye", "version", "vars",
        "env", "globals", "type", "ast", "tokens", "debug", "trace", "time", "set", "let", "import", "paste", "edit", "begin", "new", "cls", "abort", "cancel", "repeat", "last", "more", "logout", "sh", "ls",
    ];
    const ODD: [&str; 22] = [
        "?", "#!/usr/bin/env ws", "%", "!!", "\\q", ".", "\u{4}", "\u{1a}", "\u{3}", "\u{1b}[A", "> print 1", ">", "...", "..", ":", "::", "\\", "!", "/", "#", "\u{feff}", "\u{1b}",
    ];
    if r.pct(20) { return (*r.pick(&ODD)).to_string(); }
    let w = *r.pick(&W);
    let w = match r.below(8) { 0 => w.to_uppercase(), 1 => w[..1].to_uppercase() + &w[1..], _ => w.to_string() };
    let pre = if r.pct(55) { *r.pick(&[":", ".", "/", "\\", "!", "#", "%", "@", ",", "--", "?"]) } else { "" };
    let post = match r.below(8) { 0 => "()", 1 => " 1", 2 => " x", 3 => " \"a\"", 4 => ";", _ => "" };
    format!("{pre}{w}{post}")
}

const SNIPS: [&str; 52] = [
    "２", "²", "½", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "İ",
    "\n", "\r\n", "\r", "\t", " ", "  ", "        ", "\\", "\\\n", "\"", "'", "/*", "*/", "//", "{", "}", "(", ")", "[", "]", ";", ",", ".", ":",
    "=", "==", "!", "class A", "class A < A\n", "fun f(", "fun (", "while (", "for (", "else", "if (", "return", "super.", "this", "break", "\u{0}", "é", "👩‍👩‍👧", "e\u{301}", "9999999999999999999999",
];

/// What a crash or a bad disk leaves of a text. Also says what happened.
pub fn damage(r: &mut Rng, t: &str, n: usize) -> (String, Vec<&'static str>) {
    let mut c: Vec<char> = t.chars().collect();
    let mut what = vec![];
    for _ in 0..n {
        let len = c.len();
        let a = r.range(0, len);
        let b = (a + r.skew(len - a)).min(len);
        match r.below(13) {
            0 | 1 => { c.truncate(a); what.push("torn_tail"); }
            2 => { c.drain(..a.min(40)); what.push("lost_head"); }
            3 => { c.drain(a..b); what.push("lost_block"); }
            4 => { for x in &mut c[a..b] { *x = '\u{0}'; } what.push("zeroed_block"); }
            5 => { let k: Vec<char> = c[a..b].to_vec(); let at = r.range(0, len); c.splice(at..at, k); what.push("repeated_block"); }
            6 => {
                if len > 0 {
                    let at = r.below(len);
                    let x = c[at] as u32 ^ (1 << r.below(7));
                    c[at] = char::from_u32(x).unwrap_or('?');
                }
                what.push("bit_flip");
            }
            7 | 8 => {
                // Re-indent some lines.
                let s: String = c.iter().collect();
                let d = r.below(5);
                let p = r.range(5, 60);
                c = s.split_inclusive('\n')
                    .map(|l| {
                        if !r.pct(p) { return l.to_string(); }
                        let body = l.trim_start_matches(' ');
                        match d {
                            0 => body.to_string(),
                            1 => format!(" {l}"),
                            2 => format!("{}{body}", " ".repeat(r.below(9))),
                            3 => format!("\t{body}"),
                            _ => format!("   {l}"),
                        }
                    })
                    .collect::<String>()
                    .chars()
                    .collect();
                what.push("reindented");
            }
            9 | 10 => { let s: Vec<char> = r.pick(&SNIPS).chars().collect(); c.splice(a..a, s); what.push("stray_bytes"); }
            11 => {
                // Two blocks change places.
                let m = r.range(0, len);
                let (lo, hi) = (a.min(m), a.max(m));
                c[lo..].rotate_left(hi - lo);
                what.push("misdirected_block");
            }
            _ => {
                let s: String = c.iter().collect();
                c = match r.below(4) {
                    0 => s.replace('\n', "\r\n"),
                    1 => s.replace("\r\n", "\n"),
                    2 => s.replace('\n', "\r"),
                    _ => s.replace("  ", "\t"),
                }.chars().collect();
                what.push("converted_blanks");
            }
        }
        if c.len() > 60_000 { c.truncate(60_000); }
    }
    (c.into_iter().collect(), what)
}

/// Two versions of one file, torn at a crash: the head of one and the tail of
/// the other, at a block boundary or anywhere.
pub fn splice(r: &mut Rng, a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let k = r.range(0, x.len().min(y.len()));
    let k = if r.pct(30) { k / 16 * 16 } else { k };
    x[..k].iter().chain(&y[k.min(y.len())..]).collect()
}

/// Two texts alike but for one place: their words have a beginning, or an end,
/// and a length in common.
pub fn siblings(r: &mut Rng) -> (String, String) {
    let most = *r.pick(&[6usize, 20, 40, 300]);
    let k = 2 + r.skew(most);
    let num = |r: &mut Rng, k: usize| -> String { let d = 1 + r.below(9); let dot = if r.pct(60) { k } else { r.below(k + 1) }; (0..k).map(|i| if i == dot && i > 0 { ".".to_string() } else { ((d + i * 7) % 10).to_string() }).collect() };
    let one = |r: &mut Rng| -> (String, String) {
        let at = *r.pick(&[0usize, 0, 1]);
        let join = |a: &str, x: &str, z: &str| -> (String, String) { if at == 1 { (format!("{x}{a}"), format!("{z}{a}")) } else { (format!("{a}{x}"), format!("{a}{z}")) } };
        match r.below(5) {
            0 | 1 => { let n = num(r, k); if at == 1 { (format!("1{n}"), format!("2{n}")) } else { (format!("{n}1"), format!("{n}25")) } }
            2 => join(&"n".repeat(k), "a", "b"),
            3 => { let (x, z) = join(&"s".repeat(k), "a", "é"); (format!("\"{x}\""), format!("\"{z}\"")) }
            _ => { let (x, z) = join(&"k".repeat(k), "a", "B"); (format!("o.{x}"), format!("o.{z}")) }
        }
    };
    let (mut a, mut b) = (String::new(), String::new());
    for i in 0..r.range(1, 4) {
        let (x, z) = one(r);
        let (x, z) = if r.pct(25) { (x.clone(), x) } else { (x, z) };
        let f = *r.pick(&["print N\n", "x = [N, 1]\n", "f(N)\n", "var vI = N\n", "if (N == 1)\n  print N\n", "m = {a: N}\n", "print N + N\n", "fun fI()\n  return N\n", "N\n"]);
        for (o, w) in [(&mut a, &x), (&mut b, &z)] { o.push_str(&f.replace('N', w).replace('I', &i.to_string())); }
    }
    if r.pct(20) { a.push_str("print )\n"); b.push_str("print )\n"); }
    (a, b)
}

/// Source text of any kind: good, faulty, damaged, long.
pub fn any_text(r: &mut Rng) -> String {
    let k = r.below(100);
    let bad = r.pct(50);
    let t = program(r, bad);
    match k {
        0..=54 => t,
        55..=69 => { let n = r.range(1, 3); damage(r, &t, n).0 }
        70..=74 => { let o = program(r, true); splice(r, &t, &o) }
        75..=79 => String::new() + ["", "\n", " ", "1", "\"", "é", "\u{feff}print 1\n", "//\n"][r.below(8)],
        80..=91 => { let u = format!("{}\n", program(r, false).trim_end()); let n = 1 + r.below(4000 / u.len().max(40) + 2); u.repeat(n) + &t }
        92..=95 => {
            // Longer than any buffer on the way.
            let want = *r.pick(&[8_192usize, 8_193, 16_384, 30_000, 65_536, 66_000]);
            let mut s = String::new();
            let pad = if r.pct(50) { "// filler é日本👩‍👩‍👧\n" } else { "// plain filler line of some length\n" };
            while s.len() + pad.len() <= want { s.push_str(pad); }
            s + &t
        }
        _ => t.trim_end().to_string(),
    }
}

/// Cuts for `len` bytes of reading or writing.
pub fn cuts(r: &mut Rng, len: usize, eintr: bool) -> Evs {
    let mut v = vec![];
    let kind = r.below(7);
    if kind == 0 { return v; }
    let cap = 400;
    let mut left = len;
    let p_int = if eintr { *r.pick(&[0usize, 0, 5, 30]) } else { 0 };
    while left > 0 && v.len() < cap {
        while r.pct(p_int) && v.len() < cap { v.push((EV_ERR, EINTR)); }
        let n = match kind {
            1 => 1,
            2 => r.range(1, 3),
            3 => r.range(1, 16),
            4 => 1 + r.skew(len),
            5 => 1 + r.skew(64),
            _ => if r.pct(50) { 1 } else { 1 + r.skew(200) },
        }.min(left);
        v.push((EV_DATA, n as u32));
        left -= n;
    }
    if p_int > 0 && r.pct(40) { v.push((EV_ERR, EINTR)); }
    v
}

/// Replaces up to three bytes so that the text is not UTF-8 any more.
pub fn pokes(r: &mut Rng, t: &str) -> J {
    let mut v = vec![];
    if !t.is_empty() {
        for _ in 0..r.range(1, 3) {
            let at = if r.pct(25) { t.len() - 1 } else { r.below(t.len()) };
            v.push(J::Arr(vec![J::from(at), J::from(*r.pick(&[0x80usize, 0xbf, 0xc3, 0xe3, 0xf0, 0xff, 0xc0, 0xed]))]));
        }
    }
    J::Arr(v)
}

pub fn lossy(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    if s.chars().count() > 400 { format!("{:?}...", s.chars().take(400).collect::<String>()) } else { format!("{s:?}") }
}
/// Where two byte strings part.
pub fn differ(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let lo = k.saturating_sub(20);
    format!(
        "at byte {k}: got {} ({} bytes), want {} ({} bytes)",
        lossy(&a[lo..a.len().min(k + 80)]), a.len(), lossy(&b[lo..b.len().min(k + 80)]), b.len()
    )
}
/// Steps allowed for a text.
pub fn budget(len: usize) -> u64 { 100_000 + 1_000 * len as u64 }
