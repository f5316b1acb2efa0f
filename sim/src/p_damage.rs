//! Damaged texts: C12 and C13.
use crate::common::*;
use crate::fw::{Stats, Viol, viol};
use crate::jobj;
use crate::json::{J, R};
use crate::p_cli;
use crate::proc::{Plan, STDERR, STDOUT, bytes_from};
use crate::rng::{Rng, hash_bytes};
use crate::rt;
use crate::sut::{self, Diag, Mode, Out};
use std::sync::atomic::Ordering::Relaxed;

/// A text after storage faults, and what they were.
fn damaged(r: &mut Rng) -> (String, Vec<&'static str>) {
    let b = r.pct(30);
    let mut t = program(r, b);
    if r.pct(15) { let o = program(r, false); t = format!("{}\n{o}", t.trim_end()); }
    if r.pct(4) { let n = 1 + r.skew(30); t = t.repeat(n); }
    if r.pct(1) { let n = 1 + (20_000 + r.skew(40_000)) / t.len().max(1); t = format!("{}\n", t.trim_end()).repeat(n); }
    let mut what = vec![];
    if r.pct(15) { let o = program(r, true); t = splice(r, &t, &o); what.push("spliced_versions"); }
    let n = *r.pick(&[0usize, 1, 1, 1, 2, 3, 6]);
    let (t, w) = damage(r, &t, n);
    what.extend(w);
    (t, what)
}
/// Small texts from awkward pieces.
fn soup(r: &mut Rng) -> String {
    const P: [&str; 72] = [
        "１", "1２", "²", "½", "Ⅷ", "٣", "\u{a0}", "\u{2028}", "\u{85}", "\u{3000}", "\u{feff}", "İ", "ǆ", "1.２",
        "(", ")", "{", "}", "[", "]", ":", ",", ".", ";", "=", "==", "!", "-", "+", "*", "/", "//", "/*", "\\", "\\\n", "\"", "\"\n\"", "'", "\n", "\n  ", "\n    ",
        "\n ", "\n\t", "\r\n", "\r", "\t", " ", "  ", "\u{0}", "é", "名", "👩‍👩‍👧", "e\u{301}", "a", "b", "f", "1", "1.", ".5", "1e5", "0x", "var ", "fun ", "class ", "if ", "else ",
        "while ", "for ", "return ", "super", "this", "break",
    ];
    let n = 1 + r.skew(40);
    (0..n).map(|_| *r.pick(&P)).collect()
}
fn deep(r: &mut Rng) -> String {
    let n = 1 + r.skew(55);
    let m = if r.pct(50) { n } else { r.range(0, n) };
    if r.pct(60) {
        // Nested at every place of the grammar that holds an expression or a block.
        const F: [(&str, &str, usize); 40] = [
            ("(", ")", 1), ("[", "]", 1), ("[0, ", "]", 1), ("[0, 0, ", "]", 1), ("[", ", 0]", 1), ("f(", ")", 1), ("f(0, ", ")", 1), ("f(", ", 0)", 1), ("f 0, ", "", 1), ("f ", "", 1),
            ("{a: ", "}", 1), ("{a: 0, b: ", "}", 1), ("{a: ", ", b: 0}", 1), ("{\"k\": ", "}", 1), ("1 + ", "", 1), ("1 * (", ")", 1), ("(", " + 1)", 1), ("1 == (", ")", 1), ("1 < (", ")", 1), ("a and ", "", 1),
            ("a or ", "", 1), ("(", " or 1)", 1), ("!", "", 1), ("-(", ")", 1), ("a[", "]", 1), ("a[0][", "]", 1), ("a[", "] = 1", 1), ("a.b = ", "", 1), ("a[0] = ", "", 1), ("a = ", "", 1),
            ("a.b(", ")", 1), ("a.b(", ").c", 1), ("(fun (p) { return ", " })", 3), ("g(fun (p) { print ", " })", 3), ("(", ")(1)", 1), ("[", "][0]", 1), ("if (", ") print 1", 1), ("while (", ") print 1", 1), ("super.m(", ")", 1), ("@", "", 1),
        ];
        let k = if r.pct(60) { 1 } else { r.range(2, 4) };
        let fs: Vec<_> = (0..k).map(|_| *r.pick(&F)).collect();
        let n = if r.pct(40) { r.range(24, 55) } else { n };
        let n = n / fs.iter().map(|f| f.2).max().unwrap_or(1);
        let m = if r.pct(50) { n } else { r.range(0, n) };
        // Deeper, where nothing is closed and so nothing printed; well within what the stack holds.
        let (n, m) = if r.pct(12) && fs.iter().all(|f| !f.1.is_empty() && f.2 == 1) { (r.range(60, 150), 0) } else { (n, m) };
        let first = *r.pick(&["print ", "x = ", "var v = ", "", "return ", "if (a) print ", "fun f() { return ", "class A < B { m() { print "]);
        let mut t = first.to_string();
        for i in 0..n { t.push_str(fs[i % k].0); }
        t.push_str(*r.pick(&["1", "a", "\"s\"", "this", "nil", ")", ""]));
        for i in (n - m..n).rev() { t.push_str(fs[i % k].1); }
        if m == n { t.push_str(["", "", "", "", "", "", " }", " } }"][["print ", "x = ", "var v = ", "", "return ", "if (a) print ", "fun f() { return ", "class A < B { m() { print "].iter().position(|x| *x == first).unwrap_or(0)]); }
        if r.pct(85) { t.push('\n'); }
        return t;
    }
    match r.below(8) {
        0 => "(".repeat(n) + "1" + &")".repeat(m),
        1 => "[".repeat(n) + &"]".repeat(m),
        2 => "-".repeat(n) + "1",
        3 => "f(".repeat(n) + &")".repeat(m),
        4 => (0..n).map(|k| format!("{}if (a)\n", "  ".repeat(k))).collect::<String>() + &"  ".repeat(m) + "print 1\n",
        5 => (0..n).map(|k| format!("{}fun f{k}()\n", " ".repeat(k))).collect::<String>() + &" ".repeat(m) + "f1()\n",
        6 => "{a: ".repeat(n) + "1" + &"}".repeat(m),
        _ => format!("print {}1", "1 + ".repeat(n * 3)),
    }
}
/// One piece over and over, up to the length of a big file, in one line or many.
fn big(r: &mut Rng, program: bool) -> String {
    const U: [&str; 45] = [
        "1, ", "a, ", "print x\n", ")\n", "@", "\"s\"\n", "if (a)\n  b\n", "fun f()\n  a\n", "x", "9", " ", "\t", "\n", "\r\n", "\r", "// c\n", "//", "\u{301}", "👩\u{200d}", "🇦",
        "\\\n", "\\ \n", "   \n", "{\n}\n", "{}\n", "]\n", "var a = 1\n", "class A\n  m()\n    a\n", "return 1\n", "var b = b\n", "a = 1\n", "f x, y\n", "é", ": ", "; ", ". ", "= ", "\"\n", 
        "else ", "\u{0}", "\u{feff}", "  a\n b\n", "fun f(a, a)\n  a\n", "break\n", "for (;;) a\n",
    ];
    // Every repetition nests one level: the stack is a known limit.
    const DEEP: [&str; 12] = ["(", "[", "{a: ", "f(", "a.b.", "1 + ", "-", "if (a) ", "{ ", "fun () {", "a = ", "else if (a) "];
    let want = *r.pick(&[3_000usize, 10_000, 30_000, 66_500, 70_000]);
    if r.pct(25) {
        let u = *r.pick(&DEEP);
        // In process the stack is big enough for many levels.
        let n = if program || r.pct(30) { r.range(10, 60) } else { r.range(500, 4000) };
        return format!("{}1{}", u.repeat(n), if r.pct(50) { "" } else { "\n" });
    }
    let u = *r.pick(&U);
    let n = want / u.len() + 1;
    match r.below(6) {
        0 => format!("[{}1]\n", "1, ".repeat(want / 3)),
        1 => format!("f {{{}}}\n", (0..want / 8).map(|k| format!("k{k}: 1")).collect::<Vec<_>>().join(", ")),
        2 => format!("\"{}\" )\n", u.replace('"', "").repeat(n)),
        3 => { let v = *r.pick(&U); format!("{}{}", u.repeat(n / 2), v.repeat(n / 2)) }
        4 => format!("{}{}\n", u.repeat(n), crate::common::program(r, true)),
        _ => u.repeat(n),
    }
}
/// Something long or odd that a diagnostic then has to quote or step over.
fn notable(r: &mut Rng) -> String {
    let before = if r.pct(50) { program(r, false) } else { String::new() };
    const W: [&str; 8] = ["word", "é", "日本", "e\u{301}", "👩\u{200d}👩", "//", "{ ", "\\n"];
    let s = {
        let mut s = String::from("\"");
        let want = *r.pick(&[5usize, 60, 300, 900, 2500]);
        let nl = *r.pick(&[0usize, 2, 10, 30]);
        while s.len() < want { s.push_str(if r.pct(nl) { *r.pick(&["\n", "\n  ", "\r\n", "\n\n"]) } else { *r.pick(&W) }); if r.pct(60) { s.push(' '); } }
        s + "\""
    };
    let key = match r.below(8) {
        0 => s.clone(),
        1 => (*r.pick(&["a_b", "_", "__k", "größe", "名前", "e\u{301}t", "\"two words\"", "\"\"", "\"k_1\"", "\"日本 語\"", "\"//\""])).to_string(),
        2 => "k".repeat(1 + r.skew(300)),
        _ => format!("{}_{}", r.pick(&["a", "_", "é", "zz"]), r.below(9)),
    };
    let fault = match r.below(14) {
        0 => format!("print 1 {s}"),
        1 => format!("f {s} {s}"),
        2 => format!("{s} )"),
        3 => format!("var x = {s} @ 1"),
        4 => format!("{s}: 1, {s}: 2"),
        5 => format!("f {{{key}: 1, {key}: 2}}"),
        6 => format!("{key}: 1, b: 2, {key}: 3"),
        7 => format!("var m =\n  {key}: 1\n  other: 2\n  {key}: 3"),
        8 => format!("class {s}"),
        9 => format!("if (a) {s}\n  {s}"),
        10 => format!("fun f({key}, {key})\n  print 1"),
        11 => format!("fun g(p)\n  var {key} = {s}\n  var {key} = {key}"),
        12 => format!("print {key} {key} = 1"),
        _ => format!("[{s}, {s}\n"),
    };
    format!("{before}{fault}\n{}", if r.pct(30) { program(r, true) } else { String::new() })
}
/// Every line further in than the one before, then back by steps.
fn stairs(r: &mut Rng) -> String {
    let n = 1 + r.skew(260);
    let w = *r.pick(&["x", "print 1", "@", "a: 1", "// c", "if (a)", ")", "var a = 1"]);
    let w = if w == "if (a)" && n > 90 { "x" } else { w };
    let step = r.range(1, 2);
    let mut t: String = (0..n).map(|k| format!("{}{w}\n", " ".repeat(k * step))).collect();
    let mut k = n * step;
    while k > 0 && r.pct(90) { k -= 1 + r.below(k.min(3 * step)); t.push_str(&format!("{}y\n", " ".repeat(k))); }
    t
}
fn gen_text(r: &mut Rng, program: bool) -> (String, Vec<&'static str>) {
    if r.pct(3) { return (notable(r), vec!["notable"]); }
    if r.pct(1) { return (stairs(r), vec!["stairs"]); }
    if r.pct(1) { return (big(r, program), vec!["long"]); }
    match r.below(20) {
        0..=13 => damaged(r),
        14..=17 => (soup(r), vec!["awkward_pieces"]),
        18 => { let d = deep(r); let n = r.below(2); let (t, mut w) = damage(r, &d, n); w.push("deep"); (t, w) }
        _ => { let (a, _) = (soup(r), 0); let b = r.pct(50); let p = crate::common::program(r, b); (p + &a, vec!["awkward_tail"]) }
    }
}
/// The most words and marks between two line ends that are not inside a string:
/// what nests without indentation is on one such line.
fn longest_line(t: &str) -> usize {
    let (mut most, mut n, mut word, mut quoted) = (0, 0usize, false, false);
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        if c == '"' { quoted = !quoted; n += 1; word = false; continue; }
        if quoted { continue; }
        if c == '/' && it.peek() == Some(&'/') { while it.peek().is_some_and(|c| *c != '\n') { it.next(); } continue; }
        if c == '\n' { n = 0; word = false; continue; }
        let w = c.is_alphanumeric() || c == '_';
        if !(w && word) && !c.is_whitespace() { n += 1; }
        word = w;
        most = most.max(n);
    }
    most.max(n)
}
/// Time this thread has used.
fn cpu_ms() -> u64 {
    unsafe extern "C" {
        fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32;
    }
    const THREAD_CPUTIME: i32 = 3;
    let mut t = [0i64; 2];
    unsafe { clock_gettime(THREAD_CPUTIME, &mut t); }
    t[0] as u64 * 1000 + t[1] as u64 / 1_000_000
}
fn label(c: &J, st: &mut Stats) {
    if let Ok(v) = c.strs("damage") { for k in v { st.add(&format!("fault.{k}"), 1); } }
}

pub fn gen_c12(r: &mut Rng, i: u64) -> J {
    let (t, w) = gen_text(r, i % 13 == 12);
    let mut c = jobj! {"text": t.as_str(), "damage": w, "mode": ["script", "line", "expr", "once"][[0, 0, 0, 3, 1, 1, 2][r.below(7)]], "cli": (i % 13 == 12) as i64};
    if i % 13 == 12 && r.pct(50) { let p = pokes(r, &t); c.set("text_poke", p); }
    c
}
pub fn exec_c12(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    // A text given as a repeated piece (known findings: too long to write out).
    let t = match c.get("repeat") {
        Some(n) => c.s("text")?.repeat(n.int()?.clamp(0, 1 << 22) as usize) + c.s("tail").unwrap_or(""),
        None => c.s("text")?.to_string(),
    };
    label(c, st);
    if c.u_or("cli", 0) == 0 {
        let mode = Mode::from(c.s("mode")?)?;
        rt::reset_run(budget(t.len()));
        let limit_ms = 3_000 + t.len() as u64 / 50;
        let once = || sut::on_thread(1, || {
            sut::once("print 1\n", Mode::Script);
            let b = rt::LIVE_BYTES.load(Relaxed);
            rt::PEAK.store(b, Relaxed);
            let total = rt::TOTAL.load(Relaxed);
            let mut s = sut::Session::new();
            let t0 = cpu_ms();
            let o = s.submit_fmt(&t, mode, false);
            let cpu = cpu_ms() - t0;
            let p = rt::PEAK.load(Relaxed) - b;
            (o, p, rt::TOTAL.load(Relaxed) - total, cpu)
        });
        let (o, peak, total, mut cpu) = once();
        // The machine may be busy: the best of three.
        for _ in 0..2 {
            if cpu > limit_ms {
                rt::reset_run(budget(t.len()));
                cpu = cpu.min(once().3);
            }
        }
        let steps = rt::STEPS.load(Relaxed);
        st.edges_now();
        st.sigs.insert(hash_bytes(t.as_bytes()));
        st.trace_str(&o.text());
        match &o {
            Out::Panic(m) => return viol("panic", format!("{m}: text {}", lossy(t.as_bytes()))),
            Out::Tree(..) => st.add("accepted", 1),
            Out::Rejected(_) => st.add("rejected", 1),
        }
        if t.len() > 1000 {
            let x = st.counts.entry("max_steps_per_byte_over_1k".into()).or_default();
            *x = (*x).max(steps / t.len() as u64);
            let x = st.counts.entry("max_allocated_per_byte_over_1k".into()).or_default();
            *x = (*x).max(total / t.len() as u64);
            let x = st.counts.entry("max_cpu_ms".into()).or_default();
            *x = (*x).max(cpu);
        }
        let limit = (1 << 20) + 2_500 * t.len() as u64;
        if total > limit { return viol("work", format!("{total} bytes were allocated in all for {} bytes of text {}", t.len(), lossy(t.as_bytes()))); }
        if cpu > limit_ms { return viol("time", format!("more than {limit_ms} ms for {} bytes of text {}", t.len(), lossy(t.as_bytes()))); }
        let bound = (1 << 20) + 4096 * t.len() as i64;
        if peak > bound { return viol("memory", format!("{peak} bytes of memory for {} bytes of text", t.len())); }
        return Ok(None);
    }
    let b = match c.get("repeat") { Some(_) => t.into_bytes(), None => bytes_from(c, "text")? };
    st.sigs.insert(hash_bytes(&b));
    let utf8 = std::str::from_utf8(&b).is_ok();
    st.add("fault.not_utf8", !utf8 as u64);
    let o = p_cli::run(&Plan { script: Some(b.clone()), ..Plan::default() });
    st.obs(&o);
    // Deep nesting overflows the stack, and a deep tree takes ages to print:
    // known, and told by cases of their own.
    let deep = |t: &[u8], m: Mode| {
        c.get("repeat").is_none() && std::str::from_utf8(t).is_ok_and(|t| {
            rt::reset_run(budget(t.len()) * 2);
            sut::on_thread(1, || longest_line(t) > 250 && (sut::prints_deep(t, m) || sut::stack_of(|| sut::Session::new().submit_fmt(t, m, false)) > 1_000_000))
        })
    };
    let known_end = |o: &crate::proc::Obs| o.hung() || o.signal == Some(6);
    if known_end(&o) && deep(&b, Mode::Script) { st.add("deep_trees_not_printed", 1); return Ok(None); }
    if o.hung() { return viol("program-hangs", format!("{}: text {}", o.ended(), lossy(&b))); }
    if let Some(s) = o.signal { return viol(&format!("program-signal-{s}"), format!("{}: text {}", o.ended(), lossy(&b))); }
    let ok = match o.code { Some(0) => utf8, Some(65) => utf8 && !o.stream(STDERR).is_empty(), _ => !utf8 };
    if !ok { return viol("program-status", format!("{}: text {}; stderr {}", o.ended(), lossy(&b), lossy(&o.stream(STDERR)))); }
    // Typed as a session.
    let o = p_cli::run(&Plan { stdin: b.clone(), ..Plan::default() });
    st.obs(&o);
    if known_end(&o) && b.split_inclusive(|b| *b == b'\n').any(|l| deep(l, Mode::Line)) { st.add("deep_trees_not_printed", 1); return Ok(None); }
    if o.hung() { return viol("session-hangs", format!("{}: input {}", o.ended(), lossy(&b))); }
    if let Some(s) = o.signal { return viol(&format!("session-signal-{s}"), format!("{}: input {}", o.ended(), lossy(&b))); }
    if utf8 && o.code != Some(0) { return viol("session-status", format!("{}: input {}; stderr {}", o.ended(), lossy(&b), lossy(&o.stream(STDERR)))); }
    Ok(None)
}

// ---------------------------------------------------------------- C13

pub fn gen_c13(r: &mut Rng, i: u64) -> J {
    let (mut t, mut w) = gen_text(r, i % 13 == 12);
    if i % 390 == 12 && t.len() < 20_000 {
        // More lines than small counters hold.
        let n = *r.pick(&[300usize, 32_760, 65_530, 65_540, 70_000, 131_080]) + r.below(12);
        t = r.pick(&["\n", "\r\n", "// line\n", "a\n"]).repeat(n) + &t;
        w.push("many_lines");
        return jobj! {"text": t, "damage": w, "mode": "script", "cli": 1};
    }
    jobj! {"text": t, "damage": w, "mode": ["script", "line", "expr", "once"][[0, 0, 0, 3, 1, 1, 2][r.below(7)]], "cli": (i % 13 == 12) as i64}
}

/// Lines as a reader counts them.
struct Lines<'a> { v: Vec<&'a str>, at: Vec<usize>, t: &'a str, g: std::cell::RefCell<(u32, std::rc::Rc<Vec<usize>>)> }
impl<'a> Lines<'a> {
    fn new(t: &'a str) -> Lines<'a> {
        let (mut v, mut at, mut p) = (vec![], vec![], 0);
        for l in t.split('\n') {
            at.push(p);
            p += l.len() + 1;
            v.push(l);
        }
        // A carriage return before the newline belongs to the line's end.
        let n = v.len();
        for l in v.iter_mut().take(n - 1) { if let Some(s) = l.strip_suffix('\r') { *l = s; } }
        Lines { v, at, t, g: Default::default() }
    }
    fn graphemes(&self, line: u32) -> std::rc::Rc<Vec<usize>> {
        let mut g = self.g.borrow_mut();
        if g.0 != line { *g = (line, std::rc::Rc::new(graphemes(self.v[line as usize - 1]))); }
        g.1.clone()
    }
}
/// Byte offsets of the user-perceived characters of a line, and its end.
pub fn graphemes(l: &str) -> Vec<usize> { crate::grapheme::offsets(l) }

fn judge(d: &Diag, ls: &Lines) -> Option<(String, String)> {
    let say = |c: &str, m: String| Some((c.to_string(), format!("{m}: {}", d.cli().trim_end())));
    if d.line == 0 || d.line as usize > ls.v.len() { return say("line", format!("the text has {} lines", ls.v.len())); }
    let start = ls.at[d.line as usize - 1];
    let g = ls.graphemes(d.line);
    let len = g.len() - 1;
    if d.col == 0 || d.col as usize > len + 2 { return say("column", format!("line {} has {len} characters", d.line)); }
    let Some(tok) = d.token.as_deref() else { return None };
    if tok.is_empty() { return None; }
    let here = |c: usize| g.get(c.wrapping_sub(1)).is_some_and(|o| ls.t[start + o..].starts_with(tok));
    if here(d.col as usize) { return None; }
    // Columns are counted up to here.
    if d.col == 65_535 && (d.col as usize..=len + 1).any(here) { return None; }
    // A key written as a string: its quotes are not part of the key.
    let quoted = || g.get(d.col as usize - 1).is_some_and(|o| ls.t[start + o..].strip_prefix('"').is_some_and(|x| x.starts_with(tok)));
    if quoted() { return None; }
    let around: String = g.get(d.col as usize - 1).map(|o| ls.t[start + o..].chars().take(20).collect()).unwrap_or_default();
    say("token", format!("{tok:?} is not at line {} column {}, where {around:?} is", d.line, d.col))
}
pub fn exec_c13(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let t = c.s("text")?;
    label(c, st);
    let mode = Mode::from(c.s("mode")?)?;
    rt::reset_run(budget(t.len()));
    let o = sut::on_thread(1, || { let mut s = sut::Session::new(); s.submit_fmt(t, mode, false) });
    st.edges_now();
    st.trace_str(&o.text());
    match &o {
        Out::Rejected(d) => {
            st.sigs.insert(hash_bytes(t.as_bytes()));
            if d.is_empty() { return viol("no-diagnostic", format!("rejected without a diagnostic: {t:?}")); }
            let ls = Lines::new(t);
            for x in d {
                st.add("diagnostics", 1);
                st.add("quoted_tokens", x.token.as_ref().is_some_and(|t| !t.is_empty()) as u64);
                if let Some((cl, m)) = judge(x, &ls) { return viol(&cl, format!("{m}; text {}", lossy(t.as_bytes()))); }
            }
        }
        Out::Panic(_) => return Ok(None),
        Out::Tree(..) => st.add("accepted", 1),
    }
    if c.u_or("cli", 0) == 1 && matches!(mode, Mode::Script | Mode::Once) {
        let p = p_cli::run(&Plan { script: Some(t.as_bytes().to_vec()), ..Plan::default() });
        st.obs(&p);
        if p.hung() || p.code.is_none() || p.code == Some(101) { return Ok(None); }
        let (out, err) = (p.stream(STDOUT), p.stream(STDERR));
        let want: String = match &o { Out::Rejected(d) => d.iter().map(|d| d.cli()).collect(), _ => String::new() };
        if err != want.as_bytes() { return viol("printed", differ(&err, want.as_bytes())); }
        if o.accepted() != !out.is_empty() { return viol("neither", format!("verdict of the library: {}; the program printed {}", o.brief(), lossy(&out))); }
    }
    Ok(None)
}
