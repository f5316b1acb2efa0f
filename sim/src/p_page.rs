//! Cases for the page and the WebAssembly module: C15 and C16. They are
//! executed by page/main.mjs.
use crate::common::*;
use crate::gen_::{Cfg, Gen};
use crate::jarr;
use crate::jobj;
use crate::json::J;
use crate::rng::Rng;

/// Literals of every kind in one text: what a display or an encoder may lose.
fn literals(r: &mut Rng) -> String {
    fn lit(r: &mut Rng, d: usize) -> String {
        const S: [&str; 30] = [
            "<b>", "<i>x</i>", "&lt;", "<", "&amp;", "<br>", "<!-- x -->", "$&", "", "a", "1", "true", "nil", "null", "undefined", "[", "]", "{", "}", ",", ": ", "a: 1", "'", "\\", "\\n", "//", "名前 é", "👩‍👩‍👧", "e\u{301}", "\u{2028}\u{0}\t",
        ];
        const N: [&str; 17] = ["1000000000000000000000000", "123456789012345678901234567890.5", "99999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999999", "0", "1", "1.5", "0.1", "123456789012", "9007199254740993", "1000000000000000000000", "0.0000001", "4294967296", "255", "256", "0.30000000000000004", "2147483648", "65536"];
        match r.below(if d == 0 { 6 } else { 9 }) {
            0 => "true".into(),
            1 => "false".into(),
            2 => "nil".into(),
            3 => r.pick(&N).to_string(),
            4 | 5 => format!("\"{}\"", r.pick(&S)),
            6 => { let n = r.below(4); let v: Vec<String> = (0..n).map(|_| lit(r, d - 1)).collect(); format!("[{}]", v.join(", ")) }
            _ => {
                let n = r.below(4);
                let mut ks: Vec<String> = vec![];
                let v: Vec<String> = (0..n).map(|_| {
                    let mut k = match r.below(3) { 0 => r.pick(&["a", "b", "type", "args", "constructor", "__proto__", "toString", "length"]).to_string(), _ => format!("\"{}\"", r.pick(&S)) };
                    if ks.contains(&k.replace('"', "")) { k = format!("k{}", ks.len()); }
                    ks.push(k.replace('"', ""));
                    format!("{k}: {}", lit(r, d - 1))
                }).collect();
                format!("({{{}}})", v.join(", "))
            }
        }
    }
    let n = r.range(1, 4);
    (0..n).map(|k| {
        let l = lit(r, 3);
        match r.below(4) { 0 => format!("print {l}\n"), 1 => format!("var v{k} = {l}\n"), 2 => format!("f({l})\n"), _ => format!("x = {l} == y\n") }
    }).collect()
}
fn deepish(r: &mut Rng) -> String {
    let n = r.range(2, 40);
    match r.below(4) {
        0 => "(".repeat(n) + "1" + &")".repeat(n) + "\n",
        1 => "[".repeat(n) + &"]".repeat(n) + "\n",
        2 => (0..n).map(|k| format!("{}if (a)\n", " ".repeat(k))).collect::<String>() + &" ".repeat(n) + "print 1\n",
        _ => format!("print {}1\n", "1 - ".repeat(n)),
    }
}
fn text(r: &mut Rng) -> String {
    match r.below(20) {
        0..=5 => { let b = r.pct(20); program(r, b) }
        6..=9 => literals(r),
        10..=12 => { let t = program(r, true); let n = r.range(1, 3); damage(r, &t, n).0 }
        13 => deepish(r),
        14 => ["", "\n", " ", "1\n", "print 1\n", "\"", "nil\n", "(", "\u{feff}", "var a = a\n"][r.below(10)].to_string(),
        15 => { // several mistakes at once
            let n = r.range(2, 6);
            (0..n).map(|_| *r.pick(&["return 1\n", "print this\n", "super.m()\n", "print 1\n", "class A < A\n  m()\n    print 1\n", "fun f(a, a)\n  print a\n", "var b = 1\n"])).collect()
        }
        16 => { // many names: slots run out near 256
            let n = if r.pct(40) { r.range(250, 262) } else { r.range(100, 250) };
            match r.below(5) {
                0 => (0..n).map(|k| format!("g{k}\n")).collect(),
                1 => (0..n).map(|k| format!("var g{k} = {k}\n")).collect(),
                2 => format!("while (a)\n{}", (0..n).map(|k| format!("  var g{k} = g{}\n", k / 2)).collect::<String>()),
                3 => { let v: Vec<String> = (0..n).map(|k| format!("p{k}")).collect(); format!("fun f({})\n  print p{}\n", v.join(", "), n - 1) }
                _ => { let v: Vec<String> = (0..n).map(|k| format!("a{}", k % 150)).collect(); format!("f({})\nm = [{}]\n", v.join(", "), v.join(", ")) }
            }
        }
        17 => any_text(r),
        _ => {
            let mut c = Cfg::random(r);
            c.stmts = r.range(1, 3);
            let e = Gen::new(r, c).entry();
            let st = style(r);
            crate::render::render(&e, &st).map(|x| x.text).unwrap_or_default()
        }
    }
}
/// Edits as a user makes them: a text grows by pieces, is pasted, is broken and mended.
fn edits(r: &mut Rng, n: usize) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    while v.len() < n {
        match r.below(6) {
            0 => { // typed in pieces
                let t: Vec<char> = text(r).chars().take(400).collect();
                let mut k = 0;
                while k < t.len() && v.len() < n { k = (k + 1 + r.skew(60)).min(t.len()); v.push(t[..k].iter().collect()); }
            }
            4 if r.pct(20) => { let (a, b) = siblings(r); v.push(a); v.push(b); }
            1 if !v.is_empty() => { let o = v[r.below(v.len())].clone(); v.push(o); }
            3 if !v.is_empty() => { // as long as before, other words
                let o = v[v.len() - 1].clone();
                v.push(crate::p_session::shadow(r, &o));
            }
            2 if !v.is_empty() => { // broken, then mended
                let o = v[v.len() - 1].clone();
                v.push(damage(r, &o, 1).0);
                v.push(o);
            }
            _ => v.push(text(r)),
        }
    }
    v.truncate(n);
    v.into_iter().map(tame).collect()
}
/// Words side by side nest: many of them only stay within the module's stack
/// on several lines.
fn tame(t: String) -> String {
    let (mut run, mut most, mut word) = (0, 0, false);
    for c in t.chars() {
        if matches!(c, ' ' | '\t' | '\r') { word = false; continue; }
        let w = c.is_alphanumeric() || c == '_' || c == '"';
        if !w { run = 0; } else if !word { run += 1; most = most.max(run); }
        word = w;
    }
    if most > 50 { t.chars().map(|c| if c == '\r' { '\n' } else { c }).take(200).collect() } else { t }
}

pub fn gen_c15(r: &mut Rng, _: u64) -> J {
    let n = r.skew(10);
    let es = edits(r, n);
    // Load, ready, complete at any place among the edits; complete after ready.
    let mut ev: Vec<J> = es.iter().map(|t| match r.below(10) {
        // Through an input method: several inputs, then its end.
        0 => jarr!["compose", t.as_str(), r.below(3)],
        1..=3 => jarr!["edit", t.as_str(), *r.pick(&["insertFromPaste", "deleteContentBackward", "historyUndo", "insertLineBreak", "deleteByCut", "insertFromDrop", "insertReplacementText", ""])],
        _ => jarr!["edit", t.as_str()],
    }).collect();
    let ready = r.range(0, ev.len());
    ev.insert(ready, jarr!["ready"]);
    let k = r.range(ready + 1, ev.len());
    ev.insert(k, jarr!["complete"]);
    let k = if r.pct(25) { 0 } else { r.range(0, ev.len()) };
    ev.insert(k, jarr!["load"]);
    for _ in 0..r.below(4) { let k = r.range(0, ev.len()); ev.insert(k, jarr!["settle"]); }
    for _ in 0..r.below(3) { let k = r.range(0, ev.len()); ev.insert(k, jarr!["tick", r.skew(2000)]); }
    for _ in 0..r.below(3) { let k = r.range(0, ev.len()); ev.insert(k, jarr![*r.pick(&["change", "keyup", "focus", "blur", "click"])]); }
    // The tab may be in the background when the page opens, or be left and come back.
    let hidden = r.pct(12);
    if hidden || r.pct(12) {
        for k in 0..r.range(1, 3) { let at = r.range(0, ev.len()); ev.insert(at, jarr![if (k % 2 == 0) == hidden { "show" } else { "hide" }]); }
    }
    let mut c = jobj! {"kind": "page", "events": J::Arr(ev)};
    if hidden { c.set("hidden", J::from(1)); }
    if r.pct(60) { let t = tame(text(r)); c.set("initial", J::from(t)); }
    if r.pct(25) { c.set("build", J::from("debug")); }
    c
}
pub fn gen_c16(r: &mut Rng, i: u64) -> J {
    let mut c = gen_calls(r, i);
    if r.pct(25) { c.set("build", J::from("debug")); }
    c
}
fn gen_calls(r: &mut Rng, i: u64) -> J {
    if i % 41 == 40 {
        let n = r.range(1, 3);
        let mut v: Vec<String> = (0..n).map(|_| tame(text(r).chars().take(300).collect())).collect();
        if i % 82 == 81 {
            // Long, and often rejected: by the scanner, the parser, the resolver.
            for t in &mut v {
                let pad = "x".repeat(r.range(2000, 6000));
                if r.pct(50) { *t = format!("// {pad}\n{t}"); } else { *t = format!("print \"{pad}\"\n{t}"); }
                if r.pct(70) { t.push_str(r.pick(&["\nprint )\n", "\n@\n", "\nreturn 1\n", "\nprint 1\nprint this\n", "\nm = {a: 1, a: 2}\n"])); }
            }
            return jobj! {"kind": "leak", "texts": v, "rounds": 600 / n, "fresh": r.pct(30) as i64};
        }
        return jobj! {"kind": "leak", "texts": v, "rounds": *r.pick(&[1500usize, 1500, 6000]) / n, "fresh": *r.pick(&[0, 0, 1, 2])};
    }
    let n = 1 + r.skew(9);
    jobj! {"kind": "calls", "texts": edits(r, n)}
}
