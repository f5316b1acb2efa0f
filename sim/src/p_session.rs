//! Properties of sessions, in process: C06, C07, C08, C09 and C17.
use crate::common::*;
use crate::fw::{Stats, Viol, viol};
use crate::gen_::{Cfg, Gen, nest};
use crate::jarr;
use crate::jobj;
use crate::json::{J, R};
use crate::model::Model;
use crate::p_cli;
use crate::proc::{Plan, STDERR, STDOUT};
use crate::render::{Style, render};
use crate::rng::{Rng, hash_bytes};
use crate::rt;
use crate::sut::{self, Diag, Mode, Out, Session};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::Relaxed;

fn text_sig(ts: &[&str]) -> u64 { hash_bytes(ts.join("\u{0}").as_bytes()) }

// ---------------------------------------------------------------- C06

/// Many globals at once: the slots of a session can run out.
fn many_globals(r: &mut Rng, from: usize, n: usize) -> String {
    let mut s = String::new();
    for k in from..from + n {
        match r.below(3) {
            0 => s.push_str(&format!("var g{k} = {k}\n")),
            1 => s.push_str(&format!("print g{k}\n")),
            _ => s.push_str(&format!("g{k} = 1\n")),
        }
    }
    s
}
fn session_entries(r: &mut Rng, max: usize, bad: usize) -> Vec<String> {
    let n = r.range(2, max);
    let c0 = Cfg::random(r);
    let mut v = vec![];
    let crowd = r.pct(8);
    for k in 0..n {
        let t = if crowd && r.pct(40) {
            let n = r.range(30, 120);
            many_globals(r, k * 100, n)
        } else {
            let mut c = c0.clone();
            c.bad = if r.pct(bad) { 25 } else { 0 };
            c.raw = if r.pct(bad / 2) { 40 } else { 0 };
            c.multiline_raw = true;
            c.stmts = r.range(1, 4);
            let e = Gen::new(r, c).entry();
            let st = style(r);
            let t = render(&e, &st).map(|x| x.text).unwrap_or_default();
            if r.pct(bad / 3) {
                let d = damage(r, &t, 1).0;
                // Mended afterwards, at times.
                if r.pct(40) { v.push(d); t } else { d }
            } else if r.pct(bad / 4) {
                // Rejected for what stands after or before it; then mended.
                let nl = if t.ends_with('\n') || t.is_empty() { "" } else { "\n" };
                let f = trap(r);
                v.push(if r.pct(80) { format!("{t}{nl}{f}") } else { format!("{f}{t}") });
                if r.pct(25) { let f = trap(r); v.push(format!("{t}{nl}{f}")); }
                t
            } else {
                t
            }
        };
        v.push(t);
    }
    v
}
/// Entries built so that a rejection comes late and inside deep contexts.
fn trap(r: &mut Rng) -> String {
    let name = *r.pick(&["a", "b", "c", "x", "y", "g1"]);
    let pre = match r.below(8) {
        0 => format!("var {name} = 1\n"),
        1 => format!("fun {name}(p)\n  print p\n"),
        2 => format!("print {name}\n"),
        3 => format!("{name} = 2\n"),
        4 => format!("class {name}\n  m()\n    return this\n"),
        5 => format!("class {name} < Base\n  init()\n    super.init()\n"),
        _ => String::new(),
    };
    let bad = match r.below(12) {
        0 => format!("class K\n  init()\n    var {name} = 1\n    return {name}\n"),
        1 => "class K < K\n  m()\n    print 1\n".to_string(),
        2 => format!("fun f(a, a)\n  print {name}\n"),
        3 => format!("fun f(p)\n  fun g()\n    var p = p\n  print {name}\n"),
        4 => format!("class K < {name}\n  m()\n    fun h()\n      var q = q\n"),
        5 => format!("for (var i = 0; i < 3; i = i + 1)\n  var i2 = i2\n  print {name}\n"),
        6 => format!("while ({name})\n  return 1\n"),
        7 => format!("if ({name})\n  var z = 1\n  var z = 2\n"),
        8 => "super.m()\n".to_string(),
        9 => format!("var {name} = {name}\n"),
        10 => format!("while (true)\n  if ({name})\n    break break\n"),
        _ => "return this\n".to_string(),
    };
    let post = if r.pct(40) { format!("var {name}2 = 3\n") } else { String::new() };
    format!("{pre}{bad}{post}")
}
/// Ends that show what state is left.
fn probe(r: &mut Rng) -> String {
    let n = *r.pick(&["a", "b", "c", "x", "y", "g1", "zz", "K", "f", "this", "super", "p", "i"]);
    match r.below(9) {
        0 => format!("print {n}\n"),
        1 => format!("{n} = 1\n"),
        2 => format!("var {n} = 1\n"),
        3 => format!("fun q()\n  return {n}\n"),
        4 => "return 1\n".into(),
        5 => "print this\n".into(),
        6 => "super.m()\n".into(),
        7 => "break\n".into(),
        _ => format!("class Q\n  init()\n    print this\n  m({n}1)\n    return {n}\n"),
    }
}
pub fn gen_c06(r: &mut Rng, i: u64) -> J {
    let h = r.next() >> 12;
    if i % 11 == 10 {
        // Through the binary.
        let n = r.range(2, 9);
        let mut v: Vec<String> = (0..n).map(|_| line(r, 30)).collect();
        for n in ["a", "b", "x", "foo"] { if r.pct(40) { v.insert(r.range(0, v.len()), format!("print {n}")); } }
        if r.pct(40) {
            // A rejected line that declares much.
            let n = *r.pick(&["q", "a", "w"]);
            v.insert(r.range(0, v.len() - 1), r.pick(&["fun N(p, p) {} print 1", "class N < N {} print 2", "var N = fun (a, a) {}", "class N { init(b, b) {} } print u", "for (var i = 1; N; i) { var N = {a: this} } print 3", "while (N) { class L { m(c, c) {} } } N = 1"]).replace('N', n));
        }
        v.push("print zz".into());
        v.push(r.pick(&["return 1", "print this", "super.m", "break"]).to_string());
        return jobj! {"kind": "repl", "entries": v, "hash_seed": h};
    }
    let bad = *r.pick(&[20, 40, 60]);
    let mut v = vec![];
    for e in session_entries(r, 8, bad) {
        if r.pct(30) { v.push(trap(r)); }
        if r.pct(25) {
            let k = if r.pct(15) { r.range(6, 12) } else { r.range(1, 6) };
            let mut l = vec![nest(r, k, 15)];
            end_line(&mut l);
            let st = Style { nl_at_end: true, ..style(r) };
            if let Ok(t) = render(&l, &st) { v.push(t.text); }
        }
        v.push(e);
        if r.pct(40) { v.push(probe(r)); }
    }
    v.push(probe(r));
    let mut c = jobj! {"kind": "session", "entries": v, "mode": if r.pct(70) { "script" } else { "line" }, "hash_seed": h};
    if r.pct(2) {
        // A user who gets it wrong again and again.
        let b = trap(r);
        c.set("over", J::from(b));
        c.set("over_n", J::from(*r.pick(&[20usize, 270, 1100])));
    }
    c
}
pub fn exec_c06(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let es = c.strs("entries")?;
    let seed = c.u_or("hash_seed", 1);
    if c.s("kind")? == "repl" { return c06_repl(&es, seed, st); }
    let mode = Mode::from(c.s("mode")?)?;
    let over = c.s("over").ok();
    let n = c.u_or("over_n", 0).min(2000);
    rt::reset_run(budget(es.iter().map(|e| e.len()).sum::<usize>() * (es.len() + 1)) + n * budget(over.map_or(0, |b| b.len())));
    let (gots, mut rejected) = sut::on_thread(seed, || {
        let mut s = Session::new();
        let mut rejected = 0;
        if let Some(b) = over {
            for _ in 0..n {
                if s.submit_fmt(b, mode, false).accepted() { break; }
                rejected += 1;
            }
            if rejected < n { s = Session::new(); }
        }
        (es.iter().map(|e| s.submit(e, mode)).collect::<Vec<_>>(), rejected)
    });
    let mut kept: Vec<&String> = vec![];
    let mut differs = None;
    for (k, (e, got)) in es.iter().zip(gots).enumerate() {
        // A session in which no rejected entry ever was, on a thread of its own.
        let want = sut::on_thread(seed, || {
            let mut f = Session::new();
            for p in &kept { f.submit_fmt(p, mode, false); }
            f.submit(e, mode)
        });
        if got != want { differs = Some((k, got, want)); break; }
        if got.accepted() { kept.push(e) } else { rejected += 1 }
    }
    let r = (differs, rejected);
    st.edges_now();
    st.add("fault.rejected_entry", r.1);
    if r.1 > 0 { st.sigs.insert(text_sig(&es.iter().map(|x| x.as_str()).collect::<Vec<_>>())); }
    st.trace_str(&format!("{:?}", r.1));
    if let Some((k, got, want)) = r.0 {
        return viol("trace-left", format!("entry {} {:?}: after the rejected entries {}, without them {}", k + 1, es[k], got.brief(), want.brief()));
    }
    Ok(None)
}
fn c06_repl(es: &[String], seed: u64, st: &mut Stats) -> R<Option<Viol>> {
    let es: Vec<String> = es.iter().map(|e| e.replace(['\n', '\r'], " ")).collect();
    let go = |l: &[&String]| -> (crate::proc::Obs, Vec<String>) {
        let t: String = l.iter().map(|e| format!("{e}\n")).collect();
        let o = p_cli::run(&Plan { stdin: t.into_bytes(), hash_seed: seed, ..Plan::default() });
        let out = String::from_utf8_lossy(&o.stream(STDOUT)).into_owned();
        (o, out.split("> ").map(|s| s.to_string()).collect())
    };
    let all: Vec<&String> = es.iter().collect();
    let (o, a) = go(&all);
    st.obs(&o);
    if o.hung() { return viol("hang", o.ended()); }
    // One answer per line, then the prompt at the end.
    let a: Vec<String> = reglue(a);
    if a.len() != es.len() + 2 { return viol("transcript", format!("{} answers for {} lines", a.len() as i64 - 2, es.len())); }
    let kept: Vec<usize> = (0..es.len()).filter(|k| !a[k + 1].is_empty()).collect();
    st.add("fault.rejected_line", (es.len() - kept.len()) as u64);
    if kept.len() < es.len() { st.sigs.insert(hash_bytes(es.join("\n").as_bytes())); }
    let (o2, b) = go(&kept.iter().map(|k| &es[*k]).collect::<Vec<_>>());
    st.obs(&o2);
    let b = reglue(b);
    let want: Vec<&String> = kept.iter().map(|k| &a[k + 1]).collect();
    let got: Vec<&String> = b.iter().skip(1).take(b.len().saturating_sub(2)).collect();
    if want != got || !o2.stream(STDERR).is_empty() {
        let k = want.iter().zip(&got).position(|(x, y)| x != y).unwrap_or(0);
        return viol("trace-left", format!("line {:?}: in the whole session {:?}, in a session of the accepted lines only {:?}; stderr there {}",
            kept.get(k).map(|k| &es[*k]), want.get(k), got.get(k), lossy(&o2.stream(STDERR))));
    }
    Ok(None)
}
/// Undo splits inside answers (a tree may contain the prompt's characters).
fn reglue(v: Vec<String>) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for (k, p) in v.into_iter().enumerate() {
        // A prompt follows the start, an answer's end or another prompt.
        let boundary = k == 0 || out.last().is_some_and(|l| l.is_empty() || l.ends_with('\n'));
        if boundary { out.push(p) } else { let l = out.last_mut().unwrap(); l.push_str("> "); l.push_str(&p); }
    }
    out
}

// ---------------------------------------------------------------- C07, C08

/// A scope with about as many variables as slots.
fn crowd(r: &mut Rng) -> Vec<J> {
    let n = r.range(200, 300);
    let mut body: Vec<J> = vec![];
    for k in 0..n {
        let v = format!("w{k}");
        match r.below(14) {
            0 => body.push(jarr!["fun", v, J::Arr(vec![]), J::Arr(vec![jarr!["print", jarr!["id", format!("w{}", r.below(k + 1))]]])]),
            1 => body.push(jarr!["class", v, J::Null, J::Arr(vec![jarr![false, "m", J::Arr(vec![]), J::Arr(vec![jarr!["print", jarr!["this"]]])]])]),
            _ => body.push(jarr!["var", v, if k > 0 && r.pct(50) { jarr!["id", format!("w{}", r.below(k))] } else { jarr!["num", "1"] }]),
        }
        if r.pct(10) { body.push(jarr!["print", jarr!["id", format!("w{}", r.below(k + 1))]]); }
    }
    match r.below(5) {
        0 => body,
        1 => vec![jarr!["fun", "big", J::Arr(vec![]), J::Arr(body)]],
        2 => {
            let p: Vec<J> = (0..r.below(60)).map(|k| J::from(format!("p{k}"))).collect();
            vec![jarr!["fun", "big", J::Arr(p), J::Arr(body)]]
        }
        3 => vec![jarr!["if", jarr!["bool", true], jarr!["blk", J::Arr(body)], J::Null]],
        _ => vec![jarr!["var", "f", jarr!["lam", J::Arr(vec![]), J::Arr(body)]]],
    }
}
fn end_line(e: &mut Vec<J>) {
    if e.last().is_some_and(|s| crate::render::tight(s).unwrap_or(false)) { e.push(jarr!["print", jarr!["nil"]]); }
}
fn gen_session(r: &mut Rng, bad: &[usize], crowded: usize) -> J {
    let h = r.next() >> 12;
    let n = r.range(1, 8);
    let mut c0 = Cfg::random(r);
    c0.raw = 0;
    let line = r.pct(20);
    let mut es = vec![];
    let mut base = 0;
    let crowd_g = crowded > 0 && r.pct(crowded);
    for k in 0..n {
        let mut c = c0.clone();
        c.bad = *r.pick(bad);
        c.stmts = r.range(1, 5);
        if r.pct(8) { c.raw = 30; c.multiline_raw = true; }
        let mut g = Gen::new(r, c);
        let mut e = g.entry();
        if crowded > 0 && r.pct(crowded / 2) { e.extend(crowd(r)); }
        if r.pct(35) {
            let k = if r.pct(15) { r.range(6, 12) } else { r.range(1, 6) };
            let b = if bad.last().is_some_and(|b| *b > 10) { 15 } else { 0 };
            let s = nest(r, k, b);
            let at = r.range(0, e.len());
            e.insert(at, s);
            end_line(&mut e);
        } else if r.below(if crowded > 2 { 60 } else { 400 }) == 0 {
            // More scopes than fit in a byte.
            let k = r.range(100, 390);
            e.push(jarr!["var", "x", jarr!["num", "1"]]);
            e.push(nest(r, k, 0));
            end_line(&mut e);
        }
        if bad.last().is_some_and(|b| *b > 10) && r.below(150) == 0 {
            // One problem after another.
            for j in 0..r.range(15, 150) {
                if r.pct(20) { e.push(jarr!["print", jarr!["id", format!("ok{}", j % 7)]]); }
                e.push(match r.below(6) {
                    0 => jarr!["return", jarr!["num", "1"]],
                    1 => jarr!["print", jarr!["this"]],
                    2 => jarr!["expr", jarr!["super", "m"]],
                    3 => { let n = format!("j{j}"); jarr!["var", n.as_str(), jarr!["id", n.as_str()]] }
                    4 => jarr!["class", "J", "J", J::Arr(vec![jarr![false, "m", J::Arr(vec![]), J::Arr(vec![jarr!["print", jarr!["nil"]]])]])],
                    _ => jarr!["fun", "twice", J::from(vec!["q".to_string(), "q".to_string()]), J::Arr(vec![jarr!["print", jarr!["nil"]]])],
                });
            }
        }
        if crowd_g {
            // Globals come in portions, over several entries.
            let m = r.range(20, 110);
            for j in base..base + m {
                let v = format!("g{j}");
                e.push(match r.below(3) {
                    0 => jarr!["var", v, jarr!["num", "1"]],
                    1 => jarr!["print", jarr!["id", v]],
                    _ => jarr!["expr", jarr!["assign", v, jarr!["num", "2"]]],
                });
            }
            if r.pct(70) { base += m; }
        }
        let o = jobj! {"stmts": J::Arr(e), "style": if r.pct(15) { 0 } else { (r.next() >> 16) as i64 }, "crlf": r.pct(10) as i64};
        es.push(o);
        let _ = k;
    }
    jobj! {"entries": J::Arr(es), "hash_seed": h, "mode": if line { "line" } else { "script" }}
}
pub fn gen_c07(r: &mut Rng, _: u64) -> J { gen_session(r, &[0, 0, 0, 2, 10], 6) }
pub fn gen_c08(r: &mut Rng, _: u64) -> J { gen_session(r, &[0, 2, 5, 15, 30], 1) }

struct Step { text: String, spans: Vec<(u32, u32)>, out: Out }
fn play(c: &J, st: &mut Stats) -> R<Vec<(Step, J)>> {
    let mode = Mode::from(c.s("mode")?)?;
    if mode == Mode::Expr { return Err("mode".into()); }
    let mut rendered = vec![];
    for e in c.a("entries")? {
        let s = e.a("stmts")?;
        // A statement at the end of a script needs its newline.
        let sty = Style { nl_at_end: true, ..Style::from(e) };
        rendered.push((render(s, &sty)?, e.need("stmts")?.clone()));
    }
    let total: usize = rendered.iter().map(|r| r.0.text.len()).sum();
    rt::reset_run(budget(total) * 2);
    let outs = sut::on_thread(c.u_or("hash_seed", 1), || {
        let mut s = Session::new();
        rendered.iter().map(|r| s.submit_fmt(&r.0.text, mode, false)).collect::<Vec<_>>()
    });
    st.edges_now();
    let ts: Vec<&str> = rendered.iter().map(|r| r.0.text.as_str()).collect();
    if ts.len() > 1 || ts.concat().lines().count() > 2 { st.sigs.insert(text_sig(&ts)); }
    for o in &outs { st.trace_str(&o.text()); }
    Ok(rendered.into_iter().zip(outs).map(|((r, s), out)| (Step { text: r.text, spans: r.spans, out }, s)).collect())
}

pub fn exec_c07(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let steps = play(c, st)?;
    let mut m = Model::new();
    let mut slot_of: BTreeMap<(u64, String), u32> = BTreeMap::new();
    let mut taken: BTreeMap<(u64, u32), String> = BTreeMap::new();
    for (k, (s, stmts)) in steps.iter().enumerate() {
        let before = m.clone();
        let v = m.entry(stmts.arr()?)?;
        match &s.out {
            Out::Panic(p) => return viol("panic", format!("entry {}: {p}", k + 1)),
            Out::Rejected(d) => {
                st.add("fault.rejected_entry", 1);
                if v.near_limit { st.add("slot_exhaustion", 1); }
                if d.is_empty() { return viol("no-diagnostic", format!("entry {} is rejected without a diagnostic", k + 1)); }
                if v.accepted() {
                    // Verdicts are C08's business; go on as the code did.
                    m = before;
                }
            }
            Out::Tree(t, _) => {
                if v.over_limit { return viol("slots-exhausted", format!("entry {} has more than {} variables in a scope and is accepted", k + 1, crate::model::HARD_LIMIT)); }
                if !v.accepted() { return Ok(None); }
                let got = sut::bindings(t)?;
                if got.len() != v.bindings.len() {
                    return viol("bindings", format!("entry {}: {} bindings in the tree, want {}; text {:?}", k + 1, got.len(), v.bindings.len(), s.text));
                }
                for (g, w) in got.iter().zip(&v.bindings) {
                    if g.kind != w.kind || g.name != w.name || g.distance != w.distance {
                        return viol("distance", format!("entry {}: {} {:?} is bound at distance {:?}, want {} {:?} at {:?}; text {:?}", k + 1, g.kind, g.name, g.distance, w.kind, w.name, w.distance, s.text));
                    }
                    match slot_of.get(&w.var) {
                        Some(x) if *x != g.slot => return viol("slot-changed", format!("entry {}: {:?} is bound to slot {}, but its variable has slot {x}; text {:?}", k + 1, g.name, g.slot, s.text)),
                        Some(_) => {}
                        None => {
                            if let Some(o) = taken.get(&(w.var.0, g.slot)) {
                                return viol("slot-shared", format!("entry {}: {:?} gets slot {} of its scope, which is {o:?}'s; text {:?}", k + 1, g.name, g.slot, s.text));
                            }
                            taken.insert((w.var.0, g.slot), g.name.clone());
                            slot_of.insert(w.var.clone(), g.slot);
                        }
                    }
                    st.add("bindings_checked", 1);
                }
            }
        }
    }
    Ok(None)
}

pub fn exec_c08(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let steps = play(c, st)?;
    let mut m = Model::new();
    for (k, (s, stmts)) in steps.iter().enumerate() {
        let before = m.clone();
        let v = m.entry(stmts.arr()?)?;
        let at = |i: usize| -> String {
            let (a, b) = s.spans[i];
            s.text.lines().skip(a as usize - 1).take((b - a) as usize + 1).collect::<Vec<_>>().join("\n")
        };
        match &s.out {
            Out::Panic(p) => return viol("panic", format!("entry {}: {p}", k + 1)),
            Out::Tree(..) => {
                if v.over_limit { return Ok(None); }
                if !v.accepted() {
                    let w = v.faults.iter().enumerate().find_map(|(i, f)| f.as_ref().map(|f| format!("{} {:?} in {:?}", f.what, f.name, at(i)))).unwrap_or("broken syntax, or break or continue outside a loop".into());
                    return viol("accepted", format!("entry {} is accepted, but: {w}; text {:?}", k + 1, s.text));
                }
            }
            Out::Rejected(d) => {
                st.add("fault.rejected_entry", 1);
                if v.accepted() {
                    if v.near_limit { m = before; continue; }
                    return viol("rejected", format!("entry {} breaks no rule and is rejected: {}; text {:?}", k + 1, s.out.brief(), s.text));
                }
                // Which top-level statements are reported?
                if v.syntax || v.near_limit { continue; }
                let on = |i: usize, l: u32| (s.spans[i].0..=s.spans[i].1).contains(&l);
                let mut must = 0;
                for (i, f) in v.faults.iter().enumerate() {
                    st.add("statements_judged", 1);
                    if let (Some(f), false) = (f, v.unclear[i]) {
                        must += 1;
                        if !d.iter().any(|x| on(i, x.line)) {
                            return viol("not-reported", format!("entry {}: {} {:?} in {:?} is not reported; got {}; text {:?}", k + 1, f.what, f.name, at(i), s.out.brief(), s.text));
                        }
                    }
                }
                if d.len() < must {
                    return viol("not-reported", format!("entry {}: {must} statements break a rule, but there are {} diagnostics: {}; text {:?}", k + 1, d.len(), s.out.brief(), s.text));
                }
                for x in d {
                    // Statements may share a line.
                    if !(0..v.faults.len()).any(|i| on(i, x.line) && (v.faults[i].is_some() || v.unclear[i])) {
                        return viol("wrongly-reported", format!("entry {}: no statement on line {} breaks a rule but it is reported: {}; text {:?}", k + 1, x.line, s.out.brief(), s.text));
                    }
                }
            }
        }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C09

pub fn gen_c09(r: &mut Rng, i: u64) -> J {
    let mut t = any_text(r);
    if r.pct(35) {
        // Texts rich in what hash tables could reorder.
        let n = r.range(2, 40);
        let mut keys: Vec<String> = (0..n).map(|k| format!("k{}", (k * 7919) % 1000)).collect();
        if r.pct(20) { let d = keys[0].clone(); keys.push(d); }
        let m: Vec<String> = keys.iter().map(|k| format!("{k}: {}", r.below(100))).collect();
        t = match r.below(4) {
            0 => format!("f {{{}}}\n", m.join(", ")),
            1 => format!("var m = {{{}}}\n", m.join(", ")),
            2 => keys.iter().map(|k| format!("print {k}\n{k} = {k} + 1\n")).collect(),
            _ => keys.iter().map(|k| format!("fun f_{k}()\n  var {k} = {k}\n")).collect::<String>() + &t,
        };
    }
    let nh = r.skew(4);
    let mut like = None;
    if r.pct(12) { let (a, b) = siblings(r); t = a; like = Some(b); }
    let mut hist: Vec<String> = (0..nh).map(|_| { let b = r.pct(60); program(r, b) }).collect();
    // Almost the same text before it.
    if r.pct(25) { let s = shadow(r, &t); hist.insert(r.range(0, hist.len()), s); }
    if let Some(b) = &like { hist.insert(r.range(0, hist.len()), b.clone()); }
    let mut c = jobj! {
        "text": t.as_str(), "history": hist, "mode": ["script", "line", "expr", "once"][[0, 0, 3, 1, 1, 2][r.below(6)]],
        "seed_a": r.next() >> 12, "seed_b": r.next() >> 12, "poison": r.below(256), "cli": (i % 11 == 10) as i64,
    };
    // What stood in the same buffer before: as long, with other words.
    if r.pct(50) { let s = shadow(r, &t); c.set("shadow", J::from(s)); }
    // A whole session, rejections and all.
    if r.pct(45) {
        let bad = *r.pick(&[0, 25, 50]);
        let mut v = vec![];
        for e in session_entries(r, 8, bad) {
            if r.pct(bad) { v.push(trap(r)); }
            v.push(e);
            if r.pct(40) { v.push(probe(r)); }
        }
        c.set("session", J::from(v));
    }
    if r.pct(2) {
        // The same broken text over and over.
        let b = if r.pct(60) { (*r.pick(&["(1", "print", "{a: 1, a: 2}", "f(a", "[1, [2", "class A < A {}", "fun f(a, a) {}", "while (", "\"open", "if (1)\n  (\n", "@", "super.m\n", "1 = 2\n", "- -", "break\n"])).to_string() } else { trap(r) };
        let n = (*r.pick(&[150usize, 300, 1100, 3000])).min(60_000 / b.len().max(1));
        c.set("over", J::from(b));
        c.set("over_n", J::from(n));
    }
    c
}
/// A text of the same length in which words changed into others.
pub fn shadow(r: &mut Rng, t: &str) -> String {
    const K: [&str; 18] = ["and", "break", "class", "continue", "else", "false", "for", "fun", "if", "nil", "or", "print", "return", "super", "this", "true", "var", "while"];
    let mut out = String::new();
    let mut word = String::new();
    let p = *r.pick(&[10usize, 40, 100]);
    // Only the end, or only the start, of each word changes, at times.
    let part = r.below(4);
    let flush = |r: &mut Rng, w: &mut String, out: &mut String| {
        if w.len() > 1 && part < 2 && r.pct(p) {
            let (k, c) = if part == 0 { (w.len() - 1, w.as_bytes()[w.len() - 1]) } else { (0, w.as_bytes()[0]) };
            let other = match c { b'0'..=b'8' => c + 1, b'9' => b'1', b'q' => b'r', c if c.is_ascii_uppercase() => b'Q', _ => b'q' } as char;
            out.push_str(&w[..k]);
            out.push(other);
            out.push_str(&w[k + 1..]);
        } else if !w.is_empty() && r.pct(p) {
            let same: Vec<&&str> = K.iter().filter(|k| k.len() == w.len() && ***k != **w).collect();
            if w.bytes().all(|b| b.is_ascii_digit()) { out.push_str(&"7".repeat(w.len())); }
            else if !same.is_empty() && r.pct(50) { out.push_str(r.pick(&same)); }
            else { out.push_str(&"q".repeat(w.len())); }
        } else {
            out.push_str(w);
        }
        w.clear();
    };
    for c in t.chars() {
        if c.is_ascii_alphanumeric() || c == '_' { word.push(c) } else {
            flush(r, &mut word, &mut out);
            out.push(c);
        }
    }
    flush(r, &mut word, &mut out);
    out
}
pub fn exec_c09(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let t = c.s("text")?;
    let hist = c.strs("history")?;
    let mode = Mode::from(c.s("mode")?)?;
    let (a, b) = (c.u_or("seed_a", 0), c.u_or("seed_b", 0));
    let poison = c.u_or("poison", 0) as u32 & 255;
    let len = t.len() * 6 + hist.iter().map(|h| h.len()).sum::<usize>() * 2;
    rt::reset_run(budget(len) * 3);
    let first = sut::on_thread(a, || sut::once(t, mode));
    st.edges_now();
    st.trace_str(&first.text());
    st.sigs.insert(text_sig(&[t, c.s("mode")?]));
    let same = |what: &str, o: Out| -> Option<Viol> {
        (o != first).then(|| Viol { class: what.into(), detail: format!("{} after {}; {what}: text {t:?}", o.brief(), first.brief()) })
    };
    // Another seeding of hash tables, other stale memory.
    let r = sut::on_thread(b, || {
        rt::POISON.store(poison as i32, Relaxed);
        let o = sut::once(t, mode);
        rt::POISON.store(0, Relaxed);
        o
    });
    st.add("fault.other_hash_seed", 1);
    st.add("fault.poisoned_memory", (poison != 0) as u64);
    if let Some(v) = same("differs-with-hash-seed", r) { return Ok(Some(v)); }
    // The same thread a second time, and after other texts.
    let r = sut::on_thread(a, || {
        let x = sut::once(t, mode);
        for h in &hist { sut::once(h, if h.len() % 3 == 0 { Mode::Line } else { Mode::Script }); }
        (x, sut::once(t, mode))
    });
    // A thread that has seen only the other texts.
    let late = (a % 2 == 1 && !hist.is_empty()).then(|| sut::on_thread(b, || {
        for h in &hist { sut::once(h, if h.len() % 3 == 1 { Mode::Line } else { Mode::Script }); }
        sut::once(t, mode)
    }));
    st.add("fault.other_history", hist.len() as u64);
    if let Some(v) = same("differs-when-repeated", r.0) { return Ok(Some(v)); }
    if let Some(v) = same("differs-after-history", r.1) { return Ok(Some(v)); }
    if let Some(o) = late { st.add("fault.only_other_history", 1); if let Some(v) = same("differs-after-other-history", o) { return Ok(Some(v)); } }
    if let Ok(sh) = c.s("shadow") {
        rt::reset_run(budget(t.len() * 2 + sh.len()) * 2);
        let r = sut::on_thread(a, || {
            let mut buf = String::with_capacity(t.len().max(sh.len()));
            buf.push_str(sh);
            sut::once(&buf, mode);
            buf.clear();
            buf.push_str(t);
            sut::once(&buf, mode)
        });
        st.add("fault.reused_buffer", 1);
        if let Some(v) = same("differs-in-a-reused-buffer", r) { return Ok(Some(v)); }
    }
    if let Ok(es) = c.strs("session") {
        let m = if mode == Mode::Line { Mode::Line } else { Mode::Script };
        rt::reset_run(budget(es.iter().map(|e| e.len()).sum::<usize>()) * 8);
        let play = |stale: u32| {
            rt::POISON.store(stale as i32, Relaxed);
            let mut s = Session::new();
            let v: Vec<Out> = es.iter().map(|e| s.submit(e, m)).collect();
            rt::POISON.store(0, Relaxed);
            v
        };
        let (x, y) = sut::on_thread(a, || (play(0), play(0)));
        let z = sut::on_thread(b, || play(poison));
        st.add("sessions", 1);
        for o in &x { st.trace_str(&o.text()); }
        for (what, w) in [("session-differs-when-repeated", &y), ("session-differs-with-hash-seed", &z)] {
            if let Some(k) = (0..x.len()).find(|k| x[*k] != w[*k]) {
                return viol(what, format!("entry {k}: {} and {}: {:?}", x[k].brief(), w[k].brief(), es[k]));
            }
        }
    }
    if let Ok(b) = c.s("over") {
        let n = c.u_or("over_n", 1).min(4000) as usize;
        rt::reset_run(budget(t.len() * 2 + b.len() * n) * 2 + n as u64 * 50_000);
        let r = sut::on_thread(a, || {
            for _ in 0..n { Session::new().submit_fmt(b, mode, false); }
            sut::once(t, mode)
        });
        st.add("fault.long_history", 1);
        if let Some(v) = same("differs-after-long-history", r) { return Ok(Some(v)); }
    }
    if c.u_or("cli", 0) == 1 {
        let mut outs = vec![];
        for (h, p) in [(a, 0), (b, poison)] {
            let o = p_cli::run(&Plan { script: Some(t.as_bytes().to_vec()), hash_seed: h, poison: p, ..Plan::default() });
            st.obs(&o);
            if o.hung() { return viol("hang", o.ended()); }
            outs.push((o.code, o.stream(STDOUT), if o.code == Some(101) { vec![] } else { o.stream(STDERR) }));
        }
        // A session at the prompt.
        if let Ok(es) = c.strs("session") {
            let text: String = es.iter().map(|e| e.replace(['\n', '\r'], " ") + "\n").collect::<String>() + t;
            let mut l = vec![];
            for (h, p) in [(a, 0), (b, poison)] {
                let o = p_cli::run(&Plan { stdin: text.as_bytes().to_vec(), hash_seed: h, poison: p, ..Plan::default() });
                st.obs(&o);
                if o.hung() { return viol("hang", o.ended()); }
                l.push((o.code, o.stream(STDOUT), if o.code == Some(101) { vec![] } else { o.stream(STDERR) }));
            }
            st.add("prompt_sessions", 1);
            if l[0] != l[1] { return viol("prompt-differs", format!("two sessions of the same lines: {:?} / {:?}, stdout {}, stderr {}; lines {text:?}", l[0].0, l[1].0, differ(&l[1].1, &l[0].1), differ(&l[1].2, &l[0].2))); }
        }
        if outs[0] != outs[1] { return viol("program-differs", format!("two runs of the program: {:?} / {:?}, stdout {}, stderr {}", outs[0].0, outs[1].0, differ(&outs[1].1, &outs[0].1), differ(&outs[1].2, &outs[0].2))); }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C17

/// A big entry over the globals `known0` to `known2`, from [kind, locals,
/// depth, length, bad, salt].
fn bulky(v: &[i64]) -> String {
    let at = |k: usize, max: i64| v.get(k).copied().unwrap_or(0).clamp(0, max) as usize;
    let (kind, locals, depth, len, mut bad, salt) = (at(0, 5), at(1, 250), at(2, 12), at(3, 20_000), at(4, 5), at(5, 1 << 30));
    // A second global of one name is no problem.
    if kind >= 4 && bad == 1 { bad = 3; }
    let mut t = String::new();
    let vars = |ind: usize, tag: &str| -> String {
        (0..locals).map(|i| format!("{}var {tag}{salt}_{i} = {}\n", " ".repeat(ind), if i == 0 { "known1".into() } else { format!("{tag}{salt}_{}", i - 1) })).collect()
    };
    let inner = |t: &mut String, ind: usize| {
        let mut ind = ind;
        for d in 0..depth {
            t.push_str(&format!("{}while (known0)\n", " ".repeat(ind)));
            ind += 2;
            t.push_str(&format!("{}var deep{salt}_{d} = known2\n", " ".repeat(ind)));
        }
        let pad = " ".repeat(ind);
        t.push_str(&format!("{pad}print \"{}\"\n", "s".repeat(len)));
        match bad {
            1 => t.push_str(&format!("{pad}var dup{salt} = 1\n{pad}var dup{salt} = 1\n")),
            2 => t.push_str(&format!("{pad}print new{salt}\n{pad}f = fun (q{salt}, q{salt})\n{pad}  print 1\n{pad}print 2\n")),
            _ => {}
        }
    };
    match kind {
        0 => {
            let ps: Vec<String> = (0..locals.min(200)).map(|i| format!("p{salt}_{i}")).collect();
            t.push_str(&format!("fun known1({})\n", ps.join(", ")));
            if locals < 50 { t.push_str(&vars(2, "l")); }
            inner(&mut t, 2);
        }
        1 => { t.push_str("while (known1)\n"); t.push_str(&vars(2, "b")); inner(&mut t, 2); }
        2 => {
            t.push_str("class known2 < known0\n");
            for m in 0..3 { t.push_str(&format!("  m{salt}_{m}(a{salt})\n")); t.push_str(&vars(4, "m")); inner(&mut t, 4); }
        }
        3 => {
            for _ in 0..3 { t.push_str("known1(fun () {\n"); t.push_str(&vars(0, "x")); inner(&mut t, 0); t.push_str("})\n"); }
        }
        4 => {
            let es: Vec<String> = (0..locals).map(|i| format!("\"key{salt}_{i}\": {i}.5")).collect();
            t.push_str(&format!("known0 = [{}]\nprint ({{{}}})\n", "known1, ".repeat(locals), es.join(", ")));
            inner(&mut t, 0);
        }
        _ => { for i in 0..locals { t.push_str(&format!("known{} = known0.prop{salt}_{i}\n", i % 3)); } inner(&mut t, 0); }
    }
    match bad {
        3 => t.push_str("return 1\n"),
        4 => t.push_str("print @\n"),
        5 => t.push_str(&format!("print brand_new{salt}\nprint )\n")),
        _ => {}
    }
    t
}
fn exec_bulk(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let mut bs: Vec<String> = vec![];
    let mut depth = 0;
    for b in c.a("bulk")? {
        let v: Vec<i64> = b.arr()?.iter().map(|x| x.int()).collect::<R<_>>()?;
        depth = depth.max(v.get(2).copied().unwrap_or(0).clamp(0, 12));
        bs.push(bulky(&v));
    }
    let mode = if c.u_or("line", 0) == 1 { Mode::Line } else { Mode::Script };
    let len: usize = bs.iter().map(|e| e.len()).sum();
    rt::reset_run(budget(len) * 4);
    let live = || rt::LIVE_BYTES.load(Relaxed);
    let known = "known0\nknown1\nknown2\nf\n";
    let (base, after, end, rejected) = sut::on_thread(c.u_or("hash_seed", 1), || {
        sut::once("print 1\n", Mode::Script);
        for b in &bs { let mut s = Session::new(); s.submit_fmt(known, mode, false); s.submit_fmt(b, mode, false); }
        let mut after: Vec<i64> = Vec::with_capacity(bs.len());
        let base = live();
        let mut s = Session::new();
        for _ in 0..2 { s.submit_fmt(known, mode, false); }
        let a = live();
        let mut rejected = 0;
        for b in &bs {
            if !s.submit_fmt(b, mode, false).accepted() { rejected += 1; }
            after.push(live() - a);
        }
        drop(s);
        (base, after, live(), rejected)
    });
    st.edges_now();
    st.add("fault.rejected_entry", rejected);
    st.add("bulky_entries", bs.len() as u64);
    st.sigs.insert(text_sig(&bs.iter().map(|x| x.as_str()).collect::<Vec<_>>()));
    st.trace_str(&format!("{after:?} {rejected}"));
    // The list of scopes grows to the deepest nesting and stays that long.
    let slack = 1024 + 128 * (depth + 8);
    for (k, x) in after.iter().enumerate() {
        if *x > slack {
            return viol("bulk", format!("the session holds {x} bytes more after entry {} of {}, which mention no new global name ({} bytes of text)", k + 1, bs.len(), bs[k].len()));
        }
    }
    if end != base { return viol("leak", format!("{} bytes are still held after the session was dropped", end - base)); }
    Ok(None)
}
/// Sessions at the prompt of the real binary: what is live whenever it waits.
fn gen_prompt(r: &mut Rng) -> J {
    let n = r.range(1, 6);
    let bad = *r.pick(&[0usize, 20, 50]);
    let v: Vec<String> = (0..n).map(|_| match r.below(12) {
        0 => String::new(),
        1 => (*r.pick(&["  ", "// a comment", "\"open", "print )", "exit", ":reset", "@", "\t1"])).to_string(),
        2 => { let k = r.range(2, 60); format!("x = [{}a]", "a, ".repeat(k)) }
        3 => { let k = r.range(50, 900); format!("\"{}\"", "long ".repeat(k / 5)) }
        _ => line(r, bad).chars().filter(|c| !matches!(c, '\n' | '\r')).take(600).collect(),
    }).collect();
    jobj! {"kind": "prompt", "entries": v, "names": r.below(6), "rounds": *r.pick(&[30usize, 80]), "hash_seed": r.next() >> 12, "release": r.pct(40) as i64, "crlf": r.pct(15) as i64}
}
fn exec_prompt(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let end = if c.u_or("crlf", 0) == 1 { "\r\n" } else { "\n" };
    let es: Vec<String> = c.strs("entries")?.iter().map(|e| e.replace(['\n', '\r'], " ") + end).collect();
    let rounds = c.u_or("rounds", 30).clamp(4, 200) as usize;
    let kind = c.u_or("names", 0);
    let (mut stdin, mut ev) = (String::new(), vec![]);
    for k in 0..rounds {
        let mut t: String = es.concat();
        // Names never seen before, in lines as long as in any other round.
        match kind {
            1 => t += &format!("fun fresh{k:05}(a{k:05}, a{k:05}) {{ }}{end}"),
            2 => t += &format!("print n{}{k:05} )\n", "n".repeat(60)),
            3 => t += &format!("\"s{}{k:05}\" )\nprint {k:05}.5 @\n", "s".repeat(60)),
            4 => t += &format!("return n{k:05}\nprint this.m{k:05}\n"),
            _ => {}
        }
        if t.is_empty() || t.len() > 8000 { return Ok(None); }
        ev.push((crate::proc::EV_DATA, t.len() as u32));
        stdin += &t;
    }
    let o = p_cli::run(&Plan { stdin: stdin.into_bytes(), ev_stdin: ev.clone(), hash_seed: c.u_or("hash_seed", 0), release: c.u_or("release", 0) == 1, track: true, ..Plan::default() });
    st.obs(&o);
    st.sigs.insert(text_sig(&es.iter().map(|x| x.as_str()).collect::<Vec<_>>()));
    st.add("prompt_sessions", 1);
    st.add("lines_typed", (rounds * es.len()) as u64);
    if o.hung() || o.code != Some(0) { return Ok(None); }
    // The live heap when all of the first k rounds had been read.
    let mut ends = vec![0u32];
    for e in &ev { ends.push(ends[ends.len() - 1] + e.1); }
    let at = |k: usize| o.log.iter().find(|r| r.op == crate::proc::OP_LIVE && r.req == ends[k]).map(|r| r.res as i64);
    let (Some(a), Some(b)) = (at(2), at(rounds)) else { return Ok(None) };
    st.add("live_samples", o.log.iter().filter(|r| r.op == crate::proc::OP_LIVE).count() as u64);
    if b > a + 256 {
        return viol("prompt-growth", format!("the program holds {a} bytes when it waits after 2 rounds of {} lines and {b} after {rounds} rounds; lines {es:?}", es.len()));
    }
    Ok(None)
}
pub fn gen_c17(r: &mut Rng, i: u64) -> J {
    if i % 7 == 3 { return gen_prompt(r); }
    if i % 7 == 6 {
        let n = r.range(1, 5);
        let v: Vec<J> = (0..n).map(|_| {
            let locals = *r.pick(&[3usize, 40, 130, 200, 250]);
            jarr![r.below(6), locals, r.skew(12), *r.pick(&[0usize, 10, 3000, 12_000]), if r.pct(50) { 0 } else { r.below(6) }, r.below(1 << 20)]
        }).collect();
        return jobj! {"kind": "bulk", "bulk": J::Arr(v), "line": r.pct(50) as i64, "hash_seed": r.next() >> 12};
    }
    let n = r.range(2, 6);
    let c0 = Cfg { names: r.range(2, 8), ..Cfg::random(r) };
    let mut es = vec![];
    for _ in 0..n {
        let mut c = c0.clone();
        c.stmts = r.range(1, 3);
        c.bad = *r.pick(&[0, 0, 20]);
        c.raw = *r.pick(&[0, 0, 30]);
        c.multiline_raw = true;
        let e = Gen::new(r, c).entry();
        let st = style(r);
        let mut t = render(&e, &st).map(|x| x.text).unwrap_or_default();
        if r.pct(15) { t = damage(r, &t, 1).0; }
        if r.pct(20) { t.push_str(&trap(r)); }
        match r.below(30) {
            0 | 1 => { let n = r.range(8, 90); t = many_globals(r, 0, n); }
            2 | 3 => { for _ in 0..r.range(3, 25) { t.push_str(&trap(r)); } }
            4 => {
                let k = r.range(3, 30);
                let mut l = vec![nest(r, k, 15)];
                end_line(&mut l);
                t = render(&l, &Style { nl_at_end: true, ..style(r) }).map(|x| x.text).unwrap_or_default();
            }
            5 => t = format!("\"{}\"\n{t}", "long ".repeat(1 + r.skew(2000))),
            6 => { let n = 1 + r.skew(150); t = format!("x = [{}a]\n", "a, ".repeat(n)); }
            _ => {}
        }
        es.push(t);
    }
    jobj! {"entries": es, "mode": *r.pick(&["script", "line", "once"]), "rounds": *r.pick(&[40usize, 80, 200]), "names": r.below(6) as i64, "hash_seed": r.next() >> 12}
}
fn fresh_text(k: usize, kind: u64) -> String {
    // Names of a growing length, a text never seen before in every other place, or a name that is short.
    let long = "n".repeat(40 + 2 * k.min(400));
    match kind {
        2 => format!("var {long}_{k} = {k}\nfun f_{long}{k}(a_{k}, a_{k})\n  print new_{k}\n"),
        3 => format!("var fresh_{k} = \"{long}{k}\" // {long} {k}\nprint {k}.{k} + m.{long}{k}\nprint {{k_{k}: \"{k}\"}}\nprint new_{k}.p_{k}\nfun f(a, a)\n  a\n"),
        4 => format!("class C{k}_{long}\n  m{k}()\n    this.p_{k} = {k}\nprint @{k}\n"),
        5 => format!("print \"{long} {k}"),
        _ => format!("var fresh_{k} = {k}\nfun f_{k}(a_{k}, a_{k})\n  print new_{k}\n"),
    }
}
pub fn exec_c17(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    if c.s("kind") == Ok("bulk") { return exec_bulk(c, st); }
    if c.s("kind") == Ok("prompt") { return exec_prompt(c, st); }
    let es = c.strs("entries")?;
    if es.is_empty() { return Ok(None); }
    let mode = Mode::from(c.s("mode")?)?;
    let rounds = c.u_or("rounds", 20).clamp(4, 400) as usize;
    // Rejected entries with names never seen before.
    let kind = c.u_or("names", 0);
    let fresh = kind > 0;
    let len: usize = es.iter().map(|e| e.len()).sum();
    rt::reset_run(budget(len) * rounds as u64 * 4);
    let live = || rt::LIVE_BYTES.load(Relaxed);
    let (base, samples, end, rejected) = sut::on_thread(c.u_or("hash_seed", 1), || {
        // Once-only tables first.
        sut::once("print 1\n", Mode::Script);
        for e in &es { Session::new().submit_fmt(e, mode, false); }
        Session::new().submit_fmt(&fresh_text(usize::MAX, kind), mode, false);
        let mut samples: Vec<i64> = Vec::with_capacity(rounds);
        let mut rejected = 0u64;
        let base = live();
        let mut s = Session::new();
        for k in 0..rounds {
            for e in &es {
                let o = s.submit_fmt(e, mode, false);
                if !o.accepted() { rejected += 1; }
            }
            if fresh {
                if !s.submit_fmt(&fresh_text(k, kind), mode, false).accepted() { rejected += 1; }
            }
            samples.push(live());
        }
        drop(s);
        (base, samples, live(), rejected)
    });
    st.edges_now();
    st.add("fault.rejected_entry", rejected);
    st.add("entries_submitted", (rounds * (es.len() + fresh as usize)) as u64);
    st.sigs.insert(text_sig(&es.iter().map(|x| x.as_str()).collect::<Vec<_>>()));
    st.trace_str(&format!("{:?} {rejected}", samples.iter().map(|s| s - base).collect::<Vec<_>>()));
    if end != base { return viol("leak", format!("{} bytes are still held after the session was dropped", end - base)); }
    // After the first round every name is known.
    let (a, b) = (samples[1] - base, samples[rounds - 1] - base);
    if b > a + 64 {
        return viol("growth", format!("the session holds {a} bytes after 2 rounds of its {} entries and {b} after {rounds}; entries {es:?}", es.len()));
    }
    // Bounded by the names, not by the text.
    let names: BTreeSet<&str> = es.iter().flat_map(|e| e.split(|c: char| !(c.is_alphanumeric() || c == '_' || ('\u{300}'..'\u{370}').contains(&c)))).filter(|w| !w.is_empty()).collect();
    let bound = 8192 + names.iter().map(|n| 256 + 4 * n.len() as i64).sum::<i64>();
    if a > bound { return viol("size", format!("a session over {} names holds {a} bytes", names.len())); }
    Ok(None)
}

#[allow(unused)]
fn unused(_: Diag) {}
