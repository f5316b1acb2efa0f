//! Properties of the whole program, run under the shim: C01 to C05 and C14.
use crate::common::*;
use crate::fw::{Stats, Viol, viol};
use crate::gen_::{Cfg, Gen};
use crate::{jarr, jobj};
use crate::json::{J, R};
use crate::proc::{self, EV_DATA, EV_EOF, EV_ERR, OP_READ, OP_WRITE, Obs, Plan, SCRIPT, STDERR, STDIN, STDOUT, Sim, bytes_from, ev_from, ev_json};
use crate::render::{Style, render};
use crate::rng::{Rng, hash_bytes};
use crate::rt;
use crate::sut;

/// Runs the binary once.
pub fn run(p: &Plan) -> Obs {
    thread_local!(static SIM: std::cell::RefCell<Option<Sim>> = const { std::cell::RefCell::new(None) });
    SIM.with(|s| s.borrow_mut().get_or_insert_with(Sim::new).run(p))
}
/// The reference: the library in this process, alone and undisturbed.
pub fn reference<T: Send>(len: usize, f: impl FnOnce() -> T + Send) -> T {
    rt::reset_run(budget(len));
    sut::on_thread(1, f)
}

fn common_fields(r: &mut Rng) -> (u64, bool) { (r.next() >> 12, r.pct(12)) }
fn base(c: &J) -> R<Plan> {
    Ok(Plan { hash_seed: c.u_or("hash_seed", 0), release: c.u_or("release", 0) == 1, poison: c.u_or("poison", 0) as u32 & 255, ..Plan::default() })
}
/// One after another, whatever was called.
fn sig(c: &J, o: &Obs) -> u64 {
    let mut h = 0;
    for r in &o.log { h = crate::rng::mix(h ^ ((r.op as u64) << 40) ^ ((r.cls as u64) << 32) ^ r.res as u32 as u64); }
    h ^ hash_bytes(c.s("text").unwrap_or("").as_bytes())
}

// ---------------------------------------------------------------- C01

pub fn gen_c01(r: &mut Rng, _: u64) -> J {
    let t = any_text(r);
    let (h, rel) = common_fields(r);
    let mut ev = cuts(r, t.len(), true);
    if r.pct(6) {
        // The file ends early for one read, then goes on growing.
        let at = r.range(0, ev.len());
        ev.insert(at, (EV_EOF, 0));
    }
    let mut c = jobj! {"text": t.as_str(), "script_ev": ev_json(&ev), "hash_seed": h, "release": rel as i64};
    match r.below(8) {
        0 => c.set("announced", J::from(0)),
        1 => c.set("announced", J::from(r.below(t.len() + 1))),
        2 => c.set("announced", J::from(t.len() + r.below(5000))),
        3 => c.set("announced", J::from(t.len() as u64 + (1 << *r.pick(&[16, 20, 20, 23, 25, 27])))),
        4 => c.set("fifo", J::from(1)),
        _ => {}
    }
    if r.pct(12) { let p = pokes(r, &t); c.set("text_poke", p); }
    if r.below(200) == 0 {
        let n = *r.pick(&[65_536usize, 131_072, 262_144, 600_000, 1 << 20, 1_100_000, 2_100_000]);
        c.set("text_pad", J::Arr(vec![J::from(n + r.below(100)), J::from(r.below(5))]));
    } else if r.pct(4) {
        // As long as a buffer may be, or one more or less.
        let n = *r.pick(&[4096usize, 8192, 8192, 16_384, 32_768, 65_536]);
        c.set("text_pad", jarr![n - 1 + r.below(3), 1, 1]);
    }
    c
}
/// The bytes a reader gets before its first empty read.
fn delivered(bytes: &[u8], ev: &Evs) -> Vec<u8> {
    let mut n = 0usize;
    for (k, a) in ev {
        match *k {
            EV_EOF => return bytes[..n.min(bytes.len())].to_vec(),
            EV_DATA => n += (*a).max(1) as usize,
            _ => {}
        }
        if n >= bytes.len() { break; }
    }
    bytes.to_vec()
}
fn script_plan(c: &J) -> R<(Plan, Vec<u8>)> {
    let bytes = bytes_from(c, "text")?;
    let mut p = base(c)?;
    p.ev_script = ev_from(c, "script_ev")?;
    let got = delivered(&bytes, &p.ev_script);
    p.script = Some(bytes);
    p.stat_lie = c.get("announced").and_then(|x| x.int().ok()).map(|x| x as u64);
    p.fifo = c.u_or("fifo", 0) == 1;
    Ok((p, got))
}
fn want_script(bytes: &[u8]) -> Option<sut::Cli> {
    reference(bytes.len(), || sut::script(bytes))
}
pub fn exec_c01(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let (p, bytes) = script_plan(c)?;
    let want = want_script(&bytes);
    st.edges_now();
    let o = run(&p);
    st.obs(&o);
    let interesting = o.fired.iter().any(|(k, _)| ["eintr_read", "short_read", "size_lie"].contains(k));
    if interesting { let s = sig(c, &o); st.sigs.insert(s); }
    judge_script(&o, &want)
}
/// The outcome must be the one of the delivered bytes.
fn judge_script(o: &Obs, want: &Option<sut::Cli>) -> R<Option<Viol>> {
    if o.hung() { return viol("hang", o.ended()); }
    let (out, err) = (o.stream(STDOUT), o.stream(STDERR));
    match want {
        None => {
            if o.code == Some(0) { return viol("status", "exit status 0 for a script that is not UTF-8".into()); }
            if !out.is_empty() { return viol("stdout", format!("printed {} for a script that is not UTF-8", lossy(&out))); }
        }
        Some(w) => {
            if o.code != Some(w.code) { return viol("status", format!("{}, want exit status {}; stderr {}", o.ended(), w.code, lossy(&err))); }
            if out != w.out.as_bytes() { return viol("stdout", differ(&out, w.out.as_bytes())); }
            if w.code != 101 && err != w.err.as_bytes() { return viol("stderr", differ(&err, w.err.as_bytes())); }
        }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C02

const READ_ERRNO: [u32; 5] = [5, 21, 11, 116, 12];
const WRITE_ERRNO: [u32; 6] = [28, 32, 5, 27, 11, 122];

/// A fault placed from the end: which write, and the error.
fn late_fault(r: &mut Rng) -> J {
    J::Arr(vec![J::from(if r.pct(50) { r.below(3) } else { r.skew(30) }), J::from(*r.pick(&WRITE_ERRNO)), J::from(r.pct(30) as i64)])
}
/// Turns such a fault into events, from an undisturbed run.
fn place_late(c: &J, p: &mut Plan) -> R<()> {
    for (key, cls) in [("out_late", STDOUT), ("err_late", STDERR)] {
        let Some(f) = c.get(key) else { continue };
        let f = f.arr()?;
        if f.len() != 3 { return Err("late fault".into()); }
        let (k, e, transient) = (f[0].int()?, f[1].int()?, f[2].int()? == 1);
        if !(0..10_000).contains(&k) || !(1..130).contains(&e) || e == 9 || e == 4 { return Err("late fault".into()); }
        let o = run(p);
        let n = o.log.iter().filter(|r| r.op == OP_WRITE && r.cls == cls).count();
        if n == 0 { continue; }
        let mut ev = vec![(EV_DATA, 1 << 24); n.saturating_sub(1 + k as usize)];
        ev.push((EV_ERR, e as u32));
        if transient { ev.push((EV_DATA, 1 << 24)); }
        if cls == STDOUT { p.ev_out = ev } else { p.ev_err = ev }
    }
    Ok(())
}

fn write_faults(r: &mut Rng, len: usize) -> Evs {
    let mut v = cuts(r, len, true);
    v.truncate(r.skew(v.len().max(1)));
    if r.pct(60) {
        let keep = r.skew(v.len());
        v.truncate(keep);
        let transient = r.pct(25);
        v.push((EV_ERR, *r.pick(&WRITE_ERRNO)));
        // The last error of a plan stays; one followed by data does not.
        if transient { v.push((EV_DATA, 1 << 20)); }
    }
    v
}

pub fn gen_c02(r: &mut Rng, _: u64) -> J {
    let t = if r.pct(85) { let b = r.pct(50); program(r, b) } else { any_text(r) };
    let (h, rel) = common_fields(r);
    let mut c = jobj! {"text": t.as_str(), "script_ev": J::Arr(vec![]), "out_ev": J::Arr(vec![]), "err_ev": J::Arr(vec![]), "hash_seed": h, "release": rel as i64};
    let k = r.below(12);
    if k <= 1 { c.set("open_errno", J::from(*r.pick(&[2usize, 13, 21, 23, 24, 40, 5]))); }
    if (2..=4).contains(&k) || k == 11 {
        let mut ev = cuts(r, t.len(), true);
        let keep = r.skew(ev.len());
        ev.truncate(keep);
        ev.push((EV_ERR, *r.pick(&READ_ERRNO)));
        c.set("script_ev", ev_json(&ev));
    }
    if (4..=7).contains(&k) {
        if r.pct(25) { let f = late_fault(r); c.set("out_late", f); }
        else { let e = write_faults(r, t.len() * 12); c.set("out_ev", ev_json(&e)); }
    }
    if (7..=9).contains(&k) {
        if r.pct(20) { let f = late_fault(r); c.set("err_late", f); }
        else { let e = write_faults(r, 400); c.set("err_ev", ev_json(&e)); }
    }
    if k >= 10 {
        // Counted from the start of the program: some fail before main.
        c.set("fail_alloc", J::from(1 + r.skew(60 + t.len())));
        if r.pct(50) { c.set("sticky", J::from(1)); }
    }
    if r.pct(5) { let p = pokes(r, &t); c.set("text_poke", p); }
    c
}
pub fn exec_c02(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let (mut p, bytes) = script_plan(c)?;
    p.ev_out = ev_from(c, "out_ev")?;
    p.ev_err = ev_from(c, "err_ev")?;
    p.open_errno = c.u_or("open_errno", 0) as u32 & 127;
    p.fail_alloc = c.u_or("fail_alloc", 0) as u32;
    p.fail_sticky = c.u_or("sticky", 0) == 1;
    place_late(c, &mut p)?;
    let want = want_script(&bytes);
    st.edges_now();
    let o = run(&p);
    st.obs(&o);
    if !o.fired.is_empty() { let s = sig(c, &o); st.sigs.insert(s); }
    let (out, err) = (o.stream(STDOUT), o.stream(STDERR));
    st.add(&format!("ended.{}", if o.hung() { "hung".to_string() } else { match (o.code, o.signal) { (Some(c), _) => format!("exit_{c}"), (_, Some(s)) => format!("signal_{s}"), _ => "?".into() } }), 1);
    if o.hung() { return viol("hang", o.ended()); }
    let harmless = o.fired.iter().all(|(k, _)| ["eintr_read", "short_read", "short_write", "eintr_write", "size_lie"].contains(k));
    if harmless { return judge_script(&o, &want); }
    let full_out = want.as_ref().map(|w| w.out.as_bytes()).unwrap_or(b"");
    if !full_out.starts_with(&out) { return viol("not-a-prefix", differ(&out, full_out)); }
    match o.code {
        Some(0) => match &want {
            Some(w) if w.code == 0 => {
                if out != w.out.as_bytes() { return viol("false-success", format!("exit status 0, but {} of {} bytes of the tree were delivered", out.len(), w.out.len())); }
            }
            _ => return viol("false-success", "exit status 0 for a source that is not accepted".into()),
        },
        Some(65) => match &want {
            Some(w) if w.code == 65 => {
                if err != w.err.as_bytes() { return viol("false-65", format!("exit status 65, but {}", differ(&err, w.err.as_bytes()))); }
                if !out.is_empty() { return viol("false-65", "exit status 65 with output on stdout".into()); }
            }
            Some(w) if w.code == 101 => {}
            _ => return viol("false-65", format!("exit status 65 for a source that was not rejected; stderr {}", lossy(&err))),
        },
        _ => {}
    }
    // A failure that happened must show.
    let hard = o.fired.iter().any(|(k, _)| ["read_error", "open_error"].contains(k));
    if hard && o.code == Some(0) { return viol("false-success", "exit status 0 although the script could not be read".into()); }
    Ok(None)
}

// ---------------------------------------------------------------- sessions

fn session_text(r: &mut Rng, max: usize, bad: usize) -> String {
    let n = r.skew(max);
    let mut t = String::new();
    if r.pct(4) { t = long_session(r); }
    else { for _ in 0..n { t.push_str(&line(r, bad)); t.push('\n'); } }
    if r.pct(30) && !t.is_empty() { t.pop(); }
    if r.pct(12) && !t.is_empty() {
        // One long line.
        let l = format!("[{}1]\n", "1, ".repeat(r.skew(6000)));
        t = if t.ends_with('\n') { t + &l } else { l + &t };
    }
    t
}
/// Many short lines: good ones, rejected ones, or both.
fn long_session(r: &mut Rng) -> String {
    const GOOD: [&str; 6] = ["print 1", "a", "", "var b = 2", "f 1", "// é"];
    const BAD: [&str; 6] = ["print )", "return 1", "@", "\"open", "print this", "a: 1, a: 2"];
    let p = *r.pick(&[0usize, 0, 20, 50, 100]);
    let n = r.range(40, 320);
    let one = r.pct(30).then(|| r.below(6));
    (0..n).map(|_| { let k = one.unwrap_or_else(|| r.below(6)); format!("{}\n", if r.pct(p) { BAD[k] } else { GOOD[k] }) }).collect()
}
fn want_repl(bytes: &[u8]) -> sut::Repl { reference(bytes.len() + 100 * 1000, || sut::repl(bytes)) }
fn transcript(w: &sut::Repl) -> String {
    let mut s = String::from("> ");
    for o in &w.out { s.push_str(o); s.push_str("> "); }
    s
}

// ---------------------------------------------------------------- C03

pub fn gen_c03(r: &mut Rng, _: u64) -> J {
    let t = session_text(r, 24, 15);
    let (h, rel) = common_fields(r);
    let ev = cuts(r, t.len(), true);
    let mut c = jobj! {"text": t.as_str(), "stdin_ev": ev_json(&ev), "crlf": r.pct(35) as i64, "hash_seed": h, "release": rel as i64};
    if r.pct(6) { let p = pokes(r, &t); c.set("text_poke", p); }
    if r.below(300) == 0 {
        let n = *r.pick(&[8_190usize, 20_000, 65_530, 131_072, 200_000, 1 << 20]);
        c.set("text_pad", J::Arr(vec![J::from(n + r.below(12)), J::from(r.below(5))]));
    } else if r.pct(3) {
        // A line, or all of them, as long as a buffer may be.
        let n = *r.pick(&[256usize, 512, 1024, 4096, 8192, 8192, 16_384, 65_536]);
        c.set("text_pad", if r.pct(50) { jarr![n - 1 + r.below(3), 1, 1] } else { jarr![n - 8 + r.below(10), 1] });
    }
    c
}
pub fn exec_c03(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let mut bytes = bytes_from(c, "text")?;
    let lf = want_repl(&bytes);
    st.edges_now();
    let mut want = lf;
    if c.u_or("crlf", 0) == 1 && !bytes.contains(&b'\r') {
        st.add("crlf_sessions", 1);
        let mut v = vec![];
        for b in &bytes { if *b == b'\n' { v.push(b'\r'); } v.push(*b); }
        bytes = v;
        let cr = want_repl(&bytes);
        for k in 0..want.out.len().min(cr.out.len()) {
            if want.out[k] != cr.out[k] {
                return viol("crlf", format!("line {} ended with CRLF: {} / {}, with LF: {} / {}", k + 1, lossy(cr.out[k].as_bytes()), lossy(cr.err[k].as_bytes()), lossy(want.out[k].as_bytes()), lossy(want.err[k].as_bytes())));
            }
        }
        want = cr;
    }
    let mut p = base(c)?;
    p.ev_stdin = ev_from(c, "stdin_ev")?;
    p.stdin = bytes;
    let o = run(&p);
    st.obs(&o);
    if !o.fired.is_empty() { let s = sig(c, &o); st.sigs.insert(s); }
    if o.hung() { return viol("hang", o.ended()); }
    if want.panicked { return Ok(None); }
    let (out, err) = (o.stream(STDOUT), o.stream(STDERR));
    let (wo, we) = (transcript(&want), want.err.concat());
    if want.invalid {
        if !out.starts_with(wo.as_bytes()) { return viol("stdout", differ(&out, wo.as_bytes())); }
        if !err.starts_with(we.as_bytes()) { return viol("stderr", differ(&err, we.as_bytes())); }
    } else {
        if out != wo.as_bytes() && out != format!("{wo}\n").as_bytes() { return viol("stdout", differ(&out, wo.as_bytes())); }
        if err != we.as_bytes() { return viol("stderr", differ(&err, we.as_bytes())); }
        if o.code != Some(0) { return viol("status", o.ended()); }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C04

pub fn gen_c04(r: &mut Rng, _: u64) -> J {
    let mut t = session_text(r, 16, 20);
    let (h, rel) = common_fields(r);
    let mut c = jobj! {"text": "", "stdin_ev": J::Arr(vec![]), "out_ev": J::Arr(vec![]), "err_ev": J::Arr(vec![]), "hash_seed": h, "release": rel as i64};
    // A line per read shows what happens after a fault.
    let k = r.below(11);
    if k >= 9 && r.pct(60) {
        // Enough input after the undecodable bytes to see whether it is used.
        if !t.ends_with('\n') { t.push('\n'); }
        for i in 0..r.range(5, 40) { t.push_str(&format!("{i}\n")); }
    }
    let mut ev: Evs = if r.pct(50) { t.split_inclusive('\n').map(|l| (EV_DATA, l.len() as u32)).collect() } else { cuts(r, t.len(), true) };
    match k {
        0..=2 => {
            // The input ends anywhere.
            let n = t.chars().count();
            let a = r.range(0, n);
            t = t.chars().take(a).collect();
        }
        3 | 4 => {
            let keep = r.skew(ev.len());
            ev.truncate(keep);
            ev.push((EV_ERR, *r.pick(&[5u32, 11, 116, 12])));
            if r.pct(50) { for _ in 0..40 { ev.push((EV_ERR, 5)); } }
        }
        5 | 6 | 7 => {
            if r.pct(25) { let f = late_fault(r); c.set("out_late", f); }
            else { let e = write_faults(r, t.len() * 12); c.set("out_ev", ev_json(&e)); }
        }
        8 if r.pct(25) => { let f = late_fault(r); c.set("err_late", f); }
        8 => { let e = write_faults(r, 600); c.set("err_ev", ev_json(&e)); }
        _ => { let p = pokes(r, &t); c.set("text_poke", p); }
    }
    c.set("text", J::from(t));
    c.set("stdin_ev", ev_json(&ev));
    c
}
pub fn exec_c04(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let bytes = bytes_from(c, "text")?;
    let want = want_repl(&bytes);
    st.edges_now();
    let mut p = base(c)?;
    p.ev_stdin = ev_from(c, "stdin_ev")?;
    if p.ev_stdin.iter().any(|e| e.0 == EV_EOF) { return Err("eof event".into()); }
    p.ev_out = ev_from(c, "out_ev")?;
    p.ev_err = ev_from(c, "err_ev")?;
    p.stdin = bytes;
    place_late(c, &mut p)?;
    let o = run(&p);
    st.obs(&o);
    let mid_line = !p.stdin.is_empty() && p.stdin.last() != Some(&b'\n');
    st.add("input_ends_inside_a_line", mid_line as u64);
    if o.fired.iter().any(|(k, _)| *k != "short_read") || mid_line { let s = sig(c, &o); st.sigs.insert(s); }
    if o.hung() { return viol("hang", o.ended()); }
    if want.panicked { return Ok(None); }
    // After a failure: a bounded number of further calls.
    let mut failed: Option<(usize, String)> = None;
    let (mut reads, mut writes) = (0, 0);
    // Where the first line that is not UTF-8 ends.
    let mut bad_end = None;
    let mut at = 0;
    for l in p.stdin.split_inclusive(|b| *b == b'\n') {
        at += l.len();
        if std::str::from_utf8(l).is_err() { bad_end = Some(at); break; }
    }
    let (mut got, mut past_bad) = (0, 0);
    for (i, r) in o.log.iter().enumerate() {
        if let Some(e) = bad_end {
            if r.op == OP_READ && r.cls == STDIN {
                if got >= e && r.res >= 0 { past_bad += 1; }
                got += r.res.max(0) as usize;
            }
            if past_bad > 3 { return viol("goes-on", format!("{past_bad} reads of standard input after a line that is not UTF-8 had arrived")); }
        }
        if let Some((at, what)) = &failed {
            if r.op == OP_READ && r.cls == STDIN { reads += 1; }
            if r.op == OP_WRITE { writes += 1; }
            if reads > 3 { return viol("goes-on", format!("{reads} reads of standard input after {what} (call {at})")); }
            if writes > 400 { return viol("goes-on", format!("{writes} writes after {what} (call {at})")); }
        } else if r.res < 0 && r.res != -(EINTR as i32) && (r.op == OP_READ && r.cls == STDIN || r.op == OP_WRITE) {
            let s = ["standard input", "standard output", "standard error", "the script"][r.cls as usize & 3];
            failed = Some((i, format!("error {} on {s}", -r.res)));
        }
    }
    let (out, err) = (o.stream(STDOUT), o.stream(STDERR));
    let read_failed = o.fired.iter().any(|(k, _)| *k == "read_error");
    let write_failed = o.fired.iter().any(|(k, _)| *k == "write_error");
    let (wo, we) = (transcript(&want), want.err.concat());
    if bad_end.is_some() && !read_failed && !write_failed && out.len() > wo.len() + 400 {
        return viol("goes-on", format!("{} bytes on standard output after a line that is not UTF-8: {}", out.len() - wo.len(), differ(&out, wo.as_bytes())));
    }
    let complete = (out == wo.as_bytes() || out == format!("{wo}\n").as_bytes()) && err == we.as_bytes();
    if write_failed && o.code == Some(0) && !read_failed && !complete {
        return viol("false-success", format!("exit status 0 although output was lost; stdout {}", differ(&out, wo.as_bytes())));
    }
    if write_failed && o.code == Some(0) && read_failed {
        return viol("false-success", "exit status 0 although output was lost".into());
    }
    if !read_failed && !write_failed && !want.invalid {
        if o.code != Some(0) { return viol("status", format!("{} at the end of input; stderr {}", o.ended(), lossy(&err))); }
        if !complete { return viol("unanswered", format!("stdout {}; stderr {}", differ(&out, wo.as_bytes()), differ(&err, we.as_bytes()))); }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C05

pub fn gen_c05(r: &mut Rng, _: u64) -> J {
    let t = session_text(r, 24, 25);
    let (h, rel) = common_fields(r);
    let lines: Vec<u32> = t.split_inclusive('\n').map(|l| l.len() as u32).collect();
    let mut ev: Evs = match r.below(5) {
        0 => lines.iter().map(|l| (EV_DATA, *l)).collect(),
        1 => lines.chunks(1 + r.below(4)).map(|l| (EV_DATA, l.iter().sum())).collect(),
        2 => {
            // Lines in two pieces, with interruptions.
            let mut v = vec![];
            for l in &lines {
                let a = r.below(*l as usize) as u32;
                if a > 0 { v.push((EV_DATA, a)); }
                if r.pct(20) { v.push((EV_ERR, EINTR)); }
                v.push((EV_DATA, *l - a));
            }
            v
        }
        _ => cuts(r, t.len(), true),
    };
    if r.pct(10) { let keep = r.skew(ev.len()); ev.truncate(keep); ev.push((EV_ERR, 5)); }
    let mut c = jobj! {"text": t.as_str(), "stdin_ev": ev_json(&ev), "out_ev": J::Arr(vec![]), "err_ev": J::Arr(vec![]), "hash_seed": h, "release": rel as i64};
    if r.pct(40) { let e = cuts(r, t.len() * 8, true); c.set("out_ev", ev_json(&e)); }
    if r.pct(20) { let e = cuts(r, 500, true); c.set("err_ev", ev_json(&e)); }
    c
}
pub fn exec_c05(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let bytes = bytes_from(c, "text")?;
    let want = want_repl(&bytes);
    st.edges_now();
    let mut p = base(c)?;
    p.ev_stdin = ev_from(c, "stdin_ev")?;
    p.ev_out = ev_from(c, "out_ev")?;
    p.ev_err = ev_from(c, "err_ev")?;
    if p.ev_out.iter().chain(&p.ev_err).any(|e| e.0 == EV_ERR && e.1 != EINTR) { return Err("write error".into()); }
    if want.invalid { return Err("not UTF-8".into()); }
    p.stdin = bytes.clone();
    let o = run(&p);
    st.obs(&o);
    if want.out.len() > 1 && o.log.iter().filter(|r| r.op == OP_READ && r.cls == STDIN && r.res > 0).count() > 1 { let s = sig(c, &o); st.sigs.insert(s); }
    if o.hung() { return viol("hang", o.ended()); }
    if want.panicked { return Ok(None); }
    let (mut out, mut err) = (vec![], vec![]);
    let mut got = 0usize; // bytes of input delivered
    let (mut wo, mut we) = (String::from("> "), String::new());
    let mut n = 0; // lines answered
    let mut ended = false;
    let mut waits = 0;
    for r in &o.log {
        match (r.op, r.cls) {
            (OP_WRITE, STDOUT) if r.res > 0 => out.extend(&r.data),
            (OP_WRITE, STDERR) if r.res > 0 => err.extend(&r.data),
            (OP_READ, STDIN) => {
                if ended { continue; }
                // Complete lines received before this read.
                while n < want.ends.len() && want.ends[n] <= got && bytes.get(want.ends[n] - 1) == Some(&b'\n') {
                    wo.push_str(&want.out[n]);
                    wo.push_str("> ");
                    we.push_str(&want.err[n]);
                    n += 1;
                }
                waits += 1;
                // At the end of input a last line without newline is answered
                // after one empty read, before another.
                if out != wo.as_bytes() {
                    return viol("order-stdout", format!("when read {waits} of standard input happened, after {got} bytes ({n} complete lines), stdout {}", differ(&out, wo.as_bytes())));
                }
                if err != we.as_bytes() {
                    return viol("order-stderr", format!("when read {waits} of standard input happened, after {got} bytes ({n} complete lines), stderr {}", differ(&err, we.as_bytes())));
                }
                if r.res > 0 { got += r.res as usize; }
                else if r.res != -(EINTR as i32) { ended = true; }
            }
            _ => {}
        }
    }
    if !ended { return viol("session-ended", format!("{} after {n} complete lines, with {} bytes of input left; stderr {}", o.ended(), bytes.len() - got, lossy(&err))); }
    // The rest of the session: every line answered once.
    if !o.fired.iter().any(|(k, _)| *k == "read_error") {
        let (wo, we) = (transcript(&want), want.err.concat());
        if out != wo.as_bytes() && out != format!("{wo}\n").as_bytes() { return viol("stdout", differ(&out, wo.as_bytes())); }
        if err != we.as_bytes() { return viol("stderr", differ(&err, we.as_bytes())); }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C14

pub fn gen_c14(r: &mut Rng, _: u64) -> J {
    let n = r.range(1, 14);
    let c = Cfg { single: true, bad: *r.pick(&[0, 0, 0, 1, 5]), raw: *r.pick(&[0, 0, 0, 4, 10]), depth: 3, stmts: n, names: r.range(2, 9), unicode: r.pct(50), ml_str: false, multiline_raw: false, open_end: true };
    let mut s = Gen::new(r, c).entry();
    // What is typed at prompts, or stands at the head of files.
    if r.pct(3) {
        const ODD: [&str; 14] = ["> print 1", "\u{feff}print 1", "exit", "quit", ":q", "help", "#!/usr/bin/ws", "\u{feff}", "> ", "print 1;", "\u{a0}print 1", "exit()", "...", "\u{c}print 1"];
        let at = if r.pct(60) { 0 } else { r.range(0, s.len()) };
        // A statement that ends in a brace needs another on its line.
        if at == 0 || !crate::render::tight(&s[at - 1]).unwrap_or(true) {
            let c = command(r);
            // An operator or a continuation mark alone goes on in the next line.
            let c = if r.pct(50) && c.ends_with(|c: char| c.is_alphanumeric() || c == ')' || c == '"') { c } else { (*r.pick(&ODD)).to_string() };
            s.insert(at, jarr!["raw", c]);
        }
    }
    // Two statements on a line, with nothing between them.
    if r.pct(6) {
        const MAPS: [&str; 6] = ["a: 1", "a: 1, b: 2", "{a: 1}", "{}", "f a: x", "\"k\": [1]"];
        let half = |r: &mut Rng| -> String {
            if r.pct(25) { return (*r.pick(&MAPS)).to_string(); }
            let c = Cfg { single: true, bad: 0, raw: 0, depth: 2, stmts: 1, names: 4, unicode: false, ml_str: false, multiline_raw: false, open_end: true };
            let e = Gen::new(r, c).entry();
            render(&e, &Style { seed: 0, crlf: false, single: true, nl_at_end: false }).map(|x| x.text).unwrap_or_default()
        };
        let l = format!("{}{}{}", half(r), [" ", " ", "  ", ", ", ""][r.below(5)], half(r));
        // A line that starts like a map entry carries on a map before it.
        let entry = |l: &str| l.split_once(':').is_some_and(|(k, _)| k.trim().starts_with('"') || k.trim().chars().all(|c| c.is_alphanumeric() || c == '_'));
        let first_is_entry = s.first().is_some_and(|s| s.text().starts_with("[\"expr\",[\"bmap\""));
        let at = if entry(&l) { 0 } else { r.range(first_is_entry as usize, s.len()) };
        if at == 0 && first_is_entry { s.remove(0); }
        if !l.contains('\n') && (at == 0 || !crate::render::tight(&s[at - 1]).unwrap_or(true)) { s.insert(at, jarr!["raw", l]); }
    }
    let (h, rel) = common_fields(r);
    let a = cuts(r, 60 * n, true);
    let b = cuts(r, 60 * n, true);
    // What may stand around the statements on their lines.
    let mut pads: Vec<J> = vec![];
    if r.pct(45) {
        let p = *r.pick(&[10usize, 30, 60]);
        for _ in 0..n {
            let before = if r.pct(p) { (*r.pick(&["\n", "// note\n", "   \n", "\n\n", "  // é\n", "//\n"])).to_string() } else { String::new() };
            let tail = if r.pct(p) { *r.pick(&["  ", " // tail", " // \"é {", "\t", " "]) } else { "" };
            pads.push(J::Arr(vec![J::from(before), J::from(tail)]));
        }
    }
    jobj! {"stmts": J::Arr(s), "pads": J::Arr(pads), "script_ev": ev_json(&a), "stdin_ev": ev_json(&b), "hash_seed": h, "release": rel as i64}
}
fn padded(text: &str, pads: &[J]) -> R<String> {
    let mut out = String::new();
    for (k, l) in text.split_inclusive('\n').enumerate() {
        let Some(p) = pads.get(k) else { out.push_str(l); continue };
        let p = p.arr()?;
        if p.len() != 2 { return Err("pad".into()); }
        let (a, c) = (p[0].str()?, p[1].str()?);
        for x in a.split_inclusive('\n') {
            let x = x.trim_start_matches(' ');
            if !(x == "\n" || x.starts_with("//") && x.ends_with('\n')) { return Err("pad".into()); }
        }
        let t = c.trim_start_matches([' ', '\t']);
        if !(t.is_empty() || c.starts_with(' ') && t.starts_with("//")) || c.contains('\n') { return Err("pad".into()); }
        out.push_str(a);
        let body = l.strip_suffix('\n').unwrap_or(l);
        out.push_str(body);
        if l.len() > body.len() { out.push_str(c); out.push('\n'); }
    }
    Ok(out)
}
/// The statements of a pretty-printed list, without its brackets.
fn inner(t: &str) -> Option<String> {
    if t == "[]\n" { return Some(String::new()); }
    Some(t.strip_prefix("[\n")?.strip_suffix("]\n")?.to_string())
}
pub fn exec_c14(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let stmts = c.a("stmts")?;
    // Only a closing brace may end the text.
    let nl_at_end = match stmts.last() { Some(s) => !crate::render::tight(s)?, None => true };
    let sty = Style { seed: 0, crlf: false, single: true, nl_at_end };
    let text = render(stmts, &sty)?.text;
    let text = match c.get("pads") { Some(p) => padded(&text, p.arr()?)?, None => text };
    let mut s = base(c)?;
    s.ev_script = ev_from(c, "script_ev")?;
    s.script = Some(text.as_bytes().to_vec());
    let mut t = base(c)?;
    t.hash_seed ^= 0xabcdef;
    t.ev_stdin = ev_from(c, "stdin_ev")?;
    t.stdin = text.as_bytes().to_vec();
    if s.ev_script.iter().chain(&t.ev_stdin).any(|e| e.0 == EV_EOF || e.0 == EV_ERR && e.1 != EINTR) { return Err("fault".into()); }
    let a = run(&s);
    st.obs(&a);
    let b = run(&t);
    st.obs(&b);
    let lines = text.lines().count();
    if lines > 1 { st.sigs.insert(hash_bytes(text.as_bytes())); }
    if a.hung() || b.hung() { return viol("hang", format!("script: {}, session: {}", a.ended(), b.ended())); }
    if b.code != Some(0) { return viol("session-status", format!("the session: {}; stderr {}", b.ended(), lossy(&b.stream(STDERR)))); }
    let out_b = String::from_utf8_lossy(&b.stream(STDOUT)).into_owned();
    let err_b = b.stream(STDERR);
    let ok_script = match a.code { Some(0) => true, Some(65) => false, _ => return viol("script-status", a.ended()) };
    let ok_session = err_b.is_empty();
    st.add(if ok_script { "accepted" } else { "rejected" }, 1);
    if ok_script != ok_session {
        return viol("verdict", format!("the script is {}, typed line by line it is {}; script stderr {}, session stderr {}; text {}",
            if ok_script { "accepted" } else { "rejected" }, if ok_session { "accepted" } else { "rejected" }, lossy(&a.stream(STDERR)), lossy(&err_b), lossy(text.as_bytes())));
    }
    if !ok_script { return Ok(None); }
    let Some(rest) = out_b.strip_prefix("> ") else { return viol("transcript", lossy(out_b.as_bytes())) };
    let mut got = String::new();
    let parts: Vec<&str> = rest.split("\n> ").collect();
    if parts.len() != lines + 1 { return viol("transcript", format!("{} answers for {lines} lines: {}", parts.len() - 1, lossy(out_b.as_bytes()))); }
    for (k, p) in parts[..lines].iter().enumerate() {
        let Some(i) = inner(&format!("{p}\n")) else { return viol("transcript", format!("answer {}: {}", k + 1, lossy(p.as_bytes()))) };
        got.push_str(&i.replace("line: 1,", &format!("line: {},", k + 1)));
    }
    let all = String::from_utf8_lossy(&a.stream(STDOUT)).into_owned();
    let Some(want) = inner(&all) else { return viol("script-output", lossy(all.as_bytes())) };
    if got != want { return viol("tree", format!("the session's trees and the script's part {}", differ(got.as_bytes(), want.as_bytes()))); }
    Ok(None)
}

#[allow(unused)]
fn unused() { let _ = (SCRIPT, proc::MAP); }
