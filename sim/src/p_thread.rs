//! Concurrent callers: C10 and C11. Every run is a process of its own, forked
//! from a worker that never called the code under test, so that a cold start
//! is really cold.
use crate::common::*;
use crate::fw::{Stats, Viol, viol};
use crate::{jarr, jobj};
use crate::json::{J, R};
use crate::rng::{Rng, hash_bytes};
use crate::rt::{self, raw};
use crate::sut::{self, Mode, Out, Session};
use std::fs::File;
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::{Arc, Mutex};

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
}

pub enum Child { Answer(J), Code(i32), Signal(i32) }

/// Runs f in a forked process; its answer comes through a pipe.
fn forked(f: impl FnOnce() -> J) -> R<Child> {
    let mut p = [0i32; 2];
    let r = unsafe { raw(293, p.as_mut_ptr() as i64, 0, 0, 0, 0, 0) };
    if r < 0 { return Err(format!("pipe: {r}")); }
    let pid = unsafe { fork() };
    if pid < 0 { return Err("fork".into()); }
    if pid == 0 {
        unsafe { raw(3, p[0] as i64, 0, 0, 0, 0, 0) };
        // Processor time only: sleeping threads are the scheduler's.
        let lim = [30u64, 35u64];
        unsafe { raw(160, 0, lim.as_ptr() as i64, 0, 0, 0, 0) };
        unsafe { raw(37, 60, 0, 0, 0, 0, 0) };
        let j = f();
        let mut w = unsafe { File::from_raw_fd(p[1]) };
        let _ = w.write_all(j.text().as_bytes());
        rt::exit_now(0);
    }
    unsafe { raw(3, p[1] as i64, 0, 0, 0, 0, 0) };
    let mut r = unsafe { File::from_raw_fd(p[0]) };
    let mut s = String::new();
    let _ = r.read_to_string(&mut s);
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if st & 127 != 0 { return Ok(Child::Signal(st & 127)); }
    let code = (st >> 8) & 255;
    if code != 0 { return Ok(Child::Code(code)); }
    Ok(Child::Answer(J::parse(&s)?))
}

#[derive(Clone)]
struct Job { seed: u64, calls: Vec<(String, Mode)> }
fn jobs_of(c: &J) -> R<Vec<Job>> {
    let mut v = vec![];
    for j in c.a("jobs")? {
        let mut calls = vec![];
        for x in j.a("calls")? { calls.push((x.s("text")?.to_string(), Mode::from(x.s("mode")?)?)); }
        v.push(Job { seed: j.u_or("seed", 0), calls });
    }
    if v.is_empty() || v.len() > rt::MAX_T { return Err("jobs".into()); }
    Ok(v)
}
fn run_job(j: &Job) -> Vec<Out> {
    let mut s = Session::new();
    j.calls.iter().map(|(t, m)| s.submit_fmt(t, *m, false)).collect()
}
fn report(o: &[Out]) -> J {
    J::Arr(o.iter().map(|o| J::from(vec![J::from(format!("{:016x}", hash_bytes(o.text().as_bytes()))), J::from(o.brief())])).collect())
}
fn warm_up() {
    sut::on_thread(7, || { sut::once("var warm = 1 + f(2)\nprint warm\n", Mode::Script); });
}

/// What the job gives alone in a process, and its number of steps.
fn solo(j: &Job, warm: bool) -> R<Child> {
    let len: usize = j.calls.iter().map(|c| c.0.len()).sum();
    forked(|| {
        if warm { warm_up(); }
        rt::reset_run(budget(len) * 2);
        let res = Arc::new(Mutex::new(vec![]));
        let (r2, j2) = (res.clone(), j.clone());
        rt::run_threads(vec![(j.seed, Box::new(move || { let o = run_job(&j2); *r2.lock().unwrap() = o; }))],
            rt::Plan { schedule: vec![], pause_at: vec![0], budget: vec![u64::MAX], rr_slice: u64::MAX, stops: vec![], pause_new: vec![] });
        let o = res.lock().unwrap();
        jobj! {"steps": rt::sched().steps[0], "news": rt::sched().news[0], "out": report(&o)}
    })
}
/// Steps, different edges, results.
type Solo = Vec<(u64, u64, Vec<(String, String)>)>;
fn pairs(j: &J) -> R<Vec<(String, String)>> {
    j.arr()?.iter().map(|x| { let x = x.arr()?; Ok((x[0].str()?.to_string(), x[1].str()?.to_string())) }).collect()
}
fn solos(js: &[Job], warm: bool) -> R<Result<Solo, Viol>> {
    let mut v = vec![];
    for j in js {
        match solo(j, warm)? {
            Child::Answer(a) => v.push((a.u_or("steps", 0), a.u_or("news", 0), pairs(a.need("out")?)?)),
            Child::Code(rt::EXIT_BUDGET) => return Ok(Err(Viol { class: "hang".into(), detail: "a call running alone does not end".into() })),
            Child::Code(rt::EXIT_DEADLOCK) => return Ok(Err(Viol { class: "deadlock-alone".into(), detail: "a call running alone waits for ever".into() })),
            Child::Code(x) => return Ok(Err(Viol { class: "crash".into(), detail: format!("a call running alone ended the process with {x}") })),
            Child::Signal(x) => return Ok(Err(Viol { class: "crash".into(), detail: format!("a call running alone died of signal {x}") })),
        }
    }
    Ok(Ok(v))
}

const MODES: [&str; 8] = ["script", "script", "script", "once", "once", "line", "line", "expr"];
fn gen_jobs(r: &mut Rng, max: usize) -> Vec<J> {
    let n = r.range(2, max);
    let text = |r: &mut Rng| {
        let b = r.pct(40);
        let t = if r.pct(40) { line(r, 20) + "\n" } else { program(r, b) };
        if r.pct(15) { damage(r, &t, 1).0 } else { t }
    };
    // The same few texts on all threads, over and over.
    let pool: Vec<String> = if r.pct(35) {
        let short = r.pct(70);
        (0..r.range(1, 3)).map(|_| if short { (*r.pick(&SHORT)).to_string() } else { text(r) }).collect()
    } else { vec![] };
    // And texts almost like them.
    let mut pool = pool;
    if r.pct(20) { for t in pool.clone() { pool.push(crate::p_session::shadow(r, &t)); } }
    if r.pct(8) { let (a, b) = crate::common::siblings(r); pool = vec![a, b]; }
    // All of them deep down at the same time.
    let pool = if r.pct(8) { (0..r.range(1, 2)).map(|_| nested(r)).collect() } else { pool };
    let one_mode = r.pct(50).then(|| *r.pick(&MODES));
    (0..n)
        .map(|_| {
            let k = if pool.is_empty() { r.range(1, 3) } else { r.range(1, 6) };
            let calls: Vec<J> = (0..k)
                .map(|_| {
                    let t = if pool.is_empty() { text(r) } else { r.pick(&pool).clone() };
                    let m = one_mode.unwrap_or_else(|| *r.pick(&MODES));
                    jobj! {"text": t, "mode": m}
                })
                .collect();
            jobj! {"seed": r.next() >> 12, "calls": J::Arr(calls)}
        })
        .collect()
}
fn nested(r: &mut Rng) -> String {
    let n = r.range(10, 70);
    let (a, m, z, end) = *r.pick(&[
        ("(", "1", ")", "\n"), ("[", "a", "]", "\n"), ("f(", "1", ")", "\n"), ("{a: ", "1", "}", "\n"), ("-", "1", "", "\n"), ("!", "a", "", "\n"),
        ("a[", "0", "]", "\n"), ("if (a) ", "print 1", "", "\n"), ("while (a) ", "print 1", "", "\n"), ("{\n", "print 1\n", "}", ""), ("fun f(a) {\n", "return a\n", "}", ""),
        ("a = ", "1", "", "\n"), ("f(fun (a) {\n", "print a\n", "})\n", ""), ("(", "1", "", "\n"), ("(", "", "", "\n"), ("class A {\nm() {\n", "print this\n", "}}", ""),
    ]);
    if r.pct(25) {
        let w = *r.pick(&["if (a)", "while (a)", "fun f()", "x", "for (var i = 0; i < n; i = i + 1)", "a:", "(", "class A"]);
        return (0..n).map(|k| format!("{}{w}\n", " ".repeat(k))).collect::<String>() + &" ".repeat(n) + "print 1\n";
    }
    let first = if end.is_empty() || a.starts_with("if") || a.starts_with("while") { "" } else { "print " };
    format!("{first}{}{m}{}{end}", a.repeat(n), z.repeat(n))
}
const SHORT: [&str; 16] = [
    "print 1\n", "print 2\n", "a\n", "return 1\n", "f 1, 2\n", "\"s\"\n", "\"é\"\n", "break\n", "while (a) print a\n", "class A < A {}", "print (\n",
    "fun f(a, a) {}", "m = {a: 1, b: 0.5}\n", "class A\n  init()\n    this.n = 25\n", "@\n", "\"open\n",
];
/// Slices are steps, or, if negative, thousandths of what the thread needs alone.
fn gen_schedule(r: &mut Rng, n: usize) -> (J, usize) {
    let mut v: Vec<(usize, i64)> = vec![];
    match r.below(8) {
        // Many switches early, where a cold process initialises.
        0 => for _ in 0..200 { v.push((r.below(n), 1 + r.skew(12) as i64)); },
        1 => for _ in 0..60 { v.push((r.below(n), 1 + r.skew(400) as i64)); },
        // Few switches at any place.
        2 => for _ in 0..r.range(1, 6) { v.push((r.below(n), 1 + r.skew(8000) as i64)); },
        3 => for _ in 0..r.range(50, 400) { v.push((r.below(n), if r.pct(80) { r.range(1, 4) } else { 1 + r.skew(3000) } as i64)); },
        // In step.
        4 => for k in 0..r.range(20, 300) { v.push((k % n, 1 + k as i64 % 3)); },
        // A thread stops anywhere while others run through.
        5 | 6 => for _ in 0..r.range(1, 4) {
            v.push((r.below(n), -1 - r.below(1000) as i64));
            for _ in 0..r.below(3) { v.push((r.below(n), -1 - r.below(1000) as i64)); }
            if r.pct(50) { v.push((r.below(n), -1000)); }
        },
        // Close together from somewhere on.
        _ => {
            for t in 0..n { v.push((t, -1 - r.below(1000) as i64)); }
            for _ in 0..r.range(50, 600) { v.push((r.below(n), 1 + r.skew(8) as i64)); }
        }
    }
    let rr = *r.pick(&[1usize, 3, 7, 17, 60, 200, 5000]);
    (J::Arr(v.into_iter().map(|(t, k)| J::Arr(vec![J::from(t), J::from(k)])).collect()), rr)
}
/// Switching after so many steps once the schedule is used up, and so seldom
/// that long calls still end in time.
fn slice_of(c: &J, alone: &Solo) -> u64 {
    c.u_or("rr", 1).max(1).max(alone.iter().map(|a| a.0).sum::<u64>() / 100_000)
}
fn schedule_of(c: &J, alone: &Solo) -> R<Vec<(usize, u64)>> {
    let mut v = vec![];
    let n = alone.len();
    for x in c.a("schedule")? {
        let x = x.arr()?;
        if x.len() < 2 { return Err("schedule".into()); }
        let t = x[0].int()? as usize;
        if t >= n { continue; }
        let k = x[1].int()?.clamp(-100_000, 1 << 30);
        v.push((t, if k < 0 { (alone[t].0 * k.unsigned_abs() / 1000).max(1) } else { k as u64 }));
    }
    Ok(v)
}

/// Stops: a thread, where among the edges it takes for the first time (in
/// thousandths), and for how many steps of the others.
fn gen_stops(r: &mut Rng, n: usize) -> J {
    let k = r.range(1, 4);
    J::Arr((0..k).map(|_| jarr![if r.pct(40) { 0 } else { r.below(n) }, r.below(1001), *r.pick(&[30usize, 300, 5000, 1_000_000])]).collect())
}
fn stops_of(c: &J, alone: &Solo) -> R<Vec<(usize, u64, u64)>> {
    let mut v = vec![];
    let Ok(l) = c.a("stops") else { return Ok(v) };
    for x in l {
        let x = x.arr()?;
        if x.len() < 3 { return Err("stops".into()); }
        let (t, p, h) = (x[0].int()? as usize, x[1].int()?.clamp(0, 1000) as u64, x[2].int()?.clamp(1, 1 << 30) as u64);
        if t < alone.len() { v.push((t, (alone[t].1 * p / 1000).max(1), h)); }
    }
    Ok(v)
}

fn together(js: &[Job], plan: rt::Plan, warm: bool) -> R<Child> {
    forked(|| {
        if warm { warm_up(); }
        rt::reset_run(u64::MAX);
        let res: Vec<Arc<Mutex<Vec<Out>>>> = js.iter().map(|_| Arc::new(Mutex::new(vec![]))).collect();
        let mut jobs: Vec<(u64, Box<dyn FnOnce() + Send>)> = vec![];
        for (j, r) in js.iter().zip(&res) {
            let (j, r) = (j.clone(), r.clone());
            jobs.push((j.seed, Box::new(move || { let o = run_job(&j); *r.lock().unwrap() = o; })));
        }
        rt::run_threads(jobs, plan);
        let s = rt::sched();
        let (sig, _) = rt::edge_signature();
        let hit = rt::edges().iter().map(|b| if *b != 0 { '1' } else { '0' }).collect::<String>();
        jobj! {
            "out": J::Arr(res.iter().map(|r| report(&r.lock().unwrap())).collect()),
            "switches": s.switches, "waits": s.waits, "holds": s.holds, "sleeps": s.sleeps,
            "sig": format!("{:016x}", s.sig), "edges": format!("{sig:016x}"), "hit": hit,
            "paused": s.pause_hit.iter().filter(|p| **p).count(),
            "steps": s.steps.iter().sum::<u64>(),
        }
    })
}
fn account(a: &J, st: &mut Stats) -> R<u64> {
    let sig = u64::from_str_radix(a.s("sig")?, 16).map_err(|e| e.to_string())?;
    st.states.insert(sig);
    st.trace(sig);
    st.trace_str(&a.need("out")?.text());
    st.trace_str(a.s("edges")?);
    st.add("fault.preemption", a.u_or("switches", 0));
    st.add("fault.held_at_new_code", a.u_or("holds", 0));
    st.add("blocked_waits", a.u_or("waits", 0));
    st.add("sleeps", a.u_or("sleeps", 0));
    st.steps += a.u_or("steps", 0);
    let h = a.s("hit")?.as_bytes();
    if st.edges.len() < h.len() { st.edges.resize(h.len(), 0); }
    for (x, y) in st.edges.iter_mut().zip(h) { *x |= (*y == b'1') as u8; }
    Ok(sig)
}
fn compare(a: &J, alone: &Solo) -> R<Option<Viol>> {
    for (t, (o, (_, _, w))) in a.a("out")?.iter().zip(alone).enumerate() {
        let g = pairs(o)?;
        if g.len() != w.len() { return viol("lost-result", format!("thread {t}: {} results, alone {}", g.len(), w.len())); }
        for (k, (g, w)) in g.iter().zip(w).enumerate() {
            if g.0 != w.0 { return viol("differs", format!("thread {t}, call {}: {}, alone {}", k + 1, g.1, w.1)); }
        }
    }
    Ok(None)
}

// ---------------------------------------------------------------- C10

/// A crowd: the same text on many threads, in step.
fn gen_crowd(r: &mut Rng) -> J {
    let n = r.range(3, 8);
    let pool: Vec<String> = (0..r.range(1, 2)).map(|_| match r.below(4) {
        0 => (*r.pick(&SHORT)).to_string(),
        1 => program(r, true),
        2 => nested(r),
        _ => (0..r.range(2, 8)).map(|_| *r.pick(&["return 1\n", "print this\n", "super.m()\n", "print 1\n", "class A < A\n  m()\n    print 1\n", "fun f(a, a)\n  print a\n", "var b = \"s\"\n", "m = {a: 1, b: 2}\n"])).collect(),
    }).collect();
    let js: Vec<J> = (0..n).map(|_| {
        let calls: Vec<J> = (0..r.range(1, 2)).map(|_| jobj! {"text": r.pick(&pool).as_str(), "mode": "script"}).collect();
        jobj! {"seed": r.next() >> 12, "calls": J::Arr(calls)}
    }).collect();
    let s: Vec<J> = if r.pct(50) { (0..n).map(|t| jarr![t, -1 - r.below(1000) as i64]).collect() } else { vec![] };
    jobj! {"jobs": J::Arr(js), "schedule": J::Arr(s), "rr": *r.pick(&[1usize, 3, 20, 150]), "stops": J::Arr(vec![]), "warm": r.pct(60) as i64}
}
pub fn gen_c10(r: &mut Rng, _: u64) -> J {
    if r.pct(10) { return gen_crowd(r); }
    let js = gen_jobs(r, 5);
    let n = js.len();
    // Most runs have a few switches where code runs for the first time, the
    // others many anywhere.
    let sparse = r.pct(65);
    let (mut s, mut rr) = gen_schedule(r, n);
    if sparse {
        rr = *r.pick(&[300usize, 3000, 1 << 20]);
        if r.pct(60) || s.arr().is_ok_and(|a| a.len() > 12) { s = J::Arr(vec![]); }
    }
    let stops = if sparse || r.pct(20) { gen_stops(r, n) } else { J::Arr(vec![]) };
    jobj! {"jobs": J::Arr(js), "schedule": s, "rr": rr, "stops": stops, "warm": r.pct(25) as i64}
}
pub fn exec_c10(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let js = jobs_of(c)?;
    let warm = c.u_or("warm", 0) == 1;
    let alone = match solos(&js, warm)? { Ok(a) => a, Err(v) => return Ok(Some(v)) };
    // Waiting for a cold start done by another takes steps of nobody's own.
    let budget: Vec<u64> = alone.iter().map(|a| a.0 * 4 + 100_000).collect();
    let plan = rt::Plan { schedule: schedule_of(c, &alone)?, pause_at: vec![], budget, rr_slice: slice_of(c, &alone), stops: stops_of(c, &alone)?, pause_new: vec![] };
    st.add("cold_starts", !warm as u64);
    match together(&js, plan, warm)? {
        Child::Answer(a) => {
            let sig = account(&a, st)?;
            if a.u_or("switches", 0) as usize > js.len() { st.sigs.insert(sig); }
            compare(&a, &alone)
        }
        Child::Code(rt::EXIT_BUDGET) => viol("livelock", "a call makes many more steps than alone".into()),
        Child::Code(rt::EXIT_DEADLOCK) => viol("deadlock", "all unfinished calls wait for one another".into()),
        Child::Code(x) => viol("crash", format!("the process ended with {x}")),
        Child::Signal(24 | 9) => viol("hang", "the process used up its processor time".into()),
        Child::Signal(14) => viol("hang", "the process made no progress".into()),
        Child::Signal(x) => viol("crash", format!("the process died of signal {x}")),
    }
}

// ---------------------------------------------------------------- C11

pub fn gen_c11(r: &mut Rng, _: u64) -> J {
    let js = gen_jobs(r, 4);
    let n = js.len();
    let (s, rr) = gen_schedule(r, n);
    let mut pause = vec![0usize; n];
    for _ in 0..r.range(1, n - 1) { pause[r.below(n)] = 1 + r.below(1000); }
    if pause.iter().all(|p| *p > 0) { pause[r.below(n)] = 0; }
    jobj! {"jobs": J::Arr(js), "schedule": s, "rr": rr, "pause": pause, "new": r.pct(60) as i64}
}
pub fn exec_c11(c: &J, st: &mut Stats) -> R<Option<Viol>> {
    let js = jobs_of(c)?;
    let alone = match solos(&js, true)? { Ok(a) => a, Err(v) => return Ok(Some(v)) };
    // At any step, or at one of those where it takes an edge for the first time.
    let new = c.u_or("new", 0) == 1;
    let mut pause_at = vec![];
    for (k, a) in alone.iter().enumerate() {
        let p = c.a("pause")?.get(k).and_then(|x| x.int().ok()).unwrap_or(0).clamp(0, 1000) as u64;
        pause_at.push(if p == 0 { 0 } else { (if new { a.1 } else { a.0 } * p / 1000).max(1) });
    }
    if pause_at.iter().all(|p| *p > 0) { return Err("all paused".into()); }
    let budget: Vec<u64> = alone.iter().map(|a| a.0 * 2 + 1000).collect();
    let (pause_at, pause_new) = if new { (vec![], pause_at) } else { (pause_at, vec![]) };
    let plan = rt::Plan { schedule: schedule_of(c, &alone)?, pause_at, budget, rr_slice: slice_of(c, &alone), stops: vec![], pause_new };
    match together(&js, plan, true)? {
        Child::Answer(a) => {
            let sig = account(&a, st)?;
            let n = a.u_or("paused", 0);
            st.add("fault.thread_paused", n);
            if n > 0 { st.sigs.insert(sig); }
            compare(&a, &alone)
        }
        Child::Code(rt::EXIT_HELD_UP) => viol("held-up", "calls on other threads wait for the paused one".into()),
        Child::Code(rt::EXIT_BUDGET) => viol("held-up-spinning", "a call makes more than twice the steps it makes alone".into()),
        Child::Code(rt::EXIT_DEADLOCK) => viol("deadlock", "all unfinished calls wait for one another".into()),
        Child::Code(x) => viol("crash", format!("the process ended with {x}")),
        Child::Signal(24 | 9) => viol("hang", "the process used up its processor time".into()),
        Child::Signal(14) => viol("hang", "the process made no progress".into()),
        Child::Signal(x) => viol("crash", format!("the process died of signal {x}")),
    }
}
