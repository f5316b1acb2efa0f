//! Properties, statistics, workers, shrinking, replay and evidence.
use crate::jobj;
use crate::json::{J, R};
use crate::rng::{Rng, hash_bytes, mix};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Viol { pub class: String, pub detail: String }
pub fn viol<T>(class: &str, detail: String) -> R<Option<T>> where T: From<Viol> {
    Ok(Some(Viol { class: class.into(), detail }.into()))
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub counts: BTreeMap<String, u64>,
    /// Signatures of the distinct non-trivial runs.
    pub sigs: HashSet<u64>,
    /// Signatures of distinct executions (edge sets, schedules, transcripts).
    pub states: HashSet<u64>,
    pub edges: Vec<u8>,
    pub steps: u64,
    pub trace: u64,
    pub samples: Vec<J>,
}
impl Stats {
    pub fn add(&mut self, k: &str, n: u64) {
        if n > 0 { *self.counts.entry(k.to_string()).or_default() += n; }
    }
    pub fn trace(&mut self, h: u64) { self.trace = mix(self.trace ^ h); }
    pub fn trace_str(&mut self, s: &str) { self.trace(hash_bytes(s.as_bytes())); }
    pub fn edges_now(&mut self) {
        let (s, _) = crate::rt::edge_signature();
        self.states.insert(s);
        self.trace(s);
        let st = crate::rt::STEPS.load(std::sync::atomic::Ordering::Relaxed);
        self.steps += st;
        self.trace(st);
        let e = crate::rt::edges();
        if self.edges.len() < e.len() { self.edges.resize(e.len(), 0); }
        for (a, b) in self.edges.iter_mut().zip(e) { *a |= b; }
    }
    pub fn obs(&mut self, o: &crate::proc::Obs) {
        for (k, n) in &o.fired { self.add(&format!("fault.{k}"), *n); }
        self.steps += o.log.len() as u64;
        self.trace(o.hash());
        self.states.insert(o.hash());
        self.add("processes", 1);
    }
}

pub struct Prop {
    pub id: &'static str,
    pub generate: fn(&mut Rng, u64) -> J,
    /// None: executed by the page simulator (Node).
    pub exec: Option<fn(&J, &mut Stats) -> R<Option<Viol>>>,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub states_are: &'static str,
}

pub fn root() -> String { std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into()) }
pub const WORKERS: u64 = 8;

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ hash_bytes(prop.as_bytes()) ^ mix(i))
}
pub fn make_case(p: &Prop, seed: u64, i: u64) -> J {
    (p.generate)(&mut Rng::new(run_seed(seed, p.id, i)), i)
}

// ---- worker ---------------------------------------------------------------

pub struct WorkerArgs { pub seed: u64, pub w: u64, pub of: u64, pub count: u64, pub dir: String, pub cap: f64, pub traces: bool }

/// The first use in a process takes other paths (the keyword table is built,
/// with the hash seed of whoever comes first): no run depends on whether it is
/// the first. Runs of C10 and C11 fork, and want the first use to be theirs.
fn warm(p: &Prop) {
    if ["C10", "C11"].contains(&p.id) { return; }
    crate::rt::reset_run(crate::common::budget(20));
    crate::sut::on_thread(1, || {
        crate::sut::once("print 1\n", crate::sut::Mode::Script);
        crate::sut::once("print )\n", crate::sut::Mode::Once);
    });
}

pub fn worker(p: &Prop, a: &WorkerArgs) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    let prog = fs::OpenOptions::new().create(true).truncate(false).write(true).open(format!("{}/w{}", a.dir, a.w)).expect("progress");
    let min = fs::File::open(format!("{}/min", a.dir)).expect("min");
    let mut st = Stats::default();
    let t0 = Instant::now();
    let mut i = a.w;
    let mut traces = String::new();
    let mut capped = false;
    let mut code = 0;
    let skip: Vec<u64> = fs::read_to_string(format!("{}/skip", a.dir)).unwrap_or_default().lines().filter_map(|l| l.parse().ok()).collect();
    while i < a.count {
        let mut b = [0u8; 8];
        let _ = min.read_at(&mut b, 0);
        if i > u64::from_le_bytes(b) { break; }
        if t0.elapsed().as_secs_f64() > a.cap { capped = true; break; }
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        if i == a.w { warm(p); }
        if skip.contains(&i) { i += a.of; continue; }
        let case = make_case(p, a.seed, i);
        st.trace = 0;
        let n_sig = st.sigs.len();
        st.evals += 1;
        match (p.exec.unwrap())(&case, &mut st) {
            Ok(None) => {
                if st.sigs.len() > n_sig && st.samples.len() < 3 && case.text().len() < 3000 { st.samples.push(case); }
            }
            Ok(Some(v)) => {
                let _ = fs::write(format!("{}/v{}", a.dir, a.w), jobj! {"i": i, "class": v.class, "detail": v.detail}.text());
                code = 10;
                break;
            }
            Err(e) => {
                let _ = fs::write(format!("{}/e{}", a.dir, a.w), format!("run {i}: {e}\ncase {}", case.text()));
                code = 11;
                break;
            }
        }
        if a.traces { traces.push_str(&format!("{i} {:016x}\n", st.trace)); }
        i += a.of;
    }
    if a.traces { fs::write(format!("{}/t{}", a.dir, a.w), traces).unwrap(); }
    let hex = |s: &HashSet<u64>| J::from(s.iter().map(|x| format!("{x:016x}")).collect::<Vec<_>>().join(" "));
    let j = jobj! {
        "evals": st.evals,
        "counts": J::Obj(st.counts.iter().map(|(k, v)| (k.clone(), J::from(*v))).collect()),
        "sigs": hex(&st.sigs), "states": hex(&st.states),
        "edges": st.edges.iter().map(|b| if *b != 0 { '1' } else { '0' }).collect::<String>(),
        "guards": crate::rt::N_GUARDS.load(std::sync::atomic::Ordering::Relaxed),
        "steps": st.steps, "samples": J::Arr(st.samples), "capped": capped,
    };
    fs::write(format!("{}/s{}", a.dir, a.w), j.text()).expect("stats");
    code
}

/// One case, this process. Prints the result. A case may be a sequence: runs
/// one after another in one process, for what depends on what came before.
pub fn exec_one(p: &Prop, case: &J) -> i32 {
    std::panic::set_hook(Box::new(|_| {}));
    warm(p);
    let mut st = Stats::default();
    let f = p.exec.unwrap();
    let r = match case.get("seq") {
        None => f(case, &mut st),
        Some(s) => (|| {
            for c in s.arr()? { if let Some(v) = f(c, &mut st)? { return Ok(Some(v)); } }
            Ok(None)
        })(),
    };
    match r {
        Ok(None) => { println!("{}", jobj! {"ok": true, "trace": format!("{:016x}", st.trace)}.text()); 0 }
        Ok(Some(v)) => { println!("{}", jobj! {"class": v.class, "detail": v.detail, "trace": format!("{:016x}", st.trace)}.text()); 10 }
        Err(e) => { println!("{}", jobj! {"error": e}.text()); 11 }
    }
}

// ---- parent ---------------------------------------------------------------

fn self_exe() -> String { std::env::current_exe().expect("exe").to_string_lossy().into_owned() }
fn node_main() -> String { format!("{}/page/main.mjs", root()) }

fn command(p: &Prop, verb: &str) -> Command {
    if p.exec.is_some() {
        let mut c = Command::new(self_exe());
        c.arg(verb);
        c
    } else {
        let mut c = Command::new("node");
        c.args(["--no-warnings", "--experimental-vm-modules", &node_main(), verb]);
        c.env("DST_BIN", self_exe());
        c
    }
}

pub fn crash_class(st: std::process::ExitStatus) -> String {
    match (st.code(), st.signal()) {
        (Some(77), _) => "hang".into(),
        (_, Some(s)) => format!("crash-signal-{s}"),
        (Some(c), _) => format!("crash-exit-{c}"),
        _ => "crash".into(),
    }
}

pub enum Ex { Ok, V(Viol), Bad(String) }

/// Execute a case in a fresh process.
pub fn exec_child(p: &Prop, case: &J, tmp: &str) -> Ex {
    let f = format!("{tmp}/case.json");
    if fs::write(&f, case.text()).is_err() { return Ex::Bad("cannot write case".into()); }
    let mut ch = match command(p, "exec").arg(p.id).arg(&f).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => return Ex::Bad(e.to_string()),
    };
    let t0 = Instant::now();
    let most = if case.get("seq").is_some() { 400 } else { 120 };
    // The result is one short line, so the pipe cannot fill up.
    let st = loop {
        match ch.try_wait() {
            Ok(Some(st)) => break st,
            Ok(None) => {
                if t0.elapsed() > Duration::from_secs(most) {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return Ex::V(Viol { class: "hang".into(), detail: format!("the run did not end within {most} s") });
                }
                std::thread::sleep(Duration::from_millis(if t0.elapsed().as_millis() < 50 { 1 } else { 10 }));
            }
            Err(e) => return Ex::Bad(e.to_string()),
        }
    };
    let o = ch.wait_with_output().map(|o| o.stdout).unwrap_or_default();
    let line = String::from_utf8_lossy(&o).lines().last().unwrap_or("").to_string();
    match st.code() {
        Some(0) => Ex::Ok,
        Some(10) => match J::parse(&line) {
            Ok(j) => Ex::V(Viol { class: j.s("class").unwrap_or("?").into(), detail: j.s("detail").unwrap_or("").into() }),
            Err(e) => Ex::Bad(e),
        },
        Some(11) => Ex::Bad(line),
        _ => {
            let c = crash_class(st);
            let d = if c == "hang" { "a call made more steps than its budget allows".to_string() } else { format!("the simulated process ended: {c}") };
            Ex::V(Viol { class: c, detail: d })
        }
    }
}

/// Candidates smaller than j, biggest cuts first. Structure only: the executor
/// rejects what is not a case.
fn smaller(j: &J, out: &mut Vec<J>, rebuild: &dyn Fn(J) -> J, depth: usize) {
    if depth > 60 || out.len() > 6000 { return; }
    match j {
        J::Arr(v) => {
            let n = v.len();
            let mut k = n;
            while k >= 1 {
                let mut s = 0;
                while s < n {
                    let e = (s + k).min(n);
                    let mut w = v[..s].to_vec();
                    w.extend_from_slice(&v[e..]);
                    out.push(rebuild(J::Arr(w)));
                    s += k;
                }
                k /= 2;
            }
            for x in v {
                if let J::Arr(_) = x { out.push(rebuild(x.clone())); }
            }
            for (i, x) in v.iter().enumerate() {
                smaller(x, out, &|y| { let mut w = v.clone(); w[i] = y; rebuild(J::Arr(w)) }, depth + 1);
            }
        }
        J::Obj(v) => {
            for (i, (k, x)) in v.iter().enumerate() {
                if k == "kind" { continue; }
                smaller(x, out, &|y| { let mut w = v.clone(); w[i].1 = y; rebuild(J::Obj(w)) }, depth + 1);
            }
        }
        J::Int(n) => {
            if *n != 0 {
                for m in [0, 1, *n / 2, *n - n.signum()] { if m != *n { out.push(rebuild(J::Int(m))); } }
            }
        }
        J::Bool(true) => out.push(rebuild(J::Bool(false))),
        J::Str(s) => {
            let c: Vec<char> = s.chars().collect();
            let n = c.len();
            let mut k = n;
            while k >= 1 {
                let mut a = 0;
                while a < n {
                    let e = (a + k).min(n);
                    if n > 1 || k > 1 { out.push(rebuild(J::Str(c[..a].iter().chain(&c[e..]).collect()))); }
                    a += k;
                }
                if n > 64 && k <= n / 64 { break; }
                k /= 2;
            }
        }
        _ => {}
    }
}

pub fn shrink(p: &Prop, case: J, v: Viol, tmp: &str, secs: f64, max: usize) -> (J, Viol, usize) {
    let t0 = Instant::now();
    let (mut best, mut bv) = (case, v);
    let mut tries = 0;
    'outer: loop {
        let mut cands = vec![];
        smaller(&best, &mut cands, &|x| x, 0);
        for c in cands {
            if tries >= max || t0.elapsed().as_secs_f64() > secs { break 'outer; }
            if c.text().len() > best.text().len() || c == best { continue; }
            tries += 1;
            if let Ex::V(nv) = exec_child(p, &c, tmp) {
                if nv.class == bv.class { best = c; bv = nv; continue 'outer; }
            }
        }
        break;
    }
    (best, bv, tries)
}

fn hexset(s: &str, out: &mut HashSet<u64>) {
    for x in s.split(' ') { if let Ok(v) = u64::from_str_radix(x, 16) { out.insert(v); } }
}

pub struct Known { pub prop: String, pub case: String, pub what: String }
pub fn known(prop: &str) -> Vec<Known> {
    let Ok(t) = fs::read_to_string(format!("{}/known_findings.txt", root())) else { return vec![] };
    t.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let c = it.next()?.strip_prefix("case=")?.to_string();
            Some(Known { prop: p, case: c, what: it.next()?.to_string() })
        })
        .filter(|k| k.prop == prop)
        .collect()
}

pub fn check(p: &Prop, seed: u64, tier: &str, count: Option<u64>) -> i32 {
    let t0 = Instant::now();
    let tmp = format!("{}/out/run-{}-{}", root(), p.id, std::process::id());
    fs::create_dir_all(&tmp).expect("out");
    let r = check_in(p, seed, tier, count, &tmp, t0);
    let _ = fs::remove_dir_all(&tmp);
    r
}

/// What only a busy machine may have caused.
fn is_time(class: &str) -> bool { class == "time" || class.contains("hang") || class == "crash-signal-9" }

/// The runs of a worker up to run i, as one case.
fn sequence(p: &Prop, seed: u64, i: u64, last: u64) -> J {
    let n = i / WORKERS + 1;
    let v = (n - last.min(n)..n).map(|k| make_case(p, seed, i % WORKERS + k * WORKERS)).collect();
    J::Obj(vec![("seq".into(), J::Arr(v))])
}
/// A violation that needs earlier runs in the same process: the shortest tail
/// of the worker's runs that shows it.
fn in_sequence(p: &Prop, seed: u64, i: u64, tmp: &str) -> Option<(J, Viol)> {
    let mut last = 2;
    loop {
        let c = sequence(p, seed, i, last);
        if let Ex::V(v) = exec_child(p, &c, tmp) { return Some((c, v)); }
        if last > i / WORKERS { return None; }
        last *= 4;
    }
}

fn check_in(p: &Prop, seed: u64, tier: &str, count: Option<u64>, tmp: &str, t0: Instant) -> i32 {
    println!("check {} tier={tier} seed={seed}", p.id);
    for _ in 0..4 {
        if let Some(code) = search(p, seed, tier, count, tmp, t0) { return code; }
    }
    eprintln!("HARNESS ERROR: too many runs do not repeat");
    2
}
/// None: a run was set aside, search again.
fn search(p: &Prop, seed: u64, tier: &str, count: Option<u64>, tmp: &str, t0: Instant) -> Option<i32> {
    let count = count.unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let cap = std::env::var("DST_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 7200.0 } else { 420.0 });
    fs::write(format!("{tmp}/min"), u64::MAX.to_le_bytes()).expect("min");
    let mut ws = vec![];
    for w in 0..WORKERS {
        let ch = command(p, "worker")
            .args([p.id, &seed.to_string(), &w.to_string(), &WORKERS.to_string(), &count.to_string(), tmp, &cap.to_string(), "0"])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(format!("{tmp}/err{w}")).expect("err"))
            .spawn()
            .expect("worker");
        ws.push(Some(ch));
    }
    let mut best: Option<(u64, Viol)> = None;
    let mut errors = vec![];
    let mut left = ws.len();
    let mut seen = vec![(u64::MAX, Instant::now()); ws.len()];
    let mut stuck = vec![false; ws.len()];
    while left > 0 {
        for w in 0..ws.len() {
            let Some(ch) = ws[w].as_mut() else { continue };
            let Ok(Some(st)) = ch.try_wait() else {
                // A worker that stays in one run for so long is stuck.
                let at = fs::read(format!("{tmp}/w{w}")).ok().filter(|b| b.len() >= 8).map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(u64::MAX - 1);
                if seen[w].0 != at { seen[w] = (at, Instant::now()); }
                else if seen[w].1.elapsed().as_secs() >= 90 && !stuck[w] { stuck[w] = true; let _ = ch.kill(); }
                continue
            };
            ws[w] = None;
            left -= 1;
            let cand = match st.code() {
                Some(0) => None,
                Some(10) => fs::read_to_string(format!("{tmp}/v{w}")).ok().and_then(|t| J::parse(&t).ok()).map(|j| {
                    (j.u_or("i", 0), Viol { class: j.s("class").unwrap_or("?").into(), detail: j.s("detail").unwrap_or("").into() })
                }),
                Some(11) => { errors.push(fs::read_to_string(format!("{tmp}/e{w}")).unwrap_or_default()); None }
                _ => {
                    let e = fs::read_to_string(format!("{tmp}/err{w}")).unwrap_or_default();
                    match fs::read(format!("{tmp}/w{w}")) {
                        Ok(b) if b.len() >= 8 && !e.contains("HARNESS") => {
                            let c = if stuck[w] { "hang".to_string() } else { crash_class(st) };
                            Some((u64::from_le_bytes(b[..8].try_into().unwrap()), Viol { detail: format!("worker ended: {c} {}", e.lines().last().unwrap_or("")), class: c }))
                        }
                        _ => { errors.push(format!("worker {w} ended with {st:?}: {e}")); None }
                    }
                }
            };
            if let Some((i, v)) = cand {
                if best.as_ref().is_none_or(|b| i < b.0) {
                    best = Some((i, v));
                    fs::write(format!("{tmp}/min"), i.to_le_bytes()).ok();
                }
            }
        }
        std::thread::sleep(Duration::from_millis(10));
    }
    if !errors.is_empty() && best.is_none() {
        eprintln!("HARNESS ERROR: {}", errors[0]);
        return Some(2);
    }

    // Statistics.
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let (mut sigs, mut states) = (HashSet::new(), HashSet::new());
    let (mut evals, mut steps, mut guards, mut capped) = (0u64, 0u64, 0u64, false);
    let mut edges: Vec<u8> = vec![];
    let mut samples = vec![];
    for w in 0..WORKERS {
        let Some(j) = fs::read_to_string(format!("{tmp}/s{w}")).ok().and_then(|t| J::parse(&t).ok()) else { continue };
        evals += j.u_or("evals", 0);
        steps += j.u_or("steps", 0);
        guards = guards.max(j.u_or("guards", 0));
        capped |= j.b("capped").unwrap_or(false);
        if let Some(J::Obj(o)) = j.get("counts") { for (k, v) in o { 
            let (e, n) = (counts.entry(k.clone()).or_default(), v.int().unwrap_or(0) as u64);
            if k.starts_with("max_") { *e = (*e).max(n) } else { *e += n }
        } }
        hexset(j.s("sigs").unwrap_or(""), &mut sigs);
        hexset(j.s("states").unwrap_or(""), &mut states);
        let e = j.s("edges").unwrap_or("").as_bytes();
        if edges.len() < e.len() { edges.resize(e.len(), b'0'); }
        for (a, b) in edges.iter_mut().zip(e) { if *b == b'1' { *a = b'1'; } }
        if let Ok(s) = j.a("samples") { for x in s { if samples.len() < 3 { samples.push(x.clone()); } } }
    }
    let search_s = t0.elapsed().as_secs_f64();

    // Violation?
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, v)) = best {
        code = 1;
        violations = 1;
        let mut case = make_case(p, seed, i);
        println!("run {i} (seed {}): {}: {}", run_seed(seed, p.id, i), v.class, v.detail);
        // It must happen again, alone, in a fresh process.
        let v = match exec_child(p, &case, tmp) {
            Ex::V(n) => n,
            Ex::Ok if is_time(&v.class) => {
                println!("run {i} does not repeat: set aside as the machine's doing");
                let f = format!("{tmp}/skip");
                let old = fs::read_to_string(&f).unwrap_or_default();
                fs::write(&f, format!("{old}{i}\n")).expect("skip");
                return None;
            }
            Ex::Ok => match in_sequence(p, seed, i, tmp) {
                Some((c, n)) => { println!("it needs the runs before it: a sequence"); case = c; n }
                None => { eprintln!("HARNESS ERROR: run {i} does not repeat outside its worker (class {})", v.class); return Some(2) }
            },
            Ex::Bad(e) => { eprintln!("HARNESS ERROR: {e}"); return Some(2) }
        };
        let (small, sv, tries) = shrink(p, case.clone(), v, tmp, if tier == "thorough" { 120.0 } else { 45.0 }, 3000);
        let j = jobj! {
            "property": p.id, "class": sv.class.clone(), "detail": sv.detail.clone(), "check_seed": seed, "run": i,
            "run_seed": format!("{}", run_seed(seed, p.id, i)), "shrink_tries": tries, "case": small, "original_case": case,
        };
        let h = hash_bytes(j.text().as_bytes());
        let path = format!("{}/out/{}-{:08x}.json", root(), p.id, h as u32);
        fs::write(&path, j.text()).expect("replay file");
        // The replay file repeats it in a fresh process.
        match exec_child(p, j.get("case").unwrap(), tmp) {
            Ex::V(n) if n.class == sv.class => {}
            _ => { eprintln!("HARNESS ERROR: the replay file {path} does not repeat the violation"); return Some(2) }
        }
        println!("minimised in {tries} tries: {}", sv.class);
        println!("{}", sv.detail);
        println!("VIOLATION property={} replay={}", p.id, path);
    } else {
        for k in known(p.id) {
            let t = fs::read_to_string(format!("{}/{}", root(), k.case)).ok().and_then(|t| J::parse(&t).ok());
            match t {
                None => { eprintln!("HARNESS ERROR: known finding without a case: {}", k.case); return Some(2) }
                Some(c) => match exec_child(p, &c, tmp) {
                    Ex::V(_) => println!("KNOWN-FINDING: property={} {}", p.id, k.what),
                    Ex::Ok => println!("known finding does not happen any more: {}", k.what),
                    Ex::Bad(e) => { eprintln!("HARNESS ERROR: {}: {e}", k.case); return Some(2) }
                },
            }
        }
    }

    // Evidence.
    let faults: Vec<(String, J)> = counts.iter().filter(|(k, _)| k.starts_with("fault.")).map(|(k, v)| (k[6..].to_string(), J::from(*v))).collect();
    let probes: Vec<(String, J)> = counts.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.clone(), J::from(*v))).collect();
    let hit = edges.iter().filter(|b| **b == b'1').count();
    let mut cov = jobj! {
        "evaluations": evals, "distinct_nontrivial": sigs.len(), "rule": p.rule, "samples": J::Arr(samples),
        "simulated_runs_per_hour": (evals as f64 / search_s * 3600.0).round(),
        "seeds_per_hour": (evals as f64 / search_s * 3600.0).round(),
        "planned_runs": count, "stopped_by_time": capped,
        "simulated_time_steps": steps,
        "simulated_time_unit": "no clock is read anywhere in the code: time is counted in intercepted calls, basic-block edges of the instrumented crate, or page events",
        "fault_kinds_fired": J::Obj(faults), "probes": J::Obj(probes),
        "distinct_states": states.len(), "distinct_states_measure": p.states_are,
        "real_code": p.real, "stubs": p.stub, "exhaustive": false,
    };
    if guards > 0 && hit > 0 {
        cov.set("edges_reached", J::from(hit));
        cov.set("edges_in_crate", J::from(guards));
    }
    let ev = jobj! {
        "property": p.id, "tier": tier, "seed": seed, "level": p.level, "coverage": cov,
        "assumptions": J::from(vec!["sampling, not enumeration: a clean batch is evidence, not proof".to_string()]),
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    };
    fs::create_dir_all(format!("{}/evidence", root())).ok();
    fs::write(format!("{}/evidence/{}.json", root(), p.id), ev.text() + "\n").expect("evidence");
    println!("{}: {evals} runs, {} distinct non-trivial, {} distinct states, {:.1} s", p.id, sigs.len(), states.len(), t0.elapsed().as_secs_f64());
    Some(code)
}

pub fn replay(props: &[Prop], file: &str) -> i32 {
    let Some(j) = fs::read_to_string(file).ok().and_then(|t| J::parse(&t).ok()) else { eprintln!("cannot read {file}"); return 2 };
    let Some(p) = j.s("property").ok().and_then(|id| props.iter().find(|p| p.id == id)) else { eprintln!("unknown property"); return 2 };
    let tmp = format!("{}/out/replay-{}", root(), std::process::id());
    fs::create_dir_all(&tmp).expect("out");
    let r = exec_child(p, j.get("case").unwrap_or(&J::Null), &tmp);
    let _ = fs::remove_dir_all(&tmp);
    match r {
        Ex::Ok => { println!("no violation: {} holds on this case", p.id); 0 }
        Ex::V(v) => {
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
        Ex::Bad(e) => { eprintln!("HARNESS ERROR: {e}"); 2 }
    }
}

/// Every run twice, in other processes and with another number of workers:
/// the event logs must be the same.
pub fn determinism(props: &[Prop], ids: &[String], seeds: u64, count: u64) -> i32 {
    let mut bad = 0;
    for p in props.iter().filter(|p| ids.is_empty() || ids.iter().any(|i| i == p.id)) {
        for seed in 1..=seeds {
            let mut maps: Vec<BTreeMap<u64, String>> = vec![];
            for of in [8u64, 3, 1] {
                let tmp = format!("{}/out/det-{}-{}", root(), p.id, std::process::id());
                fs::create_dir_all(&tmp).expect("out");
                fs::write(format!("{tmp}/min"), u64::MAX.to_le_bytes()).unwrap();
                let mut chs = vec![];
                for w in 0..of {
                    chs.push(command(p, "worker").args([p.id, &seed.to_string(), &w.to_string(), &of.to_string(), &count.to_string(), &tmp, "100000", "1"])
                        .stdin(Stdio::null()).stdout(Stdio::null()).spawn().expect("worker"));
                }
                for mut c in chs { let _ = c.wait(); }
                let mut m = BTreeMap::new();
                for w in 0..of {
                    for l in fs::read_to_string(format!("{tmp}/t{w}")).unwrap_or_default().lines() {
                        if let Some((a, b)) = l.split_once(' ') { m.insert(a.parse().unwrap_or(0), b.to_string()); }
                    }
                }
                maps.push(m);
                let _ = fs::remove_dir_all(&tmp);
            }
            for k in 1..maps.len() {
                if maps[k] != maps[0] {
                    bad += 1;
                    let d: Vec<_> = maps[0].iter().filter(|(i, h)| maps[k].get(i) != Some(h)).map(|(i, _)| *i).collect();
                    println!("{} seed {seed}: runs differ: {:?} (of {} / {})", p.id, &d[..d.len().min(10)], maps[0].len(), maps[k].len());
                }
            }
            println!("{} seed {seed}: {} runs compared at 8, 3 and 1 workers", p.id, maps[0].len());
        }
    }
    if bad > 0 { 2 } else { 0 }
}
