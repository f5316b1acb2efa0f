//! Runs the real binary under the preloaded shim (shim/shim.c). The layout
//! mirrors shim/plan.h.
use crate::json::J;
use crate::rt::raw;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub const EV_DATA: u32 = 1;
pub const EV_ERR: u32 = 2;
pub const EV_EOF: u32 = 3;

pub const OP_READ: u8 = 1;
pub const OP_WRITE: u8 = 2;
pub const OP_OPEN: u8 = 3;
pub const OP_FSWRITE: u8 = 7;
pub const OP_LIVE: u8 = 8;
pub const STDIN: u8 = 0;
pub const STDOUT: u8 = 1;
pub const STDERR: u8 = 2;
pub const SCRIPT: u8 = 3;

const FIRED: [&str; 10] = [
    "eintr_read", "short_read", "read_error", "short_write", "write_error", "open_error", "alloc_failure",
    "size_lie", "eintr_write", "clock_jump",
];

#[derive(Clone, Default, Debug)]
pub struct Plan {
    pub script: Option<Vec<u8>>,
    pub stdin: Vec<u8>,
    pub ev_script: Vec<(u32, u32)>,
    pub ev_stdin: Vec<(u32, u32)>,
    pub ev_out: Vec<(u32, u32)>,
    pub ev_err: Vec<(u32, u32)>,
    pub hash_seed: u64,
    pub open_errno: u32,
    pub stat_lie: Option<u64>,
    pub fifo: bool,
    pub fail_alloc: u32,
    pub fail_sticky: bool,
    pub poison: u32,
    /// Log the live heap at every read of standard input.
    pub track: bool,
    pub release: bool,
    pub missing: bool,
}

#[derive(Clone, Debug)]
pub struct Rec { pub op: u8, pub cls: u8, pub res: i32, pub req: u32, pub data: Vec<u8> }

#[derive(Clone, Debug)]
pub struct Obs {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timeout: bool,
    pub verdict: u32,
    pub log: Vec<Rec>,
    pub fired: Vec<(&'static str, u64)>,
    pub allocs: u32,
    pub alloc_failed: u32,
    pub fs_changes: u32,
    pub getrandom: u32,
}
impl Obs {
    pub fn stream(&self, cls: u8) -> Vec<u8> {
        let mut v = vec![];
        for r in &self.log { if r.op == OP_WRITE && r.cls == cls && r.res > 0 { v.extend(&r.data); } }
        v
    }
    pub fn ended(&self) -> String {
        if self.timeout { return "did not end in time".into(); }
        match self.verdict {
            1 => return "kept reading after the end of input".into(),
            2 => return "made too many system calls".into(),
            3 => return "wrote without end".into(),
            _ => {}
        }
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(24)) => "used up its processor time".into(),
            (_, Some(s)) => format!("killed by signal {s}"),
            _ => "unknown end".into(),
        }
    }
    pub fn hung(&self) -> bool { self.timeout || self.verdict != 0 || self.signal == Some(24) }
    pub fn hash(&self) -> u64 {
        let mut v = vec![];
        v.extend(format!("{:?}{:?}{}{}", self.code, self.signal, self.verdict, self.timeout).bytes());
        for r in &self.log {
            v.extend([r.op, r.cls]);
            v.extend(r.res.to_le_bytes());
            // Panic messages name the thread id.
            if r.cls != STDERR || !matches!(self.code, Some(101)) { v.extend(&r.data); }
        }
        crate::rng::hash_bytes(&v)
    }
}

pub const MAP: usize = 48 << 20;
const HDR: usize = 4096;

pub struct Sim { base: *mut u8, dirty: usize }

fn root() -> String { std::env::var("DST_ROOT").unwrap_or_else(|_| "/verif".into()) }
pub fn bin(release: bool) -> String {
    format!("{}/build/cli/{}/whitespace", root(), if release { "release" } else { "debug" })
}

impl Sim {
    pub fn new() -> Sim {
        unsafe {
            let mk = |fd: i64, size: i64| {
                let f = raw(319, c"sim".as_ptr() as i64, 0, 0, 0, 0, 0);
                assert!(f >= 0, "memfd_create: {f}");
                assert!(raw(77, f, size, 0, 0, 0, 0) >= 0, "ftruncate");
                assert!(raw(33, f, fd, 0, 0, 0, 0) >= 0, "dup2");
                raw(3, f, 0, 0, 0, 0, 0);
            };
            mk(200, MAP as i64);
            mk(201, 4096);
            let p = raw(9, 0, MAP as i64, 3, 1, 200, 0);
            assert!(p > 0, "mmap");
            Sim { base: p as *mut u8, dirty: 0 }
        }
    }
    fn u32(&mut self, off: usize, v: u32) { unsafe { (self.base.add(off) as *mut u32).write_volatile(v) } }
    fn u64(&mut self, off: usize, v: u64) { unsafe { (self.base.add(off) as *mut u64).write_volatile(v) } }
    fn get(&self, off: usize) -> u32 { unsafe { (self.base.add(off) as *const u32).read_volatile() } }

    /// A verdict that depends on how fast the machine is has to come twice.
    pub fn run(&mut self, p: &Plan) -> Obs {
        let o = self.run_once(p);
        if o.timeout || o.signal == Some(24) { self.run_once(p) } else { o }
    }
    fn run_once(&mut self, p: &Plan) -> Obs {
        // Lay out the variable parts.
        let mut at = HDR;
        let mut place = |s: &Sim, b: &[u8]| {
            let o = at;
            assert!(o + b.len() < MAP / 2, "plan too large");
            unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), s.base.add(o), b.len()) }
            at = (at + b.len() + 15) & !15;
            o as u32
        };
        let evb = |v: &[(u32, u32)]| -> Vec<u8> { v.iter().flat_map(|(k, a)| k.to_le_bytes().into_iter().chain(a.to_le_bytes())).collect() };
        let script = p.script.clone().unwrap_or_default();
        let o = [
            place(self, &evb(&p.ev_script)), place(self, &evb(&p.ev_stdin)), place(self, &evb(&p.ev_out)), place(self, &evb(&p.ev_err)),
            place(self, &script), place(self, &p.stdin),
        ];
        let log_at = (at + 4095) & !4095;
        let total = p.stdin.len() + script.len();
        unsafe { std::ptr::write_bytes(self.base, 0, HDR) }
        self.u32(0, 0x57534d31);
        self.u32(4, MAP as u32);
        self.u64(8, p.hash_seed);
        self.u32(16, p.open_errno);
        self.u32(20, p.stat_lie.is_some() as u32);
        self.u64(24, p.stat_lie.unwrap_or(0));
        self.u32(32, p.fifo as u32);
        self.u32(36, p.fail_alloc);
        self.u32(40, p.fail_sticky as u32);
        for (i, n) in [p.ev_script.len(), p.ev_stdin.len(), p.ev_out.len(), p.ev_err.len()].into_iter().enumerate() { self.u32(44 + 4 * i, n as u32); }
        for i in 0..4 { self.u32(60 + 4 * i, o[i]); }
        self.u32(76, o[4]);
        self.u32(80, script.len() as u32);
        self.u32(84, o[5]);
        self.u32(88, p.stdin.len() as u32);
        self.u32(92, log_at as u32);
        self.u32(96, (MAP - log_at) as u32);
        self.u32(100, 64);
        let lines = p.stdin.iter().filter(|b| **b == b'\n').count();
        // Every byte may come in a read of its own and go in a write of its
        // own; trees are larger than their text.
        self.u32(104, (20_000 + 40 * total + 2000 * lines + 40 * (p.ev_out.len() + p.ev_err.len() + p.ev_stdin.len() + p.ev_script.len())) as u32);
        self.u32(108, p.poison);
        self.u32(220, p.track as u32);

        let mut c = Command::new(bin(p.release));
        c.env_clear().env("LD_PRELOAD", format!("{}/build/shim.so", root())).env("RUST_BACKTRACE", "0");
        // The environment as a list; what getenv says is the shim's.
        if p.hash_seed != 0 {
            let k = p.hash_seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 40;
            const N: [&str; 12] = ["LANG", "LC_ALL", "HOME", "USER", "TERM", "NO_COLOR", "COLUMNS", "TZ", "PWD", "DEBUG", "SHELL", "EDITOR"];
            for (i, n) in N.iter().enumerate() { if k >> i & 1 == 1 { c.env(n, ["", "1", "C", "/nonexistent"][(k >> (i + 3)) as usize & 3]); } }
            if k & 0x7000 == 0 { for i in 0..(k & 63) { c.env(format!("V{i}"), "x"); } }
        }
        if p.script.is_some() || p.missing { c.arg("/nonexistent/sim.ws"); }
        c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir("/");
        let mut ch = c.spawn().expect("cannot run the binary");
        let mut timeout = false;
        unsafe {
            let fd = raw(434, ch.id() as i64, 0, 0, 0, 0, 0);
            if fd >= 0 {
                let mut pf = [0u8; 8];
                pf[..4].copy_from_slice(&(fd as i32).to_le_bytes());
                pf[4] = 1;
                let r = raw(7, pf.as_ptr() as i64, 1, 30_000, 0, 0, 0);
                if r == 0 { timeout = true; let _ = ch.kill(); }
                raw(3, fd, 0, 0, 0, 0, 0);
            }
        }
        let st = ch.wait().expect("wait");
        let log_len = self.get(112) as usize;
        let mut log = vec![];
        let mut i = 0;
        unsafe {
            let l = std::slice::from_raw_parts(self.base.add(log_at), log_len);
            while i + 16 <= l.len() {
                let n = u32::from_le_bytes(l[i + 12..i + 16].try_into().unwrap()) as usize;
                log.push(Rec {
                    op: l[i], cls: l[i + 1],
                    res: i32::from_le_bytes(l[i + 4..i + 8].try_into().unwrap()),
                    req: u32::from_le_bytes(l[i + 8..i + 12].try_into().unwrap()),
                    data: l[i + 16..i + 16 + n].to_vec(),
                });
                i += 16 + n;
            }
        }
        let _ = self.dirty;
        let fired = FIRED.iter().enumerate().map(|(i, n)| (*n, self.get(144 + 4 * i) as u64)).filter(|x| x.1 > 0).collect();
        Obs {
            code: st.code(), signal: st.signal(), timeout,
            verdict: self.get(116), allocs: self.get(120), alloc_failed: self.get(124),
            getrandom: self.get(136), fs_changes: self.get(140),
            log, fired,
        }
    }
}

// ---- plans in cases ------------------------------------------------------

pub fn ev_json(v: &[(u32, u32)]) -> J {
    J::Arr(v.iter().map(|(k, a)| J::Arr(vec![J::from(["?", "data", "err", "eof"][*k as usize]), J::from(*a)])).collect())
}
pub fn ev_from(j: &J, k: &str) -> Result<Vec<(u32, u32)>, String> {
    let mut out = vec![];
    for e in j.a(k)? {
        let e = e.arr()?;
        let kind = match e.first().ok_or("event")?.str()? { "data" => EV_DATA, "err" => EV_ERR, "eof" => EV_EOF, _ => return Err("event kind".into()) };
        let a = e.get(1).ok_or("event")?.int()?;
        if !(0..=1 << 24).contains(&a) { return Err("event argument".into()); }
        if kind == EV_ERR && (a == 0 || a == 9) { return Err("errno".into()); }
        out.push((kind, a as u32));
    }
    Ok(out)
}
/// Bytes of a case: a string, with some bytes replaced afterwards.
pub fn bytes_from(j: &J, k: &str) -> Result<Vec<u8>, String> {
    let mut b = j.s(k)?.as_bytes().to_vec();
    if let Some(p) = j.get(&format!("{k}_poke")) {
        for e in p.arr()? {
            let e = e.arr()?;
            let (at, v) = (e.first().ok_or("poke")?.int()?, e.get(1).ok_or("poke")?.int()?);
            if !(0..256).contains(&v) || at < 0 { return Err("poke".into()); }
            if (at as usize) < b.len() { b[at as usize] = v as u8; }
        }
    }
    // A head of a given size: comment lines, or one line.
    if let Some(p) = j.get(&format!("{k}_pad")) {
        let p = p.arr()?;
        let (n, kind) = (p.first().ok_or("pad")?.int()?, p.get(1).ok_or("pad")?.int()?);
        if !(0..=4 << 20).contains(&n) { return Err("pad".into()); }
        let n = n as usize;
        // With a third element the size is that of the whole.
        let n = if p.len() > 2 { n.saturating_sub(b.len() + 4) } else { n };
        let mut h = match kind {
            0 => "// a line of filler, as long as it has to be: é日本👩‍👩‍👧\n".repeat(n / 64 + 1).into_bytes(),
            1 => format!("// {}\n", "x".repeat(n)).into_bytes(),
            2 => format!("print 1 // {}\n", "é".repeat(n / 2)).into_bytes(),
            3 => format!("\"{}\"\n", "ab".repeat(n / 2)).into_bytes(),
            _ => format!("print{} 1\n", " ".repeat(n)).into_bytes(),
        };
        h.extend(b);
        b = h;
    }
    Ok(b)
}
