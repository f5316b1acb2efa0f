//! The in-process world of the code under test: basic-block callbacks
//! (SanitizerCoverage, only in crate `whitespace`), the thread scheduler, the
//! allocator, randomness and blocking.
use crate::rng::mix;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};

// ---------------------------------------------------------------- coverage

pub const MAX_GUARDS: usize = 1 << 16;
static mut HIT: [u8; MAX_GUARDS] = [0; MAX_GUARDS];
pub static N_GUARDS: AtomicU32 = AtomicU32::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
thread_local! { pub static INSIDE: Cell<bool> = const { Cell::new(false) }; }
pub const EXIT_BUDGET: i32 = 77;
pub const EXIT_DEADLOCK: i32 = 78;
pub const EXIT_HELD_UP: i32 = 79;

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        while p < stop {
            if *p == 0 {
                *p = N_GUARDS.fetch_add(1, Relaxed) + 1;
            }
            p = p.add(1);
        }
    }
}

/// The lowest point of the stack the code under test reached.
pub static STACK_LOW: AtomicUsize = AtomicUsize::new(usize::MAX);

#[unsafe(no_mangle)]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    // Generic code the crate shares with the harness calls back too: only what
    // happens inside a call of the library counts.
    if INSIDE.get() {
        unsafe {
            let g = *guard as usize;
            if g < MAX_GUARDS {
                *(&raw mut HIT as *mut u8).add(g) = 1;
            }
        }
        // Only one thread of the code under test runs at a time.
        let s = STEPS.load(Relaxed) + 1;
        STEPS.store(s, Relaxed);
        let here = &raw const s as usize;
        if here < STACK_LOW.load(Relaxed) { STACK_LOW.store(here, Relaxed); }
        if s > BUDGET.load(Relaxed) {
            unsafe { raw_exit(EXIT_BUDGET) }
        }
    }
    if SCHED_ON.load(Relaxed) {
        step(unsafe { *guard } as usize);
    }
}

/// Atomic operations of the crate are points of their own: the compiler turns
/// each into one of the calls below (the instrumentation of ThreadSanitizer
/// without its runtime; the operations are done here, all sequentially
/// consistent).
fn atomic_point(op: usize) {
    if SCHED_ON.load(Relaxed) {
        let me = my_tid();
        if me != usize::MAX {
            let s = sched();
            s.since[me] += 1;
            let key = mix((s.last[me] as u64) << 32 ^ (s.since[me].min(64) as u64) << 8 ^ op as u64);
            advance(MAX_GUARDS / 2 + key as usize % (MAX_GUARDS / 2));
        }
    }
}
macro_rules! atomics {
    ($($t:ty, $a:ident, $load:ident, $store:ident, $xchg:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident;)*) => { $(
        #[unsafe(no_mangle)]
        pub extern "C" fn $load(p: *mut $t, _: i32) -> $t { atomic_point(0); unsafe { std::sync::atomic::$a::from_ptr(p) }.load(SeqCst) }
        #[unsafe(no_mangle)]
        pub extern "C" fn $store(p: *mut $t, v: $t, _: i32) { atomic_point(1); unsafe { std::sync::atomic::$a::from_ptr(p) }.store(v, SeqCst) }
        atomics!(@ $t, $a, $xchg, swap, 2);
        atomics!(@ $t, $a, $add, fetch_add, 3);
        atomics!(@ $t, $a, $sub, fetch_sub, 4);
        atomics!(@ $t, $a, $and, fetch_and, 5);
        atomics!(@ $t, $a, $or, fetch_or, 6);
        atomics!(@ $t, $a, $xor, fetch_xor, 7);
        atomics!(@ $t, $a, $nand, fetch_nand, 8);
        #[unsafe(no_mangle)]
        pub extern "C" fn $cas(p: *mut $t, old: $t, new: $t, _: i32, _: i32) -> $t {
            atomic_point(9);
            match unsafe { std::sync::atomic::$a::from_ptr(p) }.compare_exchange(old, new, SeqCst, SeqCst) { Ok(x) | Err(x) => x }
        }
    )* };
    (@ $t:ty, $a:ident, $n:ident, $m:ident, $op:expr) => {
        #[unsafe(no_mangle)]
        pub extern "C" fn $n(p: *mut $t, v: $t, _: i32) -> $t { atomic_point($op); unsafe { std::sync::atomic::$a::from_ptr(p) }.$m(v, SeqCst) }
    };
}
atomics! {
    u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val;
}
#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { atomic_point(10); std::sync::atomic::fence(SeqCst) }
#[unsafe(no_mangle)]
pub extern "C" fn __tsan_atomic_signal_fence(_: i32) { std::sync::atomic::compiler_fence(SeqCst) }

pub fn reset_run(budget: u64) {
    unsafe { std::ptr::write_bytes(&raw mut HIT as *mut u8, 0, MAX_GUARDS) }
    STEPS.store(0, Relaxed);
    BUDGET.store(budget, Relaxed);
}
/// Hash and size of the set of edges of this run.
pub fn edge_signature() -> (u64, usize) {
    let n = (N_GUARDS.load(Relaxed) as usize + 1).min(MAX_GUARDS);
    let s = unsafe { std::slice::from_raw_parts(&raw const HIT as *const u8, n) };
    (crate::rng::hash_bytes(s), s.iter().filter(|x| **x != 0).count())
}
pub fn edges() -> Vec<u8> {
    let n = (N_GUARDS.load(Relaxed) as usize + 1).min(MAX_GUARDS);
    unsafe { std::slice::from_raw_parts(&raw const HIT as *const u8, n) }.to_vec()
}

// ---------------------------------------------------------------- raw calls

/// # Safety
/// As the system call.
pub unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    }
    r
}
unsafe fn raw_exit(code: i32) -> ! {
    unsafe {
        raw(231, code as i64, 0, 0, 0, 0, 0);
    }
    unreachable!()
}
pub fn exit_now(code: i32) -> ! {
    unsafe { raw_exit(code) }
}
unsafe extern "C" {
    fn __errno_location() -> *mut i32;
}
fn errno_ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        unsafe { *__errno_location() = -r as i32 }
        -1
    } else {
        r
    }
}
const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;

// ---------------------------------------------------------------- randomness

thread_local! {
    static RAND: Cell<Option<u64>> = const { Cell::new(None) };
    static RAND_SEED: Cell<Option<u64>> = const { Cell::new(None) };
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
}
pub static RAND_SERVED: AtomicU64 = AtomicU64::new(0);
/// From here on this thread's random bytes come from the seed.
pub fn seed_thread(seed: u64) {
    RAND.with(|r| r.set(Some(seed)));
    RAND_SEED.with(|r| r.set(Some(seed)));
    LOOKS.with(|l| l.set(0));
}

#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    match RAND.try_with(|r| r.get()).ok().flatten() {
        None => errno_ret(unsafe { raw(SYS_GETRANDOM, buf as i64, n as i64, flags as i64, 0, 0, 0) }) as isize,
        Some(mut s) => {
            RAND_SERVED.fetch_add(1, Relaxed);
            let mut i = 0;
            while i < n {
                s = s.wrapping_add(0x9E3779B97F4A7C15);
                let v = mix(s).to_le_bytes();
                let k = (n - i).min(8);
                unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), buf.add(i), k) }
                i += k;
            }
            let _ = RAND.try_with(|r| r.set(Some(s)));
            n as isize
        }
    }
}

// ---------------------------------------------------------------- clock and environment

/// Time passes only when the code under test looks at the clock, mostly little,
/// sometimes hours, as the thread's seed has it.
static NOW: AtomicU64 = AtomicU64::new(1_000_000_000_000);
thread_local! { static LOOKS: Cell<u64> = const { Cell::new(0) }; }
fn simulated() -> Option<u64> {
    if !INSIDE.try_with(|i| i.get()).unwrap_or(false) { return None; }
    RAND_SEED.try_with(|r| r.get()).ok().flatten()
}
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(id: i32, t: *mut i64) -> i32 {
    let Some(seed) = simulated() else { return errno_ret(unsafe { raw(228, id as i64, t as i64, 0, 0, 0, 0) }) as i32 };
    let k = LOOKS.with(|l| l.replace(l.get() + 1));
    let r = mix(seed ^ mix(k + 77));
    let d = 1 + (r >> 20) % 2000;
    let d = d * match r % 16 { 0 => 1000, 1 => 1_000_000, 2 => 100_000_000, 3 => 3_000_000_000, _ => 1 };
    let mut n = NOW.fetch_add(d, SeqCst) + d;
    // The calendar may be set back.
    if id == 0 || id == 5 { n += 1_700_000_000_000_000_000 - (mix(seed) % (1 << 50)) * (r / 16 % 8 == 0) as u64; }
    unsafe {
        *t = (n / 1_000_000_000) as i64;
        *t.add(1) = (n % 1_000_000_000) as i64;
    }
    0
}
/// Any variable may have any value.
#[unsafe(no_mangle)]
pub extern "C" fn getenv(name: *const i8) -> *const i8 {
    unsafe extern "C" { static environ: *const *const i8; }
    let len = |mut p: *const i8| { let mut n = 0; while unsafe { *p } != 0 { n += 1; p = unsafe { p.add(1) }; } n };
    let n = unsafe { std::slice::from_raw_parts(name as *const u8, len(name)) };
    if let Some(seed) = simulated() && !n.starts_with(b"RUST_") {
        const POOL: [&[u8]; 8] = [b"\0", b"0\0", b"1\0", b"true\0", b"80\0", b"dumb\0", b"C.UTF-8\0", b"/nonexistent\0"];
        let r = mix(seed ^ crate::rng::hash_bytes(n));
        return if r % 2 == 0 { std::ptr::null() } else { POOL[(r / 2 % 8) as usize].as_ptr() as *const i8 };
    }
    unsafe {
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            let v = std::slice::from_raw_parts(*e as *const u8, len(*e));
            if v.len() > n.len() && v.starts_with(n) && v[n.len()] == b'=' { return (*e).add(n.len() + 1); }
            e = e.add(1);
        }
    }
    std::ptr::null()
}

// ---------------------------------------------------------------- blocking

#[unsafe(no_mangle)]
pub extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    if n == SYS_FUTEX && SCHED_ON.load(Relaxed) && my_tid() != usize::MAX {
        return futex(a as usize, b, c, d);
    }
    errno_ret(unsafe { raw(n, a, b, c, d, e, f) })
}
fn futex(addr: usize, op: i64, val: i64, until: i64) -> i64 {
    let s = sched();
    match op & 127 {
        0 | 9 => {
            // WAIT, WAIT_BITSET
            let cur = unsafe { (*(addr as *const AtomicU32)).load(SeqCst) };
            if cur != val as u32 {
                unsafe { *__errno_location() = 11 }
                return -1;
            }
            let me = my_tid();
            s.blocked[me] = addr;
            s.waits += 1;
            s.timed[me] = until != 0;
            switch(true);
            s.timed[me] = false;
            if s.blocked[me] != 0 {
                // Time ran out.
                s.blocked[me] = 0;
                let t = until as *const i64;
                let t = unsafe { *t as u64 * 1_000_000_000 + *t.add(1) as u64 };
                if op & 127 == 0 { NOW.fetch_add(t, SeqCst); } else { NOW.fetch_max(t, SeqCst); }
                unsafe { *__errno_location() = 110 }
                return -1;
            }
            0
        }
        1 | 10 => {
            let mut n = 0;
            for t in 0..s.n {
                if n < val && s.blocked[t] == addr {
                    s.blocked[t] = 0;
                    n += 1;
                }
            }
            n
        }
        _ => 0,
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn sched_yield() -> i32 {
    if SCHED_ON.load(Relaxed) && my_tid() != usize::MAX {
        switch(false);
        return 0;
    }
    unsafe { raw(24, 0, 0, 0, 0, 0, 0) as i32 }
}
fn slept(t: i64, until: bool) {
    let t = t as *const i64;
    let t = unsafe { *t as u64 * 1_000_000_000 + *t.add(1) as u64 };
    if until { NOW.fetch_max(t, SeqCst); } else { NOW.fetch_add(t, SeqCst); }
}
#[unsafe(no_mangle)]
pub extern "C" fn nanosleep(req: i64, rem: i64) -> i32 {
    if SCHED_ON.load(Relaxed) && my_tid() != usize::MAX {
        sched().sleeps += 1;
        slept(req, false);
        switch(false);
        return 0;
    }
    errno_ret(unsafe { raw(35, req, rem, 0, 0, 0, 0) }) as i32
}
#[unsafe(no_mangle)]
pub extern "C" fn clock_nanosleep(clk: i32, flags: i32, req: i64, rem: i64) -> i32 {
    if SCHED_ON.load(Relaxed) && my_tid() != usize::MAX {
        sched().sleeps += 1;
        slept(req, flags & 1 == 1);
        switch(false);
        return 0;
    }
    let r = unsafe { raw(230, clk as i64, flags as i64, req, rem, 0, 0) };
    if r < 0 { -r as i32 } else { 0 }
}

// ---------------------------------------------------------------- scheduler

pub const MAX_T: usize = 8;
static SCHED_ON: AtomicBool = AtomicBool::new(false);
static GO: [AtomicU32; MAX_T] = [const { AtomicU32::new(0) }; MAX_T];

pub struct Sched {
    pub n: usize,
    pub schedule: Vec<(usize, u64)>,
    pub at: usize,
    pub slice: u64,
    pub blocked: [usize; MAX_T],
    /// Blocked, but not for ever.
    pub timed: [bool; MAX_T],
    pub done: [bool; MAX_T],
    pub steps: [u64; MAX_T],
    pub total: u64,
    /// The last edge of each thread, atomic operations since.
    pub last: [usize; MAX_T],
    pub since: [usize; MAX_T],
    /// How many different edges each thread took; where to hold it when it
    /// takes one for the first time, and for how many steps of the others.
    pub news: [u64; MAX_T],
    pub stops: Vec<(usize, u64, u64)>,
    pub held_until: [u64; MAX_T],
    pub holds: u64,
    /// Pause this thread for good at that new edge.
    pub pause_new: [u64; MAX_T],
    /// Pause this thread for good once it has made that many steps.
    pub pause_at: [u64; MAX_T],
    pub paused: [bool; MAX_T],
    pub pause_hit: [bool; MAX_T],
    pub budget: [u64; MAX_T],
    pub switches: u64,
    pub waits: u64,
    pub sleeps: u64,
    pub sig: u64,
    pub rr: usize,
    pub rr_slice: u64,
}
static mut SEEN: [[u8; MAX_GUARDS]; MAX_T] = [[0; MAX_GUARDS]; MAX_T];
static mut S: Option<Sched> = None;
#[allow(static_mut_refs)]
pub fn sched() -> &'static mut Sched {
    unsafe { S.as_mut().unwrap() }
}
fn my_tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(usize::MAX)
}

#[inline]
fn step(g: usize) {
    let me = my_tid();
    if me == usize::MAX {
        return;
    }
    let s = sched();
    s.last[me] = g;
    s.since[me] = 0;
    advance(g);
}
#[inline]
fn advance(g: usize) {
    let me = my_tid();
    let s = sched();
    s.steps[me] += 1;
    s.total += 1;
    if s.steps[me] > s.budget[me] {
        exit_now(EXIT_BUDGET);
    }
    let new = g < MAX_GUARDS && unsafe {
        let p = (&raw mut SEEN[me] as *mut u8).add(g);
        let new = *p == 0;
        *p = 1;
        new
    };
    if s.steps[me] == s.pause_at[me] || new && s.news[me] + 1 == s.pause_new[me] {
        s.news[me] += new as u64;
        s.paused[me] = true;
        s.pause_hit[me] = true;
        switch(true);
        return;
    }
    if new {
        s.news[me] += 1;
        if let Some(x) = s.stops.iter().find(|x| x.0 == me && x.1 == s.news[me]) {
            s.held_until[me] = s.total + x.2;
            s.holds += 1;
            switch(true);
            return;
        }
    }
    s.slice = s.slice.saturating_sub(1);
    if s.slice == 0 {
        switch(false);
    }
}

/// Give the baton to the next thread of the schedule. `leaving`: this thread
/// cannot go on.
fn switch(leaving: bool) {
    let me = my_tid();
    let s = sched();
    s.switches += 1;
    let next = pick(s);
    s.sig = mix(s.sig ^ ((next as u64) << 48) ^ s.steps[me.min(MAX_T - 1)]);
    if next == me {
        return;
    }
    let _ = leaving;
    GO[next].store(1, SeqCst);
    wake(&GO[next]);
    wait_go(me);
}
fn pick(s: &mut Sched) -> usize {
    loop {
        let runnable = |s: &Sched, t: usize| t < s.n && !s.done[t] && s.blocked[t] == 0 && !s.paused[t] && s.held_until[t] <= s.total;
        while s.at < s.schedule.len() {
            let (t, n) = s.schedule[s.at];
            s.at += 1;
            if n > 0 && (runnable(s, t) || t < s.n && s.timed[t] && !s.done[t] && !s.paused[t]) {
                s.slice = n;
                return t;
            }
        }
        for _ in 0..s.n {
            s.rr = (s.rr + 1) % s.n;
            if runnable(s, s.rr) {
                s.slice = s.rr_slice;
                return s.rr;
            }
        }
        // Nobody can run. A held thread that could goes on.
        if let Some(t) = (0..s.n).find(|t| s.held_until[*t] > s.total) {
            s.held_until[t] = 0;
            continue;
        }
        // Time passes until one has waited enough.
        if let Some(t) = (0..s.n).find(|t| s.timed[*t] && !s.done[*t] && !s.paused[*t]) {
            s.slice = s.rr_slice;
            return t;
        }
        let others_left = (0..s.n).any(|t| !s.done[t] && !s.paused[t]);
        let paused = (0..s.n).any(|t| s.paused[t]);
        if others_left {
            exit_now(if paused { EXIT_HELD_UP } else { EXIT_DEADLOCK });
        }
        // Only paused threads are left: they go on.
        for t in 0..s.n {
            s.paused[t] = false;
        }
    }
}
fn wake(w: &AtomicU32) {
    unsafe {
        raw(SYS_FUTEX, w as *const _ as i64, 1, 1, 0, 0, 0);
    }
}
fn wait_go(me: usize) {
    while GO[me].load(SeqCst) == 0 {
        unsafe {
            raw(SYS_FUTEX, &GO[me] as *const _ as i64, 0, 0, 0, 0, 0);
        }
    }
    GO[me].store(0, SeqCst);
}

static MAIN_GO: AtomicU32 = AtomicU32::new(0);
static LIVE: AtomicUsize = AtomicUsize::new(0);

pub struct Plan {
    pub schedule: Vec<(usize, u64)>,
    pub pause_at: Vec<u64>,
    pub budget: Vec<u64>,
    pub rr_slice: u64,
    pub stops: Vec<(usize, u64, u64)>,
    pub pause_new: Vec<u64>,
}

/// Runs the jobs on real threads, one at a time, as the plan says.
pub fn run_threads(jobs: Vec<(u64, Box<dyn FnOnce() + Send>)>, plan: Plan) {
    let n = jobs.len();
    assert!(n <= MAX_T);
    let mut s = Sched {
        n,
        schedule: plan.schedule,
        at: 0,
        slice: 1,
        blocked: [0; MAX_T],
        timed: [false; MAX_T],
        done: [false; MAX_T],
        steps: [0; MAX_T],
        total: 0,
        last: [0; MAX_T],
        since: [0; MAX_T],
        news: [0; MAX_T],
        stops: plan.stops,
        held_until: [0; MAX_T],
        holds: 0,
        pause_new: [0; MAX_T],
        pause_at: [0; MAX_T],
        paused: [false; MAX_T],
        pause_hit: [false; MAX_T],
        budget: [u64::MAX; MAX_T],
        switches: 0,
        waits: 0,
        sleeps: 0,
        sig: 0,
        rr: n - 1,
        rr_slice: plan.rr_slice,
    };
    for t in 0..n {
        s.pause_at[t] = plan.pause_at.get(t).copied().unwrap_or(0);
        s.pause_new[t] = plan.pause_new.get(t).copied().unwrap_or(0);
        s.budget[t] = plan.budget.get(t).copied().unwrap_or(u64::MAX);
    }
    unsafe { S = Some(s) }
    LIVE.store(n, SeqCst);
    let mut hs = vec![];
    for (t, (seed, job)) in jobs.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    seed_thread(seed);
                    wait_go(t);
                    TID.with(|x| x.set(t));
                    job();
                    TID.with(|x| x.set(usize::MAX));
                    let s = sched();
                    s.done[t] = true;
                    if LIVE.fetch_sub(1, SeqCst) == 1 {
                        MAIN_GO.store(1, SeqCst);
                        wake(&MAIN_GO);
                    } else {
                        let next = pick(s);
                        GO[next].store(1, SeqCst);
                        wake(&GO[next]);
                    }
                })
                .expect("thread"),
        );
    }
    SCHED_ON.store(true, SeqCst);
    let first = pick(sched());
    GO[first].store(1, SeqCst);
    wake(&GO[first]);
    while MAIN_GO.load(SeqCst) == 0 {
        unsafe {
            raw(SYS_FUTEX, &MAIN_GO as *const _ as i64, 0, 0, 0, 0, 0);
        }
    }
    MAIN_GO.store(0, SeqCst);
    SCHED_ON.store(false, SeqCst);
    for h in hs {
        let _ = h.join();
    }
}

// ---------------------------------------------------------------- allocator

pub struct Counting;
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK: AtomicI64 = AtomicI64::new(0);
/// Bytes ever allocated.
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static POISON: AtomicI32 = AtomicI32::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            let n = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            if n > PEAK.load(Relaxed) {
                PEAK.store(n, Relaxed);
            }
            ALLOCS.fetch_add(1, Relaxed);
            TOTAL.fetch_add(l.size() as u64, Relaxed);
            let b = POISON.load(Relaxed);
            if b != 0 {
                unsafe { std::ptr::write_bytes(p, b as u8, l.size()) }
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        unsafe { System.dealloc(p, l) }
    }
}
