//! Deterministic simulation runtime.
//!
//! This crate is the only one in the simulator that is compiled *without*
//! `-Zsanitizer=thread`.  Everything else (the mockall crate from /repo, the
//! code its macros generate, fragile, predicates, and the harness) is compiled
//! with the ThreadSanitizer instrumentation pass but linked against the
//! functions below instead of the TSan runtime, so that every atomic operation
//! of the code under test becomes a scheduling point that we own.  Blocking is
//! owned too: std's futex based Mutex/Once/Condvar/park end up in the libc
//! `syscall` symbol, which is defined here and turned into a simulated block
//! for simulated threads.  `getrandom` (hash seeds) is answered from the seed.
//!
//! Simulated threads are real OS threads (thread locals, panic counts and
//! thread ids are the real ones) but exactly one of them holds the token and
//! runs at any time.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

use std::cell::Cell;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::*};

// ---------------------------------------------------------------- rng

#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() >> 11) as u128 * n as u128 >> 53) as u64 }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next() ^ r.next().rotate_left(31)
}

// ---------------------------------------------------------------- raw syscalls

#[inline]
unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _, options(nostack));
    r
}
const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;

fn real_wait(w: &AtomicU32, expect: u32) {
    unsafe { raw_syscall(SYS_FUTEX, w.as_ptr() as i64, 128, expect as i64, 0, 0, 0); }
}
fn real_wake(w: &AtomicU32, n: i64) {
    unsafe { raw_syscall(SYS_FUTEX, w.as_ptr() as i64, 129, n, 0, 0, 0); }
}

extern "C" {
    fn __errno_location() -> *mut i32;
    fn _exit(code: i32) -> !;
}
pub fn exit_now(code: i32) -> ! {
    unsafe { _exit(code) }
}

// ---------------------------------------------------------------- state

#[derive(Clone, Debug)]
pub enum Policy {
    /// never preempt; switch only when the current thread blocks or ends
    Sequential,
    /// switch with probability `p`/1024 at an atomic, `pu`/1024 at a callback
    Random { p: u32, pu: u32 },
    /// PCT: random priorities, `d` priority change points within `len` steps
    Pct { d: u32, len: u32 },
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub policy: Policy,
    /// Some: ignore policy, follow these (step, thread) switches
    pub replay: Option<Vec<(u32, u8)>>,
    pub max_steps: u32,
    pub hash_seed: u64,
    pub record: bool,
}

enum Status {
    Runnable,
    Futex { addr: usize, timed: bool },
    Gate(&'static str, Box<dyn Fn() -> bool>),
    Done,
}

struct Thr {
    token: AtomicU32,
    status: Status,
    prio: u32,
    timed_out: bool,
    grng: Rng,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Atomic,
    User,
}

#[derive(Default, Clone, Debug)]
pub struct RunStats {
    pub steps: u32,
    pub switches: u32,
    pub preemptions: u32,
    pub futex_blocks: u32,
    pub gate_blocks: u32,
    pub sched_hash: u64,
    pub schedule: Vec<(u32, u8)>,
    pub getrandom: u32,
}

struct State {
    thr: Vec<Thr>,
    cur: usize,
    rng: Rng,
    cfg: Cfg,
    stats: RunStats,
    change_points: Vec<u32>,
    low_prio: u32,
    replay_pos: usize,
    all_done: AtomicU32,
    stuck: Option<fn(Stuck) -> !>,
}

#[derive(Debug)]
pub enum Stuck {
    Deadlock(Vec<String>),
    Livelock,
}

static mut S: Option<State> = None;
static ROOT_RNG: AtomicU64 = AtomicU64::new(0x1234_5678);

thread_local! {
    static ME: Cell<i32> = const { Cell::new(-1) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

#[inline]
fn st() -> &'static mut State {
    unsafe { S.as_mut().unwrap_unchecked() }
}

/// Simulated thread id of the caller (-1 outside the simulation).
pub fn me() -> i32 {
    ME.with(|m| m.get())
}
pub fn step() -> u32 {
    unsafe { S.as_ref().map(|s| s.stats.steps).unwrap_or(0) }
}

/// Suspend scheduling points on this thread while harness bookkeeping runs.
pub struct Quiet;
pub fn quiet() -> Quiet {
    QUIET.with(|q| q.set(q.get() + 1));
    Quiet
}
impl Drop for Quiet {
    fn drop(&mut self) {
        QUIET.with(|q| q.set(q.get() - 1));
    }
}

fn is_runnable(t: &Thr) -> bool {
    match &t.status {
        Status::Runnable => true,
        Status::Gate(_, f) => f(),
        _ => false,
    }
}

/// Choose who runs next.  `cur_ok`: may the current thread continue?
fn choose(kind: Kind, cur_ok: bool) -> Option<usize> {
    let s = st();
    let n = s.thr.len();
    let mut run: [u8; 16] = [0; 16];
    let mut nr = 0;
    for i in 0..n {
        let ok = if i == s.cur { cur_ok } else { is_runnable(&s.thr[i]) };
        if ok {
            run[nr] = i as u8;
            nr += 1;
        }
    }
    if nr == 0 {
        return None;
    }
    let run = &run[..nr];
    let default = if cur_ok { s.cur } else { run[0] as usize };
    let step = s.stats.steps;
    let pick = if let Some(rp) = &s.cfg.replay {
        let mut p = default;
        while s.replay_pos < rp.len() && rp[s.replay_pos].0 < step {
            s.replay_pos += 1;
        }
        if s.replay_pos < rp.len() && rp[s.replay_pos].0 == step {
            let t = rp[s.replay_pos].1;
            s.replay_pos += 1;
            if run.contains(&t) {
                p = t as usize;
            }
        }
        p
    } else {
        match s.cfg.policy {
            Policy::Sequential => {
                if cur_ok { s.cur } else { run[s.rng.below(nr as u64) as usize] as usize }
            }
            Policy::Random { p, pu } => {
                if cur_ok {
                    let pp = if kind == Kind::User { pu } else { p };
                    if nr > 1 && s.rng.chance(pp as u64, 1024) {
                        loop {
                            let c = run[s.rng.below(nr as u64) as usize] as usize;
                            if c != s.cur {
                                break c;
                            }
                        }
                    } else {
                        s.cur
                    }
                } else {
                    run[s.rng.below(nr as u64) as usize] as usize
                }
            }
            Policy::Pct { .. } => {
                if let Some(&cp) = s.change_points.last() {
                    if step >= cp {
                        s.change_points.pop();
                        let c = s.cur;
                        s.low_prio -= 1;
                        s.thr[c].prio = s.low_prio;
                    }
                }
                let mut b = run[0] as usize;
                for &r in run {
                    if s.thr[r as usize].prio > s.thr[b].prio {
                        b = r as usize;
                    }
                }
                b
            }
        }
    };
    if pick != default && s.cfg.record {
        s.stats.schedule.push((step, pick as u8));
        sink(step, pick as u32);
    }
    Some(pick)
}

fn transfer(next: usize) {
    let s = st();
    let me = s.cur;
    if next == me {
        s.thr[me].status = Status::Runnable;
        return;
    }
    s.stats.switches += 1;
    s.stats.sched_hash = mix(s.stats.sched_hash, ((s.stats.steps as u64) << 8) | next as u64);
    s.cur = next;
    s.thr[next].status = Status::Runnable;
    s.thr[next].token.store(1, Release);
    real_wake(&s.thr[next].token, 1);
}

fn wait_token(me: usize) {
    let t = &st().thr[me].token;
    while t.load(Acquire) == 0 {
        real_wait(t, 0);
    }
    t.store(0, Relaxed);
}

fn tick() {
    let s = st();
    s.stats.steps += 1;
    if s.stats.steps > s.cfg.max_steps {
        if let Some(f) = s.stuck {
            f(Stuck::Livelock)
        }
        exit_now(99);
    }
}

#[inline]
fn yield_kind(kind: Kind) {
    let me = ME.with(|m| m.get());
    if me < 0 || QUIET.with(|q| q.get()) > 0 {
        return;
    }
    yield_slow(me as usize, kind);
}

#[cold]
fn yield_slow(me: usize, kind: Kind) {
    tick();
    if let Some(n) = choose(kind, true) {
        if n != me {
            st().stats.preemptions += 1;
            transfer(n);
            wait_token(me);
        }
    }
}

/// Explicit scheduling point (inside user callbacks).
pub fn yield_point() {
    yield_kind(Kind::User);
}

fn block(me: usize) {
    tick();
    match choose(Kind::Atomic, false) {
        Some(n) => {
            transfer(n);
            if n != me {
                wait_token(me);
            }
        }
        None => no_one_runnable(me),
    }
}

fn no_one_runnable(me: usize) {
    let s = st();
    // jump the clock: fire the first timed futex wait, if any
    for i in 0..s.thr.len() {
        if let Status::Futex { timed: true, .. } = s.thr[i].status {
            s.thr[i].timed_out = true;
            s.thr[i].status = Status::Runnable;
            transfer(i);
            if i != me {
                wait_token(me);
            }
            return;
        }
    }
    let d = s
        .thr
        .iter()
        .enumerate()
        .map(|(i, t)| match &t.status {
            Status::Futex { .. } => format!("t{i}:lock"),
            Status::Gate(n, _) => format!("t{i}:gate({n})"),
            Status::Done => format!("t{i}:done"),
            Status::Runnable => format!("t{i}:runnable"),
        })
        .collect();
    if let Some(f) = s.stuck {
        f(Stuck::Deadlock(d))
    }
    exit_now(98);
}

/// Block the calling simulated thread until `cond` holds.
pub fn gate(name: &'static str, cond: impl Fn() -> bool + 'static) {
    let me = ME.with(|m| m.get());
    if me < 0 {
        return;
    }
    if cond() {
        yield_kind(Kind::User);
        return;
    }
    let s = st();
    s.stats.gate_blocks += 1;
    s.thr[me as usize].status = Status::Gate(name, Box::new(cond));
    block(me as usize);
}

fn finish(me: usize) {
    ME.with(|m| m.set(-1));
    let s = st();
    s.thr[me].status = Status::Done;
    s.stats.steps += 1;
    if s.thr.iter().all(|t| matches!(t.status, Status::Done)) {
        s.all_done.store(1, Release);
        real_wake(&s.all_done, 1);
        return;
    }
    match choose(Kind::Atomic, false) {
        Some(n) => transfer(n),
        None => no_one_runnable_exit(),
    }
}
fn no_one_runnable_exit() {
    let s = st();
    for i in 0..s.thr.len() {
        if let Status::Futex { timed: true, .. } = s.thr[i].status {
            s.thr[i].timed_out = true;
            s.thr[i].status = Status::Runnable;
            transfer(i);
            return;
        }
    }
    let d = s
        .thr
        .iter()
        .enumerate()
        .map(|(i, t)| match &t.status {
            Status::Futex { .. } => format!("t{i}:lock"),
            Status::Gate(n, _) => format!("t{i}:gate({n})"),
            Status::Done => format!("t{i}:done"),
            Status::Runnable => format!("t{i}:runnable"),
        })
        .collect();
    if let Some(f) = s.stuck {
        f(Stuck::Deadlock(d))
    }
    exit_now(98);
}

/// Run the bodies as simulated threads until all have ended.
pub fn run(cfg: Cfg, stuck: fn(Stuck) -> !, bodies: Vec<Box<dyn FnOnce() + Send>>) -> RunStats {
    let n = bodies.len();
    assert!(n > 0 && n <= 16);
    let mut rng = Rng::new(mix(cfg.seed, 0x5c4e_d01e));
    let mut prios: Vec<u32> = (0..n as u32).map(|i| 1000 + i).collect();
    for i in (1..n).rev() {
        let j = rng.below(i as u64 + 1) as usize;
        prios.swap(i, j);
    }
    let mut cps = Vec::new();
    if let Policy::Pct { d, len } = cfg.policy {
        for _ in 0..d {
            cps.push(rng.below(len as u64) as u32);
        }
        cps.sort();
        cps.reverse();
    }
    let hs = cfg.hash_seed;
    unsafe {
        S = Some(State {
            thr: (0..n)
                .map(|i| Thr {
                    token: AtomicU32::new(0),
                    status: Status::Runnable,
                    prio: prios[i],
                    timed_out: false,
                    grng: Rng::new(mix(hs, i as u64 + 1)),
                })
                .collect(),
            cur: 0,
            rng,
            cfg,
            stats: RunStats::default(),
            change_points: cps,
            low_prio: 900,
            replay_pos: 0,
            all_done: AtomicU32::new(0),
            stuck: Some(stuck),
        });
    }
    let mut hs = Vec::new();
    for (i, b) in bodies.into_iter().enumerate() {
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    ME.with(|m| m.set(i as i32));
                    wait_token(i);
                    b();
                    finish(i);
                })
                .expect("spawn"),
        );
    }
    // hand the token to the first thread (thread 0: the "main" thread)
    let s = st();
    s.cur = 0;
    s.thr[0].token.store(1, Release);
    real_wake(&s.thr[0].token, 1);
    while s.all_done.load(Acquire) == 0 {
        real_wait(&s.all_done, 0);
    }
    for h in hs {
        let _ = h.join();
    }
    s.stats.clone()
}

static mut SINK: *mut u32 = std::ptr::null_mut();
static mut SINK_CAP: usize = 0;
/// Mirror the recorded schedule into (shared) memory: word 0 is the number of
/// entries, then (step, thread) pairs.
pub unsafe fn set_sink(p: *mut u32, cap: usize) {
    SINK = p;
    SINK_CAP = cap;
}
fn sink(step: u32, thr: u32) {
    unsafe {
        if !SINK.is_null() {
            let n = *SINK as usize;
            if 1 + 2 * n + 2 <= SINK_CAP {
                *SINK.add(1 + 2 * n) = step;
                *SINK.add(2 + 2 * n) = thr;
                *SINK = n as u32 + 1;
            }
        }
    }
}

pub fn seed_root(seed: u64) {
    ROOT_RNG.store(seed, Relaxed);
}
pub fn current_stats() -> RunStats {
    unsafe { S.as_ref().map(|s| s.stats.clone()).unwrap_or_default() }
}

// ---------------------------------------------------------------- libc seams

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == SYS_FUTEX {
        let me = ME.with(|m| m.get());
        if me >= 0 {
            let op = b & 0x7f;
            if op == 0 || op == 9 {
                let me = me as usize;
                let w = &*(a as *const AtomicU32);
                if w.load(SeqCst) != c as u32 {
                    *__errno_location() = 11;
                    return -1;
                }
                let s = st();
                s.stats.futex_blocks += 1;
                s.thr[me].timed_out = false;
                s.thr[me].status = Status::Futex { addr: a as usize, timed: d != 0 };
                block(me);
                if st().thr[me].timed_out {
                    *__errno_location() = 110;
                    return -1;
                }
                return 0;
            }
            if op == 1 || op == 10 {
                let s = st();
                let mut left = c;
                let mut woken = 0;
                // wake in an order the seed decides
                let n = s.thr.len();
                let off = if n > 1 && s.cfg.replay.is_none() { 0 } else { 0 };
                for k in 0..n {
                    let i = (k + off) % n;
                    if left <= 0 {
                        break;
                    }
                    if let Status::Futex { addr, .. } = s.thr[i].status {
                        if addr == a as usize {
                            s.thr[i].status = Status::Runnable;
                            left -= 1;
                            woken += 1;
                        }
                    }
                }
                if left > 0 {
                    let r = raw_syscall(n_futex(), a, b, left, d, e, f);
                    if r > 0 {
                        woken += r;
                    }
                }
                return woken;
            }
        }
    }
    if n == SYS_GETRANDOM {
        return getrandom(a as *mut u8, b as usize, c as u32) as i64;
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        return -1;
    }
    r
}
#[inline]
fn n_futex() -> i64 {
    SYS_FUTEX
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    let me = ME.with(|m| m.get());
    if me >= 0 {
        let s = st();
        s.stats.getrandom += 1;
        for i in 0..n {
            *p.add(i) = s.thr[me as usize].grng.next() as u8;
        }
    } else {
        let mut r = Rng(ROOT_RNG.load(Relaxed));
        for i in 0..n {
            *p.add(i) = r.next() as u8;
        }
        ROOT_RNG.store(r.0, Relaxed);
    }
    n as isize
}

// ---------------------------------------------------------------- TSan entry points

macro_rules! atomics {
    ($t:ty, $a:ty; $ld:ident $st:ident $xc:ident $fa:ident $fs:ident $and:ident $or:ident $xor:ident $nand:ident $cv:ident $cs:ident $cw:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $ld(p: *const $a, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $st(p: *const $a, v: $t, _o: i32) { yield_kind(Kind::Atomic); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xc(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $fa(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $fs(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const $a, v: $t, _o: i32) -> $t { yield_kind(Kind::Atomic); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *const $a, c: $t, v: $t, _o: i32, _f: i32) -> $t {
            yield_kind(Kind::Atomic);
            match (*p).compare_exchange(c, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *const $a, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
            yield_kind(Kind::Atomic);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *const $a, c: *mut $t, v: $t, _o: i32, _f: i32) -> i32 {
            yield_kind(Kind::Atomic);
            match (*p).compare_exchange(*c, v, SeqCst, SeqCst) { Ok(_) => 1, Err(x) => { *c = x; 0 } }
        }
    };
}
atomics!(u8, AtomicU8; __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak);
atomics!(u16, AtomicU16; __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak);
atomics!(u32, AtomicU32; __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak);
atomics!(u64, AtomicU64; __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak);

#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_o: i32) { yield_kind(Kind::Atomic); }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_p: *const u8) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
