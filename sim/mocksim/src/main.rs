//! mocksim: deterministic simulation of mocks generated by mockall.
#![allow(static_mut_refs)]
mod engine;
mod gen;
mod model;
mod os;
mod plan;

use plan::Plan;
use simcore::simrt::{self, mix, Cfg, Policy, Rng};
use simcore::*;
use std::collections::{BTreeSet, HashSet};
use std::fmt::Write as _;
use std::time::Instant;

fn catalogue() -> (&'static [ShapeInfo], &'static [StaticInfo]) {
    let mut s = vec![];
    s.extend_from_slice(shapes_a::SHAPES);
    s.extend_from_slice(shapes_b::SHAPES);
    s.extend_from_slice(shapes_c::SHAPES);
    s.extend_from_slice(shapes_d::SHAPES);
    s.extend_from_slice(shapes_e::SHAPES);
    s.extend_from_slice(shapes_g::SHAPES);
    s.extend_from_slice(shapes_h::SHAPES);
    s.extend_from_slice(shapes_i::SHAPES);
    let mut t = vec![];
    t.extend_from_slice(shapes_d::STATICS);
    t.extend_from_slice(shapes_e::STATICS);
    t.extend_from_slice(shapes_f::STATICS);
    t.extend_from_slice(shapes_g::STATICS);
    t.extend_from_slice(shapes_h::STATICS);
    t.extend_from_slice(shapes_i::STATICS);
    (Box::leak(s.into_boxed_slice()), Box::leak(t.into_boxed_slice()))
}

// ------------------------------------------------------------ one run

/// Everything that decides a run.
#[derive(Clone, Debug)]
struct Job {
    prop: String,
    seed: u64,
    drops: BTreeSet<u32>,
    /// scheduler seed (policy and choices); the plan comes from `seed`
    sched: u64,
    replay: Option<Vec<(u32, u8)>>,
}

fn policy(sched: u64) -> Policy {
    let mut r = Rng::new(mix(sched, 0x90_11c7));
    match r.below(100) {
        0..=7 => Policy::Sequential,
        8..=54 => Policy::Random {
            p: *r.pick(&[0, 10, 30, 80, 200, 400]),
            pu: *r.pick(&[100, 250, 400, 600]),
        },
        _ => Policy::Pct { d: 1 + r.below(5) as u32, len: *r.pick(&[150, 400, 800, 1600, 4000]) },
    }
}

#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Head {
    /// 0 not finished, 1 held, 2 violation
    status: u32,
    kind_len: u32,
    msg_len: u32,
    trace_len: u32,
    steps: u32,
    switches: u32,
    preemptions: u32,
    blocks: u32,
    ops: u32,
    calls: u32,
    threads: u32,
    peak: u32,
    gave_up: u32,
    sched_hash: u64,
    log_hash: u64,
    shape_hash: u64,
    fired: [u32; NFK],
    classes: [u32; 12],
    pol: u32,
}
const CLASSES: [&str; 12] = [
    "ok", "no_match", "over", "sequence", "too_few", "too_many", "no_default", "once_twice", "st_thread", "poison", "builder", "injected",
];
const SHM: usize = 4 << 20;
const SINK_AT: usize = 1 << 20;

struct Shm(*mut u8);
impl Shm {
    fn head(&self) -> &'static mut Head {
        unsafe { &mut *(self.0 as *mut Head) }
    }
    fn text_at(&self) -> *mut u8 {
        unsafe { self.0.add(4096) }
    }
    fn put(&self, kind: &str, msg: &str, trace: &str) {
        let h = self.head();
        let lim = SINK_AT - 4096;
        let k = kind.len().min(200);
        let m = msg.len().min(20_000);
        let t = trace.len().min(lim - k - m);
        h.kind_len = k as u32;
        h.msg_len = m as u32;
        h.trace_len = t as u32;
        unsafe {
            std::ptr::copy_nonoverlapping(kind.as_ptr(), self.text_at(), k);
            std::ptr::copy_nonoverlapping(msg.as_ptr(), self.text_at().add(k), m);
            std::ptr::copy_nonoverlapping(trace.as_ptr(), self.text_at().add(k + m), t);
        }
    }
    fn texts(&self) -> (String, String, String) {
        let h = self.head();
        let (k, m, t) = (h.kind_len as usize, h.msg_len as usize, h.trace_len as usize);
        let all = unsafe { std::slice::from_raw_parts(self.text_at(), k + m + t) };
        let s = |a: &[u8]| String::from_utf8_lossy(a).into_owned();
        (s(&all[..k]), s(&all[k..k + m]), s(&all[k + m..]))
    }
    fn schedule(&self) -> Vec<(u32, u8)> {
        unsafe {
            let p = self.0.add(SINK_AT) as *const u32;
            let n = *p as usize;
            (0..n).map(|i| (*p.add(1 + 2 * i), *p.add(2 + 2 * i) as u8)).collect()
        }
    }
    fn reset(&self) {
        *self.head() = Head::default();
        unsafe { *(self.0.add(SINK_AT) as *mut u32) = 0 };
    }
}

static mut OUT: *mut u8 = std::ptr::null_mut();

fn make_plan(job: &Job, shapes: &[ShapeInfo], stats: &[StaticInfo]) -> Plan {
    let p = gen::prof(&job.prop);
    let mut plan = gen::gen(p, mix(job.seed, 1), shapes, stats);
    plan.apply_drops(&job.drops);
    plan
}

fn render(log: &[Ev], from: usize) -> String {
    let mut s = String::new();
    for e in &log[from..] {
        let _ = writeln!(s, "{:>6} t{} op{:<4} {}", e.step, e.thr, e.plan, ev_text(&e.k));
    }
    s
}
fn ev_text(k: &Ek) -> String {
    match k {
        Ek::Inv(d) => format!("begin {d:?}"),
        Ek::Ret(Outcome::Ok(None)) => "end   ok".into(),
        Ek::Ret(Outcome::Ok(Some(r))) => format!("end   returned {:#x}/{}", r.0, r.1),
        Ek::Ret(Outcome::Panic(c, m)) => format!("end   panicked {c:?} {m:?}"),
        Ek::Match { eid, step } => format!("  matcher #{eid}.{step}"),
        Ek::Act { eid, step, inv, code, vals } => format!("  closure #{eid}.{step} run {inv} args {vals:?} -> {code:#x}"),
        Ek::ActEnd { eid, .. } => format!("  closure #{eid} done"),
        Ek::Fault { at, eid } => format!("  INJECTED panic at {at:?} #{eid}"),
        Ek::Note(n) => format!("  {n}"),
    }
}

fn fill_stats(h: &mut Head) {
    let st = simrt::current_stats();
    h.steps = st.steps;
    h.switches = st.switches;
    h.preemptions = st.preemptions;
    h.blocks = st.futex_blocks;
    h.sched_hash = st.sched_hash;
    let w = world();
    h.fired = w.fired;
    let mut lh = 7u64;
    let mut sh = 11u64;
    for e in &w.log {
        match &e.k {
            Ek::Inv(DynOp::Call { unit, list, .. }) => {
                h.ops += 1;
                h.calls += 1;
                sh = mix(sh, (*unit * 64 + *list) as u64);
            }
            Ek::Inv(_) => h.ops += 1,
            Ek::Ret(o) => {
                let c = match o {
                    Outcome::Ok(_) => 0,
                    Outcome::Panic(c, _) => match c {
                        Class::NoMatch => 1,
                        Class::Over => 2,
                        Class::Seq => 3,
                        Class::TooFew => 4,
                        Class::TooMany => 5,
                        Class::NoDefault => 6,
                        Class::OnceTwice => 7,
                        Class::StThread => 8,
                        Class::Poison => 9,
                        Class::BadTimes | Class::NotExact => 10,
                        Class::Injected(..) => 11,
                        Class::Other => 11,
                    },
                };
                h.classes[c] += 1;
                sh = mix(sh, 1000 + c as u64);
            }
            _ => {}
        }
        for b in format!("{}{}{:?}", e.thr, e.plan, e.k).bytes() {
            lh = (lh ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    h.log_hash = lh;
    h.shape_hash = sh;
}

fn on_stuck(s: simrt::Stuck) -> ! {
    let shm = Shm(unsafe { OUT });
    let h = shm.head();
    fill_stats(h);
    let (k, m) = match s {
        simrt::Stuck::Deadlock(d) => ("deadlock".to_string(), format!("no thread can run: {}", d.join(", "))),
        simrt::Stuck::Livelock => ("livelock".to_string(), "the run did not end within its step bound".to_string()),
    };
    let log = &world().log;
    let from = log.len().saturating_sub(4000);
    shm.put(&k, &m, &render(log, from));
    h.status = 2;
    simrt::exit_now(0)
}

/// Runs in the child process.
fn child(job: &Job, shm: &Shm, shapes: &'static [ShapeInfo], stats: &'static [StaticInfo]) -> ! {
    let plan: &'static Plan = Box::leak(Box::new(make_plan(job, shapes, stats)));
    unsafe {
        OUT = shm.0;
        simrt::set_sink(shm.0.add(SINK_AT) as *mut u32, (SHM - SINK_AT) / 4);
    }
    let pol = policy(job.sched);
    shm.head().pol = match pol {
        Policy::Sequential => 0,
        Policy::Random { .. } => 1,
        Policy::Pct { .. } => 2,
    };
    let cfg = Cfg {
        seed: job.sched,
        policy: pol,
        replay: job.replay.clone(),
        max_steps: 400_000 + 2_500 * plan.calls,
        hash_seed: mix(job.seed, 77),
        record: true,
    };
    if std::env::var_os("MOCKSIM_STDERR").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let done = engine::run(plan, shapes, stats, cfg, on_stuck);
    let _ = done;
    let h = shm.head();
    fill_stats(h);
    h.threads = 1 + plan.workers.len() as u32;
    let mut units: Vec<model::Unit> =
        plan.objs.iter().map(|o| model::Unit { lists: shapes[*o].lists, is_static: false }).collect();
    units.extend(plan.stats.iter().map(|s| model::Unit { lists: stats[*s].lists, is_static: true }));
    let mut ck = model::Ck::new(&units, plan.nseq, gen::prof(&job.prop).diag);
    let w = world();
    let log = std::mem::take(&mut w.log);
    let mut v: Option<(String, String)> = None;
    if let Some(x) = w.viol.first() {
        v = Some(("invariant".into(), x.clone()));
    }
    if v.is_none() {
        if let Err(e) = ck.check(&log) {
            v = Some(("history".into(), e));
        }
    }
    h.peak = ck.peak as u32;
    h.gave_up = ck.too_many as u32;
    if v.is_none() && !ck.too_many {
        if let Err(e) = ck.tokens(&w.toks) {
            v = Some(("conservation".into(), e));
        }
    }
    if std::env::var_os("MOCKSIM_TRACE").is_some() && v.is_none() {
        shm.put("", "", &render(&log, 0));
    }
    match v {
        None => h.status = 1,
        Some((k, m)) => {
            shm.put(&k, &m, &render(&log, 0));
            h.status = 2;
        }
    }
    simrt::exit_now(0)
}

struct Verdict {
    bad: Option<(String, String, String)>,
    trace: String,
    head: Head,
    schedule: Vec<(u32, u8)>,
}

fn run_one(job: &Job, shm: &Shm, shapes: &'static [ShapeInfo], stats: &'static [StaticInfo], limit_s: u64) -> Verdict {
    shm.reset();
    let pid = unsafe { os::fork() };
    if pid == 0 {
        os::die_with_parent();
        if std::env::var_os("MOCKSIM_STDERR").is_none() {
            os::silence();
        }
        child(job, shm, shapes, stats);
    }
    assert!(pid > 0, "fork");
    let mut st = 0;
    let t = Instant::now();
    let mut hung = false;
    let mut spin = 0u32;
    loop {
        // block quickly at first, then poll for the time limit
        let r = unsafe { os::waitpid(pid, &mut st, 1) };
        if r == pid {
            break;
        }
        spin += 1;
        os::sleep_us(if spin < 40 { 60 } else if spin < 400 { 300 } else { 3000 });
        if t.elapsed().as_secs() > limit_s {
            hung = true;
            unsafe {
                os::kill(pid, 9);
                os::waitpid(pid, &mut st, 0);
            }
            break;
        }
    }
    let h = *shm.head();
    let bad = if hung {
        Some(("hang".into(), format!("the run did not end within {limit_s} s of real time"), String::new()))
    } else if h.status == 1 {
        None
    } else if h.status == 2 {
        Some(shm.texts())
    } else {
        let sig = st & 0x7f;
        Some(("abort".into(), format!("the process died (signal {sig}, exit code {}) in the middle of the run", st >> 8 & 0xff), String::new()))
    };
    Verdict { bad, trace: shm.texts().2, head: h, schedule: shm.schedule() }
}

// ------------------------------------------------------------ a check

const HSET: usize = 1 << 20;
#[repr(C)]
struct Agg {
    runs: u64,
    steps: u64,
    switches: u64,
    preemptions: u64,
    blocks: u64,
    ops: u64,
    calls: u64,
    concurrent: u64,
    gave_up: u64,
    peak: u64,
    fired: [u64; NFK],
    fired_runs: [u64; NFK],
    classes: [u64; 12],
    pol: [u64; 3],
    found: u64,
    found_idx: u64,
    nhash: u64,
    done: u64,
    nontrivial: u64,
}
struct AggMem(*mut u8);
impl AggMem {
    fn a(&self) -> &'static mut Agg {
        unsafe { &mut *(self.0 as *mut Agg) }
    }
    fn hashes(&self) -> &'static mut [[u64; 3]] {
        unsafe { std::slice::from_raw_parts_mut(self.0.add(4096) as *mut [u64; 3], HSET / 8) }
    }
}

fn job_for(prop: &str, base: u64, idx: u64) -> Job {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in prop.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    // several schedules per plan: the plan seed changes every 3 runs
    let plan = mix(mix(h, base), idx / 3 + 1);
    Job { prop: prop.into(), seed: plan, drops: BTreeSet::new(), sched: mix(plan, idx + 1), replay: None }
}

fn arg<'a>(a: &'a [String], k: &str) -> Option<&'a str> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).map(|s| s.as_str())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (shapes, stats) = catalogue();
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a, shapes, stats),
        Some("exec") => exec(&a, shapes, stats),
        Some("replay") => replay(&a, shapes, stats),
        Some("hashes") => hashes(&a, shapes, stats),
        _ => {
            eprintln!("usage: mocksim check|exec|replay ...");
            std::process::exit(2)
        }
    }
}

/// determinism: print the event log hash of a range of runs
fn hashes(a: &[String], shapes: &'static [ShapeInfo], stats: &'static [StaticInfo]) {
    let prop = arg(a, "--prop").unwrap();
    let base: u64 = arg(a, "--seed").map_or(1, |s| s.parse().unwrap());
    let from: u64 = arg(a, "--from").map_or(0, |s| s.parse().unwrap());
    let to: u64 = arg(a, "--to").map_or(100, |s| s.parse().unwrap());
    let shm = Shm(os::shared(SHM));
    for i in from..to {
        let v = run_one(&job_for(prop, base, i), &shm, shapes, stats, 30);
        let h = v.head;
        println!("{i} {:x} {:x} {} {}", h.log_hash, h.sched_hash, h.steps, h.switches);
    }
}

fn exec(a: &[String], shapes: &'static [ShapeInfo], stats: &'static [StaticInfo]) {
    let prop = arg(a, "--prop").unwrap();
    let base: u64 = arg(a, "--seed").map_or(1, |s| s.parse().unwrap());
    let idx: u64 = arg(a, "--idx").unwrap().parse().unwrap();
    let job = job_for(prop, base, idx);
    let shm = Shm(os::shared(SHM));
    std::env::set_var("MOCKSIM_TRACE", "1");
    println!("{}", make_plan(&job, shapes, stats).pretty(shapes, stats));
    let v = run_one(&job, &shm, shapes, stats, 30);
    println!("{}", v.trace);
    println!("policy {:?} steps {} schedule {:?}", policy(job.sched), v.head.steps, v.schedule.len());
    match v.bad {
        None => println!("HELD"),
        Some((k, m, _)) => println!("VIOLATED [{k}] {m}"),
    }
}

fn check(a: &[String], shapes: &'static [ShapeInfo], stats: &'static [StaticInfo]) {
    let prop = arg(a, "--prop").unwrap().to_string();
    let base: u64 = arg(a, "--seed").map_or(1, |s| s.parse().unwrap());
    let runs: u64 = arg(a, "--runs").map_or(2000, |s| s.parse().unwrap());
    let cap: u64 = arg(a, "--time").map_or(240, |s| s.parse().unwrap());
    let tier = arg(a, "--tier").unwrap_or("quick");
    let jobs: usize = arg(a, "--jobs")
        .map(|s| s.parse().unwrap())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |x| x.get()));
    let evid = arg(a, "--evidence").map(|s| s.to_string());
    // the coverage another configuration's run of this check recorded
    let extra = arg(a, "--extra").and_then(|f| std::fs::read_to_string(f).ok());
    if NIGHTLY {
        println!("configuration: mockall built with its \"nightly\" feature");
    }
    let rdir = arg(a, "--replays").unwrap_or("/verif/replays").to_string();
    println!("property {prop} VERIF_SEED {base} tier {tier}: {runs} runs on {jobs} processes");
    let t0 = Instant::now();
    let ms = 4096 + HSET / 8 * 24;
    let aggs: Vec<AggMem> = (0..jobs).map(|_| AggMem(os::shared(ms))).collect();
    let slow: u64 = std::env::var("MOCKSIM_SLOW").ok().and_then(|x| x.parse().ok()).unwrap_or(0);
    let mut pids = vec![];
    for w in 0..jobs {
        let pid = unsafe { os::fork() };
        if pid == 0 {
            os::die_with_parent();
            os::pin(w % std::thread::available_parallelism().map_or(1, |x| x.get()));
            let shm = Shm(os::shared(SHM));
            let ag = aggs[w].a();
            let mut i = w as u64;
            while i < runs {
                if t0.elapsed().as_secs() > cap || aggs.iter().any(|x| x.a().found > 0) {
                    break;
                }
                let job = job_for(&prop, base, i);
                let ts = Instant::now();
                let mut v = run_one(&job, &shm, shapes, stats, 25);
                if matches!(&v.bad, Some((k, ..)) if k == "hang") {
                    // real time is not simulated: give a busy machine another chance
                    v = run_one(&job, &shm, shapes, stats, 90);
                }
                if slow > 0 && ts.elapsed().as_millis() as u64 > slow {
                    eprintln!("run {i} took {:?}, {} ops, {} steps, peak {}", ts.elapsed(), v.head.ops, v.head.steps, v.head.peak);
                }
                let h = &v.head;
                ag.runs += 1;
                ag.steps += h.steps as u64;
                ag.switches += h.switches as u64;
                ag.preemptions += h.preemptions as u64;
                ag.blocks += h.blocks as u64;
                ag.ops += h.ops as u64;
                ag.calls += h.calls as u64;
                ag.concurrent += (h.preemptions > 0) as u64;
                ag.gave_up += h.gave_up as u64;
                ag.peak = ag.peak.max(h.peak as u64);
                ag.pol[h.pol as usize % 3] += 1;
                for k in 0..NFK {
                    ag.fired[k] += h.fired[k] as u64;
                    ag.fired_runs[k] += (h.fired[k] > 0) as u64;
                }
                for k in 0..12 {
                    ag.classes[k] += h.classes[k] as u64;
                }
                let nontrivial = h.calls >= 2 && h.ops >= 4;
                ag.nontrivial += nontrivial as u64;
                let hs = aggs[w].hashes();
                if (ag.nhash as usize) < hs.len() {
                    hs[ag.nhash as usize] = [h.sched_hash, h.log_hash | nontrivial as u64, h.shape_hash];
                    if !nontrivial {
                        hs[ag.nhash as usize][1] &= !1;
                    }
                    ag.nhash += 1;
                }
                if v.bad.is_some() {
                    ag.found_idx = i;
                    ag.found = 1;
                    break;
                }
                i += jobs as u64;
            }
            ag.done = 1;
            simrt::exit_now(0);
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { os::waitpid(p, &mut st, 0) };
    }
    if aggs.iter().any(|x| x.a().done == 0) {
        eprintln!("harness error: a worker process died");
        std::process::exit(3);
    }
    let search_s = t0.elapsed().as_secs_f64();
    let mut found: Vec<u64> = aggs.iter().filter(|x| x.a().found > 0).map(|x| x.a().found_idx).collect();
    found.sort();
    let mut violations = 0;
    let mut lines = vec![];
    if let Some(idx) = found.first() {
        let shm = Shm(os::shared(SHM));
        let job = job_for(&prop, base, *idx);
        if let Some(path) = report(&job, *idx, base, &shm, shapes, stats, &rdir, t0) {
            lines.push(format!("VIOLATION property={prop} replay={path}"));
            violations = 1;
        } else {
            eprintln!("harness error: run {idx} failed once and not again");
            std::process::exit(3);
        }
    }
    if let Some(e) = evid {
        write_evidence(&e, &prop, tier, base, &aggs, jobs, search_s, t0.elapsed().as_secs_f64(), violations, shapes, stats, extra.as_deref());
    }
    let runs_done: u64 = aggs.iter().map(|x| x.a().runs).sum();
    println!("{runs_done} runs in {search_s:.1} s");
    for l in &lines {
        println!("{l}");
    }
    if std::env::var_os("MOCKSIM_STATS").is_some() {
        let mut f = [0u64; NFK];
        let mut c = [0u64; 12];
        for x in &aggs {
            for k in 0..NFK {
                f[k] += x.a().fired[k];
            }
            for k in 0..12 {
                c[k] += x.a().classes[k];
            }
        }
        for k in 0..NFK {
            println!("{:<60} {:>8}   {:<12} {:>8}", FK_NAMES[k], f[k], CLASSES.get(k).unwrap_or(&""), c.get(k).unwrap_or(&0));
        }
        let s = |g: fn(&Agg) -> u64| -> u64 { aggs.iter().map(|x| g(x.a())).sum() };
        println!("steps {} switches {} blocks {} ops {} gave_up {} peak {}", s(|a| a.steps), s(|a| a.switches), s(|a| a.blocks), s(|a| a.ops), s(|a| a.gave_up), aggs.iter().map(|x| x.a().peak).max().unwrap());
    }
    std::process::exit(if violations > 0 { 1 } else { 0 });
}

/// Confirm, minimise and write the replay file.
#[allow(clippy::too_many_arguments)]
fn report(
    job0: &Job,
    idx: u64,
    base: u64,
    shm: &Shm,
    shapes: &'static [ShapeInfo],
    stats: &'static [StaticInfo],
    rdir: &str,
    t0: Instant,
) -> Option<String> {
    let v = run_one(job0, shm, shapes, stats, 60);
    let (kind, msg, _) = v.bad?;
    println!("run {idx} (seed {:#x}, schedule seed {:#x}) violates: [{kind}] {msg}", job0.seed, job0.sched);
    let key = |k: &str, m: &str| -> String {
        if k == "history" {
            // same operation kind and outcome class
            let m = m.split("gave").nth(1).unwrap_or(m);
            let c: String = m.chars().take(28).filter(|c| !c.is_ascii_digit()).collect();
            format!("{k}:{c}")
        } else {
            k.to_string()
        }
    };
    let want = key(&kind, &msg);
    let start = Instant::now();
    let budget = if t0.elapsed().as_secs() > 500 { 20 } else { 60 };
    let mut best = job0.clone();
    let mut tries = 0u32;
    if kind != "hang" {
        let mut fails = |j: &mut Job| -> bool {
            // the same plan under a number of schedules, the original first
            let s0 = j.sched;
            for k in 0..14u64 {
                if start.elapsed().as_secs() > budget {
                    return false;
                }
                tries += 1;
                j.sched = if k == 0 { s0 } else { mix(s0, k) };
                let v = run_one(j, shm, shapes, stats, 25);
                if let Some((k, m, _)) = v.bad {
                    if key(&k, &m) == want {
                        return true;
                    }
                }
            }
            j.sched = s0;
            false
        };
        let mut chunk = 16usize;
        loop {
            let plan = make_plan(&best, shapes, stats);
            let rem: Vec<u32> = plan.removable().into_iter().filter(|x| !best.drops.contains(x)).collect();
            let mut i = 0;
            let mut changed = false;
            while i < rem.len() && start.elapsed().as_secs() < budget {
                let mut j = best.clone();
                for x in rem.iter().skip(i).take(chunk) {
                    j.drops.insert(*x);
                }
                if fails(&mut j) {
                    best = j;
                    changed = true;
                }
                i += chunk;
            }
            if chunk == 1 && !changed || start.elapsed().as_secs() >= budget {
                break;
            }
            chunk = if chunk > 1 { chunk / 2 } else { 1 };
        }
    }
    // schedule
    let v = run_one(&best, shm, shapes, stats, 60);
    let mut sched = v.schedule.clone();
    let mut last = v.bad?;
    let sb = Instant::now();
    if kind != "hang" {
        let mut chunk = (sched.len() / 2).max(1);
        loop {
            let mut i = 0;
            let mut changed = false;
            while i < sched.len() && sb.elapsed().as_secs() < 25 {
                let mut s2 = sched.clone();
                s2.drain(i..(i + chunk).min(s2.len()));
                let mut j = best.clone();
                j.replay = Some(s2.clone());
                tries += 1;
                let r = run_one(&j, shm, shapes, stats, 25);
                match r.bad {
                    Some((k, m, t)) if key(&k, &m) == want => {
                        sched = s2;
                        last = (k, m, t);
                        changed = true;
                    }
                    _ => i += chunk,
                }
            }
            if (chunk == 1 && !changed) || sb.elapsed().as_secs() >= 25 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
    }
    let _ = std::fs::create_dir_all(rdir);
    let path = format!("{rdir}/{}-{:016x}.replay", best.prop, mix(best.seed, best.sched));
    let plan = make_plan(&best, shapes, stats);
    let mut o = String::new();
    let _ = writeln!(o, "# mocksim replay file; run with: /verif/check.sh replay <this file>");
    let _ = writeln!(o, "property: {}", best.prop);
    let _ = writeln!(o, "config: {}", if NIGHTLY { "nightly" } else { "default" });
    let _ = writeln!(o, "verif_seed: {base}");
    let _ = writeln!(o, "run: {idx}");
    let _ = writeln!(o, "plan_seed: {}", best.seed);
    let _ = writeln!(o, "sched_seed: {}", best.sched);
    let _ = writeln!(o, "drops: {}", best.drops.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
    let _ = writeln!(o, "schedule: {}", sched.iter().map(|x| format!("{}:{}", x.0, x.1)).collect::<Vec<_>>().join(" "));
    let _ = writeln!(o, "kind: {}", last.0);
    let _ = writeln!(o, "violation: {}", last.1.replace('\n', " "));
    let _ = writeln!(o, "minimisation: {tries} runs");
    let _ = writeln!(o, "\n--- plan\n{}", plan.pretty(shapes, stats));
    let _ = writeln!(o, "--- trace (scheduler step, thread, operation)\n{}", last.2);
    std::fs::write(&path, o).ok()?;
    println!("minimised with {tries} runs to {} operations and {} forced switches", plan::node_ids(&plan.main).len() + plan.workers.iter().flatten().map(|r| r.len()).sum::<usize>(), sched.len());
    println!("violation: [{}] {}", last.0, last.1);
    // the file must reproduce in a fresh process
    let exe = std::env::current_exe().ok()?;
    let ok = std::process::Command::new(exe).arg("replay").arg(&path).arg("--quiet").status().map(|s| s.code() == Some(1)).unwrap_or(false);
    println!("replay in a fresh process: {}", if ok { "reproduced" } else { "NOT reproduced" });
    Some(path)
}

fn replay(a: &[String], shapes: &'static [ShapeInfo], stats: &'static [StaticInfo]) {
    let f = std::fs::read_to_string(&a[2]).expect("replay file");
    let get = |k: &str| -> String {
        f.lines().find_map(|l| l.strip_prefix(&format!("{k}: "))).unwrap_or("").trim().to_string()
    };
    let job = Job {
        prop: get("property"),
        seed: get("plan_seed").parse().unwrap(),
        sched: get("sched_seed").parse().unwrap(),
        drops: get("drops").split_whitespace().map(|x| x.parse().unwrap()).collect(),
        replay: Some(
            get("schedule")
                .split_whitespace()
                .map(|x| {
                    let (a, b) = x.split_once(':').unwrap();
                    (a.parse().unwrap(), b.parse().unwrap())
                })
                .collect(),
        ),
    };
    let shm = Shm(os::shared(SHM));
    let quiet = a.iter().any(|x| x == "--quiet");
    let v = run_one(&job, &shm, shapes, stats, 60);
    if !quiet {
        println!("{}", make_plan(&job, shapes, stats).pretty(shapes, stats));
        println!("{}", v.trace);
    }
    match v.bad {
        None => {
            println!("HELD: the violation no longer occurs");
            std::process::exit(0)
        }
        Some((k, m, _)) => {
            if !quiet {
                println!("[{k}] {m}");
                println!("VIOLATION property={} replay={}", job.prop, a[2]);
            }
            let same = k == get("kind");
            std::process::exit(if same || !quiet { 1 } else { 4 })
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    path: &str,
    prop: &str,
    tier: &str,
    base: u64,
    aggs: &[AggMem],
    jobs: usize,
    search_s: f64,
    wall: f64,
    violations: u32,
    shapes: &'static [ShapeInfo],
    stats: &'static [StaticInfo],
    extra: Option<&str>,
) {
    let s = |g: fn(&Agg) -> u64| -> u64 { aggs.iter().map(|x| g(x.a())).sum() };
    let runs = s(|a| a.runs);
    let mut sched = HashSet::new();
    let mut hist = HashSet::new();
    let mut shp = HashSet::new();
    let mut nt = HashSet::new();
    for x in aggs {
        for h in &x.hashes()[..x.a().nhash as usize] {
            sched.insert(h[0]);
            hist.insert(h[1] | 1);
            shp.insert(h[2]);
            if h[1] & 1 == 1 {
                nt.insert(h[1]);
            }
        }
    }
    let arr = |g: fn(&Agg) -> &[u64]| -> Vec<u64> {
        (0..g(aggs[0].a()).len()).map(|k| aggs.iter().map(|x| g(x.a())[k]).sum()).collect()
    };
    let (fired, fruns, classes) = (arr(|a| &a.fired), arr(|a| &a.fired_runs), arr(|a| &a.classes));
    let mut samples = vec![];
    for i in [0u64, 7, 19] {
        let j = job_for(prop, base, i);
        let p = make_plan(&j, shapes, stats);
        let mut t = p.pretty(shapes, stats);
        if t.len() > 2500 {
            let mut cut = 2500;
            while !t.is_char_boundary(cut) {
                cut -= 1;
            }
            t.truncate(cut);
            t.push_str("...");
        }
        samples.push(format!("{{\"run\": {i}, \"plan_seed\": \"{:#x}\", \"policy\": {}, \"plan\": {}}}", j.seed, js(&format!("{:?}", policy(j.sched))), js(&t)));
    }
    let mut o = String::new();
    let _ = write!(
        o,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {base},\n \"level\": \"exploration\",\n \"wall_s\": {wall:.2},\n \"violations\": {violations},\n \"coverage\": {{\n",
        js(prop),
        js(tier)
    );
    let _ = writeln!(o, "  \"evaluations\": {runs},");
    let _ = writeln!(o, "  \"distinct_nontrivial\": {},", nt.len());
    let _ = writeln!(o, "  \"rule\": {},", js("a case is one simulated run: a plan (mocks from the catalogue, expectations, threads, operations, injected faults) and a schedule, both generated from VERIF_SEED and the run number; non-trivial: at least two mock calls and four operations were executed; distinct: different event log (threads, operations, callbacks, outcomes, in order)"));
    let _ = writeln!(o, "  \"runs_per_hour\": {},", (runs as f64 / search_s * 3600.0) as u64);
    let _ = writeln!(o, "  \"seeds\": {},", runs);
    let _ = writeln!(o, "  \"worker_processes\": {jobs},");
    let _ = writeln!(o, "  \"simulated_time\": {},", js("the code under test reads no clock and has no timers: simulated time is counted in scheduler steps"));
    let _ = writeln!(o, "  \"scheduler_steps\": {},", s(|a| a.steps));
    let _ = writeln!(o, "  \"context_switches\": {},", s(|a| a.switches));
    let _ = writeln!(o, "  \"preemptions\": {},", s(|a| a.preemptions));
    let _ = writeln!(o, "  \"lock_waits\": {},", s(|a| a.blocks));
    let _ = writeln!(o, "  \"runs_with_preemption\": {},", s(|a| a.concurrent));
    let _ = writeln!(o, "  \"operations\": {},", s(|a| a.ops));
    let _ = writeln!(o, "  \"mock_calls\": {},", s(|a| a.calls));
    let _ = writeln!(o, "  \"distinct_schedules\": {},", sched.len());
    let _ = writeln!(o, "  \"distinct_event_logs\": {},", hist.len());
    let _ = writeln!(o, "  \"distinct_call_outcome_patterns\": {},", shp.len());
    let _ = writeln!(o, "  \"checker_gave_up\": {},", s(|a| a.gave_up));
    let _ = writeln!(o, "  \"checker_peak_states\": {},", aggs.iter().map(|x| x.a().peak).max().unwrap_or(0));
    let pol: Vec<u64> = (0..3).map(|k| aggs.iter().map(|x| x.a().pol[k]).sum()).collect();
    let _ = writeln!(o, "  \"scheduler_policies\": {{\"sequential\": {}, \"random\": {}, \"pct\": {}}},", pol[0], pol[1], pol[2]);
    let _ = writeln!(
        o,
        "  \"faults_fired\": {{{}}},",
        (0..NFK).map(|k| format!("\"{}\": {{\"times\": {}, \"runs\": {}}}", FK_NAMES[k], fired[k], fruns[k])).collect::<Vec<_>>().join(", ")
    );
    let _ = writeln!(o, "  \"outcomes\": {{{}}},", (0..12).map(|k| format!("\"{}\": {}", CLASSES[k], classes[k])).collect::<Vec<_>>().join(", "));
    let _ = writeln!(o, "  \"real_components\": {},", js("mockall, mockall_derive's generated code, fragile, downcast, predicates, std Mutex/OnceLock/HashMap/Arc/panic machinery, OS threads' thread locals"));
    let _ = writeln!(o, "  \"stub_components\": {},", js("thread scheduler, futex waits and wake-ups, getrandom (hash seeds); user closures, matchers, values and callers are the simulated workload"));
    let _ = writeln!(o, "  \"configuration\": {},", js(if NIGHTLY { "mockall with its nightly feature" } else { "mockall with default features" }));
    if let Some(x) = extra {
        let _ = writeln!(o, "  \"other_configuration\": {},", x.trim());
    }
    let _ = writeln!(o, "  \"samples\": [{}]", samples.join(", "));
    let _ = write!(o, " }},\n \"assumptions\": [{}, {}]\n}}\n",
        js("sequential consistency: atomics are interleaved, weaker memory orderings are not reordered"),
        js("scheduling points are the atomic operations, lock waits and user callbacks of the code under test; plain memory accesses between them are not interleaved"));
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    std::fs::write(path, o).expect("evidence");
}
