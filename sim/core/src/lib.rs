//! Harness side types shared by the mock catalogue and the simulator driver:
//! expectation specifications, callbacks (the user closures handed to mockall),
//! drop tracked values, the event log and the macros that glue a generated
//! mock to the engine.
#![feature(specialization)]
#![allow(incomplete_features)]
#![allow(static_mut_refs)]
#![allow(clippy::all)]

pub use mockall;
pub use simrt;

use std::cell::Cell;
use std::fmt;
use std::future::Future;
use std::marker::PhantomData;
use std::pin::Pin;
use std::rc::Rc;

// ------------------------------------------------------------ specifications

#[derive(Clone, Debug, PartialEq)]
pub enum TimesSpec {
    N(usize),
    Range(usize, usize),
    From(usize),
    Full,
    Incl(usize, usize),
    To(usize),
    ToIncl(usize),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum RetSpec {
    Const,
    ConstSt,
    Fn,
    FnSt,
    Once,
    OnceSt,
    Var,
    RefConst,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Step {
    Times(TimesSpec),
    Never,
    Once,
    InSeq(usize),
    With(Vec<u8>),
    Withf(Vec<u8>),
    WithfSt(Vec<u8>),
    Ret(RetSpec),
}

#[derive(Clone, Debug, PartialEq)]
pub struct ESpec {
    pub eid: u32,
    pub steps: Vec<Step>,
    /// static functions: chain on the `&mut Expectation` (true) or use the
    /// forwarders of the guard (false)
    pub chain: bool,
}

pub const INV_CONST: u32 = 0xFFF;
pub fn code_of(eid: u32, step: usize, inv: u32) -> u32 {
    (eid << 16) | ((step as u32 & 15) << 12) | (inv & 0xFFF)
}
pub fn code_eid(c: u32) -> u32 {
    c >> 16
}
pub fn code_step(c: u32) -> usize {
    ((c >> 12) & 15) as usize
}

// ------------------------------------------------------------ capabilities

pub const C_CONST: u32 = 1;
pub const C_CONSTST: u32 = 2;
pub const C_FN: u32 = 4;
pub const C_FNST: u32 = 8;
pub const C_ONCE: u32 = 16;
pub const C_ONCEST: u32 = 32;
pub const C_VAR: u32 = 64;
pub const C_REFCONST: u32 = 128;
pub const CAP_OWN: u32 = 63;
pub const CAP_OWNNC: u32 = C_FN | C_FNST | C_ONCE | C_ONCEST;
pub const CAP_REFR: u32 = C_REFCONST;
pub const CAP_MUTR: u32 = C_VAR | C_FN | C_FNST;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Recv {
    Ref,
    Mut,
    Own,
    Async,
    Static,
}

#[derive(Clone, Copy, Debug)]
pub struct ListInfo {
    /// name the diagnostics must mention
    pub name: &'static str,
    pub nargs: usize,
    pub recv: Recv,
    pub caps: u32,
    pub with: bool,
    /// the return value identifies the expectation that produced it
    pub coded: bool,
    /// argument types implement Debug with our text
    pub dbg: &'static [&'static str],
    /// what `Default` of the return type looks like, if it has one
    pub dflt: fn() -> Option<Res>,
}
/// mockall's "nightly" feature: expectations without an action return defaults
pub const NIGHTLY: bool = cfg!(feature = "nightly");
pub trait Dflt {
    fn dflt() -> Option<Res>;
}
impl<T> Dflt for T {
    default fn dflt() -> Option<Res> {
        None
    }
}
impl<T: Default + RetV> Dflt for T {
    fn dflt() -> Option<Res> {
        Some(T::default().res())
    }
}
pub const EMPTY: u32 = u32::MAX - 4;

pub const F_GENERIC: u32 = 1;
pub const F_MULTI: u32 = 2;
pub const F_ASYNC: u32 = 4;
pub const F_DROPARG: u32 = 8;
pub const F_REFRET: u32 = 16;
pub const F_MUTRET: u32 = 32;
pub const F_OWN: u32 = 64;
pub const F_NONSEND: u32 = 128;
pub const F_CONCR: u32 = 256;
pub const F_PLAIN: u32 = 512;
pub const F_STRUCTGEN: u32 = 1024;
pub const F_FOREIGN: u32 = 2048;
pub const F_MODULE: u32 = 4096;
pub const F_ASSOC: u32 = 8192;

pub trait Shape {
    fn expect(&mut self, l: usize, s: &ESpec);
    fn call(&self, _l: usize, _a: &[u8]) -> Res {
        unreachable!()
    }
    fn call_mut(&mut self, _l: usize, _a: &[u8]) -> Res {
        unreachable!()
    }
    fn call_own(self: Box<Self>, _l: usize, _a: &[u8]) -> Res {
        unreachable!()
    }
    fn fut<'a>(&'a self, _l: usize, _a: &[u8]) -> Pin<Box<dyn Future<Output = Res> + 'a>> {
        unreachable!()
    }
    fn checkpoint(&mut self);
}

/// What a mocked call gave back: (code, aux)
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Res(pub u32, pub u32);

#[derive(Clone, Copy)]
pub struct ShapeInfo {
    pub name: &'static str,
    pub flags: u32,
    pub lists: &'static [ListInfo],
    pub make: fn() -> Box<dyn Shape>,
}

pub trait CtxDyn {
    fn expect(&self, l: usize, s: &ESpec);
    fn checkpoint(&self);
}

#[derive(Clone, Copy)]
pub struct StaticInfo {
    pub name: &'static str,
    pub flags: u32,
    pub lists: &'static [ListInfo],
    pub ctx: fn(usize) -> Box<dyn CtxDyn>,
    pub ctxof: &'static [usize],
    pub call: fn(usize, &[u8]) -> Res,
    /// module whose `checkpoint()` covers this function
    pub group: Option<(usize, fn())>,
}

// ------------------------------------------------------------ log

#[derive(Clone, Debug, PartialEq)]
pub enum Class {
    NoMatch,
    Over,
    Seq,
    TooFew,
    TooMany,
    NoDefault,
    OnceTwice,
    StThread,
    Poison,
    BadTimes,
    NotExact,
    Injected(At, u32),
    Other,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok(Option<Res>),
    Panic(Class, String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum At {
    Act,
    Match,
    Clone,
    Debug,
    Die,
    /// destructor of a captured value, when its expectation ends
    Drop,
}

#[derive(Clone, Debug, PartialEq)]
pub enum DynOp {
    New { unit: usize },
    Expect { unit: usize, list: usize, spec: ESpec },
    Call { unit: usize, list: usize, args: Vec<u8>, own: bool },
    Checkpoint { unit: usize },
    Drop { unit: usize, panicking: bool },
    CtxDrop { unit: usize, panicking: bool },
    /// checkpoint of a whole module: these units in some order
    ModCheckpoint { units: Vec<usize> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ek {
    Inv(DynOp),
    Ret(Outcome),
    Match { eid: u32, step: usize },
    Act { eid: u32, step: usize, inv: u32, code: u32, vals: Vec<u8> },
    ActEnd { eid: u32, step: usize },
    Fault { at: At, eid: u32 },
    Note(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub thr: i32,
    /// dynamic operation this happened inside
    pub dop: u32,
    pub plan: u32,
    pub step: u32,
    pub k: Ek,
}

// ------------------------------------------------------------ behaviours

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Yield(u32),
    Panic,
    /// wait until this planned operation has completed (or will never run)
    Wait(u32),
    /// run this planned nested operation
    Nested(usize),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Beh {
    pub id: u32,
    pub at: At,
    pub nth: Option<u32>,
    pub what: What,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum TokKind {
    Arg,
    Ret,
    Cap { eid: u32, step: usize, st: bool },
}

#[derive(Clone, Debug)]
pub struct TokSt {
    pub kind: TokKind,
    pub thr: i32,
    pub drops: u32,
}

pub struct World {
    pub log: Vec<Ev>,
    pub beh: Vec<Vec<Beh>>,
    pub dbg: Vec<(u32, u32)>,
    pub invs: Vec<[u32; 16]>,
    pub matches: Vec<u32>,
    pub clones: Vec<u32>,
    pub drops: Vec<u32>,
    pub active: Vec<u32>,
    pub toks: Vec<TokSt>,
    pub seqs: Vec<Option<mockall::Sequence>>,
    pub done: Vec<bool>,
    pub nested: Option<fn(usize)>,
    pub viol: Vec<String>,
    pub next_dop: u32,
    pub fired: [u32; NFK],
}

pub const FK_ACT: usize = 0;
pub const FK_MATCH: usize = 1;
pub const FK_CLONE: usize = 2;
pub const FK_DEBUG: usize = 3;
pub const FK_DIE: usize = 4;
pub const FK_STALL: usize = 5;
pub const FK_UNCAUGHT: usize = 6;
pub const FK_STTHREAD: usize = 7;
pub const FK_CANCEL: usize = 8;
pub const FK_UNWINDDROP: usize = 9;
pub const FK_BADBUILD: usize = 10;
pub const FK_NESTED: usize = 11;
pub const FK_DROPCB: usize = 12;
pub const FK_DROPCB_UNW: usize = 13;
pub const FK_NESTED_M: usize = 14;
pub const FK_NESTED_C: usize = 15;
pub const FK_NESTED_SELF: usize = 16;
pub const FK_GUARD: usize = 17;
pub const FK_GUARD_UNW: usize = 18;
pub const FK_FUTMOVE: usize = 19;
pub const NFK: usize = 20;
pub const FK_NAMES: [&str; NFK] = [
    "panic_in_return_closure",
    "panic_in_matcher",
    "panic_in_clone_of_const",
    "panic_in_debug_of_argument",
    "thread_crash_unwinding",
    "return_closure_stalled_on_other_thread",
    "uncaught_mock_panic_kills_frame",
    "st_closure_used_on_wrong_thread",
    "future_cancelled",
    "mock_or_context_dropped_while_unwinding",
    "builder_panics_on_invalid_times_or_sequence",
    "nested_call_from_return_closure",
    "nested_call_or_stall_in_destructor_of_captured_value",
    "nested_call_or_stall_in_destructor_while_unwinding",
    "nested_call_from_matcher",
    "nested_call_from_clone_of_const",
    "nested_call_of_the_same_method",
    "scope_guard_calls_at_scope_end",
    "scope_guard_calls_while_unwinding",
    "future_moved_to_another_thread",
];

static mut W: Option<World> = None;

pub fn world() -> &'static mut World {
    unsafe { W.as_mut().expect("world") }
}
pub fn init_world(neid: usize, nops: usize, nseq: usize) {
    unsafe {
        W = Some(World {
            log: Vec::with_capacity(256),
            beh: vec![vec![]; neid],
            dbg: vec![],
            invs: vec![[0; 16]; neid],
            matches: vec![0; neid],
            clones: vec![0; neid],
            drops: vec![0; neid],
            active: vec![0; neid],
            toks: Vec::with_capacity(128),
            seqs: (0..nseq).map(|_| None).collect(),
            done: vec![false; nops],
            nested: None,
            viol: vec![],
            next_dop: 1,
            fired: [0; NFK],
        });
    }
}
pub fn have_world() -> bool {
    unsafe { W.is_some() }
}

thread_local! {
    /// the current operation ends expectations (drop, checkpoint)
    static EOL: Cell<bool> = const { Cell::new(false) };
}
pub fn set_eol(b: bool) -> bool {
    EOL.try_with(|x| x.replace(b)).unwrap_or(false)
}
thread_local! {
    static CUR: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}
pub fn cur() -> (u32, u32) {
    CUR.try_with(|c| c.get()).unwrap_or((0, 0))
}
pub fn set_cur(c: (u32, u32)) -> (u32, u32) {
    CUR.try_with(|x| x.replace(c)).unwrap_or((0, 0))
}

pub fn log(k: Ek) {
    let (dop, plan) = cur();
    world().log.push(Ev { thr: simrt::me(), dop, plan, step: simrt::step(), k });
}

pub struct Injected(pub At, pub u32);

fn injected_text(at: At, eid: u32) -> String {
    format!("injected {at:?} of {eid}")
}

/// The injected panic that exactly this payload stands for
pub fn injected(p: &(dyn std::any::Any + Send)) -> Option<(At, u32)> {
    if let Some(i) = p.downcast_ref::<Injected>() {
        return Some((i.0, i.1));
    }
    let s: &str = match p.downcast_ref::<String>() {
        Some(s) => s,
        None => p.downcast_ref::<&'static str>()?,
    };
    let eid = s.rsplit(' ').next()?.parse().ok()?;
    [At::Act, At::Match, At::Clone, At::Debug, At::Die]
        .into_iter()
        .find(|at| s == injected_text(*at, eid))
        .map(|at| (at, eid))
}

pub fn inject(at: At, eid: u32) -> ! {
    let w = world();
    let k = match at {
        At::Act => FK_ACT,
        At::Match => FK_MATCH,
        At::Clone => FK_CLONE,
        At::Debug => FK_DEBUG,
        At::Die => FK_DIE,
        At::Drop => unreachable!(),
    };
    w.fired[k] += 1;
    log(Ek::Fault { at, eid });
    // as a user's code might: with a value, a formatted message or a literal
    match eid % 4 {
        0 => panic!("{}", injected_text(at, eid)),
        1 => std::panic::panic_any(&*injected_text(at, eid).leak()),
        _ => std::panic::panic_any(Injected(at, eid)),
    }
}

fn run_beh(eid: u32, at: At, nth: u32) {
    let n = world().beh[eid as usize].len();
    for i in 0..n {
        let b = world().beh[eid as usize][i].clone();
        if b.at != at || b.nth.map_or(false, |x| x != nth) {
            continue;
        }
        match b.what {
            What::Yield(k) => {
                for _ in 0..k {
                    simrt::yield_point();
                }
            }
            What::Panic => inject(at, eid),
            What::Wait(op) => {
                if !world().done[op as usize] {
                    world().fired[if at == At::Drop { FK_DROPCB } else { FK_STALL }] += 1;
                }
                simrt::gate("closure", move || world().done[op as usize]);
            }
            What::Nested(ix) => {
                let k = match at {
                    At::Match => FK_NESTED_M,
                    At::Clone => FK_NESTED_C,
                    At::Drop if std::thread::panicking() => FK_DROPCB_UNW,
                    At::Drop => FK_DROPCB,
                    _ => FK_NESTED,
                };
                world().fired[k] += 1;
                if let Some(f) = world().nested {
                    f(ix)
                }
            }
        }
    }
}

// ------------------------------------------------------------ matchers

/// A per argument acceptance mask: the state of a user matcher.
pub struct Masks {
    pub eid: u32,
    pub step: usize,
    pub m: Vec<u8>,
    _cap: CapTok,
}
impl Masks {
    pub fn new(eid: u32, step: usize, m: &[u8]) -> Self {
        Masks { eid, step, m: m.to_vec(), _cap: CapTok::new(eid, step, false) }
    }
    pub fn check(&self, vals: &[u8]) -> bool {
        on_match(self.eid, self.step);
        vals.iter().zip(&self.m).all(|(v, m)| (*m >> (*v & 7)) & 1 == 1)
    }
}
fn on_match(eid: u32, step: usize) {
    let w = world();
    w.matches[eid as usize] += 1;
    let n = w.matches[eid as usize] - 1;
    log(Ek::Match { eid, step });
    run_beh(eid, At::Match, n);
}
pub struct MasksSt(Masks, PhantomData<Rc<()>>, i32);
impl MasksSt {
    pub fn new(eid: u32, step: usize, m: &[u8]) -> Self {
        let mut k = Masks::new(eid, step, m);
        k._cap.set_st();
        MasksSt(k, PhantomData, simrt::me())
    }
    pub fn check(&self, vals: &[u8]) -> bool {
        if self.2 != simrt::me() {
            world().viol.push(format!(
                "withf_st closure of expectation #{} ran on thread {} but was created on thread {}",
                self.0.eid,
                simrt::me(),
                self.2
            ));
        }
        self.0.check(vals)
    }
}

/// A user written `Predicate`.
pub struct MaskPred {
    eid: u32,
    step: usize,
    idx: usize,
    m: u8,
    _cap: CapTok,
}
impl MaskPred {
    pub fn new(eid: u32, step: usize, m: &[u8], idx: usize) -> Self {
        MaskPred { eid, step, idx, m: m[idx], _cap: CapTok::new(eid, step, false) }
    }
}
impl<T: Dec + ?Sized> mockall::Predicate<T> for MaskPred {
    fn eval(&self, v: &T) -> bool {
        if self.idx == 0 {
            on_match(self.eid, self.step);
        }
        (self.m >> (v.dec() & 7)) & 1 == 1
    }
}
impl fmt::Display for MaskPred {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "mask{:x}", self.m)
    }
}
impl predicates_core::reflection::PredicateReflection for MaskPred {}

// ------------------------------------------------------------ captured values

pub struct CapTok(u32);
impl CapTok {
    pub fn new(eid: u32, step: usize, st: bool) -> Self {
        let w = world();
        w.toks.push(TokSt { kind: TokKind::Cap { eid, step, st }, thr: simrt::me(), drops: 0 });
        CapTok(w.toks.len() as u32 - 1)
    }
    fn set_st(&mut self) {
        if let TokKind::Cap { st, .. } = &mut world().toks[self.0 as usize].kind {
            *st = true;
        }
    }
}
fn tok_drop(id: u32) {
    if !have_world() {
        return;
    }
    let w = world();
    let me = simrt::me();
    let t = &mut w.toks[id as usize];
    t.drops += 1;
    let (d, k, thr) = (t.drops, t.kind, t.thr);
    if d > 1 {
        w.viol.push(format!("value #{id} ({k:?}) destroyed {d} times"));
    }
    if let TokKind::Cap { eid, st: true, .. } = k {
        if thr != me {
            w.viol.push(format!(
                "value captured by a single-threaded closure of expectation #{eid} destroyed on thread {me}, created on {thr}"
            ));
        }
    }
}
impl Drop for CapTok {
    fn drop(&mut self) {
        tok_drop(self.0);
        if !have_world() || !EOL.try_with(|x| x.get()).unwrap_or(false) {
            return;
        }
        let w = world();
        if let TokKind::Cap { eid, .. } = w.toks[self.0 as usize].kind {
            let e = eid as usize;
            if w.beh[e].iter().any(|b| b.at == At::Drop) {
                w.drops[e] += 1;
                run_beh(eid, At::Drop, w.drops[e] - 1);
            }
        }
    }
}

/// State captured by a `returning` style closure.
pub struct Cap {
    eid: u32,
    step: usize,
    _t: CapTok,
    st_thr: Option<i32>,
}
impl Cap {
    pub fn new(eid: u32, step: usize) -> Self {
        Cap { eid, step, _t: CapTok::new(eid, step, false), st_thr: None }
    }
    pub fn act(&self, vals: &[u8]) -> u32 {
        let w = world();
        let e = self.eid as usize;
        if let Some(t) = self.st_thr {
            if t != simrt::me() {
                w.viol.push(format!(
                    "single-threaded return closure of expectation #{e} ran on thread {}, created on {t}",
                    simrt::me()
                ));
            }
        }
        if w.active[e] > 0 {
            w.viol.push(format!("return closure of expectation #{e} entered by two calls at once"));
        }
        w.active[e] += 1;
        let inv = w.invs[e][self.step];
        w.invs[e][self.step] += 1;
        let code = code_of(self.eid, self.step, inv);
        log(Ek::Act { eid: self.eid, step: self.step, inv, code, vals: vals.to_vec() });
        struct A(usize);
        impl Drop for A {
            fn drop(&mut self) {
                world().active[self.0] -= 1;
            }
        }
        let _a = A(e);
        run_beh(self.eid, At::Act, inv);
        log(Ek::ActEnd { eid: self.eid, step: self.step });
        code
    }
}
/// Same, but not `Send`.
pub struct CapSt(Cap, PhantomData<Rc<()>>);
impl CapSt {
    pub fn new(eid: u32, step: usize) -> Self {
        let mut c = Cap::new(eid, step);
        c._t.set_st();
        c.st_thr = Some(simrt::me());
        CapSt(c, PhantomData)
    }
    pub fn act(&self, vals: &[u8]) -> u32 {
        self.0.act(vals)
    }
}

/// The value given to `return_const`: `Clone + Into<R>`.
pub struct ConstV<R> {
    eid: u32,
    step: usize,
    _t: CapTok,
    st: bool,
    _p: PhantomData<fn() -> R>,
}
impl<R> ConstV<R> {
    pub fn new(eid: u32, step: usize) -> Self {
        ConstV { eid, step, _t: CapTok::new(eid, step, false), st: false, _p: PhantomData }
    }
    pub fn code(&self) -> u32 {
        code_of(self.eid, self.step, INV_CONST)
    }
}
impl<R> Clone for ConstV<R> {
    fn clone(&self) -> Self {
        let w = world();
        w.clones[self.eid as usize] += 1;
        let n = w.clones[self.eid as usize] - 1;
        run_beh(self.eid, At::Clone, n);
        ConstV {
            eid: self.eid,
            step: self.step,
            _t: CapTok::new(self.eid, self.step, self.st),
            st: self.st,
            _p: PhantomData,
        }
    }
}
pub struct ConstSt<R>(ConstV<R>, PhantomData<Rc<()>>);
impl<R> ConstSt<R> {
    pub fn code(&self) -> u32 {
        self.0.code()
    }
    pub fn new(eid: u32, step: usize) -> Self {
        let mut c = ConstV::new(eid, step);
        c._t.set_st();
        c.st = true;
        ConstSt(c, PhantomData)
    }
}
impl<R> Clone for ConstSt<R> {
    fn clone(&self) -> Self {
        ConstSt(self.0.clone(), PhantomData)
    }
}
#[macro_export]
macro_rules! const_into {
    ($($t:ty),* $(,)?) => { $(
        impl Into<$t> for $crate::ConstV<$t> {
            fn into(self) -> $t { <$t as $crate::RetV>::make(self.code()) }
        }
        impl Into<$t> for $crate::ConstSt<$t> {
            fn into(self) -> $t { <$t as $crate::RetV>::make(self.code()) }
        }
    )* };
}

// ------------------------------------------------------------ values

/// An argument type: encodes a small value.
pub trait Enc: Sized {
    fn enc(v: u8) -> Self;
}
pub trait Dec {
    fn dec(&self) -> u8;
}
/// A return type: encodes a 32 bit code.
pub trait RetV: Sized {
    fn make(code: u32) -> Self;
    fn res(&self) -> Res;
}

macro_rules! ints {
    ($($t:ty),*) => { $(
        impl Enc for $t { fn enc(v: u8) -> Self { v as $t } }
        impl Dec for $t { fn dec(&self) -> u8 { *self as u8 } }
    )* };
}
ints!(u8, u16, i16, u32, i32, u64, i64, usize);
macro_rules! rints {
    ($($t:ty),*) => { $(
        impl RetV for $t { fn make(c: u32) -> Self { c as $t } fn res(&self) -> Res { Res(*self as u32, 0) } }
    )* };
}
rints!(u32, i64, u64, usize);
impl RetV for () {
    fn make(_: u32) {}
    fn res(&self) -> Res {
        Res(u32::MAX, 0)
    }
}
impl Enc for [u8; 3] {
    fn enc(v: u8) -> Self {
        [v, 0, v]
    }
}
impl<const N: usize> Dec for [u8; N] {
    fn dec(&self) -> u8 {
        self[N - 1]
    }
}
impl Enc for std::cell::Cell<u8> {
    fn enc(v: u8) -> Self {
        std::cell::Cell::new(v)
    }
}
impl Dec for std::cell::Cell<u8> {
    fn dec(&self) -> u8 {
        self.get()
    }
}
impl Enc for String {
    fn enc(v: u8) -> Self {
        format!("s{v}")
    }
}
impl Dec for String {
    fn dec(&self) -> u8 {
        self.as_str().dec()
    }
}
impl Dec for str {
    fn dec(&self) -> u8 {
        self[1..].parse().unwrap_or(9)
    }
}
impl RetV for String {
    fn make(c: u32) -> Self {
        format!("r{c};000")
    }
    fn res(&self) -> Res {
        str_res(self)
    }
}
/// "r<code>;<times written>"
pub fn str_res(s: &str) -> Res {
    match s.get(1..).and_then(|s| s.split_once(';')) {
        Some((c, h)) => Res(c.parse().unwrap_or(EMPTY), h.parse().unwrap_or(EMPTY)),
        None => Res(EMPTY, 0),
    }
}
/// Reads and writes a string in place.
pub fn str_bump(s: &mut str) -> Res {
    let r = str_res(s);
    if r.0 != EMPTY {
        let n = s.len() - 3;
        // only ASCII digits are replaced by ASCII digits
        unsafe { s[n..].as_bytes_mut() }.copy_from_slice(format!("{:03}", r.1 + 1).as_bytes());
    }
    r
}
macro_rules! via_string {
    ($($t:ty, $to:expr;)*) => { $(
        impl RetV for $t {
            fn make(c: u32) -> Self { <$t>::from(String::make(c)) }
            fn res(&self) -> Res { let f: fn(&$t) -> String = $to; str_res(&f(self)) }
        }
    )* };
}
via_string! {
    std::path::PathBuf, |p| p.to_str().unwrap().to_string();
    std::ffi::OsString, |p| p.to_str().unwrap().to_string();
}
impl RetV for std::ffi::CString {
    fn make(c: u32) -> Self {
        std::ffi::CString::new(String::make(c)).unwrap()
    }
    fn res(&self) -> Res {
        str_res(self.to_str().unwrap())
    }
}
impl Dec for std::path::Path {
    fn dec(&self) -> u8 {
        self.to_str().unwrap().dec()
    }
}
impl Dec for dyn Fn(u8) -> u8 + Send {
    fn dec(&self) -> u8 {
        self(0)
    }
}
/// an argument passed as a trait object
pub trait Obj {
    fn val(&self) -> u8;
}
impl Obj for Tok {
    fn val(&self) -> u8 {
        self.dec()
    }
}
impl<'a> Dec for dyn Obj + 'a {
    fn dec(&self) -> u8 {
        self.val()
    }
}
impl<'a> Dec for dyn AsRef<str> + 'a {
    fn dec(&self) -> u8 {
        self.as_ref().dec()
    }
}
impl RetV for &'static str {
    fn make(c: u32) -> Self {
        Box::leak(format!("r{c}").into_boxed_str())
    }
    fn res(&self) -> Res {
        Res(self.get(1..).and_then(|s| s.parse().ok()).unwrap_or(EMPTY), 0)
    }
}
impl RetV for &'static u32 {
    fn make(c: u32) -> Self {
        Box::leak(Box::new(c))
    }
    fn res(&self) -> Res {
        Res(**self, 0)
    }
}
impl<T: Enc> Enc for Vec<T> {
    fn enc(v: u8) -> Self {
        vec![T::enc(v)]
    }
}
impl<T: Dec> Dec for Vec<T> {
    fn dec(&self) -> u8 {
        self.as_slice().dec()
    }
}
impl<T: Dec> Dec for [T] {
    fn dec(&self) -> u8 {
        self[0].dec()
    }
}
impl<T: Enc> Enc for Option<T> {
    fn enc(v: u8) -> Self {
        if v == 0 { None } else { Some(T::enc(v)) }
    }
}
impl<T: Dec> Dec for Option<T> {
    fn dec(&self) -> u8 {
        match self {
            None => 0,
            Some(x) => x.dec(),
        }
    }
}
impl<'a, T: Dec + ?Sized> Dec for &'a T {
    fn dec(&self) -> u8 {
        (**self).dec()
    }
}
impl<'a, T: Dec + ?Sized> Dec for &'a mut T {
    fn dec(&self) -> u8 {
        (**self).dec()
    }
}
impl<T: Dec + ?Sized> Dec for Box<T> {
    fn dec(&self) -> u8 {
        (**self).dec()
    }
}
impl<T: Enc> Enc for Box<T> {
    fn enc(v: u8) -> Self {
        Box::new(T::enc(v))
    }
}
impl<T: Enc> Enc for Rc<T> {
    fn enc(v: u8) -> Self {
        Rc::new(T::enc(v))
    }
}
impl<T: Dec + ?Sized> Dec for Rc<T> {
    fn dec(&self) -> u8 {
        (**self).dec()
    }
}
impl<T: RetV> RetV for Rc<T> {
    fn make(c: u32) -> Self {
        Rc::new(T::make(c))
    }
    fn res(&self) -> Res {
        (**self).res()
    }
}
impl<T: Enc> Enc for std::sync::Arc<T> {
    fn enc(v: u8) -> Self {
        std::sync::Arc::new(T::enc(v))
    }
}
impl<T: Dec + ?Sized> Dec for std::sync::Arc<T> {
    fn dec(&self) -> u8 {
        (**self).dec()
    }
}
impl<A: Enc, B: Enc> Enc for (A, B) {
    fn enc(v: u8) -> Self {
        (A::enc(v & 1), B::enc(v >> 1))
    }
}
impl<A: Dec, B: Dec> Dec for (A, B) {
    fn dec(&self) -> u8 {
        self.0.dec() | self.1.dec() << 1
    }
}
impl<T: RetV> RetV for Vec<T> {
    fn make(c: u32) -> Self {
        vec![T::make(c)]
    }
    fn res(&self) -> Res {
        self.first().map_or(Res(EMPTY, 0), |x| x.res())
    }
}
impl<T: RetV> RetV for Option<T> {
    fn make(c: u32) -> Self {
        Some(T::make(c))
    }
    fn res(&self) -> Res {
        self.as_ref().map_or(Res(u32::MAX - 2, 0), |x| x.res())
    }
}
impl<T: RetV, E> RetV for Result<T, E> {
    fn make(c: u32) -> Self {
        Ok(T::make(c))
    }
    fn res(&self) -> Res {
        self.as_ref().ok().map_or(Res(u32::MAX - 3, 0), |x| x.res())
    }
}
impl<T: RetV> RetV for Box<T> {
    fn make(c: u32) -> Self {
        Box::new(T::make(c))
    }
    fn res(&self) -> Res {
        (**self).res()
    }
}
const_into!(u32, i64, u64, usize, (), String, &'static str, &'static u32, Tok, Option<u32>, Rc<u32>, Vec<u32>, Result<u32, String>);

const_into!(Vec<String>, Option<&'static u32>, Result<Option<Tok>, Box<Tok>>);

/// One of a family of types that differ in nothing else.
#[derive(Clone, PartialEq)]
pub struct N<const K: usize>(pub u32);
impl<const K: usize> Enc for N<K> {
    fn enc(v: u8) -> Self {
        N(v as u32)
    }
}
impl<const K: usize> Dec for N<K> {
    fn dec(&self) -> u8 {
        self.0 as u8
    }
}
impl<const K: usize> RetV for N<K> {
    fn make(c: u32) -> Self {
        N(c)
    }
    fn res(&self) -> Res {
        Res(self.0, 0)
    }
}
impl<const K: usize> Into<N<K>> for ConstV<N<K>> {
    fn into(self) -> N<K> {
        N(self.code())
    }
}
impl<const K: usize> Into<N<K>> for ConstSt<N<K>> {
    fn into(self) -> N<K> {
        N(self.code())
    }
}
const_into!(Vec<N<2>>);

/// A drop tracked, debug hooked value.
pub struct Tok {
    id: u32,
    pub val: u32,
}
impl Tok {
    fn mk(kind: TokKind, val: u32) -> Tok {
        let w = world();
        w.toks.push(TokSt { kind, thr: simrt::me(), drops: 0 });
        Tok { id: w.toks.len() as u32 - 1, val }
    }
    fn check(&self) {
        let w = world();
        if w.toks[self.id as usize].drops > 0 {
            w.viol.push(format!("value #{} used after it was destroyed", self.id));
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        tok_drop(self.id)
    }
}
impl Enc for Tok {
    fn enc(v: u8) -> Self {
        Tok::mk(TokKind::Arg, v as u32)
    }
}
impl Dec for Tok {
    fn dec(&self) -> u8 {
        self.check();
        self.val as u8
    }
}
impl RetV for Tok {
    fn make(c: u32) -> Self {
        Tok::mk(TokKind::Ret, c)
    }
    fn res(&self) -> Res {
        self.check();
        Res(self.val, 0)
    }
}
impl fmt::Debug for Tok {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let (_, plan) = cur();
        let w = world();
        for i in 0..w.dbg.len() {
            if w.dbg[i].0 == plan && w.dbg[i].1 == 0 {
                w.dbg[i].1 = 1;
                inject(At::Debug, plan);
            }
        }
        f.write_str(&tok_text(self.val as u32))
    }
}

/// The Debug form of a token.  One of the values has a long one, with characters
/// that mean something to formatters and terminals.
pub fn tok_text(v: u32) -> String {
    if v == 5 {
        format!("Tok({v}) {{}} {{x:?}} %s \\ \"\n\t\u{e9}{} }}{{", "ab ".repeat(400))
    } else {
        format!("Tok({v})")
    }
}

/// The owned value behind a mutable reference return: remembers how often a
/// caller has written through the reference.
impl Default for Slot {
    fn default() -> Self {
        Slot::make(0)
    }
}
#[derive(Debug)]
pub struct Slot {
    pub code: u32,
    pub hits: u32,
    tok: Tok,
}
impl RetV for Slot {
    fn make(c: u32) -> Self {
        Slot { code: c, hits: 0, tok: Tok::make(c) }
    }
    fn res(&self) -> Res {
        self.tok.check();
        Res(self.code, self.hits)
    }
}
impl Slot {
    pub fn bump(&mut self) -> Res {
        let r = self.res();
        self.hits += 1;
        r
    }
}
pub trait SlotDyn: Send + Sync {
    fn bump_dyn(&mut self) -> Res;
    fn peek_dyn(&self) -> Res;
}
impl SlotDyn for Slot {
    fn bump_dyn(&mut self) -> Res {
        self.bump()
    }
    fn peek_dyn(&self) -> Res {
        self.res()
    }
}
impl RetV for Box<dyn SlotDyn> {
    fn make(c: u32) -> Self {
        Box::new(Slot::make(c))
    }
    fn res(&self) -> Res {
        self.peek_dyn()
    }
}

// ------------------------------------------------------------ sequences

pub fn with_seq(q: usize, f: impl FnOnce(&mut mockall::Sequence)) {
    let s = world().seqs[q].as_mut().expect("seq");
    f(s)
}

// ------------------------------------------------------------ glue macros

#[macro_export]
macro_rules! steps {
    ($e:expr, $spec:expr, $rk:ident $R:ty, $with:ident, [$($a:ident),*]) => {{
        let e = $e;
        let spec: &$crate::ESpec = $spec;
        for (si, s) in spec.steps.iter().enumerate() {
            let eid = spec.eid;
            match s {
                $crate::Step::Times(t) => { match *t {
                    $crate::TimesSpec::N(n) => { e.times(n); }
                    $crate::TimesSpec::Range(a, b) => { e.times(a..b); }
                    $crate::TimesSpec::From(a) => { e.times(a..); }
                    $crate::TimesSpec::Full => { e.times(..); }
                    $crate::TimesSpec::Incl(a, b) => { e.times(a..=b); }
                    $crate::TimesSpec::To(b) => { e.times(..b); }
                    $crate::TimesSpec::ToIncl(b) => { e.times(..=b); }
                } }
                $crate::Step::Never => { e.never(); }
                $crate::Step::Once => { e.once(); }
                $crate::Step::InSeq(q) => { $crate::with_seq(*q, |s| { e.in_sequence(s); }); }
                $crate::Step::With(m) => { $crate::with_step!($with, e, eid, si, m, [$($a),*]); }
                $crate::Step::Withf(m) => {
                    let k = $crate::Masks::new(eid, si, m);
                    e.withf(move |$($a),*| k.check(&[$($crate::Dec::dec($a)),*]));
                }
                $crate::Step::WithfSt(m) => {
                    let k = $crate::MasksSt::new(eid, si, m);
                    e.withf_st(move |$($a),*| k.check(&[$($crate::Dec::dec($a)),*]));
                }
                $crate::Step::Ret(r) => { $crate::ret_step!($rk, e, r, $R, eid, si, [$($a),*]); }
            }
        }
    }};
}

#[macro_export]
macro_rules! with_step {
    (with, $e:ident, $eid:ident, $si:ident, $m:ident, [$($a:ident),*]) => {
        let mut _i = 0usize;
        $( let $a = $crate::MaskPred::new($eid, $si, $m, _i); _i += 1; )*
        $e.with($($a),*);
    };
    (nowith, $e:ident, $eid:ident, $si:ident, $m:ident, [$($a:ident),*]) => { let _ = $m; unreachable!() };
}

#[macro_export]
macro_rules! ret_step {
    (own, $e:ident, $r:ident, $R:ty, $eid:ident, $si:ident, [$($a:ident),*]) => {
        match $r {
            $crate::RetSpec::Const => { $e.return_const($crate::ConstV::<$R>::new($eid, $si)); }
            $crate::RetSpec::ConstSt => { $e.return_const_st($crate::ConstSt::<$R>::new($eid, $si)); }
            _ => { $crate::ret_step!(ownnc, $e, $r, $R, $eid, $si, [$($a),*]); }
        }
    };
    (ownnc, $e:ident, $r:ident, $R:ty, $eid:ident, $si:ident, [$($a:ident),*]) => {
        match $r {
            $crate::RetSpec::Fn => {
                let c = $crate::Cap::new($eid, $si);
                $e.returning(move |$($a),*| <$R as $crate::RetV>::make(c.act(&[$($crate::Dec::dec(&$a)),*])));
            }
            $crate::RetSpec::FnSt => {
                let c = $crate::CapSt::new($eid, $si);
                $e.returning_st(move |$($a),*| <$R as $crate::RetV>::make(c.act(&[$($crate::Dec::dec(&$a)),*])));
            }
            $crate::RetSpec::Once => {
                let c = $crate::Cap::new($eid, $si);
                $e.return_once(move |$($a),*| <$R as $crate::RetV>::make(c.act(&[$($crate::Dec::dec(&$a)),*])));
            }
            $crate::RetSpec::OnceSt => {
                let c = $crate::CapSt::new($eid, $si);
                $e.return_once_st(move |$($a),*| <$R as $crate::RetV>::make(c.act(&[$($crate::Dec::dec(&$a)),*])));
            }
            _ => unreachable!(),
        }
    };
    (refr, $e:ident, $r:ident, $R:ty, $eid:ident, $si:ident, [$($a:ident),*]) => {
        match $r {
            $crate::RetSpec::RefConst => {
                $e.return_const(<$R as $crate::RetV>::make($crate::code_of($eid, $si, $crate::INV_CONST)));
            }
            _ => unreachable!(),
        }
    };
    (mutr, $e:ident, $r:ident, $R:ty, $eid:ident, $si:ident, [$($a:ident),*]) => {
        match $r {
            $crate::RetSpec::Var => {
                $e.return_var(<$R as $crate::RetV>::make($crate::code_of($eid, $si, $crate::INV_CONST)));
            }
            $crate::RetSpec::Fn => {
                let c = $crate::Cap::new($eid, $si);
                $e.returning(move |$($a),*| <$R as $crate::RetV>::make(c.act(&[$($crate::Dec::dec(&$a)),*])));
            }
            $crate::RetSpec::FnSt => {
                let c = $crate::CapSt::new($eid, $si);
                $e.returning_st(move |$($a),*| <$R as $crate::RetV>::make(c.act(&[$($crate::Dec::dec(&$a)),*])));
            }
            _ => unreachable!(),
        }
    };
}

#[macro_export]
macro_rules! caps {
    (own) => { $crate::CAP_OWN };
    (ownnc) => { $crate::CAP_OWNNC };
    (refr) => { $crate::CAP_REFR };
    (mutr) => { $crate::CAP_MUTR };
}
#[macro_export]
macro_rules! recv {
    (r) => { $crate::Recv::Ref };
    (m) => { $crate::Recv::Mut };
    (o) => { $crate::Recv::Own };
    (a) => { $crate::Recv::Async };
    (s) => { $crate::Recv::Static };
}
#[macro_export]
macro_rules! withb {
    (with) => { true };
    (nowith) => { false };
}
#[macro_export]
macro_rules! count {
    () => { 0usize };
    ($h:ident $($t:ident)*) => { 1usize + $crate::count!($($t)*) };
}
#[macro_export]
macro_rules! decode_args {
    ($src:ident, $($a:ident : $T:ty),*) => {
        let mut _i = 0usize;
        $( #[allow(unused_mut)] let mut $a = <$T as $crate::Enc>::enc($src[_i]); _i += 1; )*
    };
}
/// how the result of a call is turned into a Res
#[macro_export]
macro_rules! resof {
    (own, $x:expr) => { $crate::RetV::res(&$x) };
    (ownnc, $x:expr) => { $crate::RetV::res(&$x) };
    (refr, $x:expr) => { $x };
    (mutr, $x:expr) => { $x };
}

#[macro_export]
macro_rules! callarm {
    (r, r, $e:expr) => { $e }; (m, m, $e:expr) => { $e }; (o, o, $e:expr) => { $e }; (a, a, $e:expr) => { $e };
    ($x:ident, $y:ident, $e:expr) => { unreachable!() };
}

/// Declares a catalogue entry for an instance mock.
///
/// Each line: receiver kind, diagnostic name, (arguments: encoded type), return
/// kind and owned return type, with/nowith, expect expression, call expression.
#[macro_export]
macro_rules! shape {
    ($S:ident, $M:ty, $new:expr, $flags:expr, {
        $( $recv:ident $name:literal ($($a:ident : $T:ty),*) $rk:ident $R:ty, $with:ident, $dbg:expr,
           |$m:ident| $ex:expr => $call:expr ; )*
    }) => {
        pub struct $S($M);
        impl $S {
            pub const LISTS: &'static [$crate::ListInfo] = &[ $( $crate::ListInfo {
                name: $name, nargs: $crate::count!($($a)*), recv: $crate::recv!($recv),
                caps: $crate::caps!($rk), with: $crate::withb!($with), coded: $crate::coded!($R), dbg: $dbg,
                dflt: <$R as $crate::Dflt>::dflt,
            } ),* ];
            pub const INFO: $crate::ShapeInfo = $crate::ShapeInfo {
                name: stringify!($S), flags: $flags, lists: Self::LISTS,
                make: || Box::new($S($new)),
            };
        }
        #[allow(unused_variables, unused_mut, unused_assignments, unreachable_code, clippy::all)]
        impl $crate::Shape for $S {
            fn expect(&mut self, l: usize, spec: &$crate::ESpec) {
                let mut _n = 0usize;
                $( if l == _n { let $m = &mut self.0; return $crate::steps!($ex, spec, $rk $R, $with, [$($a),*]); } _n += 1; )*
                unreachable!()
            }
            fn call(&self, l: usize, args: &[u8]) -> $crate::Res {
                let mut _n = 0usize;
                $( if l == _n { return $crate::callarm!($recv, r, {
                    let $m = &self.0; $crate::decode_args!(args, $($a: $T),*); $crate::resof!($rk, $call) }); } _n += 1; )*
                unreachable!()
            }
            fn call_mut(&mut self, l: usize, args: &[u8]) -> $crate::Res {
                let mut _n = 0usize;
                $( if l == _n { return $crate::callarm!($recv, m, {
                    let $m = &mut self.0; $crate::decode_args!(args, $($a: $T),*); $crate::resof!($rk, $call) }); } _n += 1; )*
                unreachable!()
            }
            fn call_own(self: Box<Self>, l: usize, args: &[u8]) -> $crate::Res {
                let mut _n = 0usize;
                $( if l == _n { return $crate::callarm!($recv, o, {
                    let $m = self.0; $crate::decode_args!(args, $($a: $T),*); $crate::resof!($rk, $call) }); } _n += 1; )*
                unreachable!()
            }
            fn fut<'a>(&'a self, l: usize, args: &[u8])
                -> std::pin::Pin<Box<dyn std::future::Future<Output = $crate::Res> + 'a>>
            {
                let mut _n = 0usize;
                $( if l == _n { return $crate::callarm!($recv, a, {
                    let $m = &self.0; $crate::decode_args!(args, $($a: $T),*);
                    let f = $call; Box::pin(async move { $crate::RetV::res(&f.await) }) }); } _n += 1; )*
                unreachable!()
            }
            fn checkpoint(&mut self) { self.0.checkpoint() }
        }
    };
}
#[macro_export]
macro_rules! coded {
    ($R:ty) => { std::mem::size_of::<$R>() != 0 };
}

/// Declares a catalogue entry for a static function: all instantiations that
/// share one set of expectations, grouped by the context that creates them.
#[macro_export]
macro_rules! statics {
    ($S:ident, $flags:expr, $group:expr, { $(
        ctx |$m:ident| $ctx:expr, { $(
            $name:literal ($($a:ident : $T:ty),*) $rk:ident $R:ty, $with:ident, $dbg:expr, $ex:expr => $call:expr ;
        )* }
    )* }) => {
        pub struct $S;
        impl $S {
            pub const LISTS: &'static [$crate::ListInfo] = &[ $( $( $crate::ListInfo {
                name: $name, nargs: $crate::count!($($a)*), recv: $crate::Recv::Static,
                caps: $crate::caps!($rk), with: $crate::withb!($with), coded: $crate::coded!($R), dbg: $dbg,
                dflt: <$R as $crate::Dflt>::dflt,
            } ),* ),* ];
            /// context index of every list
            pub const CTXOF: &'static [usize] = {
                const N: usize = $S::LISTS.len();
                const T: [usize; N] = {
                    let mut t = [0usize; N];
                    let mut _n = 0usize;
                    let mut _c = 0usize;
                    $( $( let _ = $name; t[_n] = _c; _n += 1; )* _c += 1; )*
                    t
                };
                &T
            };
            pub const INFO: $crate::StaticInfo = $crate::StaticInfo {
                name: stringify!($S), flags: $flags, lists: Self::LISTS,
                ctx: Self::mkctx, ctxof: Self::CTXOF, call: Self::call, group: $group,
            };
            #[allow(unused_variables, unused_mut, unused_assignments, clippy::all)]
            fn mkctx(i: usize) -> Box<dyn $crate::CtxDyn> {
                let mut _c = 0usize;
                let mut _base = 0usize;
                $(
                    if i == _c {
                        return Box::new($crate::CtxF { c: $ctx, base: _base, ex: |$m, l, spec| {
                            let mut _n = 0usize;
                            $( if l == _n {
                                let mut g = $ex;
                                if spec.chain {
                                    let e = g.times(..);
                                    return $crate::steps!(e, spec, $rk $R, $with, [$($a),*]);
                                } else {
                                    let e = &mut g;
                                    return $crate::steps!(e, spec, $rk $R, $with, [$($a),*]);
                                }
                            } _n += 1; )*
                            unreachable!()
                        }, cp: |c| c.checkpoint() });
                    }
                    _c += 1;
                    $( let _ = $name; _base += 1; )*
                )*
                unreachable!()
            }
            #[allow(unused_variables, unused_mut, unused_assignments, clippy::all)]
            fn call(l: usize, args: &[u8]) -> $crate::Res {
                let mut _n = 0usize;
                $( $( if l == _n { $crate::decode_args!(args, $($a: $T),*); return $crate::resof!($rk, $call); } _n += 1; )* )*
                unreachable!()
            }
        }
    };
}
pub struct CtxF<C> {
    pub c: C,
    pub base: usize,
    pub ex: fn(&C, usize, &ESpec),
    pub cp: fn(&C),
}
impl<C> CtxDyn for CtxF<C> {
    fn expect(&self, l: usize, s: &ESpec) {
        (self.ex)(&self.c, l - self.base, s)
    }
    fn checkpoint(&self) {
        (self.cp)(&self.c)
    }
}

// ------------------------------------------------------------ same-named types
// Two distinct types with the same name, size and alignment (even
// `std::any::type_name` gives the same for both), used to instantiate generic
// methods.
pub trait Pick<const N: u8> {
    type K;
}
macro_rules! ktypes {
    ($($m:ident $n:literal),*) => { $(
        const _: () = {
            #[derive(Clone, Copy, Debug, PartialEq)]
            pub struct K(pub u32);
            impl crate::Enc for K { fn enc(v: u8) -> Self { K(v as u32) } }
            impl crate::Dec for K { fn dec(&self) -> u8 { self.0 as u8 } }
            impl crate::RetV for K { fn make(c: u32) -> Self { K(c) } fn res(&self) -> crate::Res { crate::Res(self.0, 0) } }
            crate::const_into!(K);
            impl crate::Pick<$n> for () { type K = K; }
        };
        pub mod $m {
            pub type K = <() as crate::Pick<$n>>::K;
        }
    )* };
}
ktypes!(ta 0, tb 1);
