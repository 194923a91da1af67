//! Executes a plan against the real mocks under the simulated scheduler.
use crate::plan::*;
use simcore::simrt;
use simcore::*;
use std::any::Any;
use std::cell::Cell;
use std::future::Future;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context as Cx, Poll};

pub struct Owned {
    unit: usize,
    mock: Option<Box<dyn Shape>>,
    /// exclusively borrowed by an operation in progress
    busy: Cell<bool>,
}
unsafe impl Send for Owned {}
unsafe impl Sync for Owned {}

pub fn classify(p: &(dyn Any + Send)) -> (Class, String) {
    if let Some((at, eid)) = injected(p) {
        return (Class::Injected(at, eid), String::new());
    }
    let m: String = if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else {
        return (Class::Other, "<unknown payload>".into());
    };
    let c = if m.contains("No matching expectation found") {
        Class::NoMatch
    } else if m.contains("PoisonError") {
        Class::Poison
    } else if m.contains("which is fewer than expected") {
        Class::TooFew
    } else if m.contains("which is more than expected") {
        Class::TooMany
    } else if m.contains("should not have been called") || m.contains("which is more than the expected") {
        Class::Over
    } else if m.contains("Method sequence violation") {
        Class::Seq
    } else if m.contains("Returning default values") || m.contains("Can only return default values") {
        Class::NoDefault
    } else if m.contains("but it returns by move") {
        Class::OnceTwice
    } else if m.contains("fragile") || m.contains("thread") {
        Class::StThread
    } else if m.contains("Backwards range") {
        Class::BadTimes
    } else if m.contains("exact call count") {
        Class::NotExact
    } else {
        Class::Other
    };
    (c, m)
}

/// One operation the model sees.
fn mop(plan: u32, d: DynOp, f: impl FnOnce() -> Option<Res>) -> Result<Option<Res>, Box<dyn Any + Send>> {
    let id = {
        let w = world();
        w.next_dop += 1;
        w.next_dop - 1
    };
    let prev = set_cur((id, plan));
    let eol = matches!(
        d,
        DynOp::Checkpoint { .. } | DynOp::Drop { .. } | DynOp::CtxDrop { .. } | DynOp::ModCheckpoint { .. }
    );
    log(Ek::Inv(d));
    simrt::yield_point();
    let prev_eol = set_eol(eol);
    let r = catch_unwind(AssertUnwindSafe(f));
    set_eol(prev_eol);
    simrt::yield_point();
    set_cur((id, plan));
    match &r {
        Ok(x) => log(Ek::Ret(Outcome::Ok(*x))),
        Err(p) => {
            let (c, m) = classify(&**p);
            if c == Class::StThread {
                world().fired[FK_STTHREAD] += 1;
            }
            log(Ek::Ret(Outcome::Panic(c, m)))
        }
    }
    set_cur(prev);
    r
}

impl Drop for Owned {
    fn drop(&mut self) {
        let Some(m) = self.mock.take() else { return };
        let panicking = std::thread::panicking();
        if panicking {
            world().fired[FK_UNWINDDROP] += 1;
        }
        let _ = mop(cur().1, DynOp::Drop { unit: self.unit, panicking }, || {
            drop(m);
            None
        });
    }
}

struct CtxSlot {
    unit: usize,
    ctx: Option<Box<dyn CtxDyn>>,
}
impl Drop for CtxSlot {
    fn drop(&mut self) {
        let Some(m) = self.ctx.take() else { return };
        let panicking = std::thread::panicking();
        if panicking {
            world().fired[FK_UNWINDDROP] += 1;
        }
        let _ = mop(cur().1, DynOp::CtxDrop { unit: self.unit, panicking }, || {
            drop(m);
            None
        });
    }
}

struct FutSlot {
    fut: Option<Pin<Box<dyn Future<Output = Res>>>>,
    _arc: Arc<Owned>,
    unit: usize,
    l: usize,
    args: Vec<u8>,
    done: bool,
}
unsafe impl Send for FutSlot {}
impl Drop for FutSlot {
    fn drop(&mut self) {
        if !self.done && self.fut.is_some() {
            world().fired[FK_CANCEL] += 1;
        }
        self.fut = None;
    }
}

struct Frame {
    parent: *mut Frame,
    defers: Vec<&'static [PNode]>,
    futs: Vec<Option<FutSlot>>,
    ctxs: Vec<Option<CtxSlot>>,
    objs: Vec<Option<Arc<Owned>>>,
}
thread_local! {
    static FRAME: Cell<*mut Frame> = const { Cell::new(std::ptr::null_mut()) };
}
impl Frame {
    fn new(p: &Plan) -> Frame {
        Frame {
            parent: FRAME.with(|f| f.get()),
            defers: vec![],
            futs: (0..p.nfut).map(|_| None).collect(),
            ctxs: (0..p.nctx).map(|_| None).collect(),
            objs: (0..p.objs.len()).map(|_| None).collect(),
        }
    }
}
impl Drop for Frame {
    fn drop(&mut self) {
        run_defers(self);
        let p = self.parent;
        let _ = FRAME.try_with(|f| f.set(p));
    }
}

struct Busy(&'static Cell<bool>);
impl Busy {
    fn new(o: &Owned) -> Busy {
        o.busy.set(true);
        Busy(unsafe { std::mem::transmute::<&Cell<bool>, &'static Cell<bool>>(&o.busy) })
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        self.0.set(false)
    }
}
fn find_obj(o: usize) -> Option<&'static mut Option<Arc<Owned>>> {
    let mut f = FRAME.with(|f| f.get());
    unsafe {
        while !f.is_null() {
            if let Some(a) = &(*f).objs[o] {
                if a.busy.get() {
                    return None;
                }
                return Some(&mut (*f).objs[o]);
            }
            f = (*f).parent;
        }
    }
    None
}
fn find_ctx(c: usize) -> Option<&'static mut Option<CtxSlot>> {
    let mut f = FRAME.with(|f| f.get());
    unsafe {
        while !f.is_null() {
            if (*f).ctxs[c].is_some() {
                return Some(&mut (*f).ctxs[c]);
            }
            f = (*f).parent;
        }
    }
    None
}
fn find_fut(c: usize) -> Option<&'static mut Option<FutSlot>> {
    let mut f = FRAME.with(|f| f.get());
    unsafe {
        while !f.is_null() {
            if (*f).futs[c].is_some() {
                return Some(&mut (*f).futs[c]);
            }
            f = (*f).parent;
        }
    }
    None
}

pub struct Ctl {
    plan: &'static Plan,
    shapes: &'static [ShapeInfo],
    stats: &'static [StaticInfo],
    open: i32,
    main_done: bool,
    done: Vec<Vec<bool>>,
    hand: Vec<Vec<Vec<(usize, Arc<Owned>)>>>,
    fhand: Vec<Vec<Vec<(usize, FutSlot)>>>,
}
static mut CTL: Option<Ctl> = None;
#[allow(static_mut_refs)]
fn ctl() -> &'static mut Ctl {
    unsafe { CTL.as_mut().unwrap() }
}

struct MarkDone(Vec<u32>);
impl Drop for MarkDone {
    fn drop(&mut self) {
        for i in &self.0 {
            world().done[*i as usize] = true;
        }
    }
}

fn exec_frame(nodes: &'static [PNode], take: Vec<(usize, Arc<Owned>)>, futs: Vec<(usize, FutSlot)>) -> bool {
    let r = catch_unwind(AssertUnwindSafe(move || {
        let mut fr = Frame::new(ctl().plan);
        for (o, a) in take {
            fr.objs[o] = Some(a);
        }
        for (f, s) in futs {
            fr.futs[f] = Some(s);
        }
        FRAME.with(|f| f.set(&mut fr));
        let _m = MarkDone(node_ids(nodes));
        exec_list(nodes);
        drop(_m);
        // normal end of scope
        drop_in_order(&mut fr);
    }));
    r.is_ok()
}
fn run_defers(fr: &mut Frame) {
    while let Some(body) = fr.defers.pop() {
        let k = if std::thread::panicking() { FK_GUARD_UNW } else { FK_GUARD };
        world().fired[k] += 1;
        let c = cur();
        let _ = catch_unwind(AssertUnwindSafe(|| exec_list(body)));
        set_cur(c);
    }
}
fn drop_in_order(fr: &mut Frame) {
    run_defers(fr);
    // taken out first: destructors may run operations that look things up here
    for i in 0..fr.futs.len() {
        let x = fr.futs[i].take();
        drop(x);
    }
    for i in 0..fr.ctxs.len() {
        let x = fr.ctxs[i].take();
        drop(x);
    }
    for i in 0..fr.objs.len() {
        let x = fr.objs[i].take();
        drop(x);
    }
}

fn exec_list(nodes: &'static [PNode]) {
    for n in nodes {
        exec(n);
        world().done[n.id as usize] = true;
    }
}

fn after(r: Result<Option<Res>, Box<dyn Any + Send>>, caught: bool) {
    if let Err(p) = r {
        if !caught {
            world().fired[FK_UNCAUGHT] += 1;
            resume_unwind(p)
        }
    }
}

fn nested_entry(ix: usize) {
    let n = &ctl().plan.nested[ix];
    // scopes verify; nothing is verified while unwinding
    if matches!(n.op, POp::Frame { .. }) && std::thread::panicking() {
        return;
    }
    if ctl().plan.selfs.contains(&ix) {
        world().fired[FK_NESTED_SELF] += 1;
    }
    let c = cur();
    exec(n);
    set_cur(c);
}

fn exec(n: &'static PNode) {
    let c = ctl();
    let nobj = c.plan.objs.len();
    let id = n.id;
    set_cur((0, id));
    match &n.op {
        POp::New { o } => {
            let si = &c.shapes[c.plan.objs[*o]];
            let mut m = None;
            let _ = mop(id, DynOp::New { unit: *o }, || {
                m = Some((si.make)());
                None
            });
            let fr = FRAME.with(|f| f.get());
            unsafe {
                (&mut (*fr).objs)[*o] = m.map(|m| Arc::new(Owned { unit: *o, mock: Some(m), busy: Cell::new(false) }));
            }
        }
        POp::SeqNew { q } => world().seqs[*q] = Some(mockall::Sequence::new()),
        POp::SeqDrop { q } => world().seqs[*q] = None,
        POp::Expect { o, l, spec } => {
            let Some(a) = find_obj(*o) else { return };
            let Some(ow) = Arc::get_mut(a.as_mut().unwrap()) else { return };
            if !seq_ok(spec) {
                return;
            }
            let _b = Busy::new(ow);
            let m = ow.mock.as_mut().unwrap();
            let r = mop(id, DynOp::Expect { unit: *o, list: *l, spec: spec.clone() }, || {
                m.expect(*l, spec);
                None
            });
            if r.is_err() {
                world().fired[FK_BADBUILD] += 1;
            }
        }
        POp::Call { o, l, args, caught, n } => {
            let recv = c.shapes[c.plan.objs[*o]].lists[*l].recv;
            for _ in 0..*n {
                let Some(slot) = find_obj(*o) else { return };
                let d = DynOp::Call { unit: *o, list: *l, args: args.clone(), own: recv == Recv::Own };
                match recv {
                    Recv::Ref => {
                        // borrow a reference of our own like a real caller would
                        let a = slot.as_ref().unwrap();
                        let m = a.mock.as_ref().unwrap();
                        after(mop(id, d, || Some(m.call(*l, args))), *caught);
                    }
                    Recv::Mut => {
                        let Some(ow) = Arc::get_mut(slot.as_mut().unwrap()) else { return };
                        let _b = Busy::new(ow);
                        let m = ow.mock.as_mut().unwrap();
                        after(mop(id, d, || Some(m.call_mut(*l, args))), *caught);
                    }
                    Recv::Own => {
                        if Arc::get_mut(slot.as_mut().unwrap()).is_none() {
                            return;
                        }
                        let mut a = slot.take().unwrap();
                        let m = Arc::get_mut(&mut a).unwrap().mock.take().unwrap();
                        drop(a);
                        after(mop(id, d, || Some(m.call_own(*l, args))), *caught);
                        return;
                    }
                    Recv::Async => {
                        // create and await at once
                        let m: &'static dyn Shape =
                            unsafe { std::mem::transmute(&**slot.as_ref().unwrap().mock.as_ref().unwrap()) };
                        after(
                            mop(id, d, || {
                                let mut f = m.fut(*l, args);
                                let w = shapes_e::waker();
                                match f.as_mut().poll(&mut Cx::from_waker(&w)) {
                                    Poll::Ready(r) => Some(r),
                                    Poll::Pending => None,
                                }
                            }),
                            *caught,
                        );
                    }
                    Recv::Static => unreachable!(),
                }
            }
        }
        POp::Checkpoint { o } => {
            let Some(a) = find_obj(*o) else { return };
            let Some(ow) = Arc::get_mut(a.as_mut().unwrap()) else { return };
            let _b = Busy::new(ow);
            let m = ow.mock.as_mut().unwrap();
            let _ = mop(id, DynOp::Checkpoint { unit: *o }, || {
                m.checkpoint();
                None
            });
        }
        POp::DropRef { o } => {
            if let Some(a) = find_obj(*o) {
                let a = a.take();
                drop(a);
            }
        }
        POp::CtxNew { c: cx, s, k } => {
            let si = &c.stats[c.plan.stats[*s]];
            let ctx = (si.ctx)(*k);
            let fr = FRAME.with(|f| f.get());
            let slot = CtxSlot { unit: nobj + *s, ctx: Some(ctx) };
            let old = unsafe { (&mut (*fr).ctxs)[*cx].replace(slot) };
            drop(old);
        }
        POp::CtxExpect { c: cx, l, spec } => {
            let Some(x) = find_ctx(*cx) else { return };
            if !seq_ok(spec) {
                return;
            }
            let x = x.as_ref().unwrap();
            let unit = x.unit;
            let ctx = x.ctx.as_ref().unwrap();
            let r = mop(id, DynOp::Expect { unit, list: *l, spec: spec.clone() }, || {
                ctx.expect(*l, spec);
                None
            });
            if r.is_err() {
                world().fired[FK_BADBUILD] += 1;
            }
        }
        POp::CtxCheckpoint { c: cx } => {
            let Some(x) = find_ctx(*cx) else { return };
            let x = x.as_ref().unwrap();
            let ctx = x.ctx.as_ref().unwrap();
            let _ = mop(id, DynOp::Checkpoint { unit: x.unit }, || {
                ctx.checkpoint();
                None
            });
        }
        POp::CtxDrop { c: cx } => {
            if let Some(x) = find_ctx(*cx) {
                let x = x.take();
                drop(x);
            }
        }
        POp::SCall { s, l, args, caught, n } => {
            let si = &c.stats[c.plan.stats[*s]];
            for _ in 0..*n {
                let d = DynOp::Call { unit: nobj + *s, list: *l, args: args.clone(), own: false };
                after(mop(id, d, || Some((si.call)(*l, args))), *caught);
            }
        }
        POp::ModCheckpoint { g } => {
            let mut f = None;
            let mut units = vec![];
            for (i, s) in c.plan.stats.iter().enumerate() {
                if let Some((gg, ff)) = c.stats[*s].group {
                    if gg == *g {
                        f = Some(ff);
                        units.push(nobj + i);
                    }
                }
            }
            if let Some(f) = f {
                let _ = mop(id, DynOp::ModCheckpoint { units }, || {
                    f();
                    None
                });
            }
        }
        POp::FutNew { f, o, l, args } => {
            let Some(slot) = find_obj(*o) else { return };
            let arc = slot.as_ref().unwrap().clone();
            let m: &'static dyn Shape = unsafe { std::mem::transmute(&**arc.mock.as_ref().unwrap()) };
            let fut = m.fut(*l, args);
            let fr = FRAME.with(|f| f.get());
            let s = FutSlot { fut: Some(fut), _arc: arc, unit: *o, l: *l, args: args.clone(), done: false };
            let old = unsafe { (&mut (*fr).futs)[*f].replace(s) };
            drop(old);
        }
        POp::FutPoll { f } => {
            let Some(slot) = find_fut(*f) else { return };
            let s = slot.as_mut().unwrap();
            if s.done {
                return;
            }
            s.done = true;
            let d = DynOp::Call { unit: s.unit, list: s.l, args: s.args.clone(), own: false };
            let fut = s.fut.as_mut().unwrap();
            let r = mop(id, d, || {
                let w = shapes_e::waker();
                match fut.as_mut().poll(&mut Cx::from_waker(&w)) {
                    Poll::Ready(r) => Some(r),
                    Poll::Pending => None,
                }
            });
            after(r, true);
        }
        POp::FutDrop { f } => {
            if let Some(slot) = find_fut(*f) {
                let s = slot.take();
                drop(s);
            }
        }
        POp::Start { r } => {
            for w in 0..c.plan.workers.len() {
                for (o, give) in &c.plan.share[*r][w] {
                    if let Some(slot) = find_obj(*o) {
                        let a = if *give { slot.take().unwrap() } else { slot.as_ref().unwrap().clone() };
                        c.hand[*r][w].push((*o, a));
                    }
                }
                for f in c.plan.fshare.get(*r).map_or(&[][..], |x| &x[w]) {
                    if let Some(slot) = find_fut(*f) {
                        c.fhand[*r][w].push((*f, slot.take().unwrap()));
                        world().fired[FK_FUTMOVE] += 1;
                    }
                }
            }
            c.open = *r as i32;
            simrt::yield_point();
        }
        POp::Join { r } => {
            let r = *r;
            if c.open < r as i32 {
                return;
            }
            simrt::gate("join", move || ctl().done[r].iter().all(|x| *x));
        }
        POp::Frame { body } => {
            exec_frame(body, vec![], vec![]);
        }
        POp::Defer { body } => {
            let fr = FRAME.with(|f| f.get());
            unsafe { (&mut (*fr).defers).push(body) };
        }
        POp::Die => {
            inject(At::Die, 0);
        }
        POp::Await { op } => {
            let op = *op;
            simrt::gate("await", move || world().done[op as usize]);
        }
        POp::Yield { n } => {
            for _ in 0..*n {
                simrt::yield_point();
            }
        }
    }
}
fn seq_ok(s: &ESpec) -> bool {
    s.steps.iter().all(|st| match st {
        Step::InSeq(q) => world().seqs[*q].is_some(),
        _ => true,
    })
}

struct RoundDone(usize, usize);
impl Drop for RoundDone {
    fn drop(&mut self) {
        ctl().done[self.0][self.1] = true;
    }
}

fn worker(w: usize) {
    let p = ctl().plan;
    for r in 0..p.workers[w].len() {
        simrt::gate("round", move || ctl().open >= r as i32 || ctl().main_done);
        let _m = MarkDone(node_ids(&p.workers[w][r]));
        let _d = RoundDone(r, w);
        if ctl().open < r as i32 {
            continue;
        }
        let take = std::mem::take(&mut ctl().hand[r][w]);
        let futs = std::mem::take(&mut ctl().fhand[r][w]);
        exec_frame(&p.workers[w][r], take, futs);
    }
}

/// Run a plan.  Must be called at most once per process.
pub fn run(
    plan: &'static Plan,
    shapes: &'static [ShapeInfo],
    stats: &'static [StaticInfo],
    cfg: simrt::Cfg,
    stuck: fn(simrt::Stuck) -> !,
) {
    init_world(plan.neid.max(1), plan.nops as usize + 1, plan.nseq);
    let w = world();
    for (e, b) in &plan.behs {
        w.beh[*e as usize].push(b.clone());
    }
    for d in &plan.dbg {
        w.dbg.push((*d, 0));
    }
    w.nested = Some(nested_entry);
    let nw = plan.workers.len();
    let nr = plan.share.len();
    unsafe {
        CTL = Some(Ctl {
            plan,
            shapes,
            stats,
            open: -1,
            main_done: false,
            done: vec![vec![false; nw]; nr],
            fhand: (0..nr).map(|_| (0..nw).map(|_| vec![]).collect()).collect(),
            hand: (0..nr).map(|_| (0..nw).map(|_| vec![]).collect()).collect(),
        });
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    bodies.push(Box::new(|| {
        let p = ctl().plan;
        exec_frame(&p.main, vec![], vec![]);
        ctl().main_done = true;
        // anything handed over but never taken
        for r in ctl().hand.iter_mut() {
            for _w in r.iter_mut() {}
        }
    }));
    for w in 0..nw {
        bodies.push(Box::new(move || worker(w)));
    }
    simrt::run(cfg, stuck, bodies);
}
