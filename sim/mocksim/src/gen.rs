//! Seeded generation of plans: swarm style, one profile per property.
use crate::plan::*;
use simcore::simrt::Rng;
use simcore::*;

#[derive(Clone, Debug)]
pub struct Prof {
    pub id: &'static str,
    /// percentages
    pub inst: u64,
    pub stat: u64,
    /// 0: any; else prefer entries having one of these flags
    pub sflags: u32,
    pub tflags: u32,
    pub minthr: u64,
    pub maxthr: u64,
    pub seq: u64,
    pub few_lists: u64,
    pub many_exp: u64,
    pub st: u64,
    pub act_panic: u64,
    pub match_panic: u64,
    pub clone_panic: u64,
    pub dbg_panic: u64,
    pub die: u64,
    pub uncaught: u64,
    pub badbuild: u64,
    pub checkpoint: u64,
    pub modcp: u64,
    pub nested: u64,
    pub dropcb: u64,
    pub futures: u64,
    pub stall: u64,
    pub unset: u64,
    pub once: u64,
    pub overrides: u64,
    pub extra_calls: u64,
    pub exact: u64,
    pub frames: u64,
    /// one plan in so many starts with a race frame
    pub race: u64,
    pub burst: u64,
    /// one run in so many is a huge one (0: none)
    pub huge: u64,
    pub diag: bool,
    pub same_shape: u64,
    pub give: u64,
}
pub const BASE: Prof = Prof {
    id: "",
    inst: 70,
    stat: 40,
    sflags: 0,
    tflags: 0,
    minthr: 0,
    maxthr: 3,
    seq: 25,
    few_lists: 60,
    many_exp: 10,
    st: 8,
    act_panic: 5,
    match_panic: 3,
    clone_panic: 2,
    dbg_panic: 2,
    die: 5,
    uncaught: 8,
    badbuild: 3,
    checkpoint: 25,
    modcp: 30,
    nested: 10,
    dropcb: 6,
    futures: 50,
    stall: 0,
    unset: 3,
    once: 15,
    overrides: 10,
    extra_calls: 25,
    exact: 55,
    frames: 2,
    race: 8,
    burst: 2,
    huge: 0,
    diag: false,
    same_shape: 40,
    give: 20,
};

pub const PROFS: &[Prof] = &[
    Prof { id: "C01", huge: 1200, dropcb: 0, minthr: 1, maxthr: 4, extra_calls: 45, exact: 40, burst: 6, few_lists: 85, seq: 5, uncaught: 6, die: 6, st: 0, act_panic: 0, match_panic: 0, clone_panic: 0, dbg_panic: 0, badbuild: 0, unset: 0, once: 5, ..BASE },
    Prof { id: "C02", huge: 1200, dropcb: 12, exact: 25, extra_calls: 20, uncaught: 15, die: 15, checkpoint: 25, give: 40, frames: 3, maxthr: 2, act_panic: 6, unset: 0, ..BASE },
    Prof { id: "C03", huge: 1200, many_exp: 60, few_lists: 90, extra_calls: 50, seq: 5, maxthr: 3, act_panic: 0, match_panic: 0, clone_panic: 0, dbg_panic: 0, die: 3, uncaught: 3, badbuild: 0, overrides: 20, unset: 0, st: 3, ..BASE },
    Prof { id: "C04", huge: 1200, seq: 100, stat: 45, maxthr: 3, few_lists: 50, st: 0, act_panic: 2, match_panic: 0, clone_panic: 0, dbg_panic: 0, die: 0, uncaught: 3, badbuild: 25, checkpoint: 15, unset: 0, once: 5, extra_calls: 15, exact: 80, burst: 1, ..BASE },
    Prof { id: "C05", once: 35, overrides: 30, st: 15, unset: 6, extra_calls: 35, exact: 40, seq: 5, maxthr: 3, act_panic: 4, match_panic: 0, clone_panic: 2, dbg_panic: 0, die: 3, uncaught: 3, badbuild: 0, checkpoint: 10, burst: 3, ..BASE },
    Prof { id: "C06", dropcb: 15, checkpoint: 90, modcp: 80, maxthr: 2, exact: 35, seq: 15, stat: 60, frames: 2, give: 10, act_panic: 2, match_panic: 1, clone_panic: 1, dbg_panic: 0, die: 2, uncaught: 2, badbuild: 2, ..BASE },
    Prof { id: "C07", dropcb: 20, inst: 15, stat: 100, frames: 4, maxthr: 3, uncaught: 20, die: 20, act_panic: 12, match_panic: 8, clone_panic: 4, dbg_panic: 4, badbuild: 8, exact: 40, unset: 6, seq: 10, checkpoint: 30, ..BASE },
    Prof { id: "C08", sflags: F_GENERIC | F_MULTI | F_STRUCTGEN | F_ASSOC, tflags: F_GENERIC | F_STRUCTGEN | F_MODULE, few_lists: 20, same_shape: 75, seq: 5, checkpoint: 35, maxthr: 2, act_panic: 3, match_panic: 1, uncaught: 4, die: 4, ..BASE },
    Prof { id: "C09", st: 70, minthr: 1, maxthr: 3, give: 50, uncaught: 15, die: 12, once: 35, act_panic: 6, match_panic: 3, clone_panic: 3, seq: 5, frames: 2, checkpoint: 20, ..BASE },
    Prof { id: "C10", dropcb: 15, act_panic: 30, match_panic: 18, clone_panic: 15, dbg_panic: 15, uncaught: 20, die: 10, badbuild: 8, maxthr: 3, extra_calls: 40, seq: 10, exact: 40, frames: 3, ..BASE },
    Prof { id: "C11", dropcb: 40, stall: 100, minthr: 2, maxthr: 4, nested: 35, st: 0, seq: 15, act_panic: 5, match_panic: 3, uncaught: 4, die: 3, badbuild: 2, ..BASE },
    Prof { id: "C12", dropcb: 12, sflags: F_DROPARG | F_ASYNC | F_MUTRET | F_REFRET | F_OWN, tflags: F_DROPARG, act_panic: 12, match_panic: 6, clone_panic: 6, dbg_panic: 6, uncaught: 12, die: 8, once: 35, overrides: 35, unset: 5, st: 12, checkpoint: 30, seq: 8, futures: 60, badbuild: 5, ..BASE },
    Prof { id: "C13", sflags: F_ASYNC, tflags: F_ASYNC, futures: 75, stat: 25, inst: 90, act_panic: 8, match_panic: 3, maxthr: 3, exact: 50, seq: 20, once: 25, ..BASE },
    Prof { id: "C15", huge: 1200, dropcb: 0, diag: true, extra_calls: 60, exact: 30, unset: 10, once: 20, uncaught: 0, die: 0, act_panic: 0, match_panic: 0, clone_panic: 0, dbg_panic: 0, st: 0, badbuild: 0, maxthr: 2, seq: 25, burst: 4, many_exp: 5, few_lists: 75, nested: 0, futures: 0, ..BASE },
    Prof { id: "C16", stat: 60, race: 3, maxthr: 4, burst: 1, ..BASE },
];

pub fn prof(id: &str) -> &'static Prof {
    PROFS.iter().find(|p| p.id == id).expect("profile")
}

#[derive(Clone)]
struct EInfo {
    eid: u32,
    unit: usize,
    list: usize,
    mask: Vec<u8>,
    max: Option<u32>,
    min: u32,
    seq: Option<usize>,
}

struct Knobs {
    st: bool,
    act_panic: bool,
    match_panic: bool,
    clone_panic: bool,
    dbg_panic: bool,
    die: bool,
    uncaught: bool,
    badbuild: bool,
    nested: bool,
    dropcb: bool,
    once: bool,
    unset: bool,
    /// large counts, long lists, long sequences
    big: bool,
    /// big, with a sequence of many members called in order
    long: bool,
    dom: u64,
    yields: u64,
}
const BIG: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];

struct G<'a> {
    r: Rng,
    p: &'a Prof,
    k: Knobs,
    shapes: &'a [ShapeInfo],
    stats: &'a [StaticInfo],
    plan: Plan,
    nw: usize,
    ops: u32,
    max_ops: u32,
    /// calls planned so far
    calls: u32,
    maydie: bool,
    stall_units: Vec<usize>,
}

pub const MAXOBJ: usize = 8;

impl<'a> G<'a> {
    fn pct(&mut self, p: u64) -> bool {
        self.r.below(100) < p
    }
    fn id(&mut self) -> u32 {
        self.plan.nops += 1;
        self.ops += 1;
        self.plan.nops - 1
    }
    fn node(&mut self, op: POp) -> PNode {
        let id = self.id();
        PNode { id, op }
    }
    fn lists(&self, u: usize) -> &'a [ListInfo] {
        if u < MAXOBJ { self.shapes[self.plan.objs[u]].lists } else { self.stats[self.plan.stats[u - MAXOBJ]].lists }
    }
    fn pick_shape(&mut self) -> usize {
        let f = self.p.sflags;
        for _ in 0..20 {
            let i = self.r.below(self.shapes.len() as u64) as usize;
            if f == 0 || self.shapes[i].flags & f != 0 || self.r.chance(1, 12) {
                return i;
            }
        }
        0
    }
    fn pick_stat(&mut self) -> usize {
        let f = self.p.tflags;
        for _ in 0..20 {
            let i = self.r.below(self.stats.len() as u64) as usize;
            if f == 0 || self.stats[i].flags & f != 0 || self.r.chance(1, 10) {
                return i;
            }
        }
        0
    }
    fn mask(&mut self, n: usize) -> Vec<u8> {
        let d = self.k.dom;
        (0..n)
            .map(|_| match self.r.below(10) {
                0..=3 => 0xff,
                4..=6 => 1 << self.r.below(d),
                7..=8 => self.r.next() as u8 | 1 << self.r.below(d),
                _ => {
                    if self.r.chance(1, 6) { 0 } else { !(1u8 << self.r.below(d)) }
                }
            })
            .collect()
    }
    fn times(&mut self) -> (TimesSpec, u32, Option<u32>) {
        if self.k.big && self.r.chance(1, 4) {
            let n = *self.r.pick(BIG);
            return match self.r.below(6) {
                0 => (TimesSpec::From(n), n as u32, None),
                1 => (TimesSpec::ToIncl(n), 0, Some(n as u32)),
                2 => (TimesSpec::Range(n - 2, n + 1), n as u32 - 2, Some(n as u32)),
                3 => (TimesSpec::Incl(1, n), 1, Some(n as u32)),
                _ => (TimesSpec::N(n), n as u32, Some(n as u32)),
            };
        }
        let n = self.r.below(4) as usize;
        if self.pct(self.p.exact) {
            let n = if self.r.chance(1, 12) { self.r.below(9) as usize + 3 } else { n.max(1) };
            return match self.r.below(6) {
                0 => (TimesSpec::Incl(n, n), n as u32, Some(n as u32)),
                1 => (TimesSpec::Range(n, n + 1), n as u32, Some(n as u32)),
                _ => (TimesSpec::N(n), n as u32, Some(n as u32)),
            };
        }
        let m = n + self.r.below(3) as usize;
        match self.r.below(8) {
            0 => (TimesSpec::N(n), n as u32, Some(n as u32)),
            1 => (TimesSpec::Range(n, m + 1), n as u32, Some(m as u32)),
            2 => (TimesSpec::From(n), n as u32, None),
            3 => (TimesSpec::Full, 0, None),
            4 if self.r.chance(1, 6) => (TimesSpec::Incl(n, usize::MAX), n as u32, None),
            6 if self.r.chance(1, 6) => (TimesSpec::ToIncl(usize::MAX), 0, None),
            4 => (TimesSpec::Incl(n, m), n as u32, Some(m as u32)),
            5 => (TimesSpec::To(m + 1), 0, Some(m as u32)),
            6 => (TimesSpec::ToIncl(m), 0, Some(m as u32)),
            _ => (TimesSpec::N(0), 0, Some(0)),
        }
    }
    fn ret(&mut self, caps: u32) -> Option<RetSpec> {
        let all = [
            (C_CONST, RetSpec::Const, 3),
            (C_CONSTST, RetSpec::ConstSt, 1),
            (C_FN, RetSpec::Fn, 6),
            (C_FNST, RetSpec::FnSt, 1),
            (C_ONCE, RetSpec::Once, 2),
            (C_ONCEST, RetSpec::OnceSt, 1),
            (C_VAR, RetSpec::Var, 4),
            (C_REFCONST, RetSpec::RefConst, 5),
        ];
        let mut c = vec![];
        for (f, r, w) in all {
            if caps & f == 0 {
                continue;
            }
            let st = matches!(r, RetSpec::ConstSt | RetSpec::FnSt | RetSpec::OnceSt);
            let once = matches!(r, RetSpec::Once | RetSpec::OnceSt);
            if st && !self.k.st {
                continue;
            }
            if once && !self.k.once {
                continue;
            }
            let mut w = w;
            if st {
                w = 1 + self.p.st / 10;
            }
            if once {
                w = w.max(1) + self.p.once / 10;
            }
            for _ in 0..w {
                c.push(r)
            }
        }
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }

    /// One expectation; `seq`: put it in this sequence.
    fn expectation(&mut self, unit: usize, list: usize, seq: Option<usize>) -> (ESpec, EInfo) {
        let li = self.lists(unit)[list];
        let eid = self.plan.neid as u32;
        self.plan.neid += 1;
        let mut pre: Vec<Step> = vec![];
        let (mut min, mut max) = (0u32, None);
        let mut tstep = None;
        if seq.is_some() {
            let n = if self.r.chance(1, 14) { 0 } else { 1 + self.r.below(3) as usize };
            let n = if self.k.long {
                if self.r.chance(1, 12) { n.min(2) } else { 1 }
            } else if self.k.big && self.r.chance(1, 8) {
                *self.r.pick(BIG)
            } else {
                n
            };
            tstep = Some(match self.r.below(5) {
                0 if n == 1 => Step::Once,
                1 if n == 0 => Step::Never,
                2 => Step::Times(TimesSpec::Incl(n, n)),
                _ => Step::Times(TimesSpec::N(n)),
            });
            min = n as u32;
            max = Some(n as u32);
        } else {
            match self.r.below(10) {
                0 => {
                    tstep = Some(Step::Once);
                    min = 1;
                    max = Some(1);
                }
                1 if self.r.chance(1, 3) => {
                    tstep = Some(Step::Never);
                    max = Some(0);
                }
                2 => {}
                _ => {
                    let (t, a, b) = self.times();
                    tstep = Some(Step::Times(t));
                    min = a;
                    max = b;
                }
            }
        }
        let mut mask = vec![0xff; li.nargs];
        let mut mstep = None;
        if li.nargs > 0 && !self.r.chance(2, 5) {
            mask = self.mask(li.nargs);
            mstep = Some(self.mstep(&li, mask.clone()));
        } else if li.nargs == 0 && self.r.chance(1, 4) {
            mstep = Some(if self.k.st && self.r.chance(1, 3) { Step::WithfSt(vec![]) } else { Step::Withf(vec![]) });
        }
        let mut rstep = None;
        if !(self.k.unset && self.r.chance(1, 8)) {
            rstep = self.ret(li.caps).map(Step::Ret);
        }
        // decoys that later steps override
        if self.pct(self.p.overrides) {
            if self.r.chance(1, 2) && tstep.is_some() {
                let (t, ..) = self.times();
                pre.push(Step::Times(t));
            }
            if self.r.chance(1, 2) && mstep.is_some() {
                let m = self.mask(li.nargs);
                let s = self.mstep(&li, m);
                pre.push(s);
            }
            if self.r.chance(2, 3) && rstep.is_some() {
                if let Some(r) = self.ret(li.caps) {
                    pre.push(Step::Ret(r));
                }
            }
        }
        let mut steps = pre;
        // the order of the remaining steps is free except times < in_sequence
        let mut rest: Vec<Step> = vec![];
        rest.extend(mstep);
        rest.extend(rstep);
        let mut chain: Vec<Step> = vec![];
        chain.extend(tstep);
        if let Some(q) = seq {
            chain.push(Step::InSeq(q));
            if min > 0 && self.r.chance(1, 20) {
                let n = 1 + self.r.below(3) as usize;
                chain.push(Step::Times(TimesSpec::N(n)));
                min = n as u32;
                max = Some(n as u32);
            }
        } else if self.k.badbuild && self.nw == 0 && self.plan.nseq > 0 && max != Some(min) && self.r.chance(1, 3) {
            let q = self.r.below(self.plan.nseq as u64) as usize;
            chain.push(Step::InSeq(q));
        } else if self.k.badbuild && self.r.chance(1, 10) {
            chain.push(match self.r.below(4) {
                0 => Step::Times(TimesSpec::Range(3, 2)),
                3 => Step::Times(TimesSpec::To(0)),
                1 => Step::Times(TimesSpec::Incl(4, 2)),
                _ => Step::Times(TimesSpec::Range(2, 2)),
            });
        }
        while !rest.is_empty() || !chain.is_empty() {
            if chain.is_empty() || (!rest.is_empty() && self.r.chance(1, 2)) {
                let i = self.r.below(rest.len() as u64) as usize;
                steps.push(rest.remove(i));
            } else {
                steps.push(chain.remove(0));
            }
        }
        steps.truncate(15);
        // behaviours
        self.behaviours(eid);
        let chain = self.r.chance(1, 2);
        (ESpec { eid, steps, chain }, EInfo { eid, unit, list, mask, max, min, seq })
    }
    fn mstep(&mut self, li: &ListInfo, m: Vec<u8>) -> Step {
        let st = self.k.st && self.pct(self.p.st / 2 + 5);
        if st {
            Step::WithfSt(m)
        } else if li.with && self.r.chance(1, 2) {
            Step::With(m)
        } else {
            Step::Withf(m)
        }
    }
    fn beh(&mut self, eid: u32, at: At, nth: Option<u32>, what: What) {
        let id = self.plan.nbeh;
        self.plan.nbeh += 1;
        self.plan.behs.push((eid, Beh { id, at, nth, what }));
    }
    fn behaviours(&mut self, eid: u32) {
        let y = self.k.yields;
        if self.pct(y) {
            let n = 1 + self.r.below(3) as u32;
            self.beh(eid, At::Act, None, What::Yield(n));
        }
        if self.pct(y / 2) {
            let n = 1 + self.r.below(2) as u32;
            self.beh(eid, At::Match, None, What::Yield(n));
        }
        if self.pct(y / 3) {
            self.beh(eid, At::Clone, None, What::Yield(1));
        }
        if self.k.dropcb && self.pct(15) {
            let n = 1 + self.r.below(3) as u32;
            let nth = if self.r.chance(1, 2) { Some(0) } else { None };
            self.beh(eid, At::Drop, nth, What::Yield(n));
        }
        if self.k.act_panic && self.pct(self.p.act_panic) {
            let n = self.r.below(3) as u32;
            self.beh(eid, At::Act, Some(n), What::Panic);
        }
        if self.k.match_panic && self.pct(self.p.match_panic) {
            let n = self.r.below(4) as u32;
            self.beh(eid, At::Match, Some(n), What::Panic);
        }
        if self.k.clone_panic && self.pct(self.p.clone_panic) {
            let n = self.r.below(3) as u32;
            self.beh(eid, At::Clone, Some(n), What::Panic);
        }
    }

    fn value_in(&mut self, m: u8) -> u8 {
        let d = self.k.dom;
        for _ in 0..8 {
            let v = self.r.below(d) as u8;
            if m >> v & 1 == 1 {
                return v;
            }
        }
        for v in 0..8 {
            if m >> v & 1 == 1 {
                return v;
            }
        }
        0
    }
    fn args_for(&mut self, e: &EInfo) -> Vec<u8> {
        let m = e.mask.clone();
        m.iter().map(|x| self.value_in(*x)).collect()
    }
    fn rand_args(&mut self, n: usize) -> Vec<u8> {
        let d = self.k.dom;
        (0..n).map(|_| self.r.below(d) as u8).collect()
    }

    /// the demand created by some expectations, in a random order that keeps
    /// the order inside every sequence
    fn intents(&mut self, es: &[EInfo]) -> Vec<(usize, usize, Vec<u8>, Option<usize>, u32)> {
        let mut plain = vec![];
        let mut seqs: Vec<(usize, Vec<(usize, usize, Vec<u8>, u32)>)> = vec![];
        for e in es {
            let n = match self.r.below(12) {
                0 => e.min.saturating_sub(1),
                1 => e.max.map_or(e.min + 2, |m| m + 1),
                2 => self.r.below(4) as u32,
                3 | 4 => e.min,
                _ => e.max.unwrap_or(e.min + self.r.below(3) as u32),
            };
            let n = if e.seq.is_some() && (self.k.long || !self.r.chance(1, 10)) { e.min } else { n };
            // many calls become one burst
            let own = e.unit < MAXOBJ && matches!(self.lists(e.unit)[e.list].recv, Recv::Own | Recv::Async);
            let (n, k) = if n > 14 && !own && self.r.chance(7, 8) { (1, n) } else { (n.min(14), 1) };
            for _ in 0..n {
                let a = self.args_for(e);
                if let Some(q) = e.seq {
                    match seqs.iter_mut().find(|x| x.0 == q) {
                        Some(x) => x.1.push((e.unit, e.list, a, k)),
                        None => seqs.push((q, vec![(e.unit, e.list, a, k)])),
                    }
                } else {
                    plain.push((e.unit, e.list, a, k));
                }
            }
            if self.pct(self.p.extra_calls / 2) {
                let nargs = e.mask.len();
                let a = self.rand_args(nargs);
                plain.push((e.unit, e.list, a, 1));
            }
        }
        // an occasional mistake inside a sequence
        for s in seqs.iter_mut() {
            if s.1.len() > 1 && self.r.chance(1, 6) {
                let i = self.r.below(s.1.len() as u64 - 1) as usize;
                s.1.swap(i, i + 1);
            }
            s.1.reverse();
        }
        for i in (1..plain.len()).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            plain.swap(i, j);
        }
        let mut out = vec![];
        loop {
            let mut left: u64 = plain.len() as u64;
            for s in &seqs {
                left += s.1.len() as u64;
            }
            if left == 0 {
                break;
            }
            let mut x = self.r.below(left);
            if x < plain.len() as u64 {
                let (u, l, a, k) = plain.pop().unwrap();
                out.push((u, l, a, None, k));
                continue;
            }
            x -= plain.len() as u64;
            for s in seqs.iter_mut() {
                if x < s.1.len() as u64 {
                    let (u, l, a, k) = s.1.pop().unwrap();
                    out.push((u, l, a, Some(s.0), k));
                    break;
                }
                x -= s.1.len() as u64;
            }
        }
        out
    }

    fn call_nodes(&mut self, u: usize, l: usize, args: Vec<u8>, n: u32, out: &mut Vec<PNode>) -> u32 {
        let li = self.lists(u)[l];
        let n = if self.calls > 500 { n.min(2) } else { n };
        let caught = !(self.k.uncaught && self.pct(self.p.uncaught));
        if u < MAXOBJ && li.recv == Recv::Async && self.pct(self.p.futures) {
            let f = self.plan.nfut;
            self.plan.nfut += 1;
            let a = self.node(POp::FutNew { f, o: u, l, args });
            out.push(a);
            match self.r.below(8) {
                0 => {
                    let d = self.node(POp::FutDrop { f });
                    let id = d.id;
                    out.push(d);
                    return id;
                }
                1 => return self.plan.nops - 1, // never polled, dropped with its scope
                _ => {
                    if self.r.chance(1, 3) {
                        let y = self.node(POp::Yield { n: 1 });
                        out.push(y);
                    }
                    let p = self.node(POp::FutPoll { f });
                    let id = p.id;
                    out.push(p);
                    if self.r.chance(1, 3) {
                        let d = self.node(POp::FutDrop { f });
                        out.push(d);
                    }
                    return id;
                }
            }
        }
        let n0 = if u < MAXOBJ {
            self.node(POp::Call { o: u, l, args, caught, n })
        } else {
            self.node(POp::SCall { s: u - MAXOBJ, l, args, caught, n })
        };
        self.calls += n;
        let id = n0.id;
        if self.k.dbg_panic && self.pct(self.p.dbg_panic) && li.dbg.iter().any(|d| d.contains("Tok")) {
            self.plan.dbg.push(id);
        }
        out.push(n0);
        id
    }

    fn choose_lists(&mut self, u: usize) -> Vec<usize> {
        let n = self.lists(u).len();
        let k = if self.pct(self.p.few_lists) { 1 + self.r.below(2) as usize } else { 2 + self.r.below(5) as usize };
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = self.r.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
        v.truncate(k.min(n));
        v
    }

    /// expectations for a unit; pushes the building nodes
    fn setup(&mut self, u: usize, ctxs: &[(usize, usize, usize)], seq: &[usize], infos: &mut Vec<EInfo>, out: &mut Vec<PNode>) {
        let ls = self.choose_lists(u);
        for l in ls {
            let mut ne = match self.r.below(10) {
                0..=4 => 1,
                5..=7 => 2,
                8 => 3,
                _ => 0,
            };
            if self.pct(self.p.many_exp) {
                ne = 2 + self.r.below(5);
            }
            if self.r.chance(1, 150) {
                ne = 40;
            } else if self.k.big && self.r.chance(1, 5) {
                ne = *self.r.pick(&[9, 17, 33, 65, 70]);
            }
            let long = self.k.long && !seq.is_empty();
            if long {
                ne = if self.plan.neid > 140 { 0 } else { *self.r.pick(&[20, 40, 66, 70, 100, 135]) };
            }
            for _ in 0..ne {
                let q = if long {
                    Some(seq[0])
                } else if !seq.is_empty() && self.r.chance(3, 4) { Some(*self.r.pick(seq)) } else { None };
                self.one_expect(u, l, q, ctxs, infos, out);
            }
        }
    }
    fn one_expect(&mut self, u: usize, l: usize, q: Option<usize>, ctxs: &[(usize, usize, usize)], infos: &mut Vec<EInfo>, out: &mut Vec<PNode>) {
        if u < MAXOBJ {
            let (spec, i) = self.expectation(u, l, q);
            let n = self.node(POp::Expect { o: u, l, spec });
            out.push(n);
            infos.push(i);
        } else {
            let si = &self.stats[self.plan.stats[u - MAXOBJ]];
            let k = si.ctxof[l];
            let Some((c, ..)) = ctxs.iter().find(|x| x.1 == u - MAXOBJ && x.2 == k) else { return };
            let c = *c;
            let (spec, i) = self.expectation(u, l, q);
            let n = self.node(POp::CtxExpect { c, l, spec });
            out.push(n);
            infos.push(i);
        }
    }

    fn new_obj(&mut self, like: Option<usize>) -> Option<usize> {
        if self.plan.objs.len() >= MAXOBJ {
            return None;
        }
        let s = like.unwrap_or_else(|| self.pick_shape());
        self.plan.objs.push(s);
        Some(self.plan.objs.len() - 1)
    }

    /// A scope with its own objects on the current thread, no rounds.
    fn small_frame(&mut self, statics: &[usize], depth: u32) -> PNode {
        let id = self.id();
        let mut b = vec![];
        let mut infos = vec![];
        let mut seqs = vec![];
        let mut ctxs = vec![];
        if self.pct(self.p.seq) && self.plan.nseq < 6 {
            let q = self.plan.nseq;
            self.plan.nseq += 1;
            let n = self.node(POp::SeqNew { q });
            b.push(n);
            seqs.push(q);
        }
        let mut units = vec![];
        if statics.is_empty() || self.pct(self.p.inst) {
            if let Some(o) = self.new_obj(None) {
                let n = self.node(POp::New { o });
                b.push(n);
                units.push(o);
            }
        }
        for s in statics {
            if depth == 2 || self.r.chance(1, 3) {
                self.contexts(*s, &mut ctxs, &mut b);
                units.push(MAXOBJ + *s);
            }
        }
        for u in &units {
            self.setup(*u, &ctxs, &seqs, &mut infos, &mut b);
        }
        let it = self.intents(&infos);
        for (u, l, a, _, n) in it {
            if self.ops > self.max_ops {
                break;
            }
            self.call_nodes(u, l, a, n, &mut b);
            if self.r.chance(1, 12) {
                self.misc(&units, &ctxs, &mut b);
            }
        }
        if depth == 0 && self.k.die && self.pct(self.p.die) {
            let at = self.r.below(b.len() as u64 + 1) as usize;
            let n = self.node(POp::Die);
            b.insert(at, n);
        }
        PNode { id, op: POp::Frame { body: b } }
    }

    fn contexts(&mut self, s: usize, ctxs: &mut Vec<(usize, usize, usize)>, out: &mut Vec<PNode>) {
        let si = &self.stats[self.plan.stats[s]];
        let nk = si.ctxof.iter().max().unwrap() + 1;
        for k in 0..nk {
            if nk > 1 && self.r.chance(1, 5) && ctxs.iter().any(|c| c.1 == s) {
                continue;
            }
            let c = self.plan.nctx;
            self.plan.nctx += 1;
            let n = self.node(POp::CtxNew { c, s, k });
            out.push(n);
            ctxs.push((c, s, k));
        }
    }

    fn misc(&mut self, units: &[usize], ctxs: &[(usize, usize, usize)], out: &mut Vec<PNode>) {
        if units.is_empty() {
            return;
        }
        let u = *self.r.pick(units);
        let n = match self.r.below(10) {
            0..=4 if self.pct(self.p.checkpoint) => {
                if u < MAXOBJ {
                    POp::Checkpoint { o: u }
                } else if let Some(c) = ctxs.iter().find(|c| c.1 == u - MAXOBJ) {
                    POp::CtxCheckpoint { c: c.0 }
                } else {
                    return;
                }
            }
            5 if self.r.chance(1, 4) => {
                if u < MAXOBJ {
                    POp::DropRef { o: u }
                } else if let Some(c) = ctxs.iter().find(|c| c.1 == u - MAXOBJ) {
                    POp::CtxDrop { c: c.0 }
                } else {
                    return;
                }
            }
            6 | 7 => POp::Yield { n: 1 + self.r.below(3) as u32 },
            _ => {
                // a call nobody asked for
                let ls = self.lists(u);
                let l = self.r.below(ls.len() as u64) as usize;
                let a = self.rand_args(ls[l].nargs);
                self.call_nodes(u, l, a, 1, out);
                return;
            }
        };
        let n = self.node(n);
        out.push(n);
    }

    fn modcp(&mut self, out: &mut Vec<PNode>) {
        if self.maydie && self.nw > 0 {
            return;
        }
        let groups: Vec<usize> = self.plan.stats.iter().filter_map(|s| self.stats[*s].group.map(|g| g.0)).collect();
        if !groups.is_empty() && self.pct(self.p.modcp) {
            let g = *self.r.pick(&groups);
            let n = self.node(POp::ModCheckpoint { g });
            out.push(n);
        }
    }

    /// A single expectation with a bound near 2^16 and as many calls, or some 256
    /// expectations of one method: a count kept in 16 bits or a position kept in 8
    /// shows nowhere else.
    fn huge(mut self, r: &mut Rng) -> Plan {
        let stat = r.chance(1, 3);
        let unit;
        let l;
        let mut b = vec![];
        if stat {
            let s = loop {
                let s = r.below(self.stats.len() as u64) as usize;
                if self.stats[s].lists.iter().all(|i| i.caps & C_CONST != 0 && i.coded) {
                    break s;
                }
            };
            self.plan.stats.push(s);
            unit = MAXOBJ;
            l = r.below(self.stats[s].lists.len() as u64) as usize;
            let k = self.stats[s].ctxof[l];
            self.plan.nctx = 1;
            let n = self.node(POp::CtxNew { c: 0, s: 0, k });
            b.push(n);
        } else {
            let (s, li) = loop {
                let s = r.below(self.shapes.len() as u64) as usize;
                let li = r.below(self.shapes[s].lists.len() as u64) as usize;
                let i = &self.shapes[s].lists[li];
                if i.caps & C_CONST != 0 && i.coded && matches!(i.recv, Recv::Ref | Recv::Mut) {
                    break (s, li);
                }
            };
            self.plan.objs.push(s);
            unit = 0;
            l = li;
            let n = self.node(POp::New { o: 0 });
            b.push(n);
        }
        let seq = r.chance(1, 3);
        if seq {
            self.plan.nseq = 1;
            let n = self.node(POp::SeqNew { q: 0 });
            b.push(n);
        }
        let x = 65_535 + r.below(4) as usize;
        let t = if seq {
            TimesSpec::N(x)
        } else {
            match r.below(4) {
                0 => TimesSpec::N(x),
                1 => TimesSpec::ToIncl(x),
                2 => TimesSpec::From(x),
                _ => TimesSpec::Incl(x, x + 1),
            }
        };
        // or many expectations
        let wide = r.chance(1, 2);
        let two = seq || r.chance(1, 3);
        let ne = if wide { 250 + r.below(60) as usize } else { 1 + two as usize };
        for i in 0..ne {
            let mut steps = vec![Step::Times(match i {
                _ if wide => TimesSpec::N(if seq || r.chance(5, 6) { 1 } else { r.below(3) as usize }),
                0 => t.clone(),
                _ => TimesSpec::N(2),
            })];
            if seq {
                steps.push(Step::InSeq(0));
            }
            steps.push(Step::Ret(RetSpec::Const));
            let spec = ESpec { eid: self.plan.neid as u32, steps, chain: true };
            self.plan.neid += 1;
            let n = self.node(if stat { POp::CtxExpect { c: 0, l, spec } } else { POp::Expect { o: 0, l, spec } });
            b.push(n);
        }
        let n = if wide { ne as u32 } else { x as u32 + two as u32 };
        let n = n + r.below(5) as u32 - 1;
        let args = vec![0; self.lists(unit)[l].nargs];
        let op = if stat {
            POp::SCall { s: 0, l, args, caught: true, n }
        } else {
            POp::Call { o: 0, l, args, caught: true, n }
        };
        let n = self.node(op);
        b.push(n);
        let id = self.id();
        self.plan.main = vec![PNode { id, op: POp::Frame { body: b } }];
        self.plan.calls = 70_000;
        self.plan.workers = vec![];
        self.plan
    }

    /// A "test case" on thread 0, possibly with rounds of worker threads.
    fn big_frame(&mut self) -> PNode {
        let id = self.id();
        let mut b: Vec<PNode> = vec![];
        let mut seqs = vec![];
        if self.pct(self.p.seq) && self.plan.nseq < 6 {
            for _ in 0..1 + self.r.below(2) {
                let q = self.plan.nseq;
                self.plan.nseq += 1;
                let n = self.node(POp::SeqNew { q });
                b.push(n);
                seqs.push(q);
            }
        }
        let mut units = vec![];
        let mut ctxs = vec![];
        let mut insts = self.pct(self.p.inst);
        let stats_on = !self.plan.stats.is_empty();
        if !insts && !stats_on {
            insts = true;
        }
        if insts {
            let k = 1 + self.r.below(2) + (self.r.below(4) == 0) as u64;
            let mut first = None;
            for _ in 0..k {
                let like = if self.pct(self.p.same_shape) { first } else { None };
                if let Some(o) = self.new_obj(like) {
                    first = Some(self.plan.objs[o]);
                    let n = self.node(POp::New { o });
                    b.push(n);
                    units.push(o);
                }
            }
        }
        if stats_on {
            for s in 0..self.plan.stats.len() {
                if self.r.chance(4, 5) {
                    self.contexts(s, &mut ctxs, &mut b);
                }
                units.push(MAXOBJ + s);
            }
        }
        if units.is_empty() {
            return PNode { id, op: POp::Frame { body: b } };
        }
        let mut infos = vec![];
        for u in units.clone() {
            self.setup(u, &ctxs, &seqs, &mut infos, &mut b);
        }
        if !seqs.is_empty() && self.r.chance(1, 5) {
            let n = self.node(POp::SeqDrop { q: seqs[0] });
            b.push(n);
        }
        let mut it = self.intents(&infos);
        it.truncate(if self.k.big { 200 } else { 60 });
        // burst
        if self.r.below(100) < self.p.burst && !infos.is_empty() {
            let e = self.r.pick(&infos).clone();
            if e.unit >= MAXOBJ || self.lists(e.unit)[e.list].recv != Recv::Own {
                let a = self.args_for(&e);
                let n = *self.r.pick(&[17, 40, 70, 140, 260]) as u32;
                let at = self.r.below(it.len() as u64 + 1) as usize;
                it.insert(at, (e.unit, e.list, a, None, n));
            }
        }
        let mut rounds = if self.nw > 0 { 1 + (self.r.below(4) == 0) as usize } else { 0 };
        let total = it.len();
        let mut pos = 0;
        let mut last_in_seq: std::collections::HashMap<usize, (i32, u32)> = Default::default();
        // phase 0: before any round
        let n0 = if rounds == 0 { total } else if self.r.chance(1, 2) { 0 } else { self.r.below(total as u64 / 2 + 1) as usize };
        loop {
            // sequential part on thread 0
            let upto = if rounds == 0 { total } else { (pos + n0).min(total) };
            while pos < upto && self.ops < self.max_ops {
                let (u, l, a, q, n) = it[pos].clone();
                pos += 1;
                let op = self.call_nodes(u, l, a, n, &mut b);
                if let Some(q) = q {
                    last_in_seq.insert(q, (0, op));
                }
                if self.r.chance(1, 10) {
                    self.misc(&units, &ctxs, &mut b);
                }
            }
            if rounds == 0 {
                break;
            }
            rounds -= 1;
            self.round(&units, &ctxs, &mut it, &mut pos, &mut last_in_seq, rounds == 0, &mut b);
            if self.pct(self.p.checkpoint) {
                let us = units.clone();
                for u in us {
                    if !self.r.chance(1, 2) {
                        continue;
                    }
                    let n = if u < MAXOBJ {
                        POp::Checkpoint { o: u }
                    } else if let Some(c) = ctxs.iter().find(|c| c.1 == u - MAXOBJ) {
                        POp::CtxCheckpoint { c: c.0 }
                    } else {
                        continue;
                    };
                    let n = self.node(n);
                    b.push(n);
                    let mut more = vec![];
                    if self.r.chance(1, 2) {
                        self.setup(u, &ctxs, &[], &mut more, &mut b);
                        let x = self.intents(&more);
                        it.extend(x.into_iter().take(12));
                    }
                }
                self.modcp(&mut b);
            }
            if rounds == 0 {
                // the rest happens sequentially
                let upto = it.len();
                while pos < upto && self.ops < self.max_ops {
                    let (u, l, a, _, n) = it[pos].clone();
                    pos += 1;
                    self.call_nodes(u, l, a, n, &mut b);
                }
                break;
            }
        }
        if self.nw == 0 && self.pct(self.p.checkpoint) {
            let u = *self.r.pick(&units);
            let n = if u < MAXOBJ {
                Some(POp::Checkpoint { o: u })
            } else {
                ctxs.iter().find(|c| c.1 == u - MAXOBJ).map(|c| POp::CtxCheckpoint { c: c.0 })
            };
            if let Some(n) = n {
                let n = self.node(n);
                b.push(n);
                let mut more = vec![];
                self.setup(u, &ctxs, &[], &mut more, &mut b);
                let x = self.intents(&more);
                for (u, l, a, _, n) in x.into_iter().take(12) {
                    self.call_nodes(u, l, a, n, &mut b);
                }
            }
        }
        self.modcp(&mut b);
        if self.k.die && self.pct(self.p.die) {
            let at = self.r.below(b.len() as u64 + 1) as usize;
            let n = self.node(POp::Die);
            b.insert(at, n);
            self.maydie = true;
        }
        if self.k.uncaught {
            self.maydie = true;
        }
        // explicit, shuffled end of life
        if self.r.chance(1, 3) {
            let mut u2 = units.clone();
            u2.reverse();
            for u in u2 {
                if u < MAXOBJ {
                    let n = self.node(POp::DropRef { o: u });
                    b.push(n);
                }
            }
        }
        PNode { id, op: POp::Frame { body: b } }
    }

    #[allow(clippy::too_many_arguments)]
    fn round(
        &mut self,
        units: &[usize],
        ctxs: &[(usize, usize, usize)],
        it: &mut Vec<(usize, usize, Vec<u8>, Option<usize>, u32)>,
        pos: &mut usize,
        last: &mut std::collections::HashMap<usize, (i32, u32)>,
        all: bool,
        b: &mut Vec<PNode>,
    ) {
        let r = self.plan.share.len();
        let nw = self.nw;
        self.plan.share.push(vec![vec![]; nw]);
        let mut body: Vec<Vec<PNode>> = vec![vec![]; nw];
        let mut t0: Vec<PNode> = vec![];
        // who may touch what: index 0 is thread 0
        let mut who: std::collections::HashMap<usize, Vec<usize>> = Default::default();
        for u in units {
            if *u >= MAXOBJ {
                who.insert(*u, (0..=nw).collect());
                continue;
            }
            let excl = self.lists(*u).iter().any(|l| matches!(l.recv, Recv::Mut | Recv::Own));
            let p = self.p.give + if excl { 25 } else { 0 };
            if self.pct(p) {
                let w = self.r.below(nw as u64) as usize;
                self.plan.share[r][w].push((*u, true));
                who.insert(*u, vec![w + 1]);
            } else if self.r.chance(9, 10) {
                let mut v = vec![0];
                for w in 0..nw {
                    if self.r.chance(7, 8) {
                        self.plan.share[r][w].push((*u, false));
                        v.push(w + 1);
                    }
                }
                who.insert(*u, v);
            } else {
                who.insert(*u, vec![0]);
            }
        }
        let rem = it.len() - *pos;
        let take = if all { rem } else { self.r.below(rem as u64 + 1) as usize };
        let end = *pos + take;
        let start = self.node(POp::Start { r });
        b.push(start);
        // small independent scopes inside workers
        for w in 0..nw {
            if self.r.chance(1, 6) && self.ops < self.max_ops {
                let st: Vec<usize> = (0..self.plan.stats.len()).collect();
                let f = self.small_frame(&st, 1);
                body[w].push(f);
            }
        }
        while *pos < end && self.ops < self.max_ops {
            let (u, l, a, q, n) = it[*pos].clone();
            *pos += 1;
            let ts = who[&u].clone();
            let t = *self.r.pick(&ts);
            let mut v = vec![];
            if let Some(q) = q {
                if let Some((lt, op)) = last.get(&q) {
                    if *lt != t as i32 && self.r.chance(7, 8) {
                        let x = self.node(POp::Await { op: *op });
                        v.push(x);
                    }
                }
            }
            let op = self.call_nodes(u, l, a, n, &mut v);
            if let Some(q) = q {
                last.insert(q, (t as i32, op));
            }
            if t == 0 {
                t0.extend(v)
            } else {
                body[t - 1].extend(v)
            }
        }
        // a few random extras
        for t in 0..=nw {
            if self.ops > self.max_ops {
                break;
            }
            if self.r.below(100) < self.p.extra_calls {
                let us: Vec<usize> = units.iter().copied().filter(|u| who[u].contains(&t)).collect();
                let mut v = vec![];
                self.misc(&us, if t == 0 { ctxs } else { &[] }, &mut v);
                if t == 0 {
                    t0.extend(v)
                } else {
                    body[t - 1].extend(v)
                }
            }
            if t > 0 && self.k.die && self.r.chance(1, 12) && self.pct(self.p.die * 3) {
                let at = self.r.below(body[t - 1].len() as u64 + 1) as usize;
                let n = self.node(POp::Die);
                body[t - 1].insert(at, n);
            }
        }
        b.extend(t0);
        let j = self.node(POp::Join { r });
        b.push(j);
        for w in 0..nw {
            self.plan.workers[w].push(std::mem::take(&mut body[w]));
        }
    }

    /// Every thread uses static functions nobody has touched before, at once and
    /// each with Contexts of its own.
    fn race_frame(&mut self) -> PNode {
        let id = self.id();
        let r = self.plan.share.len();
        self.plan.share.push(vec![vec![]; self.nw]);
        let mut st: Vec<usize> = (0..self.plan.stats.len()).collect();
        if self.r.chance(2, 3) {
            st.truncate(1);
        }
        let start = self.node(POp::Start { r });
        let mut b = vec![start];
        for w in 0..self.nw {
            let f = self.small_frame(&st, 2);
            self.plan.workers[w].push(vec![f]);
        }
        if self.r.chance(1, 2) {
            let f = self.small_frame(&st, 2);
            b.push(f);
        }
        let j = self.node(POp::Join { r });
        b.push(j);
        PNode { id, op: POp::Frame { body: b } }
    }

    /// two functions of one module in the plan
    fn mod_pair(&mut self) -> Option<(usize, usize, usize)> {
        let gs: Vec<(usize, usize)> = (0..self.plan.stats.len())
            .filter_map(|i| self.stats[self.plan.stats[i]].group.map(|g| (i, g.0)))
            .collect();
        for (x, (i, g)) in gs.iter().enumerate() {
            if let Some((j, _)) = gs[x + 1..].iter().find(|y| y.1 == *g) {
                return Some((*i, *j, *g));
            }
        }
        None
    }

    /// A module is checkpointed while other threads are inside its functions,
    /// which call one another.
    fn mod_frame(&mut self, (s1, s2, g): (usize, usize, usize)) -> PNode {
        let id = self.id();
        let mut b = vec![];
        let mut ctxs = vec![];
        let mut infos = vec![];
        for s in [s1, s2] {
            self.contexts(s, &mut ctxs, &mut b);
            self.setup(MAXOBJ + s, &ctxs, &[], &mut infos, &mut b);
        }
        let below: Vec<EInfo> = infos.iter().filter(|e| e.unit == MAXOBJ + s2).cloned().collect();
        for e in infos.clone() {
            // locks are taken upwards only
            if e.unit == MAXOBJ + s1 && !below.is_empty() && self.r.chance(1, 2) {
                let t = self.r.pick(&below).clone();
                let a = self.args_for(&t);
                if self.r.chance(1, 2) {
                    self.beh(e.eid, At::Act, None, What::Yield(2));
                }
                self.nest(e.eid, t.unit, t.list, a, At::Act);
            }
        }
        let r = self.plan.share.len();
        self.plan.share.push(vec![vec![]; self.nw]);
        let mut body: Vec<Vec<PNode>> = vec![vec![]; self.nw];
        let mut t0 = vec![];
        let mut it = self.intents(&infos);
        it.truncate(16);
        for (u, l, a, _, n) in it {
            let t = self.r.below(self.nw as u64 * 2 + 1) as usize;
            let v = if t == 0 { &mut t0 } else { &mut body[(t - 1) / 2] };
            let mut tmp = std::mem::take(v);
            self.call_nodes(u, l, a, n, &mut tmp);
            if t == 0 { t0 = tmp } else { body[(t - 1) / 2] = tmp }
        }
        for _ in 0..1 + self.r.below(2) {
            let n = self.node(POp::ModCheckpoint { g });
            let w = self.r.below(self.nw as u64 + 2) as usize;
            let v = if w < 2 { &mut t0 } else { &mut body[w - 2] };
            let at = self.r.below(v.len() as u64 + 1) as usize;
            v.insert(at, n);
        }
        if self.r.chance(1, 3) {
            let mut more = vec![];
            self.setup(MAXOBJ + s2, &ctxs, &[], &mut more, &mut t0);
        }
        let start = self.node(POp::Start { r });
        b.push(start);
        b.extend(t0);
        let j = self.node(POp::Join { r });
        b.push(j);
        for (w, v) in body.into_iter().enumerate() {
            self.plan.workers[w].push(v);
        }
        PNode { id, op: POp::Frame { body: b } }
    }

    /// A return closure (or a matcher) of one expectation is stalled until
    /// operations of other threads have completed, which must not need it.
    fn stall_frame(&mut self) -> PNode {
        let id = self.id();
        let mut b: Vec<PNode> = vec![];
        let mut units = vec![];
        let mut ctxs = vec![];
        let use_static = self.pct(self.p.stat) && !self.plan.stats.is_empty();
        // objects; a multi method shape makes "another method" possible
        let mut sh = self.pick_shape();
        for _ in 0..30 {
            let refs = self.shapes[sh].lists.iter().filter(|l| l.recv == Recv::Ref).count();
            if refs >= 2 {
                break;
            }
            sh = self.pick_shape();
        }
        for i in 0..2 {
            let like = if i == 0 || self.r.chance(1, 2) { Some(sh) } else { None };
            if let Some(o) = self.new_obj(like) {
                let n = self.node(POp::New { o });
                b.push(n);
                units.push(o);
            }
        }
        if !self.plan.stats.is_empty() {
            for s in 0..self.plan.stats.len() {
                self.contexts(s, &mut ctxs, &mut b);
                units.push(MAXOBJ + s);
            }
        }
        // the stalled expectation
        let cand: Vec<(usize, usize)> = units
            .iter()
            .flat_map(|u| {
                self.lists(*u)
                    .iter()
                    .enumerate()
                    .filter(|(_, l)| matches!(l.recv, Recv::Ref | Recv::Static) && l.caps & C_FN != 0)
                    .map(move |(i, _)| (*u, i))
                    .collect::<Vec<_>>()
            })
            .filter(|(u, _)| (*u >= MAXOBJ) == use_static)
            .collect();
        if cand.is_empty() {
            return PNode { id, op: POp::Frame { body: b } };
        }
        let (su, sl) = *self.r.pick(&cand);
        self.stall_units.push(su);
        let li = self.lists(su)[sl];
        let smask: Vec<u8> = li.nargs_masks(&mut self.r);
        let eid = self.plan.neid as u32;
        self.plan.neid += 1;
        let kind = self.r.below(10);
        let in_matcher = kind == 0 && li.nargs > 0;
        let mut steps = vec![];
        if li.nargs > 0 {
            steps.push(Step::Withf(smask.clone()));
        }
        let once = self.r.chance(1, 4);
        steps.push(Step::Ret(if once { RetSpec::Once } else { RetSpec::Fn }));
        let spec = ESpec { eid, steps, chain: self.r.chance(1, 2) };
        self.plan.keep.push(eid);
        // free expectations: everything the free threads call
        let mut infos = vec![];
        let mut free: Vec<(usize, usize)> = vec![];
        for u in &units {
            for (i, l) in self.lists(*u).iter().enumerate() {
                if !matches!(l.recv, Recv::Ref | Recv::Static) {
                    continue;
                }
                if *u == su && su >= MAXOBJ {
                    continue; // one lock per static function, by design
                }
                if *u == su && i == sl && (li.nargs == 0 || in_matcher) {
                    continue;
                }
                free.push((*u, i));
            }
        }
        let stalled_first = self.r.chance(1, 2);
        let put = |g: &mut Self, b: &mut Vec<PNode>, spec: ESpec| {
            let n = if su < MAXOBJ {
                g.node(POp::Expect { o: su, l: sl, spec })
            } else {
                let si = &g.stats[g.plan.stats[su - MAXOBJ]];
                let k = si.ctxof[sl];
                match ctxs.iter().find(|x| x.1 == su - MAXOBJ && x.2 == k) {
                    Some(c) => g.node(POp::CtxExpect { c: c.0, l: sl, spec }),
                    None => return,
                }
            };
            b.push(n);
        };
        if stalled_first {
            put(self, &mut b, spec.clone());
        }
        let mut chosen = vec![];
        for _ in 0..1 + self.r.below(4) {
            if free.is_empty() {
                break;
            }
            let (u, l) = *self.r.pick(&free);
            chosen.push((u, l));
            let same = u == su && l == sl;
            self.one_expect(u, l, None, &ctxs, &mut infos, &mut b);
            let e = infos.last_mut();
            if let Some(e) = e {
                if same {
                    // disjoint from the stalled one in the first argument
                    let m = !smask[0];
                    let eid = e.eid;
                    e.mask[0] = m;
                    let mk = e.mask.clone();
                    fix_mask(&mut b, eid, mk);
                    self.plan.keep.push(eid);
                }
            }
        }
        if !stalled_first {
            put(self, &mut b, spec.clone());
        }
        // threads: worker 0 (and perhaps thread 0 later) runs into the stall
        let r = self.plan.share.len();
        let nw = self.nw;
        self.plan.share.push(vec![vec![]; nw]);
        for w in 0..nw {
            for u in &units {
                if *u < MAXOBJ {
                    self.plan.share[r][w].push((*u, false));
                }
            }
        }
        let nstall = 1 + (nw > 2 && self.r.chance(1, 3)) as usize;
        let mut body: Vec<Vec<PNode>> = vec![vec![]; nw];
        let sinfo = EInfo { eid, unit: su, list: sl, mask: smask.clone(), max: None, min: 0, seq: None };
        for w in 0..nstall {
            for _ in 0..1 + self.r.below(2) {
                let a = self.args_for(&sinfo);
                self.call_nodes(su, sl, a, 1, &mut body[w]);
            }
        }
        let mut t0 = vec![];
        let mut waitable = vec![];
        let mut it = self.intents(&infos);
        it.truncate(14);
        for (u, l, mut a, _, n) in it {
            if u == su && l == sl {
                // never a call the stalled expectation would take
                if smask[0] >> (a[0] & 7) & 1 == 1 {
                    a[0] = self.value_in(!smask[0]);
                    if smask[0] >> (a[0] & 7) & 1 == 1 {
                        continue;
                    }
                }
            }
            if (0..self.lists(u)[l].nargs).next().is_none() && u == su && l == sl {
                continue;
            }
            let t = self.r.below((nw - nstall + 1) as u64) as usize;
            let v = if t == 0 { &mut t0 } else { &mut body[nstall + t - 1] };
            let mut tmp = std::mem::take(v);
            let op = self.call_nodes(u, l, a, n, &mut tmp);
            waitable.push(op);
            if t == 0 { t0 = tmp } else { body[nstall + t - 1] = tmp }
        }
        // free threads may also build, checkpoint and drop things of their own
        for w in nstall..nw {
            if self.r.chance(1, 3) {
                let f = self.small_frame(&[], 1);
                waitable.push(f.id);
                body[w].push(f);
            }
        }
        if self.k.uncaught {
            self.maydie = true;
        }
        let st = self.node(POp::Start { r });
        b.push(st);
        // thread 0 must reach the join, or the next frame overlaps this one
        for n in t0.iter_mut() {
            if let POp::Call { caught, .. } | POp::SCall { caught, .. } = &mut n.op {
                *caught = true;
            }
        }
        b.extend(t0);
        if !waitable.is_empty() {
            let op = *self.r.pick(&waitable);
            let at = if in_matcher { At::Match } else { At::Act };
            let nth = if self.r.chance(1, 2) { Some(0) } else { None };
            self.beh(eid, at, nth, What::Wait(op));
        }
        let j = self.node(POp::Join { r });
        b.push(j);
        for w in 0..nw {
            self.plan.workers[w].push(std::mem::take(&mut body[w]));
        }
        PNode { id, op: POp::Frame { body: b } }
    }

    /// The destructor of a value captured by one expectation is stalled, when
    /// the expectation ends, until operations of other threads have completed:
    /// calls of that very function (statics) or of other mocks (objects).
    fn stall_drop_frame(&mut self) -> PNode {
        let id = self.id();
        let mut b: Vec<PNode> = vec![];
        let mut ctxs = vec![];
        let mut units = vec![];
        let use_static = !self.plan.stats.is_empty() && self.r.chance(2, 3);
        let mut objs = vec![];
        let k = if use_static { self.r.below(2) } else { 2 };
        let mut like = None;
        for _ in 0..k {
            if let Some(o) = self.new_obj(like) {
                let n = self.node(POp::New { o });
                b.push(n);
                objs.push(o);
                if self.r.chance(1, 2) {
                    like = Some(self.plan.objs[o]);
                }
            }
        }
        for s in 0..self.plan.stats.len() {
            self.contexts(s, &mut ctxs, &mut b);
            units.push(MAXOBJ + s);
        }
        units.extend(&objs);
        let su = if use_static {
            MAXOBJ + self.r.below(self.plan.stats.len() as u64) as usize
        } else {
            match objs.first() {
                Some(o) => *o,
                None => return PNode { id, op: POp::Frame { body: b } },
            }
        };
        self.stall_units.push(su);
        let mut infos = vec![];
        for u in &units {
            self.setup(*u, &ctxs, &[], &mut infos, &mut b);
        }
        let mine: Vec<u32> = infos.iter().filter(|i| i.unit == su).map(|i| i.eid).collect();
        let r = self.plan.share.len();
        let nw = self.nw;
        self.plan.share.push(vec![vec![]; nw]);
        for w in 0..nw {
            for o in &objs {
                if *o != su {
                    self.plan.share[r][w].push((*o, false));
                }
            }
        }
        let mut it = self.intents(&infos);
        it.truncate(14);
        let mut body: Vec<Vec<PNode>> = vec![vec![]; nw];
        let mut waitable = vec![];
        let mut t0 = vec![];
        for (u, l, a, _, n) in it {
            let w = self.r.below(nw as u64) as usize;
            if u == su && (su < MAXOBJ || self.r.chance(1, 3)) {
                // before anything else, on thread 0
                self.call_nodes(u, l, a, n, &mut t0);
                continue;
            }
            let op = self.call_nodes(u, l, a, n, &mut body[w]);
            waitable.push(op);
        }
        for n in t0.iter_mut() {
            if let POp::Call { caught, .. } | POp::SCall { caught, .. } = &mut n.op {
                *caught = true;
            }
        }
        if self.k.uncaught {
            self.maydie = true;
        }
        let early = self.r.chance(1, 2);
        if early {
            b.append(&mut t0);
        }
        let st = self.node(POp::Start { r });
        b.push(st);
        b.append(&mut t0);
        // the end of life
        let how = self.r.below(3);
        if su < MAXOBJ {
            let n = self.node(if how == 0 { POp::DropRef { o: su } } else { POp::Checkpoint { o: su } });
            b.push(n);
        } else {
            let cs: Vec<usize> = ctxs.iter().filter(|c| c.1 == su - MAXOBJ).map(|c| c.0).collect();
            for c in cs {
                let n = match how {
                    0 => POp::CtxDrop { c },
                    _ => POp::CtxCheckpoint { c },
                };
                let n = self.node(n);
                if how == 0 && self.r.chance(1, 2) {
                    // dropped by an unwinding scope of its own
                    let f = self.id();
                    let (s, k) = ctx_of(&b, c).unwrap();
                    let c2 = self.plan.nctx;
                    self.plan.nctx += 1;
                    let a = self.node(POp::CtxNew { c: c2, s, k });
                    let d = self.node(POp::Die);
                    b.push(PNode { id: f, op: POp::Frame { body: vec![a, d] } });
                }
                b.push(n);
            }
        }
        if !waitable.is_empty() {
            for eid in mine {
                if self.r.chance(2, 3) {
                    let op = *self.r.pick(&waitable);
                    self.beh(eid, At::Drop, Some(0), What::Wait(op));
                }
            }
        }
        let j = self.node(POp::Join { r });
        b.push(j);
        for w in 0..nw {
            self.plan.workers[w].push(std::mem::take(&mut body[w]));
        }
        PNode { id, op: POp::Frame { body: b } }
    }

    /// User code that calls other mocks: return closures, matchers and
    /// constants' Clone only upwards in (unit, list), since they may hold
    /// locks; destructors of what expectations captured anything but the
    /// object being ended.
    fn add_nested(&mut self) {
        if !self.k.nested && !self.k.dropcb {
            return;
        }
        let mut es: Vec<(u32, usize, usize, Option<Vec<u8>>)> = vec![];
        collect(&self.plan.main, &mut es, &self.plan);
        for w in &self.plan.workers {
            for r in w {
                collect(r, &mut es, &self.plan);
            }
        }
        let mut selfs: Vec<(usize, usize)> = vec![];
        for (eid, u, l, mask) in es {
            if self.stall_units.contains(&u) {
                continue;
            }
            if self.k.nested && self.r.chance(1, 4) {
                let at = match self.r.below(8) {
                    0 | 1 => At::Match,
                    2 => At::Clone,
                    _ => At::Act,
                };
                let r = self.lists(u)[l].recv;
                // the same method, with arguments another expectation must take
                if let (Some(m), At::Act, Recv::Ref) = (&mask, at, r) {
                    let free: Vec<u8> = (0..8u8).filter(|v| m[0] >> v & 1 == 0).collect();
                    if !free.is_empty() && !self.k.badbuild && !selfs.contains(&(u, l)) && self.r.chance(1, 2) {
                        selfs.push((u, l));
                        self.plan.keep.push(eid);
                        let mut a = self.rand_args(m.len());
                        let few: Vec<u8> = free.iter().copied().filter(|v| (*v as u64) < self.k.dom).collect();
                        a[0] = *self.r.pick(if few.is_empty() { &free } else { &few });
                        self.plan.selfs.push(self.plan.nested.len());
                        self.nest(eid, u, l, a, at);
                        continue;
                    }
                }
                // a scope with mocks of its own
                if self.r.chance(1, 6) && self.plan.objs.len() < MAXOBJ && at != At::Clone {
                    // (no statics: ending their expectations runs destructors
                    // that may call anything, with a lock perhaps held here)
                    self.nest_frame(eid, &[], at);
                    continue;
                }
                let c = self.nest_candidates(|v, k| {
                    v > u || (v == u && v < MAXOBJ && k > l && r == Recv::Ref)
                });
                if !c.is_empty() {
                    let (v, k) = *self.r.pick(&c);
                    let n = self.lists(v)[k].nargs;
                    let a = self.rand_args(n);
                    self.nest(eid, v, k, a, at);
                }
            }
            if self.k.dropcb && self.r.chance(1, 4) {
                if self.r.chance(1, 8) && self.plan.objs.len() < MAXOBJ {
                    let st: Vec<usize> = (0..self.plan.stats.len()).collect();
                    self.nest_frame(eid, &st, At::Drop);
                    continue;
                }
                let mut c = self.nest_candidates(|v, _| v != u || v >= MAXOBJ);
                // mostly the very function that is being ended
                if u >= MAXOBJ && self.r.chance(1, 2) {
                    c.retain(|x| x.0 == u);
                }
                if !c.is_empty() {
                    let (v, k) = *self.r.pick(&c);
                    let n = self.lists(v)[k].nargs;
                    let a = self.rand_args(n);
                    self.nest(eid, v, k, a, At::Drop);
                }
            }
        }
    }
    fn nest_candidates(&self, ok: impl Fn(usize, usize) -> bool) -> Vec<(usize, usize)> {
        let mut c = vec![];
        for v in 0..MAXOBJ + self.plan.stats.len() {
            if v < MAXOBJ && v >= self.plan.objs.len() || self.stall_units.contains(&v) {
                continue;
            }
            for (k, li) in self.lists(v).iter().enumerate() {
                if ok(v, k) && matches!(li.recv, Recv::Ref | Recv::Static) {
                    c.push((v, k));
                }
            }
        }
        c
    }
    fn nest_frame(&mut self, eid: u32, stats: &[usize], at: At) {
        let stats: Vec<usize> =
            stats.iter().copied().filter(|s| !self.stall_units.contains(&(MAXOBJ + s))).collect();
        let n = self.small_frame(&stats, 1);
        let ix = self.plan.nested.len();
        self.plan.nested.push(n);
        let nth = Some(self.r.below(2) as u32);
        self.beh(eid, at, nth, What::Nested(ix));
    }
    fn nest(&mut self, eid: u32, v: usize, k: usize, a: Vec<u8>, at: At) {
        let id = self.id();
        let op = if v < MAXOBJ {
            POp::Call { o: v, l: k, args: a, caught: true, n: 1 }
        } else {
            POp::SCall { s: v - MAXOBJ, l: k, args: a, caught: true, n: 1 }
        };
        let ix = self.plan.nested.len();
        self.plan.nested.push(PNode { id, op });
        let nth = Some(self.r.below(2) as u32);
        self.beh(eid, at, nth, What::Nested(ix));
    }
}

impl G<'_> {
    /// Guards: some calls are made again when their scope ends.
    fn add_guards(&mut self, r: &mut Rng) {
        let waits = |b: &(u32, Beh)| matches!(b.1.what, What::Wait(_));
        if self.plan.behs.iter().any(waits) {
            return;
        }
        let mut main = std::mem::take(&mut self.plan.main);
        let mut workers = std::mem::take(&mut self.plan.workers);
        if !awaits(&main) && !workers.iter().flatten().any(|v| awaits(v)) {
            self.guards(&mut main, r);
            for v in workers.iter_mut().flatten() {
                self.guards(v, r);
            }
        }
        self.plan.main = main;
        self.plan.workers = workers;
    }
    /// Futures created by one thread, awaited by another.
    fn move_futs(&mut self, r: &mut Rng) {
        let waits = |b: &(u32, Beh)| matches!(b.1.what, What::Wait(_));
        if self.nw == 0 || self.plan.behs.iter().any(waits) {
            return;
        }
        let mut main = std::mem::take(&mut self.plan.main);
        if !awaits(&main) && !self.plan.workers.iter().flatten().any(|v| awaits(v)) {
            for n in main.iter_mut() {
                if let POp::Frame { body } = &mut n.op {
                    self.move_futs_of(body, r);
                }
            }
        }
        self.plan.main = main;
    }
    fn move_futs_of(&mut self, body: &mut Vec<PNode>, r: &mut Rng) {
        let rounds: Vec<usize> =
            body.iter().filter_map(|n| if let POp::Start { r } = n.op { Some(r) } else { None }).collect();
        for rd in rounds {
            let mut calls = vec![];
            for n in body.iter().chain(self.plan.workers.iter().flat_map(|w| w.get(rd)).flatten()) {
                match &n.op {
                    POp::Call { o, l, args, .. } | POp::FutNew { o, l, args, .. }
                        if self.lists(*o)[*l].recv == Recv::Async =>
                    {
                        calls.push((*o, *l, args.clone()))
                    }
                    _ => {}
                }
            }
            if calls.is_empty() {
                continue;
            }
            for _ in 0..1 + r.below(2) {
                let w = r.below(self.nw as u64) as usize;
                let (o, l, args) = r.pick(&calls).clone();
                let f = self.plan.nfut;
                self.plan.nfut += 1;
                let n = self.node(POp::FutNew { f, o, l, args });
                let at = body.iter().position(|n| matches!(n.op, POp::Start { r } if r == rd)).unwrap();
                body.insert(at, n);
                let nr = self.plan.share.len();
                self.plan.fshare.resize(nr, vec![vec![]; self.nw]);
                self.plan.fshare[rd][w].push(f);
                if r.chance(7, 8) {
                    let p = self.node(POp::FutPoll { f });
                    let v = &mut self.plan.workers[w][rd];
                    let at = r.below(v.len() as u64 + 1) as usize;
                    v.insert(at, p);
                    self.calls += 1;
                }
            }
        }
    }
    fn guards(&mut self, v: &mut Vec<PNode>, r: &mut Rng) {
        let mut calls = vec![];
        for n in v.iter_mut() {
            match &mut n.op {
                POp::Frame { body } => self.guards(body, r),
                POp::Call { o, l, .. } if self.lists(*o)[*l].recv == Recv::Own => {}
                POp::Call { .. } | POp::SCall { .. } => calls.push(n.op.clone()),
                _ => {}
            }
        }
        if calls.is_empty() || r.chance(1, 2) {
            return;
        }
        for _ in 0..1 + r.below(2) {
            let mut body = vec![];
            for _ in 0..1 + r.below(3) {
                let mut op = r.pick(&calls).clone();
                if let POp::Call { n, .. } | POp::SCall { n, .. } = &mut op {
                    *n = 1;
                }
                body.push(PNode { id: self.id(), op });
                self.calls += 1;
            }
            let d = PNode { id: self.id(), op: POp::Defer { body } };
            let at = r.below(v.len() as u64 + 1) as usize;
            v.insert(at, d);
        }
    }
}
fn awaits(v: &[PNode]) -> bool {
    v.iter().any(|n| match &n.op {
        POp::Await { .. } => true,
        POp::Frame { body } => awaits(body),
        _ => false,
    })
}

fn collect(v: &[PNode], out: &mut Vec<(u32, usize, usize, Option<Vec<u8>>)>, p: &Plan) {
    let mask = |s: &ESpec| {
        s.steps.iter().rev().find_map(|x| match x {
            Step::With(m) | Step::Withf(m) | Step::WithfSt(m) if !m.is_empty() => Some(m.clone()),
            _ => None,
        })
    };
    for n in v {
        match &n.op {
            POp::Expect { o, l, spec } => out.push((spec.eid, *o, *l, mask(spec))),
            POp::CtxExpect { c, l, spec } => {
                if let Some(s) = ctx_static(p, *c) {
                    out.push((spec.eid, MAXOBJ + s, *l, mask(spec)))
                }
            }
            POp::Frame { body } => collect(body, out, p),
            _ => {}
        }
    }
}
fn ctx_of(b: &[PNode], c: usize) -> Option<(usize, usize)> {
    b.iter().find_map(|n| match &n.op {
        POp::CtxNew { c: x, s, k } if *x == c => Some((*s, *k)),
        _ => None,
    })
}
fn ctx_static(p: &Plan, c: usize) -> Option<usize> {
    fn go(v: &[PNode], c: usize) -> Option<usize> {
        for n in v {
            match &n.op {
                POp::CtxNew { c: x, s, .. } if *x == c => return Some(*s),
                POp::Frame { body } => {
                    if let Some(s) = go(body, c) {
                        return Some(s);
                    }
                }
                _ => {}
            }
        }
        None
    }
    go(&p.main, c).or_else(|| p.workers.iter().flatten().find_map(|r| go(r, c)))
}
fn fix_mask(b: &mut [PNode], eid: u32, m: Vec<u8>) {
    for n in b.iter_mut() {
        let spec = match &mut n.op {
            POp::Expect { spec, .. } | POp::CtxExpect { spec, .. } => spec,
            _ => continue,
        };
        if spec.eid != eid {
            continue;
        }
        let mut found = false;
        for s in spec.steps.iter_mut() {
            if let Step::With(k) | Step::Withf(k) | Step::WithfSt(k) = s {
                *k = m.clone();
                found = true;
            }
        }
        if !found {
            spec.steps.insert(0, Step::Withf(m.clone()));
        }
    }
}

trait Masks2 {
    fn nargs_masks(&self, r: &mut Rng) -> Vec<u8>;
}
impl Masks2 for ListInfo {
    fn nargs_masks(&self, r: &mut Rng) -> Vec<u8> {
        (0..self.nargs).map(|i| if i == 0 { 0b0011 << r.below(2) } else { 0xff }).collect()
    }
}

pub fn gen(p: &Prof, seed: u64, shapes: &[ShapeInfo], stats: &[StaticInfo]) -> Plan {
    let mut r = Rng::new(simcore::simrt::mix(seed, 0x9e3a));
    let on = |p: u64, r: &mut Rng| p > 0 && r.below(100) < (p * 3).min(92);
    let big = r.chance(1, 40);
    let k = Knobs {
        st: on(p.st, &mut r),
        act_panic: on(p.act_panic, &mut r),
        match_panic: on(p.match_panic, &mut r),
        clone_panic: on(p.clone_panic, &mut r),
        dbg_panic: on(p.dbg_panic, &mut r),
        die: on(p.die, &mut r),
        uncaught: on(p.uncaught, &mut r),
        badbuild: on(p.badbuild, &mut r),
        nested: on(p.nested, &mut r),
        dropcb: on(p.dropcb, &mut r),
        once: on(p.once, &mut r),
        unset: on(p.unset, &mut r),
        big,
        long: big && r.chance(1, 3),
        dom: *r.pick(&[2, 3, 4, 4, 6]),
        yields: *r.pick(&[0, 30, 60, 90]),
    };
    let nw = p.minthr + r.below(p.maxthr - p.minthr + 1);
    // mostly concurrent, sometimes sequential
    let nw = if p.minthr == 0 && r.chance(1, 4) { 0 } else { nw } as usize;
    let mut plan = Plan { workers: vec![vec![]; nw], nops: 0, ..Plan::default() };
    let max_ops = if k.big { 300 } else { *r.pick(&[25, 40, 60, 90]) };
    let nstat = if r.below(100) < p.stat { 1 + r.below(2) } else { 0 };
    let mut g = G { r, p, k, shapes, stats, plan: std::mem::take(&mut plan), nw, ops: 0, max_ops, calls: 0, maydie: false, stall_units: vec![] };
    let mut hr = Rng::new(simcore::simrt::mix(seed, 0x4a6e));
    if p.huge > 0 && hr.chance(1, p.huge) {
        return g.huge(&mut hr);
    }
    for _ in 0..nstat {
        let s = g.pick_stat();
        if !g.plan.stats.contains(&s) {
            g.plan.stats.push(s);
        }
        // modules: take a second function of the same module
        if g.stats[s].group.is_some() && g.r.chance(2, 3) {
            let same: Vec<usize> = (0..g.stats.len())
                .filter(|i| *i != s && g.stats[*i].group.map(|x| x.0) == g.stats[s].group.map(|x| x.0))
                .collect();
            if !same.is_empty() {
                let t = *g.r.pick(&same);
                if !g.plan.stats.contains(&t) {
                    g.plan.stats.push(t);
                }
            }
        }
    }
    let nf = 1 + g.r.below(p.frames);
    let mut main = vec![];
    for i in 0..nf {
        if i > 0 && g.ops > g.max_ops {
            break;
        }
        let pair = if nw > 0 && p.race > 0 && !g.k.die && !g.k.uncaught { g.mod_pair() } else { None };
        let f = if let Some(m) = pair.filter(|_| g.r.chance(1, 4)) {
            g.mod_frame(m)
        } else if nw >= 2 && g.r.below(100) < p.stall {
            if p.dropcb > 0 && g.r.chance(1, 3) { g.stall_drop_frame() } else { g.stall_frame() }
        } else if i == 0 && nw > 0 && !g.plan.stats.is_empty() && g.r.chance(1, p.race) {
            g.race_frame()
        } else if g.r.chance(1, 6) {
            let st: Vec<usize> = (0..g.plan.stats.len()).collect();
            g.small_frame(&st, 0)
        } else {
            g.big_frame()
        };
        main.push(f);
    }
    // statics must end with a verified clean slate often enough to matter
    g.plan.main = main;
    g.add_nested();
    let mut r = Rng::new(simcore::simrt::mix(seed, 0x6a2d));
    if r.chance(1, if g.k.die || g.k.uncaught { 2 } else { 8 }) {
        g.add_guards(&mut r);
    }
    if r.chance(1, 3) {
        g.move_futs(&mut r);
    }
    let g_calls = g.calls;
    let mut plan = g.plan;
    // unit numbers of statics follow the objects
    plan.neid = plan.neid.max(1);
    plan.calls = g_calls;
    plan
}
