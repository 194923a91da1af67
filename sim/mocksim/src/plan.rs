//! Plans: what the simulated threads do.
use simcore::*;
use std::collections::BTreeSet;
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum POp {
    New { o: usize },
    SeqNew { q: usize },
    SeqDrop { q: usize },
    Expect { o: usize, l: usize, spec: ESpec },
    Call { o: usize, l: usize, args: Vec<u8>, caught: bool, n: u32 },
    Checkpoint { o: usize },
    DropRef { o: usize },
    CtxNew { c: usize, s: usize, k: usize },
    CtxExpect { c: usize, l: usize, spec: ESpec },
    CtxCheckpoint { c: usize },
    CtxDrop { c: usize },
    SCall { s: usize, l: usize, args: Vec<u8>, caught: bool, n: u32 },
    ModCheckpoint { g: usize },
    FutNew { f: usize, o: usize, l: usize, args: Vec<u8> },
    FutPoll { f: usize },
    FutDrop { f: usize },
    Start { r: usize },
    Join { r: usize },
    Frame { body: Vec<PNode> },
    /// a guard: its operations run when the scope ends, by a panic or normally
    Defer { body: Vec<PNode> },
    Die,
    Await { op: u32 },
    Yield { n: u32 },
}

#[derive(Clone, Debug)]
pub struct PNode {
    pub id: u32,
    pub op: POp,
}

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// object -> catalogue index
    pub objs: Vec<usize>,
    /// static slot -> catalogue index
    pub stats: Vec<usize>,
    pub nctx: usize,
    pub nseq: usize,
    pub nfut: usize,
    pub neid: usize,
    pub nops: u32,
    /// calls planned, counting those of bursts
    pub calls: u32,
    pub main: Vec<PNode>,
    /// workers[w][round]
    pub workers: Vec<Vec<Vec<PNode>>>,
    /// share[round][worker] = (object, given away?)
    pub share: Vec<Vec<Vec<(usize, bool)>>>,
    /// fshare[round][worker]: futures given away
    pub fshare: Vec<Vec<Vec<usize>>>,
    pub nested: Vec<PNode>,
    pub behs: Vec<(u32, Beh)>,
    pub nbeh: u32,
    /// calls whose argument Debug panics
    pub dbg: Vec<u32>,
    /// expectations whose matchers the plan's freedom from deadlock rests on
    pub keep: Vec<u32>,
    /// nested operations that call the method they are nested in
    pub selfs: Vec<usize>,
}

fn strip(v: &mut Vec<PNode>, drop: &BTreeSet<u32>) {
    v.retain(|n| !drop.contains(&n.id));
    for n in v.iter_mut() {
        if let POp::Frame { body } | POp::Defer { body } = &mut n.op {
            strip(body, drop)
        }
    }
}
fn ids(v: &[PNode], out: &mut Vec<u32>) {
    for n in v {
        out.push(n.id);
        if let POp::Frame { body } | POp::Defer { body } = &n.op {
            ids(body, out)
        }
    }
}
pub fn node_ids(v: &[PNode]) -> Vec<u32> {
    let mut o = vec![];
    ids(v, &mut o);
    o
}

pub const BEH_BASE: u32 = 1_000_000;
pub const DBG_BASE: u32 = 2_000_000;
pub const STEP_BASE: u32 = 3_000_000;

impl Plan {
    /// Everything minimisation may remove.
    pub fn removable(&self) -> Vec<u32> {
        let mut o = vec![];
        for b in &self.behs {
            o.push(BEH_BASE + b.1.id);
        }
        for d in &self.dbg {
            o.push(DBG_BASE + d);
        }
        for w in self.workers.iter().rev() {
            for r in w.iter().rev() {
                let mut v = node_ids(r);
                v.reverse();
                o.extend(v);
            }
        }
        let mut v = node_ids(&self.main);
        v.reverse();
        o.extend(v);
        for n in &self.nested {
            if let POp::Frame { body } | POp::Defer { body } = &n.op {
                let mut v = node_ids(body);
                v.reverse();
                o.extend(v);
            }
        }
        self.each_spec(&mut |s| {
            for i in 0..s.steps.len() {
                if self.keep.contains(&s.eid) {
                    continue;
                }
                o.push(STEP_BASE + s.eid * 16 + i as u32);
            }
        });
        o
    }
    fn each_spec(&self, f: &mut dyn FnMut(&ESpec)) {
        fn go(v: &[PNode], f: &mut dyn FnMut(&ESpec)) {
            for n in v {
                match &n.op {
                    POp::Expect { spec, .. } | POp::CtxExpect { spec, .. } => f(spec),
                    POp::Frame { body } | POp::Defer { body } => go(body, f),
                    _ => {}
                }
            }
        }
        go(&self.main, f);
        go(&self.nested, f);
        for w in &self.workers {
            for r in w {
                go(r, f)
            }
        }
    }
    fn each_spec_mut(&mut self, f: &mut dyn FnMut(&mut ESpec)) {
        fn go(v: &mut [PNode], f: &mut dyn FnMut(&mut ESpec)) {
            for n in v {
                match &mut n.op {
                    POp::Expect { spec, .. } | POp::CtxExpect { spec, .. } => f(spec),
                    POp::Frame { body } | POp::Defer { body } => go(body, f),
                    _ => {}
                }
            }
        }
        go(&mut self.main, f);
        go(&mut self.nested, f);
        for w in self.workers.iter_mut() {
            for r in w {
                go(r, f)
            }
        }
    }
    pub fn apply_drops(&mut self, drop: &BTreeSet<u32>) {
        self.behs.retain(|b| !drop.contains(&(BEH_BASE + b.1.id)));
        self.dbg.retain(|d| !drop.contains(&(DBG_BASE + d)));
        strip(&mut self.main, drop);
        for n in self.nested.iter_mut() {
            if let POp::Frame { body } | POp::Defer { body } = &mut n.op {
                strip(body, drop)
            }
        }
        for w in self.workers.iter_mut() {
            for r in w.iter_mut() {
                strip(r, drop)
            }
        }
        // nobody waits for what does not exist
        let mut live: BTreeSet<u32> = node_ids(&self.main).into_iter().collect();
        for r in self.workers.iter().flatten() {
            live.extend(node_ids(r));
        }
        fn awaits(v: &mut Vec<PNode>, live: &BTreeSet<u32>) {
            v.retain(|n| !matches!(n.op, POp::Await { op } if !live.contains(&op)));
            for n in v.iter_mut() {
                if let POp::Frame { body } | POp::Defer { body } = &mut n.op {
                    awaits(body, live)
                }
            }
        }
        awaits(&mut self.main, &live);
        for r in self.workers.iter_mut().flatten() {
            awaits(r, &live);
        }
        self.behs.retain(|b| !matches!(b.1.what, What::Wait(op) if !live.contains(&op)));
        self.each_spec_mut(&mut |s| {
            // keep indices stable: replaced by a no-op
            let mut i = 0;
            let eid = s.eid;
            s.steps.retain(|_| {
                i += 1;
                !drop.contains(&(STEP_BASE + eid * 16 + i - 1))
            });
        });
    }
    pub fn pretty(&self, shapes: &[ShapeInfo], stats: &[StaticInfo]) -> String {
        let mut s = String::new();
        for (i, o) in self.objs.iter().enumerate() {
            let _ = writeln!(s, "object o{i}: {}", shapes[*o].name);
        }
        for (i, o) in self.stats.iter().enumerate() {
            let _ = writeln!(s, "static s{i}: {}", stats[*o].name);
        }
        fn go(s: &mut String, v: &[PNode], ind: usize) {
            for n in v {
                if let POp::Frame { body } | POp::Defer { body } = &n.op {
                    let what = if matches!(n.op, POp::Defer { .. }) { "at the end of this scope" } else { "scope" };
                    let _ = writeln!(s, "{:ind$}[{}] {what} {{", "", n.id);
                    go(s, body, ind + 2);
                    let _ = writeln!(s, "{:ind$}}}", "");
                } else {
                    let _ = writeln!(s, "{:ind$}[{}] {:?}", "", n.id, n.op);
                }
            }
        }
        let _ = writeln!(s, "thread 0:");
        go(&mut s, &self.main, 2);
        for (w, rs) in self.workers.iter().enumerate() {
            for (r, v) in rs.iter().enumerate() {
                if v.is_empty() {
                    continue;
                }
                let _ = writeln!(s, "thread {} round {r} (gets {:?}, futures {:?}):", w + 1, self.share.get(r).map(|x| &x[w]), self.fshare.get(r).map(|x| &x[w]));
                go(&mut s, v, 2);
            }
        }
        if !self.nested.is_empty() {
            let _ = writeln!(s, "nested operations:");
            go(&mut s, &self.nested, 2);
        }
        for (e, b) in &self.behs {
            let _ = writeln!(s, "behaviour of expectation #{e}: {b:?}");
        }
        for d in &self.dbg {
            let _ = writeln!(s, "Debug of an argument of operation {d} panics");
        }
        s
    }
}
