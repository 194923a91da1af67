//! The reference model and the history checker.
//!
//! A mock is a list of expectations per method, each with a call counter; a
//! sequence is a level.  Every operation of a run (build an expectation, call,
//! checkpoint, drop) must appear to take effect at one instant between its
//! invocation and its return (a call: before its return closure starts).  The
//! checker follows the recorded history and keeps every model state that is
//! still possible (just-in-time linearisation).
use simcore::*;
use std::collections::{HashMap, HashSet};

const INF: u64 = u64::MAX;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct E {
    pub eid: u32,
    pub count: u64,
    pub min: u64,
    pub max: u64,
    used: bool,
    hits: u32,
    /// an object checkpoint failed: perhaps cleared, perhaps not
    maybe: bool,
    seq: Option<(u8, u32)>,
    m: Option<u8>,
    r: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Sq {
    level: u32,
    next: u32,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct State {
    pub units: Vec<Vec<Vec<E>>>,
    seqs: Vec<Sq>,
    /// does a call that its sequence refused count? 0: not known yet, 1: yes, 2: no
    refused: u8,
}

#[derive(Clone, Debug)]
pub struct Op {
    pub d: DynOp,
    pub thr: i32,
    pub plan: u32,
    pub inv: usize,
    pub end: usize,
    pub out: Option<Outcome>,
    acts: Vec<(u32, usize, u32, u32, Vec<u8>)>,
    actends: usize,
    faults: Vec<(At, u32)>,
    matches: Vec<(u32, usize)>,
    /// an optional part of that operation, which may or may not happen before it ends
    part_of: Option<usize>,
}

pub struct Unit {
    pub lists: &'static [ListInfo],
    pub is_static: bool,
}
pub struct Ck<'a> {
    pub units: &'a [Unit],
    pub nseq: usize,
    pub specs: HashMap<u32, (ESpec, i32, usize, usize)>,
    pub diag: bool,
    pub max_configs: usize,
    pub ops: Vec<Op>,
    pub final_live: HashSet<u32>,
    pub too_many: bool,
    pub peak: usize,
}

fn nums(s: &str) -> Vec<u64> {
    let mut v = vec![];
    let mut cur: Option<u64> = None;
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            cur = Some(cur.unwrap_or(0).wrapping_mul(10).wrapping_add(d as u64));
        } else if let Some(x) = cur.take() {
            v.push(x);
        }
    }
    v.extend(cur);
    v
}
/// the numbers of the sentence after `Expectation(..)`
fn msg_nums(m: &str) -> Vec<u64> {
    let t = match m.rfind("called ") {
        Some(i) => &m[i..],
        None => m,
    };
    nums(t)
}

type R = Result<Vec<State>, String>;

impl<'a> Ck<'a> {
    pub fn new(units: &'a [Unit], nseq: usize, diag: bool) -> Self {
        Ck {
            units,
            nseq,
            specs: HashMap::new(),
            diag,
            max_configs: 60_000,
            ops: vec![],
            final_live: HashSet::new(),
            too_many: false,
            peak: 0,
        }
    }

    fn step(&self, eid: u32, i: u8) -> &Step {
        &self.specs[&eid].0.steps[i as usize]
    }
    fn thr(&self, eid: u32) -> i32 {
        self.specs[&eid].1
    }
    fn accepts(&self, e: &E, args: &[u8]) -> bool {
        match e.m {
            None => true,
            Some(i) => match self.step(e.eid, i) {
                Step::With(m) | Step::Withf(m) | Step::WithfSt(m) => {
                    args.iter().zip(m).all(|(v, k)| (*k >> (*v & 7)) & 1 == 1)
                }
                _ => unreachable!(),
            },
        }
    }
    fn m_is_st(&self, e: &E) -> bool {
        e.m.map_or(false, |i| matches!(self.step(e.eid, i), Step::WithfSt(_)))
    }
    fn ret(&self, e: &E) -> Option<RetSpec> {
        e.r.map(|i| match self.step(e.eid, i) {
            Step::Ret(r) => *r,
            _ => unreachable!(),
        })
    }
    fn r_is_st(&self, e: &E) -> bool {
        matches!(self.ret(e), Some(RetSpec::ConstSt | RetSpec::FnSt | RetSpec::OnceSt))
    }

    /// what the numbers and names of a message must be
    fn ck_msg(&self, unit: usize, list: usize, args: Option<&[u8]>, msg: &str, want: &[u64]) -> Result<(), String> {
        if !self.diag {
            return Ok(());
        }
        let li = &self.units[unit].lists[list];
        let short = li.name.rsplit("::").next().unwrap();
        if !msg.contains(short) {
            return Err(format!("the message does not name `{short}`: {msg:?}"));
        }
        if let Some(a) = args {
            let mut t = format!("{}(", li.name);
            let mut ok = true;
            for (i, f) in li.dbg.iter().enumerate() {
                if i > 0 {
                    t.push_str(", ");
                }
                if *f == "*" {
                    ok = false;
                    break;
                }
                if f.contains("Tok({})") {
                    t.push_str(&f.replace("Tok({})", &tok_text(a[i] as u32)));
                } else {
                    t.push_str(&f.replace("{}", &a[i].to_string()));
                }
            }
            if ok {
                t.push(')');
            }
            if !msg.contains(&t) {
                return Err(format!("the message does not show the call as `{t}`: {msg:?}"));
            }
        }
        if !want.is_empty() {
            let n = msg_nums(msg);
            if n != want {
                return Err(format!("the message says {n:?} where the history says {want:?}: {msg:?}"));
            }
        }
        Ok(())
    }

    fn fold(&self, s: &mut State, spec: &ESpec, out: &Outcome) -> Result<E, String> {
        let mut e = E {
            eid: spec.eid,
            count: 0,
            min: 0,
            max: INF,
            used: false,
            hits: 0,
            maybe: false,
            seq: None,
            m: None,
            r: None,
        };
        let want = |c: Class| match out {
            Outcome::Panic(k, _) if *k == c => Ok(()),
            o => Err(format!("building expectation #{} should have panicked with {c:?}, got {o:?}", spec.eid)),
        };
        for (i, st) in spec.steps.iter().enumerate() {
            match st {
                Step::Times(t) => {
                    let (a, b) = match *t {
                        TimesSpec::N(n) => (n as u64, n as u64),
                        TimesSpec::Range(a, b) => {
                            if b <= a {
                                want(Class::BadTimes)?;
                                return Ok(e);
                            }
                            (a as u64, b as u64 - 1)
                        }
                        TimesSpec::From(a) => (a as u64, INF),
                        TimesSpec::Full => (0, INF),
                        TimesSpec::Incl(a, b) => {
                            if b < a {
                                want(Class::BadTimes)?;
                                return Ok(e);
                            }
                            (a as u64, b as u64)
                        }
                        TimesSpec::To(b) => {
                            if b == 0 {
                                want(Class::BadTimes)?;
                                return Ok(e);
                            }
                            (0, b as u64 - 1)
                        }
                        TimesSpec::ToIncl(b) => (0, b as u64),
                    };
                    e.min = a;
                    e.max = b.min(INF);
                }
                Step::Never => {
                    e.min = 0;
                    e.max = 0;
                }
                Step::Once => {
                    e.min = 1;
                    e.max = 1;
                }
                Step::InSeq(q) => {
                    if e.min != e.max {
                        want(Class::NotExact)?;
                        return Ok(e);
                    }
                    if e.max > 0 {
                        e.seq = Some((*q as u8, s.seqs[*q].next));
                        s.seqs[*q].next += 1;
                    }
                }
                Step::With(_) | Step::Withf(_) | Step::WithfSt(_) => e.m = Some(i as u8),
                Step::Ret(_) => e.r = Some(i as u8),
            }
        }
        match out {
            Outcome::Ok(_) => Ok(e),
            o => Err(format!("building expectation #{} should have succeeded, got {o:?}", spec.eid)),
        }
    }

    fn resolve(&self, s: &State, unit: usize, list: usize) -> Vec<State> {
        if !s.units[unit][list].iter().any(|e| e.maybe) {
            return vec![s.clone()];
        }
        let mut a = s.clone();
        a.units[unit][list].retain(|e| !e.maybe);
        let mut b = s.clone();
        for e in b.units[unit][list].iter_mut() {
            e.maybe = false;
        }
        vec![a, b]
    }

    fn apply(&self, s: &State, op: &Op) -> R {
        let out = match &op.out {
            Some(o) => o,
            None => return Ok(vec![s.clone()]),
        };
        match &op.d {
            DynOp::New { unit } => {
                let mut n = s.clone();
                for l in n.units[*unit].iter_mut() {
                    l.clear()
                }
                match out {
                    Outcome::Ok(_) => Ok(vec![n]),
                    o => Err(format!("creating a mock panicked: {o:?}")),
                }
            }
            DynOp::Expect { unit, list, spec } => {
                let mut v = vec![];
                for mut n in self.resolve(s, *unit, *list) {
                    let e = self.fold(&mut n, spec, out)?;
                    n.units[*unit][*list].push(e);
                    v.push(n);
                }
                Ok(v)
            }
            DynOp::Call { unit, list, args, own } => {
                let mut v = vec![];
                let mut why = String::new();
                for n in self.resolve(s, *unit, *list) {
                    match self.call(&n, op, *unit, *list, args, *own, out) {
                        Ok(x) => v.extend(x),
                        Err(x) => why = x,
                    }
                }
                if v.is_empty() { Err(why) } else { Ok(v) }
            }
            DynOp::Checkpoint { unit } => self.verify(s, op.thr, *unit, false, self.units[*unit].is_static, out),
            DynOp::Drop { unit, panicking } => self.verify(s, op.thr, *unit, *panicking, true, out),
            DynOp::CtxDrop { unit, panicking } => self.verify(s, op.thr, *unit, *panicking, true, out),
            DynOp::ModCheckpoint { units } => {
                let mut res = vec![];
                let mut err = String::new();
                for u in units {
                    match self.verify(s, op.thr, *u, false, true, out) {
                        Ok(v) => res.extend(v),
                        Err(e) => err = e,
                    }
                }
                if units.is_empty() {
                    res.push(s.clone());
                }
                if res.is_empty() { Err(err) } else { Ok(res) }
            }
        }
    }

    fn verify(&self, s: &State, thr: i32, unit: usize, panicking: bool, always_clear: bool, out: &Outcome) -> R {
        let mut n = s.clone();
        for l in n.units[unit].iter_mut() {
            l.clear()
        }
        if panicking {
            return match out {
                Outcome::Ok(_) => Ok(vec![n]),
                o => Err(format!("dropping during an unwind panicked: {o:?}")),
            };
        }
        let mut unmet = vec![];
        let mut stwrong = false;
        for (li, l) in s.units[unit].iter().enumerate() {
            for e in l {
                if e.count < e.min || e.count > e.max {
                    unmet.push((li, e.clone()));
                }
                stwrong |= self.thr(e.eid) != thr && (self.m_is_st(e) || self.r_is_st(e));
            }
        }
        match out {
            Outcome::Ok(_) => {
                unmet.retain(|(_, e)| !e.maybe);
                if unmet.is_empty() {
                    return Ok(vec![n]);
                }
                return Err(format!(
                    "verification succeeded although {} (calls: {}, expected at least {} and at most {})",
                    unmet.iter().map(|(_, e)| format!("expectation #{} is not satisfied", e.eid)).collect::<Vec<_>>().join(", "),
                    unmet[0].1.count,
                    unmet[0].1.min,
                    unmet[0].1.max
                ));
            }
            Outcome::Panic(c, msg) => {
                let mut why = String::new();
                let ok = match c {
                    Class::TooFew => unmet.iter().any(|(li, e)| {
                        e.count < e.min
                            && match self.ck_msg(unit, *li, None, msg, &[e.count, e.min]) {
                                Ok(()) => true,
                                Err(x) => {
                                    why = x;
                                    false
                                }
                            }
                    }),
                    Class::TooMany => unmet.iter().any(|(li, e)| {
                        e.count > e.max
                            && match self.ck_msg(unit, *li, None, msg, &[e.count, e.max]) {
                                Ok(()) => true,
                                Err(x) => {
                                    why = x;
                                    false
                                }
                            }
                    }),
                    Class::StThread => stwrong,
                    _ => false,
                };
                if !ok {
                    let st = s.units[unit]
                        .iter()
                        .flatten()
                        .map(|e| format!("#{}: {} calls of {}..={}", e.eid, e.count, e.min, e.max as i64))
                        .collect::<Vec<_>>()
                        .join(", ");
                    return Err(format!("verification failed with {c:?} ({msg:?}) but the expectations were [{st}] {why}"));
                }
                let mut v = vec![n];
                if !always_clear {
                    // the failing method is cleared, the others may keep theirs
                    let mut x = s.clone();
                    for e in x.units[unit].iter_mut().flatten() {
                        e.maybe = true;
                    }
                    if matches!(c, Class::TooFew | Class::TooMany) {
                        let mut hit: Vec<usize> = unmet.iter().map(|(i, _)| *i).collect();
                        hit.dedup();
                        for h in hit {
                            let mut y = x.clone();
                            y.units[unit][h].clear();
                            v.push(y);
                        }
                    } else {
                        v.push(x);
                    }
                }
                Ok(v)
            }
        }
    }

    fn call(&self, s: &State, op: &Op, unit: usize, list: usize, args: &[u8], own: bool, out: &Outcome) -> R {
        let nl = s.units[unit][list].len();
        let li = &self.units[unit].lists[list];
        let mut res: Vec<State> = vec![];
        let mut why: Vec<String> = vec![];
        let okp = |c: &Class| matches!(out, Outcome::Panic(k, _) if k == c);
        let msg = if let Outcome::Panic(_, m) = out { m.as_str() } else { "" };

        // a panicking Debug of an argument ends the call
        if let Some((At::Debug, _)) = op.faults.iter().find(|f| f.0 == At::Debug) {
            if !matches!(out, Outcome::Panic(Class::Injected(At::Debug, _), _)) {
                return Err(format!("a panic in Debug of an argument ended as {out:?}"));
            }
            res.push(self.after_own(s.clone(), unit, own, false, op.thr, out)?);
            // counted first
            for (i, e) in s.units[unit][list].iter().enumerate() {
                if self.accepts(e, args) && (e.count < e.max || nl == 1) {
                    let mut n = s.clone();
                    n.units[unit][list][i].count += 1;
                    res.push(self.after_own(n, unit, own, false, op.thr, out)?);
                    break;
                }
            }
            return Ok(res);
        }
        let mfault = op.faults.iter().find(|f| f.0 == At::Match).map(|f| f.1);

        let mut sel = None;
        for (i, e) in s.units[unit][list].iter().enumerate() {
            let full = e.count >= e.max && nl != 1;
            if self.m_is_st(e) && self.thr(e.eid) != op.thr {
                if okp(&Class::StThread) {
                    res.push(self.after_own(s.clone(), unit, own, false, op.thr, out)?);
                }
                if full {
                    continue;
                }
                if res.is_empty() {
                    why.push(format!("expectation #{} has a single-threaded matcher of thread {}", e.eid, self.thr(e.eid)));
                }
                return if res.is_empty() { Err(why.join("; ")) } else { Ok(res) };
            }
            if mfault == Some(e.eid) {
                if matches!(out, Outcome::Panic(Class::Injected(At::Match, x), _) if *x == e.eid) {
                    res.push(self.after_own(s.clone(), unit, own, false, op.thr, out)?);
                }
                return if res.is_empty() {
                    Err(format!("a panic in the matcher of expectation #{} ended as {out:?}", e.eid))
                } else {
                    Ok(res)
                };
            }
            if self.accepts(e, args) && !full {
                sel = Some(i);
                break;
            }
        }
        if mfault.is_some() {
            return if res.is_empty() { Err("matcher panic by an expectation that should not have been consulted".into()) } else { Ok(res) };
        }
        let Some(i) = sel else {
            if okp(&Class::NoMatch) {
                match self.ck_msg(unit, list, Some(args), msg, &[]) {
                    Ok(()) => res.push(self.after_own(s.clone(), unit, own, false, op.thr, out)?),
                    Err(x) => why.push(x),
                }
            } else {
                why.push("no expectation can take this call".into());
            }
            return if res.is_empty() { Err(why.join("; ")) } else { Ok(res) };
        };
        let e = s.units[unit][list][i].clone();
        let mut n = s.clone();
        n.units[unit][list][i].count += 1;
        let cnt = e.count + 1;
        let fin = |n: State, good: bool| self.after_own(n, unit, own, good, op.thr, out);
        if cnt > e.max {
            // over
            if okp(&Class::Over) {
                let w: Vec<u64> = if e.max == 0 { vec![] } else { vec![cnt, e.max] };
                match self.ck_msg(unit, list, None, msg, &w) {
                    Ok(()) => res.push(fin(n, false)?),
                    Err(x) => why.push(x),
                }
            } else {
                why.push(format!("call {cnt} of expectation #{} which allows at most {}", e.eid, e.max));
            }
            return if res.is_empty() { Err(why.join("; ")) } else { Ok(res) };
        }
        if let Some((q, p)) = e.seq {
            let lv = n.seqs[q as usize].level;
            if lv != p {
                if okp(&Class::Seq) {
                    match self.ck_msg(unit, list, Some(args), msg, &[]) {
                        Ok(()) => {
                            // refused calls count, or they don't: all alike
                            for (b, mut x) in [(1, n), (2, s.clone())] {
                                if x.refused & !b == 0 {
                                    x.refused = b;
                                    res.push(fin(x, false)?);
                                }
                            }
                        }
                        Err(x) => why.push(x),
                    }
                } else {
                    why.push(format!("expectation #{} is at place {p} of sequence {q} which stands at {lv}", e.eid));
                }
                return if res.is_empty() { Err(why.join("; ")) } else { Ok(res) };
            }
            if cnt >= e.min {
                n.seqs[q as usize].level = p + 1;
            }
        }
        // action
        let ne = |n: &mut State| -> *mut E { &mut n.units[unit][list][i] };
        let r = self.ret(&e);
        let step = e.r.map_or(99, |x| x as usize);
        let st_wrong = self.r_is_st(&e) && self.thr(e.eid) != op.thr;
        let seen = |k: &str| format!("expectation #{} should answer: {k}", e.eid);
        match r {
            None if NIGHTLY && (li.dflt)().is_some() => {
                let Res(code, _) = (li.dflt)().unwrap();
                let aux = if li.caps & C_VAR != 0 && code != EMPTY { e.hits } else { 0 };
                if op.acts.is_empty() && self.good(out, li, code, aux, own, &n, unit, op.thr) {
                    unsafe { (*ne(&mut n)).hits += 1 };
                    res.push(fin(n, true)?);
                } else {
                    why.push(seen("the default value"));
                }
            }
            None => {
                if okp(&Class::NoDefault) && op.acts.is_empty() {
                    match self.ck_msg(unit, list, None, msg, &[]) {
                        Ok(()) => {
                            res.push(fin(n, false)?);
                        }
                        Err(x) => why.push(x),
                    }
                } else {
                    why.push(seen("no return value was set"));
                }
            }
            Some(RetSpec::Const | RetSpec::ConstSt) => {
                let cf = op.faults.iter().any(|f| *f == (At::Clone, e.eid));
                if st_wrong {
                    if okp(&Class::StThread) {
                        res.push(fin(n, false)?);
                    } else {
                        why.push(seen("wrong thread"));
                    }
                } else if cf {
                    if okp(&Class::Injected(At::Clone, e.eid)) {
                        res.push(fin(n, false)?);
                    } else {
                        why.push(seen("the panic of clone"));
                    }
                } else if op.acts.is_empty() && self.good(out, li, code_of(e.eid, step, INV_CONST), 0, own, &n, unit, op.thr) {
                    res.push(fin(n, true)?);
                } else {
                    why.push(seen("its constant"));
                }
            }
            Some(RetSpec::RefConst) => {
                if op.acts.is_empty() && self.good(out, li, code_of(e.eid, step, INV_CONST), 0, own, &n, unit, op.thr) {
                    res.push(fin(n, true)?);
                } else {
                    why.push(seen("its constant reference"));
                }
            }
            Some(RetSpec::Var) => {
                if op.acts.is_empty() && self.good(out, li, code_of(e.eid, step, INV_CONST), e.hits, own, &n, unit, op.thr) {
                    unsafe { (*ne(&mut n)).hits += 1 };
                    res.push(fin(n, true)?);
                } else {
                    why.push(seen(&format!("its variable, written {} times", e.hits)));
                }
            }
            Some(k) => {
                let once = matches!(k, RetSpec::Once | RetSpec::OnceSt);
                if once && e.used {
                    if okp(&Class::OnceTwice) && op.acts.is_empty() {
                        match self.ck_msg(unit, list, None, msg, &[]) {
                            Ok(()) => {
                                res.push(fin(n, false)?);
                            }
                            Err(x) => why.push(x),
                        }
                    } else {
                        why.push(seen("its value was already moved out"));
                    }
                } else if st_wrong {
                    if okp(&Class::StThread) && op.acts.is_empty() {
                        res.push(fin(n, false)?);
                    } else {
                        why.push(seen("wrong thread"));
                    }
                } else if let [(eid, st, _inv, code, _)] = &op.acts[..] {
                    if *eid == e.eid && *st == step {
                        if once {
                            unsafe { (*ne(&mut n)).used = true };
                        }
                        if op.faults.iter().any(|f| *f == (At::Act, e.eid)) {
                            if okp(&Class::Injected(At::Act, e.eid)) {
                                res.push(fin(n, false)?);
                            } else {
                                why.push(seen("the panic of its closure"));
                            }
                        } else if op.actends == 1 && self.good(out, li, *code, 0, own, &n, unit, op.thr) {
                            res.push(fin(n, true)?);
                        } else {
                            why.push(seen("the value its closure returned"));
                        }
                    } else {
                        why.push(format!(
                            "expectation #{} step {step} should answer but the closure of #{eid} step {st} ran",
                            e.eid
                        ));
                    }
                } else {
                    why.push(format!("expectation #{}: closure ran {} times in this call", e.eid, op.acts.len()));
                }
            }
        }
        if res.is_empty() { Err(why.join("; ")) } else { Ok(res) }
    }

    /// does the outcome carry this value (or, for a consuming call, may it be
    /// the verification failure that followed)?
    fn good(&self, out: &Outcome, li: &ListInfo, code: u32, aux: u32, own: bool, n: &State, unit: usize, thr: i32) -> bool {
        match out {
            Outcome::Ok(Some(Res(c, a))) => !li.coded || (*c == code && *a == aux),
            Outcome::Panic(c, _) if own => {
                matches!(c, Class::TooFew | Class::TooMany | Class::StThread)
                    && self.verify(n, thr, unit, false, true, out).is_ok()
            }
            _ => false,
        }
    }
    /// a call that consumed the mock also verifies and drops it
    fn after_own(&self, mut n: State, unit: usize, own: bool, good: bool, thr: i32, out: &Outcome) -> Result<State, String> {
        if !own {
            return Ok(n);
        }
        if good {
            let mut v = self.verify(&n, thr, unit, false, true, out)?;
            return Ok(v.swap_remove(0));
        }
        for l in n.units[unit].iter_mut() {
            l.clear()
        }
        Ok(n)
    }

    // -------------------------------------------------------- history

    fn build(&mut self, log: &[Ev]) {
        let mut idx: HashMap<u32, usize> = HashMap::new();
        for (t, ev) in log.iter().enumerate() {
            match &ev.k {
                Ek::Inv(d) => {
                    idx.insert(ev.dop, self.ops.len());
                    if let DynOp::Expect { unit, list, spec } = d {
                        self.specs.insert(spec.eid, (spec.clone(), ev.thr, *unit, *list));
                    }
                    self.ops.push(Op {
                        d: d.clone(),
                        thr: ev.thr,
                        plan: ev.plan,
                        inv: t,
                        end: usize::MAX,
                        out: None,
                        acts: vec![],
                        actends: 0,
                        faults: vec![],
                        matches: vec![],
                        part_of: None,
                    });
                }
                Ek::Ret(o) => {
                    if let Some(&i) = idx.get(&ev.dop) {
                        self.ops[i].out = Some(o.clone());
                        self.ops[i].end = self.ops[i].end.min(t);
                    }
                }
                Ek::Act { eid, step, inv, code, vals } => {
                    if let Some(&i) = idx.get(&ev.dop) {
                        self.ops[i].end = self.ops[i].end.min(t);
                        self.ops[i].acts.push((*eid, *step, *inv, *code, vals.clone()));
                    }
                }
                Ek::ActEnd { .. } => {
                    if let Some(&i) = idx.get(&ev.dop) {
                        self.ops[i].actends += 1;
                    }
                }
                Ek::Match { eid, step } => {
                    if let Some(&i) = idx.get(&ev.dop) {
                        self.ops[i].matches.push((*eid, *step));
                    }
                }
                Ek::Fault { at, eid } => {
                    if let Some(&i) = idx.get(&ev.dop) {
                        self.ops[i].faults.push((*at, *eid));
                    }
                }
                Ek::Note(_) => {}
            }
        }
        // A module's checkpoint verifies its functions one after the other, in
        // any order; others may use those already done or not yet begun. If
        // one fails, some of the others may have been done before.
        for i in 0..self.ops.len() {
            let DynOp::ModCheckpoint { units } = self.ops[i].d.clone() else { continue };
            let o = &self.ops[i];
            let (thr, plan, inv, end) = (o.thr, o.plan, o.inv, o.end);
            let ok = matches!(o.out, Some(Outcome::Ok(_)));
            if o.out.is_none() || units.is_empty() {
                continue;
            }
            if ok {
                self.ops[i].d = DynOp::ModCheckpoint { units: vec![units[0]] };
            }
            for u in &units[ok as usize..] {
                self.ops.push(Op {
                    d: DynOp::ModCheckpoint { units: vec![*u] },
                    thr,
                    plan,
                    inv,
                    end: if ok { end } else { usize::MAX },
                    out: Some(Outcome::Ok(None)),
                    acts: vec![],
                    actends: 0,
                    faults: vec![],
                    matches: vec![],
                    part_of: if ok { None } else { Some(i) },
                });
            }
        }
    }

    /// Checks that need no search.
    fn direct(&self) -> Result<(), String> {
        let mut active: HashMap<u32, (Option<usize>, Option<usize>)> = HashMap::new();
        for (eid, (spec, ..)) in &self.specs {
            let m = spec.steps.iter().rposition(|s| matches!(s, Step::With(_) | Step::Withf(_) | Step::WithfSt(_)));
            let r = spec.steps.iter().rposition(|s| matches!(s, Step::Ret(_)));
            active.insert(*eid, (m, r));
        }
        // only expectations whose construction succeeded are checked for overridden steps
        let built: HashSet<u32> = self
            .ops
            .iter()
            .filter_map(|o| match (&o.d, &o.out) {
                (DynOp::Expect { spec, .. }, Some(Outcome::Ok(_))) => Some(spec.eid),
                _ => None,
            })
            .collect();
        for op in &self.ops {
            let DynOp::Call { unit, list, args, .. } = &op.d else {
                if !op.acts.is_empty() || !op.matches.is_empty() {
                    return Err(format!("user closures ran inside {:?}", op.d));
                }
                continue;
            };
            for (eid, step) in &op.matches {
                let (_, _, u, l) = &self.specs[eid];
                if (*u, *l) != (*unit, *list) {
                    return Err(format!(
                        "a call of {} consulted the matcher of expectation #{eid}, which belongs to {}",
                        self.units[*unit].lists[*list].name, self.units[*u].lists[*l].name
                    ));
                }
                // a replaced matcher must not be consulted
                if built.contains(eid) && active[eid].0 != Some(*step) {
                    return Err(format!("a replaced matcher of expectation #{eid} was consulted"));
                }
            }
            for (eid, step, _inv, _code, vals) in &op.acts {
                let (_, _, u, l) = &self.specs[eid];
                if (*u, *l) != (*unit, *list) {
                    return Err(format!(
                        "a call of {} ran the return closure of expectation #{eid}, which belongs to {}",
                        self.units[*unit].lists[*list].name, self.units[*u].lists[*l].name
                    ));
                }
                if vals.iter().zip(args).any(|(a, b)| (a & 7) != (b & 7)) || vals.len() != args.len() {
                    return Err(format!("the return closure of expectation #{eid} got arguments {vals:?}, the call passed {args:?}"));
                }
                let _ = step;
            }
            if let Some(Outcome::Panic(Class::Other, m)) = &op.out {
                return Err(format!("call of {} failed with an unknown message {m:?}", self.units[*unit].lists[*list].name));
            }
        }
        Ok(())
    }

    pub fn check(&mut self, log: &[Ev]) -> Result<(), String> {
        self.build(log);
        self.direct()?;
        let init = State {
            units: self.units.iter().map(|u| u.lists.iter().map(|_| vec![]).collect()).collect(),
            seqs: vec![Sq::default(); self.nseq],
            refused: 0,
        };
        // event order: invocation adds the op, its end requires it
        let mut evs: Vec<(usize, bool, usize)> = vec![];
        for (i, o) in self.ops.iter().enumerate() {
            evs.push((o.inv, false, i));
            if o.end != usize::MAX {
                evs.push((o.end, true, i));
            }
        }
        evs.sort();
        let mut pend: Vec<usize> = vec![];
        // configuration: state, set of pending ops already done (by op index)
        let mut confs: HashSet<(State, Vec<usize>)> = HashSet::new();
        confs.insert((init, vec![]));
        let mut work = 0;
        for (_, is_end, i) in evs {
            if !is_end {
                pend.push(i);
                continue;
            }
            let mut out: HashSet<(State, Vec<usize>)> = HashSet::new();
            let mut why: Vec<String> = vec![];
            let mut seen: HashSet<(State, Vec<usize>)> = HashSet::new();
            let mut stack: Vec<(State, Vec<usize>)> = vec![];
            for c in confs.drain() {
                if c.1.contains(&i) {
                    out.insert(c);
                } else {
                    stack.push(c);
                }
            }
            stack.sort_by(|a, b| a.1.cmp(&b.1));
            while let Some(c) = stack.pop() {
                // (what copying and comparing the state costs)
                let cost = 1 + c.0.units.iter().flatten().map(|l| l.len()).sum::<usize>() / 8;
                work += cost;
                if seen.len() + out.len() > self.max_configs || work > 10 * self.max_configs {
                    self.too_many = true;
                    return Ok(());
                }
                for &p in &pend {
                    if c.1.contains(&p) {
                        continue;
                    }
                    match self.apply(&c.0, &self.ops[p]) {
                        Ok(v) => {
                            work += cost * v.len();
                            for n in v {
                                let mut d = c.1.clone();
                                d.push(p);
                                d.sort();
                                let nc = (n, d);
                                if p == i {
                                    out.insert(nc);
                                } else if !seen.contains(&nc) {
                                    seen.insert(nc.clone());
                                    stack.push(nc);
                                }
                            }
                        }
                        Err(w) => {
                            if p == i && !why.contains(&w) && why.len() < 4 {
                                why.push(w);
                            }
                        }
                    }
                }
            }
            if out.is_empty() {
                let o = &self.ops[i];
                return Err(format!(
                    "operation {} on thread {}: {} gave {:?}, which no order of the concurrent operations explains: {}",
                    o.plan,
                    o.thr,
                    self.show(&o.d),
                    o.out.as_ref().unwrap(),
                    why.join(" | ")
                ));
            }
            let ops = &self.ops;
            let over = |x: usize| x == i || ops[x].part_of == Some(i);
            pend.retain(|x| !over(*x));
            self.peak = self.peak.max(out.len());
            confs = out
                .into_iter()
                .map(|(s, mut d)| {
                    d.retain(|x| !over(*x));
                    (s, d)
                })
                .collect();
        }
        for (s, _) in &confs {
            for u in &s.units {
                for l in u {
                    for e in l {
                        self.final_live.insert(e.eid);
                    }
                }
            }
        }
        Ok(())
    }

    pub fn show(&self, d: &DynOp) -> String {
        match d {
            DynOp::New { unit } => format!("create u{unit}"),
            DynOp::Expect { unit, list, spec } => {
                format!("expect #{} on u{unit} {}: {:?}", spec.eid, self.units[*unit].lists[*list].name, spec.steps)
            }
            DynOp::Call { unit, list, args, .. } => {
                format!("call of u{unit} {}{args:?}", self.units[*unit].lists[*list].name)
            }
            DynOp::Checkpoint { unit } => format!("checkpoint of u{unit}"),
            DynOp::Drop { unit, panicking } => format!("drop of u{unit} (unwinding: {panicking})"),
            DynOp::CtxDrop { unit, panicking } => format!("drop of the context of u{unit} (unwinding: {panicking})"),
            DynOp::ModCheckpoint { units } => format!("module checkpoint of {units:?}"),
        }
    }

    /// did an operation that ends this unit's expectations panic?
    fn failed_end(&self, unit: usize) -> bool {
        self.ops.iter().any(|o| {
            matches!(o.out, Some(Outcome::Panic(..)))
                && match &o.d {
                    DynOp::Call { unit: u, own, .. } => *own && *u == unit,
                    DynOp::Checkpoint { unit: u } | DynOp::Drop { unit: u, .. } | DynOp::CtxDrop { unit: u, .. } => {
                        *u == unit
                    }
                    DynOp::ModCheckpoint { units } => units.contains(&unit),
                    _ => false,
                }
        })
    }
    fn own_failed(&self) -> bool {
        self.ops.iter().any(|o| {
            matches!(o.out, Some(Outcome::Panic(..))) && matches!(&o.d, DynOp::Call { own: true, .. })
        })
    }

    /// Every tracked value must have been destroyed exactly once.
    pub fn tokens(&self, toks: &[TokSt]) -> Result<(), String> {
        for (i, t) in toks.iter().enumerate() {
            if t.drops == 1 {
                continue;
            }
            if t.drops > 1 {
                return Err(format!("value #{i} {:?} destroyed {} times", t.kind, t.drops));
            }
            match t.kind {
                TokKind::Cap { eid, st, .. } => {
                    if self.final_live.contains(&eid) {
                        continue;
                    }
                    if st {
                        let (_, _, unit, _) = self.specs[&eid];
                        let other = self.ops.iter().any(|o| {
                            o.thr != t.thr
                                && match &o.d {
                                    DynOp::Call { unit: u, .. }
                                    | DynOp::Checkpoint { unit: u }
                                    | DynOp::Drop { unit: u, .. }
                                    | DynOp::CtxDrop { unit: u, .. } => *u == unit,
                                    DynOp::ModCheckpoint { units } => units.contains(&unit),
                                    _ => false,
                                }
                        });
                        if other {
                            continue;
                        }
                    }
                    // std's HashMap leaks the rest of its content when the
                    // destructor of one entry panics; expectations of the
                    // instantiations of a generic method live in one
                    let (_, _, unit, list) = self.specs[&eid];
                    let lists = self.units[unit].lists;
                    let generic = lists.iter().enumerate().any(|(i, l)| i != list && l.name == lists[list].name);
                    if generic && self.failed_end(unit) {
                        continue;
                    }
                    return Err(format!("a value captured by expectation #{eid} was never destroyed"));
                }
                // rustc leaks a finished return value when the destructor of a
                // local panics afterwards (rust-lang/rust#47949): a call that
                // consumes a mock and then fails verification
                TokKind::Ret if self.own_failed() => continue,
                TokKind::Ret
                    if (0..self.units.len()).any(|u| {
                        let l = self.units[u].lists;
                        self.failed_end(u) && (1..l.len()).any(|i| l[..i].iter().any(|x| x.name == l[i].name))
                    }) =>
                {
                    continue
                }
                k => return Err(format!("value #{i} ({k:?}) created on thread {} was never destroyed", t.thr)),
            }
        }
        Ok(())
    }
}
