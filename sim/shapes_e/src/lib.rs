//! Catalogue part E: async methods and futures.
#![allow(dead_code, clippy::all)]
use async_trait::async_trait;
use mockall::*;
use simcore::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context as Cx, Poll, RawWaker, RawWakerVTable, Waker};

pub fn waker() -> Waker {
    const VT: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), &VT), |_| {}, |_| {}, |_| {});
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}
fn now<F: Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let w = waker();
    match f.as_mut().poll(&mut Cx::from_waker(&w)) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("future of a mock is pending"),
    }
}

#[automock]
#[async_trait]
pub trait As {
    async fn f(&self, x: u8) -> u32;
    async fn g(&self, t: Tok) -> Tok;
    async fn r(&self, t: &Tok, s: &str) -> u32;
    fn sync(&self, x: u8) -> u32;
}
shape!(ShAs, MockAs, MockAs::new(), F_ASYNC | F_DROPARG, {
    a "MockAs::f" (x: u8) own u32, with, &["{}"], |m| m.expect_f() => m.f(x);
    a "MockAs::g" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_g() => m.g(t);
    r "MockAs::sync" (x: u8) own u32, with, &["{}"], |m| m.expect_sync() => m.sync(x);
    a "MockAs::r" (t: Tok, s: String) own u32, with, &["Tok({})", "\"s{}\""], |m| m.expect_r() =>
        async move { m.r(&t, &s).await };
});
mock! {
    pub AsS {
        pub async fn h(&self, x: u8) -> u32;
        pub async fn gen<T: 'static>(&self, t: T) -> T;
    }
    #[async_trait]
    impl As for AsS {
        async fn f(&self, x: u8) -> u32;
        async fn g(&self, t: Tok) -> Tok;
        async fn r(&self, t: &Tok, s: &str) -> u32;
        fn sync(&self, x: u8) -> u32;
    }
}
shape!(ShAsS, MockAsS, MockAsS::new(), F_ASYNC | F_DROPARG | F_GENERIC | F_MULTI, {
    a "MockAsS::h" (x: u8) own u32, with, &["{}"], |m| m.expect_h() => m.h(x);
    a "MockAsS::gen" (t: u32) own u32, with, &["?"], |m| m.expect_gen::<u32>() => m.gen(t);
    a "MockAsS::gen" (t: Tok) own Tok, with, &["?"], |m| m.expect_gen::<Tok>() => m.gen(t);
    a "MockAsS::f" (x: u8) own u32, with, &["{}"], |m| m.expect_f() => As::f(m, x);
    a "MockAsS::g" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_g() => As::g(m, t);
    r "MockAsS::sync" (x: u8) own u32, with, &["{}"], |m| m.expect_sync() => As::sync(m, x);
});
type Pf = Pin<Box<dyn Future<Output = u32> + Send>>;
pub struct PfW(pub u32);
pub struct Fut32(pub u32);
#[automock]
pub trait Rp {
    fn fut(&self, x: u8) -> impl Future<Output = u32> + Send;
    fn it(&self, x: u8) -> impl Iterator<Item = u32>;
}
thread_local! {
    static CALLED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub struct ShRp(MockRp);
impl ShRp {
    pub const LISTS: &'static [ListInfo] = &[
        ListInfo { name: "MockRp::fut", nargs: 1, recv: Recv::Ref, caps: CAP_OWNNC, with: true, coded: true, dbg: &["{}"], dflt: || None },
        ListInfo { name: "MockRp::it", nargs: 1, recv: Recv::Ref, caps: CAP_OWNNC, with: true, coded: true, dbg: &["{}"], dflt: || None },
    ];
    pub const INFO: ShapeInfo =
        ShapeInfo { name: "ShRp", flags: F_ASYNC, lists: Self::LISTS, make: || Box::new(ShRp(MockRp::new())) };
}
macro_rules! rp {
    ($e:expr, $spec:expr, $mk:expr) => {{
        let e = $e;
        for (si, s) in $spec.steps.iter().enumerate() {
            let eid = $spec.eid;
            match s {
                Step::Times(t) => { match *t {
                    TimesSpec::N(n) => { e.times(n); }
                    TimesSpec::Range(a, b) => { e.times(a..b); }
                    TimesSpec::From(a) => { e.times(a..); }
                    TimesSpec::Full => { e.times(..); }
                    TimesSpec::Incl(a, b) => { e.times(a..=b); }
                    TimesSpec::To(b) => { e.times(..b); }
                    TimesSpec::ToIncl(b) => { e.times(..=b); }
                } }
                Step::Never => { e.never(); }
                Step::Once => { e.once(); }
                Step::InSeq(q) => { with_seq(*q, |s| { e.in_sequence(s); }); }
                Step::With(m) => { e.with(MaskPred::new(eid, si, m, 0)); }
                Step::Withf(m) => { let k = Masks::new(eid, si, m); e.withf(move |x| k.check(&[*x])); }
                Step::WithfSt(m) => { let k = MasksSt::new(eid, si, m); e.withf_st(move |x| k.check(&[*x])); }
                Step::Ret(r) => match r {
                    RetSpec::Fn => { let c = Cap::new(eid, si); e.returning(move |x| $mk(c.act(&[x]))); }
                    RetSpec::FnSt => { let c = CapSt::new(eid, si); e.returning_st(move |x| $mk(c.act(&[x]))); }
                    RetSpec::Once => { let c = Cap::new(eid, si); e.return_once(move |x| $mk(c.act(&[x]))); }
                    RetSpec::OnceSt => { let c = CapSt::new(eid, si); e.return_once_st(move |x| $mk(c.act(&[x]))); }
                    _ => unreachable!(),
                },
            }
        }
    }};
}
impl Shape for ShRp {
    fn expect(&mut self, l: usize, spec: &ESpec) {
        match l {
            0 => rp!(self.0.expect_fut(), spec, |c| {
                CALLED.set(true);
                Box::pin(std::future::ready(c))
            }),
            1 => rp!(self.0.expect_it(), spec, |c| Box::new(std::iter::once(c))),
            _ => unreachable!(),
        }
    }
    fn call(&self, l: usize, a: &[u8]) -> Res {
        match l {
            0 => {
                // the call is made when the method is called, not when the
                // future it returns is polled
                CALLED.set(false);
                let f = self.0.fut(a[0]);
                if !CALLED.get() {
                    world().viol.push("a method returning an impl Future made no call when it was called".to_string());
                }
                now(f).res()
            }
            1 => self.0.it(a[0]).next().unwrap().res(),
            _ => unreachable!(),
        }
    }
    fn checkpoint(&mut self) {
        self.0.checkpoint()
    }
}
mock! {
    pub AsStat {
        pub async fn sa(x: u8) -> u32;
    }
}
statics!(SeSa, F_ASYNC, None, { ctx |m| MockAsStat::sa_context(), {
    "MockAsStat::sa" (x: u8) own u32, with, &["{}"], m.expect() => now(MockAsStat::sa(x));
} });

pub const SHAPES: &[ShapeInfo] = &[ShAs::INFO, ShAsS::INFO, ShRp::INFO];
pub const STATICS: &[StaticInfo] = &[SeSa::INFO];
