//! Catalogue part A: plain traits, arity, ownership of arguments, receivers.
#![allow(dead_code, clippy::all)]
use mockall::*;
use simcore::*;
use std::pin::Pin;

// -------------------------------------------------------------- plain trait
#[automock]
pub trait Plain {
    fn zero(&self) -> u32;
    fn one(&self, x: u8) -> u32;
    fn two(&self, x: u8, y: i32) -> String;
    fn unit(&self, x: u64);
    fn muta(&mut self, x: u8) -> u32;
}
shape!(ShPlain, MockPlain, MockPlain::new(), F_PLAIN, {
    r "MockPlain::zero" () own u32, with, &[], |m| m.expect_zero() => m.zero();
    r "MockPlain::one" (x: u8) own u32, with, &["{}"], |m| m.expect_one() => m.one(x);
    r "MockPlain::two" (x: u8, y: i32) own String, with, &["{}", "{}"], |m| m.expect_two() => m.two(x, y);
    r "MockPlain::unit" (x: u64) own (), with, &["{}"], |m| m.expect_unit() => m.unit(x);
    m "MockPlain::muta" (x: u8) own u32, with, &["{}"], |m| m.expect_muta() => m.muta(x);
});

// -------------------------------------------------------------- many args
#[automock]
pub trait Many {
    fn seven(&self, a: u8, b: u16, c: String, d: u32, e: Option<u8>, f: i64, g: Tok) -> Tok;
    fn three(&self, a: &str, b: &[u8], c: &u32) -> u32;
    fn pair(&self, t: (u8, u8), v: Vec<u8>) -> Result<u32, String>;
}
shape!(ShMany, MockMany, MockMany::new(), F_PLAIN | F_DROPARG, {
    r "MockMany::seven" (a: u8, b: u16, c: String, d: u32, e: Option<u8>, f: i64, g: Tok) own Tok, with,
        &["{}", "{}", "\"s{}\"", "{}", "*", "{}", "Tok({})"], |m| m.expect_seven() => m.seven(a, b, c, d, e, f, g);
    r "MockMany::three" (a: String, b: Vec<u8>, c: u32) own u32, with, &["\"s{}\"", "[{}]", "{}"],
        |m| m.expect_three() => m.three(&a, &b, &c);
    r "MockMany::pair" (t: (u8, u8), v: Vec<u8>) own Result<u32, String>, with, &["*", "[{}]"],
        |m| m.expect_pair() => m.pair(t, v);
});

// -------------------------------------------------------------- drop tracked values, struct via mock!
mock! {
    pub Toks {
        pub fn take(&self, t: Tok) -> u32;
        pub fn give(&self) -> Tok;
        pub fn swap(&self, t: Tok, x: u8) -> Tok;
        pub fn peek(&self, t: &Tok) -> u32;
        pub fn boxed(&self, t: Box<Tok>) -> Option<u32>;
        pub fn swapm(&mut self, t: Tok) -> Tok;
    }
}
shape!(ShToks, MockToks, MockToks::new(), F_PLAIN | F_DROPARG, {
    r "MockToks::take" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_take() => m.take(t);
    r "MockToks::give" () own Tok, with, &[], |m| m.expect_give() => m.give();
    r "MockToks::swap" (t: Tok, x: u8) own Tok, with, &["Tok({})", "{}"], |m| m.expect_swap() => m.swap(t, x);
    r "MockToks::peek" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_peek() => m.peek(&t);
    r "MockToks::boxed" (t: Box<Tok>) own Option<u32>, with, &["Tok({})"], |m| m.expect_boxed() => m.boxed(t);
    m "MockToks::swapm" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_swapm() => m.swapm(t);
});

// -------------------------------------------------------------- receivers
mock! {
    pub Recv {
        pub fn bx(self: Box<Self>, x: u8) -> u32;
        pub fn val(self, x: u8) -> u32;
        pub fn pinned(self: Pin<&Self>, x: u8) -> u32;
        pub fn pinm(self: Pin<&mut Self>, x: u8) -> u32;
        pub fn plain(&self, x: u8) -> u32;
        pub fn valmut(mut self, t: Tok) -> Tok;
    }
}
shape!(ShRecv, MockRecv, MockRecv::new(), F_OWN, {
    o "MockRecv::bx" (x: u8) own u32, with, &["{}"], |m| m.expect_bx() => Box::new(m).bx(x);
    o "MockRecv::val" (x: u8) own u32, with, &["{}"], |m| m.expect_val() => m.val(x);
    r "MockRecv::pinned" (x: u8) own u32, with, &["{}"], |m| m.expect_pinned() => Pin::new(m).pinned(x);
    m "MockRecv::pinm" (x: u8) own u32, with, &["{}"], |m| m.expect_pinm() => Pin::new(m).pinm(x);
    r "MockRecv::plain" (x: u8) own u32, with, &["{}"], |m| m.expect_plain() => m.plain(x);
    o "MockRecv::valmut" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_valmut() => m.valmut(t);
});

// -------------------------------------------------------------- concretized and non-Debug arguments
pub struct NoDebug(pub u8);
impl Enc for NoDebug {
    fn enc(v: u8) -> Self {
        NoDebug(v)
    }
}
impl Dec for NoDebug {
    fn dec(&self) -> u8 {
        self.0
    }
}
#[automock]
pub trait Concr {
    #[mockall::concretize]
    fn byref<P: AsRef<str>>(&self, p: P) -> u32;
    #[mockall::concretize]
    fn clos<F: Fn(u8) -> u8 + Send + 'static>(&self, f: F) -> u32;
    #[mockall::concretize]
    fn refarg<P: AsRef<str>>(&self, p: &P, x: u8) -> u32;
    #[mockall::concretize]
    fn slice<P: AsRef<str>>(&self, p: &[P]) -> u32;
    fn nodebug(&self, n: NoDebug) -> u32;
    fn imp<F: Fn(u8) -> u8 + Send + 'static>(&self, f: F) -> u32;
}
pub struct Cl(u8);
impl Enc for Cl {
    fn enc(v: u8) -> Self {
        Cl(v)
    }
}
fn dec_asref(p: &dyn AsRef<str>) -> u8 {
    p.as_ref().dec()
}
/// wraps arguments the generic macro cannot decode through a trait impl
pub struct ShConcr(MockConcr);
impl ShConcr {
    pub const LISTS: &'static [ListInfo] = &[
        ListInfo { name: "MockConcr::byref", nargs: 1, recv: Recv::Ref, caps: CAP_OWN, with: false, coded: true, dbg: &["*"], dflt: <u32 as Dflt>::dflt },
        ListInfo { name: "MockConcr::clos", nargs: 1, recv: Recv::Ref, caps: CAP_OWN, with: false, coded: true, dbg: &["?"], dflt: <u32 as Dflt>::dflt },
        ListInfo { name: "MockConcr::refarg", nargs: 2, recv: Recv::Ref, caps: CAP_OWN, with: false, coded: true, dbg: &["*", "{}"], dflt: <u32 as Dflt>::dflt },
        ListInfo { name: "MockConcr::slice", nargs: 1, recv: Recv::Ref, caps: CAP_OWN, with: false, coded: true, dbg: &["*"], dflt: <u32 as Dflt>::dflt },
        ListInfo { name: "MockConcr::nodebug", nargs: 1, recv: Recv::Ref, caps: CAP_OWN, with: true, coded: true, dbg: &["?"], dflt: <u32 as Dflt>::dflt },
        ListInfo { name: "MockConcr::imp", nargs: 1, recv: Recv::Ref, caps: CAP_OWN, with: false, coded: true, dbg: &["?"], dflt: <u32 as Dflt>::dflt },
    ];
    pub const INFO: ShapeInfo =
        ShapeInfo { name: "ShConcr", flags: F_CONCR, lists: Self::LISTS, make: || Box::new(ShConcr(MockConcr::new())) };
}
macro_rules! cust {
    ($e:expr, $spec:expr, $with:ident, [$($a:ident),*], [$($w:expr),*], [$($o:expr),*]) => {{
        let e = $e;
        for (si, s) in $spec.steps.iter().enumerate() {
            let eid = $spec.eid;
            match s {
                Step::Times(t) => { match *t {
                    TimesSpec::N(n) => { e.times(n); }
                    TimesSpec::Range(a, b) => { e.times(a..b); }
                    TimesSpec::From(a) => { e.times(a..); }
                    TimesSpec::Full => { e.times(..); }
                    TimesSpec::Incl(a, b) => { e.times(a..=b); }
                    TimesSpec::To(b) => { e.times(..b); }
                    TimesSpec::ToIncl(b) => { e.times(..=b); }
                } }
                Step::Never => { e.never(); }
                Step::Once => { e.once(); }
                Step::InSeq(q) => { with_seq(*q, |s| { e.in_sequence(s); }); }
                Step::With(m) => { with_step!($with, e, eid, si, m, [$($a),*]); }
                Step::Withf(m) => { let k = Masks::new(eid, si, m); e.withf(move |$($a),*| k.check(&[$($w),*])); }
                Step::WithfSt(m) => { let k = MasksSt::new(eid, si, m); e.withf_st(move |$($a),*| k.check(&[$($w),*])); }
                Step::Ret(r) => match r {
                    RetSpec::Const => { e.return_const(ConstV::<u32>::new(eid, si)); }
                    RetSpec::ConstSt => { e.return_const_st(ConstSt::<u32>::new(eid, si)); }
                    RetSpec::Fn => { let c = Cap::new(eid, si); e.returning(move |$($a),*| c.act(&[$($o),*])); }
                    RetSpec::FnSt => { let c = CapSt::new(eid, si); e.returning_st(move |$($a),*| c.act(&[$($o),*])); }
                    RetSpec::Once => { let c = Cap::new(eid, si); e.return_once(move |$($a),*| c.act(&[$($o),*])); }
                    RetSpec::OnceSt => { let c = CapSt::new(eid, si); e.return_once_st(move |$($a),*| c.act(&[$($o),*])); }
                    _ => unreachable!(),
                },
            }
        }
    }};
}
/// dyn closures: the encoded value is what the closure returns for 0
impl Shape for ShConcr {
    fn expect(&mut self, l: usize, spec: &ESpec) {
        let m = &mut self.0;
        match l {
            0 => cust!(m.expect_byref(), spec, nowith, [p], [dec_asref(p)], [dec_asref(p)]),
            1 => cust!(m.expect_clos(), spec, nowith, [f], [f(0)], [f(0)]),
            2 => cust!(m.expect_refarg(), spec, nowith, [p, x], [dec_asref(p), x.dec()], [dec_asref(p), x.dec()]),
            3 => cust!(m.expect_slice(), spec, nowith, [p], [dec_asref(p[0])], [dec_asref(p[0])]),
            4 => steps!(m.expect_nodebug(), spec, own u32, with, [n]),
            5 => cust!(m.expect_imp(), spec, nowith, [f], [f(0)], [f(0)]),
            _ => unreachable!(),
        }
    }
    fn call(&self, l: usize, a: &[u8]) -> Res {
        let m = &self.0;
        let v = a[0];
        match l {
            0 => m.byref(String::enc(v)).res(),
            1 => m.clos(move |x| x + v).res(),
            2 => m.refarg(&String::enc(v), a[1]).res(),
            3 => m.slice(&[String::enc(v), String::enc(0)]).res(),
            4 => m.nodebug(NoDebug(v)).res(),
            5 => m.imp(move |x| x + v).res(),
            _ => unreachable!(),
        }
    }
    fn checkpoint(&mut self) {
        self.0.checkpoint()
    }
}

pub const SHAPES: &[ShapeInfo] = &[ShPlain::INFO, ShMany::INFO, ShToks::INFO, ShRecv::INFO, ShConcr::INFO];
