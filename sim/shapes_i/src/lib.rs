//! Catalogue part I: rarer forms of items - generic traits with static methods,
//! raw identifiers, lifetimes of traits and structs, associated items, default
//! bodies, patterns, trait objects returned, modules with more kinds of functions.
#![allow(dead_code, clippy::all, non_camel_case_types, unused_mut, single_use_lifetimes)]
use mockall::*;
use simcore::*;
use std::cell::Cell;
use std::fmt::Debug;
use std::future::Future;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context as Cx, Poll, Waker};

fn now<F: Future + ?Sized>(mut f: Pin<Box<F>>) -> F::Output {
    match f.as_mut().poll(&mut Cx::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("future of a mock is pending"),
    }
}

// -------------------------------------------------------------- generic trait with static methods
#[automock]
pub trait GenSt<T: Debug + 'static, U: 'static> {
    fn mk(t: T) -> u32;
    fn conv(t: T, x: u8) -> U;
    fn each<Q: 'static>(t: T, q: Q) -> u32;
    fn inst(&self, t: T) -> U;
    fn minst(&mut self, x: u8) -> &mut Vec<U>;
}
statics!(SiMk, F_STRUCTGEN | F_GENERIC | F_DROPARG, None, {
    ctx |m| MockGenSt::<u8, u32>::mk_context(), {
        "MockGenSt::mk" (t: u8) own u32, with, &["{}"], m.expect() => MockGenSt::<u8, u32>::mk(t);
    }
    ctx |m| MockGenSt::<u8, String>::mk_context(), {
        "MockGenSt::mk" (t: u8) own u32, with, &["{}"], m.expect() => MockGenSt::<u8, String>::mk(t);
    }
    ctx |m| MockGenSt::<Tok, u32>::mk_context(), {
        "MockGenSt::mk" (t: Tok) own u32, with, &["Tok({})"], m.expect() => MockGenSt::<Tok, u32>::mk(t);
    }
});
statics!(SiConv, F_STRUCTGEN | F_GENERIC, None, {
    ctx |m| MockGenSt::<u8, u32>::conv_context(), {
        "MockGenSt::conv" (t: u8, x: u8) own u32, with, &["{}", "{}"], m.expect() => MockGenSt::<u8, u32>::conv(t, x);
    }
    ctx |m| MockGenSt::<u8, String>::conv_context(), {
        "MockGenSt::conv" (t: u8, x: u8) own String, with, &["{}", "{}"], m.expect() => MockGenSt::<u8, String>::conv(t, x);
    }
});
statics!(SiEach, F_STRUCTGEN | F_GENERIC, None, {
    ctx |m| MockGenSt::<u8, u32>::each_context(), {
        "MockGenSt::each" (t: u8, q: u16) own u32, with, &["{}", "?"], m.expect::<u16>() => MockGenSt::<u8, u32>::each(t, q);
        "MockGenSt::each" (t: u8, q: u8) own u32, with, &["{}", "?"], m.expect::<u8>() => MockGenSt::<u8, u32>::each(t, q);
    }
    ctx |m| MockGenSt::<u8, u16>::each_context(), {
        "MockGenSt::each" (t: u8, q: u32) own u32, with, &["{}", "?"], m.expect::<u32>() => MockGenSt::<u8, u16>::each(t, q);
    }
});
shape!(ShGenSt, MockGenSt<u8, u32>, MockGenSt::new(), F_STRUCTGEN | F_MUTRET, {
    r "MockGenSt::inst" (t: u8) own u32, with, &["{}"], |m| m.expect_inst() => m.inst(t);
    m "MockGenSt::minst" (x: u8) mutr Vec<u32>, with, &["{}"], |m| m.expect_minst() => vec_bump(m.minst(x));
});
fn vec_bump(v: &mut Vec<u32>) -> Res {
    if v.is_empty() {
        return v.res();
    }
    let r = Res(v[0], v.len() as u32 - 1);
    v.push(0);
    r
}

// -------------------------------------------------------------- statics of a trait implemented for a generic struct
pub trait TrS<T> {
    fn st(t: T) -> T;
    fn inst(&self, t: T) -> u32;
}
mock! {
    pub Gs<T: Clone + Debug + 'static> where T: PartialEq {
        pub fn own(&self, t: T) -> T;
        pub fn sown(t: &T) -> u32;
    }
    impl<T: Clone + Debug + 'static> TrS<T> for Gs<T> where T: PartialEq {
        fn st(t: T) -> T;
        fn inst(&self, t: T) -> u32;
    }
}
statics!(SiSt, F_STRUCTGEN | F_GENERIC | F_MULTI, None, {
    ctx |m| MockGs::<u32>::st_context(), {
        "MockGs::st" (t: u32) own u32, with, &["{}"], m.expect() => <MockGs<u32> as TrS<u32>>::st(t);
    }
    ctx |m| MockGs::<ta::K>::st_context(), {
        "MockGs::st" (t: ta::K) own ta::K, with, &["*"], m.expect() => <MockGs<ta::K> as TrS<ta::K>>::st(t);
    }
    ctx |m| MockGs::<tb::K>::st_context(), {
        "MockGs::st" (t: tb::K) own tb::K, with, &["*"], m.expect() => <MockGs<tb::K> as TrS<tb::K>>::st(t);
    }
});
statics!(SiSown, F_STRUCTGEN | F_GENERIC, None, {
    ctx |m| MockGs::<u8>::sown_context(), {
        "MockGs::sown" (t: u8) own u32, with, &["{}"], m.expect() => MockGs::<u8>::sown(&t);
    }
    ctx |m| MockGs::<u16>::sown_context(), {
        "MockGs::sown" (t: u16) own u32, with, &["{}"], m.expect() => MockGs::<u16>::sown(&t);
    }
});
shape!(ShGs, MockGs<u32>, MockGs::new(), F_STRUCTGEN | F_MULTI, {
    r "MockGs::own" (t: u32) own u32, with, &["{}"], |m| m.expect_own() => m.own(t);
    r "MockGs::inst" (t: u32) own u32, with, &["{}"], |m| m.expect_inst() => m.inst(t);
});

// -------------------------------------------------------------- raw identifiers
#[automock]
pub trait r#while {
    fn r#match(&self, r#type: u8) -> u32;
    fn r#loop(r#in: u8) -> u32;
    fn r#ref<r#T: 'static>(&mut self, r#for: r#T) -> u32;
}
shape!(ShRaw, Mockwhile, Mockwhile::new(), F_GENERIC | F_DROPARG, {
    r "Mockwhile::r#match" (x: u8) own u32, with, &["{}"], |m| m.expect_match() => m.r#match(x);
    m "Mockwhile::r#ref" (x: u8) own u32, with, &["?"], |m| m.expect_ref::<u8>() => m.r#ref(x);
    m "Mockwhile::r#ref" (x: Tok) own u32, with, &["?"], |m| m.expect_ref::<Tok>() => m.r#ref(x);
});
statics!(SiLoop, F_PLAIN, None, { ctx |m| Mockwhile::loop_context(), {
    "Mockwhile::r#loop" (x: u8) own u32, with, &["{}"], m.expect() => Mockwhile::r#loop(x);
} });

// -------------------------------------------------------------- lifetimes of traits, structs and statics
pub struct Ns<'a>(&'a u32);
#[automock]
impl<'a> Ns<'a> {
    pub fn foo(&self, x: u8) -> u32 {
        x as u32
    }
    pub fn bar(&mut self, t: Tok) -> Tok {
        t
    }
    pub fn st(x: u8) -> u32 {
        x as u32
    }
}
shape!(ShNs, MockNs<'static>, MockNs::default(), F_DROPARG, {
    r "MockNs::foo" (x: u8) own u32, with, &["{}"], |m| m.expect_foo() => m.foo(x);
    m "MockNs::bar" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_bar() => m.bar(t);
});
statics!(SiNs, F_PLAIN, None, { ctx |m| MockNs::<'static>::st_context(), {
    "MockNs::st" (x: u8) own u32, with, &["{}"], m.expect() => MockNs::<'static>::st(x);
} });
mock! {
    pub Life {
        pub fn l0<'life0>(&'life0 self, x: u8) -> u32;
        pub fn two<'a, 'b>(&self, a: &'a u8, b: &'b str) -> u32;
        pub fn same<'a>(&self, a: &'a u8, b: &'a Tok) -> u32;
        pub fn st<'a>(a: &'a u8, b: &'a mut Tok) -> u32;
        pub fn ss(p: &Path, s: &[u8], x: u8) -> String;
        pub fn gl<T: 'static>(&self, a: &u8, t: T) -> T;
    }
}
shape!(ShLife, MockLife, MockLife::new(), F_GENERIC | F_DROPARG, {
    r "MockLife::l0" (x: u8) own u32, with, &["{}"], |m| m.expect_l0() => m.l0(x);
    r "MockLife::two" (a: u8, b: String) own u32, with, &["{}", "\"s{}\""], |m| m.expect_two() => m.two(&a, &b);
    r "MockLife::same" (a: u8, b: Tok) own u32, with, &["{}", "Tok({})"], |m| m.expect_same() => m.same(&a, &b);
    r "MockLife::gl" (a: u8, t: u32) own u32, with, &["{}", "?"], |m| m.expect_gl::<u32>() => m.gl(&a, t);
    r "MockLife::gl" (a: u8, t: Tok) own Tok, with, &["{}", "?"], |m| m.expect_gl::<Tok>() => m.gl(&a, t);
});
statics!(SiLst, F_DROPARG, None, { ctx |m| MockLife::st_context(), {
    "MockLife::st" (a: u8, b: Tok) own u32, with, &["{}", "Tok({})"], m.expect() => MockLife::st(&a, &mut b);
} });
statics!(SiSs, F_PLAIN, None, { ctx |m| MockLife::ss_context(), {
    "MockLife::ss" (p: String, s: Vec<u8>, x: u8) own String, with, &["\"s{}\"", "[{}]", "{}"], m.expect() => MockLife::ss(Path::new(&p), &s, x);
} });

// -------------------------------------------------------------- associated items, default bodies, patterns, attributes
#[automock(type Out<'a> = &'static u32; type Plain = Tok;)]
pub trait Items {
    type Out<'a> where Self: 'a;
    type Plain;
    #[mockall::concretize]
    fn conc<P: AsRef<str>>(&self, p: P) -> u32 {
        p.as_ref().len() as u32
    }
    fn lend<'a>(&'a mut self, x: u8) -> Option<Self::Out<'a>>;
    fn plain(&self, p: Self::Plain) -> Self::Plain;
    /// A method with a body of its own is mocked like the others.
    fn body(&self, x: u8) -> u32 {
        x as u32 + 1
    }
    fn sized(&self, x: u8) -> u32
    where
        Self: Sized;
    #[cfg(not(any()))]
    fn attr(&mut self, x: u8) -> u32;
    #[cfg(any())]
    fn gone(&mut self, x: NoSuchType) -> u32;
}
shape!(ShItems, MockItems, MockItems::new(), F_ASSOC | F_DROPARG | F_CONCR, {
    r "MockItems::conc" (p: String) own u32, nowith, &["*"], |m| m.expect_conc() => m.conc(p);
    m "MockItems::lend" (x: u8) own Option<&'static u32>, with, &["{}"], |m| m.expect_lend() => m.lend(x).copied();
    r "MockItems::plain" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_plain() => m.plain(t);
    r "MockItems::body" (x: u8) own u32, with, &["{}"], |m| m.expect_body() => m.body(x);
    r "MockItems::sized" (x: u8) own u32, with, &["{}"], |m| m.expect_sized() => m.sized(x);
    m "MockItems::attr" (x: u8) own u32, with, &["{}"], |m| m.expect_attr() => m.attr(x);
});

// -------------------------------------------------------------- trait objects, functions and nested generics as values
pub trait Num {
    fn num(&self) -> u32;
}
impl Num for Tok {
    fn num(&self) -> u32 {
        self.val
    }
}
impl RetV for Box<dyn Num> {
    fn make(c: u32) -> Self {
        Box::new(<Tok as RetV>::make(c))
    }
    fn res(&self) -> Res {
        Res(self.num(), 0)
    }
}
mock! {
    pub Obj2 {
        pub fn dynret(&self, x: u8) -> Box<dyn Num>;
        pub fn nested(&mut self, v: Vec<Option<(u8, u8)>>) -> Result<Option<Tok>, Box<Tok>>;
        pub fn arr(&self, a: [u8; 3]) -> u32;
        pub fn cellref(&self, c: &Cell<u8>) -> u32;
        pub fn optmut<'a>(&self, o: Option<&'a mut Tok>) -> u32;
        pub fn own_tuple(self, t: (Tok, u8)) -> Tok;
        pub fn unit(&self);
        pub fn mut_unit(&mut self, t: Tok);
    }
}
shape!(ShObj2, MockObj2, MockObj2::new(), F_DROPARG | F_OWN, {
    r "MockObj2::dynret" (x: u8) ownnc Box<dyn Num>, with, &["{}"], |m| m.expect_dynret() => m.dynret(x);
    m "MockObj2::nested" (v: Vec<Option<(u8, u8)>>) own Result<Option<Tok>, Box<Tok>>, with, &["*"], |m| m.expect_nested() => m.nested(v);
    r "MockObj2::arr" (a: [u8; 3]) own u32, with, &["*"], |m| m.expect_arr() => m.arr(a);
    r "MockObj2::cellref" (c: Cell<u8>) own u32, with, &["Cell { value: {} }"], |m| m.expect_cellref() => m.cellref(&c);
    r "MockObj2::optmut" (t: Tok) own u32, with, &["Some(Tok({}))"], |m| m.expect_optmut() => m.optmut(Some(&mut t));
    o "MockObj2::own_tuple" (t: (Tok, u8)) own Tok, with, &["*"], |m| m.expect_own_tuple() => m.own_tuple(t);
    r "MockObj2::unit" () own (), with, &[], |m| m.expect_unit() => m.unit();
    m "MockObj2::mut_unit" (t: Tok) own (), with, &["Tok({})"], |m| m.expect_mut_unit() => m.mut_unit(t);
});

// -------------------------------------------------------------- a module with other kinds of functions
#[automock]
pub mod kinds {
    use simcore::Tok;
    pub fn stat(_x: u8) -> &'static str {
        unimplemented!()
    }
    pub async fn asy(_t: Tok) -> u32 {
        unimplemented!()
    }
    pub fn gen2<A: 'static, B: 'static>(_a: A, _x: u8) -> B {
        unimplemented!()
    }
    pub fn refs<'a>(_a: &'a str, _b: &mut Tok) -> u32 {
        unimplemented!()
    }
    #[mockall::concretize]
    pub fn conc<P: AsRef<str>>(_p: P, _x: u8) -> u32 {
        unimplemented!()
    }
    pub unsafe fn danger(_t: Tok) -> Tok {
        unimplemented!()
    }
    pub extern "C" fn cabi(_x: u8) -> u32 {
        unimplemented!()
    }
    pub(crate) fn inner(_x: u8, _n: (u8, u8)) -> u32 {
        unimplemented!()
    }
}
const GK: Option<(usize, fn())> = Some((2, || mock_kinds::checkpoint()));
statics!(SiKs, F_MODULE, GK, { ctx |m| mock_kinds::stat_context(), {
    "mock_kinds::stat" (x: u8) own &'static str, with, &["{}"], m.expect() => mock_kinds::stat(x);
} });
statics!(SiKa, F_MODULE | F_ASYNC | F_DROPARG, GK, { ctx |m| mock_kinds::asy_context(), {
    "mock_kinds::asy" (t: Tok) own u32, with, &["Tok({})"], m.expect() => now(Box::pin(mock_kinds::asy(t)));
} });
statics!(SiKg, F_MODULE | F_GENERIC, GK, { ctx |m| mock_kinds::gen2_context(), {
    "mock_kinds::gen2" (a: u8, x: u8) own u32, with, &["?", "{}"], m.expect::<u8, u32>() => mock_kinds::gen2::<u8, u32>(a, x);
    "mock_kinds::gen2" (a: u8, x: u8) own String, with, &["?", "{}"], m.expect::<u8, String>() => mock_kinds::gen2::<u8, String>(a, x);
    "mock_kinds::gen2" (a: Tok, x: u8) own u32, with, &["?", "{}"], m.expect::<Tok, u32>() => mock_kinds::gen2::<Tok, u32>(a, x);
} });
statics!(SiKr, F_MODULE | F_DROPARG, GK, { ctx |m| mock_kinds::refs_context(), {
    "mock_kinds::refs" (a: String, b: Tok) own u32, with, &["\"s{}\"", "Tok({})"], m.expect() => mock_kinds::refs(&a, &mut b);
} });
statics!(SiKc, F_MODULE | F_CONCR, GK, { ctx |m| mock_kinds::conc_context(), {
    "mock_kinds::conc" (p: String, x: u8) own u32, nowith, &["*", "{}"], m.expect() => mock_kinds::conc(p, x);
} });
statics!(SiKd, F_MODULE | F_DROPARG, GK, { ctx |m| mock_kinds::danger_context(), {
    "mock_kinds::danger" (t: Tok) own Tok, with, &["Tok({})"], m.expect() => unsafe { mock_kinds::danger(t) };
} });
statics!(SiKi, F_MODULE, GK, { ctx |m| mock_kinds::inner_context(), {
    "mock_kinds::inner" (x: u8, n: (u8, u8)) own u32, with, &["{}", "*"], m.expect() => mock_kinds::inner(x, n);
} });

pub const SHAPES: &[ShapeInfo] = &[
    ShGenSt::INFO, ShGs::INFO, ShRaw::INFO, ShNs::INFO, ShLife::INFO, ShItems::INFO, ShObj2::INFO,
];
pub const STATICS: &[StaticInfo] = &[
    SiMk::INFO, SiConv::INFO, SiEach::INFO, SiSt::INFO, SiSown::INFO, SiLoop::INFO, SiNs::INFO, SiLst::INFO,
    SiSs::INFO, SiKs::INFO, SiKa::INFO, SiKg::INFO, SiKr::INFO, SiKc::INFO, SiKd::INFO, SiKi::INFO,
];
