//! Catalogue part C: several traits on one struct, associated types, lifetimes,
//! specific impls, non-Send values.
#![allow(dead_code, clippy::all)]
use mockall::*;
use simcore::*;
use std::ops::Deref;
use std::rc::Rc;

pub mod ma {
    pub trait T {
        fn fa(&self, x: u8) -> u32;
        fn ga(&self) -> u32;
    }
}
pub mod mb {
    pub trait T {
        fn fb(&self, x: u8) -> u32;
        fn gb(&mut self, x: u8) -> u32;
    }
}
pub trait GT<A, B> {
    fn conv(&self, a: A) -> B;
}
pub trait Other {
    fn other(&self, t: simcore::Tok) -> u32;
}
mock! {
    pub Multi {
        pub fn own(&self, x: u8) -> u32;
        pub fn gen<Q: 'static>(&self, q: Q) -> u32;
    }
    impl ma::T for Multi {
        fn fa(&self, x: u8) -> u32;
        fn ga(&self) -> u32;
    }
    impl mb::T for Multi {
        fn fb(&self, x: u8) -> u32;
        fn gb(&mut self, x: u8) -> u32;
    }
    impl GT<u8, u32> for Multi {
        fn conv(&self, a: u8) -> u32;
    }
    impl Other for Multi {
        fn other(&self, t: Tok) -> u32;
    }
}
shape!(ShMulti, MockMulti, MockMulti::new(), F_MULTI | F_GENERIC | F_DROPARG, {
    r "MockMulti::own" (x: u8) own u32, with, &["{}"], |m| m.expect_own() => m.own(x);
    r "MockMulti::gen" (q: u8) own u32, with, &["?"], |m| m.expect_gen::<u8>() => m.gen(q);
    r "MockMulti::gen" (q: u16) own u32, with, &["?"], |m| m.expect_gen::<u16>() => m.gen(q);
    r "MockMulti::fa" (x: u8) own u32, with, &["{}"], |m| m.expect_fa() => ma::T::fa(m, x);
    r "MockMulti::ga" () own u32, with, &[], |m| m.expect_ga() => ma::T::ga(m);
    r "MockMulti::fb" (x: u8) own u32, with, &["{}"], |m| m.expect_fb() => mb::T::fb(m, x);
    m "MockMulti::gb" (x: u8) own u32, with, &["{}"], |m| m.expect_gb() => mb::T::gb(m, x);
    r "MockMulti::conv" (x: u8) own u32, with, &["{}"], |m| m.expect_conv() => m.conv(x);
    r "MockMulti::other" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_other() => m.other(t);
});

// the same generic trait implemented twice, specific impls
mock! {
    pub Spec<T: 'static> {
        pub fn both(&self, t: T) -> u32;
    }
    impl GT<u8, u32> for Spec<u32> {
        fn conv(&self, a: u8) -> u32;
    }
    impl GT<u8, String> for Spec<i16> {
        fn conv(&self, a: u8) -> String;
    }
}
shape!(ShSpecU, MockSpec<u32>, MockSpec::new(), F_MULTI | F_STRUCTGEN, {
    r "MockSpec::both" (x: u32) own u32, with, &["?"], |m| m.expect_both() => m.both(x);
    r "MockSpec::conv" (x: u8) own u32, with, &["{}"], |m| m.expect_conv() => GT::<u8, u32>::conv(m, x);
});
shape!(ShSpecI, MockSpec<i16>, MockSpec::new(), F_MULTI | F_STRUCTGEN, {
    r "MockSpec::both" (x: i16) own u32, with, &["?"], |m| m.expect_both() => m.both(x);
    r "MockSpec::conv" (x: u8) own String, with, &["{}"], |m| m.expect_conv() => GT::<u8, String>::conv(m, x);
});

// associated types
#[automock(type Item = u32; type Key = u8;)]
pub trait Assoc {
    type Item;
    type Key;
    fn find(&self, k: Self::Key) -> Self::Item;
    fn rfind(&self, k: Self::Key) -> &Self::Item;
}
mock! {
    pub Iter {
        pub fn extra(&self, x: u8) -> u32;
    }
    impl Iterator for Iter {
        type Item = Tok;
        fn next(&mut self) -> Option<Tok>;
    }
    impl Deref for Iter {
        type Target = Slot;
        fn deref(&self) -> &Slot;
    }
}
shape!(ShAssoc, MockAssoc, MockAssoc::new(), F_ASSOC | F_REFRET, {
    r "MockAssoc::find" (k: u8) own u32, with, &["{}"], |m| m.expect_find() => m.find(k);
    r "MockAssoc::rfind" (k: u8) refr u32, with, &["{}"], |m| m.expect_rfind() => m.rfind(k).res();
});
shape!(ShIter, MockIter, MockIter::new(), F_ASSOC | F_MULTI | F_REFRET | F_DROPARG, {
    r "MockIter::extra" (x: u8) own u32, with, &["{}"], |m| m.expect_extra() => m.extra(x);
    m "MockIter::next" () ownnc Option<Tok>, with, &[], |m| m.expect_next() => m.next();
    r "MockIter::deref" () refr Slot, with, &[], |m| m.expect_deref() => m.deref().res();
});

// lifetimes and non-Send types
#[derive(Debug, Clone)]
pub struct Xr<'a>(&'a u32);
impl<'a> Dec for Xr<'a> {
    fn dec(&self) -> u8 {
        *self.0 as u8
    }
}
impl RetV for Xr<'static> {
    fn make(c: u32) -> Self {
        Xr(Box::leak(Box::new(c)))
    }
    fn res(&self) -> Res {
        Res(*self.0, 0)
    }
}
const_into!(Xr<'static>);
#[automock]
pub trait Lt {
    fn lt<'a>(&self, x: &'a Xr<'a>) -> u32;
    fn mutarg(&self, x: &mut u32) -> u32;
    fn rc(&self, r: Rc<u8>) -> u32;
    fn rrc(&self, x: u8) -> Rc<u32>;
    fn optref<'a>(&self, o: Option<&'a u8>) -> u32;
}
shape!(ShLt, MockLt, MockLt::new(), F_NONSEND, {
    r "MockLt::lt" (x: u32) own u32, with, &["Xr({})"], |m| m.expect_lt() => m.lt(&Xr(&x));
    r "MockLt::mutarg" (x: u32) own u32, with, &["{}"], |m| m.expect_mutarg() => m.mutarg(&mut x);
    r "MockLt::rc" (r: Rc<u8>) own u32, with, &["{}"], |m| m.expect_rc() => m.rc(r);
    r "MockLt::rrc" (x: u8) own Rc<u32>, with, &["{}"], |m| m.expect_rrc() => m.rrc(x);
    r "MockLt::optref" (o: Option<u8>) own u32, with, &["*"], |m| m.expect_optref() => m.optref(o.as_ref());
});
mock! {
    pub Anon {
        pub fn an(&self) -> Xr<'_>;
        pub fn lta<'a>(&self, x: u8) -> Xr<'a>;
        pub fn ltr<'a>(&self, x: u8) -> &Xr<'a>;
    }
}
shape!(ShAnon, MockAnon, MockAnon::new(), F_NONSEND | F_REFRET, {
    r "MockAnon::an" () own Xr<'static>, with, &[], |m| m.expect_an() => { let v = *m.an().0; v };
    r "MockAnon::lta" (x: u8) own Xr<'static>, with, &["{}"], |m| m.expect_lta() => { let v = *m.lta(x).0; v };
    r "MockAnon::ltr" (x: u8) refr Xr<'static>, with, &["{}"], |m| m.expect_ltr() => { let v = *m.ltr(x).0; v.res() };
});

// automock on a struct impl
pub struct Real {}
#[automock]
impl Real {
    pub fn go(&self, x: u8) -> u32 {
        x as u32
    }
    pub fn stay(&self, t: Tok) -> Tok {
        t
    }
}
shape!(ShReal, MockReal, MockReal::new(), F_PLAIN | F_DROPARG, {
    r "MockReal::go" (x: u8) own u32, with, &["{}"], |m| m.expect_go() => m.go(x);
    r "MockReal::stay" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_stay() => m.stay(t);
});

pub const SHAPES: &[ShapeInfo] = &[
    ShMulti::INFO, ShSpecU::INFO, ShSpecI::INFO, ShAssoc::INFO, ShIter::INFO, ShLt::INFO, ShAnon::INFO, ShReal::INFO,
];
