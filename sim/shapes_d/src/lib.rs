//! Catalogue part D: static methods.
#![allow(dead_code, clippy::all)]
use mockall::*;
use simcore::*;
use std::fmt::Debug;

#[automock]
pub trait St {
    fn f(x: u8) -> u32;
    fn g(t: Tok) -> Tok;
    fn u(x: u8, y: u16);
    fn inst(&self, x: u8) -> u32;
}
statics!(SsF, F_PLAIN, None, { ctx |m| MockSt::f_context(), {
    "MockSt::f" (x: u8) own u32, with, &["{}"], m.expect() => MockSt::f(x);
} });
statics!(SsG, F_PLAIN | F_DROPARG, None, { ctx |m| MockSt::g_context(), {
    "MockSt::g" (t: Tok) own Tok, with, &["Tok({})"], m.expect() => MockSt::g(t);
} });
statics!(SsU, F_PLAIN, None, { ctx |m| MockSt::u_context(), {
    "MockSt::u" (x: u8, y: u16) own (), with, &["{}", "{}"], m.expect() => MockSt::u(x, y);
} });
// an instance of a trait that also has static methods: its checkpoint and
// drop must not touch the static ones
shape!(ShStInst, MockSt, MockSt::new(), F_PLAIN, {
    r "MockSt::inst" (x: u8) own u32, with, &["{}"], |m| m.expect_inst() => m.inst(x);
});

mock! {
    pub Stat {
        pub fn sf(x: u8) -> String;
        pub fn gen<T: Debug + 'static>(t: T) -> u32;
        pub fn gr<T: 'static>(x: u8) -> T;
        pub fn sref(s: &str, x: u8) -> u32;
        pub fn gen3<A: 'static, B: 'static, C: Debug + 'static>(a: A, b: B, c: C) -> u32;
        #[mockall::concretize]
        pub fn conc<P: AsRef<str>>(p: P) -> u32;
    }
}
statics!(SsSf, F_PLAIN, None, { ctx |m| MockStat::sf_context(), {
    "MockStat::sf" (x: u8) own String, with, &["{}"], m.expect() => MockStat::sf(x);
} });
statics!(SsGen, F_GENERIC | F_DROPARG, None, { ctx |m| MockStat::gen_context(), {
    "MockStat::gen" (t: u8) own u32, with, &["{}"], m.expect::<u8>() => MockStat::gen(t);
    "MockStat::gen" (t: ta::K) own u32, with, &["*"], m.expect::<ta::K>() => MockStat::gen(t);
    "MockStat::gen" (t: tb::K) own u32, with, &["*"], m.expect::<tb::K>() => MockStat::gen(t);
    "MockStat::gen" (t: Tok) own u32, with, &["Tok({})"], m.expect::<Tok>() => MockStat::gen(t);
} });
statics!(SsGen3, F_GENERIC, None, { ctx |m| MockStat::gen3_context(), {
    "MockStat::gen3" (a: u8, b: u8, c: u8) own u32, with, &["?", "?", "{}"], m.expect::<u8, u8, u8>() => MockStat::gen3(a, b, c);
    "MockStat::gen3" (a: u8, b: u8, c: u16) own u32, with, &["?", "?", "{}"], m.expect::<u8, u8, u16>() => MockStat::gen3(a, b, c);
    "MockStat::gen3" (a: u16, b: u8, c: u8) own u32, with, &["?", "?", "{}"], m.expect::<u16, u8, u8>() => MockStat::gen3(a, b, c);
    "MockStat::gen3" (a: ta::K, b: ta::K, c: tb::K) own u32, with, &["*", "*", "*"], m.expect::<ta::K, ta::K, tb::K>() => MockStat::gen3(a, b, c);
    "MockStat::gen3" (a: tb::K, b: ta::K, c: ta::K) own u32, with, &["*", "*", "*"], m.expect::<tb::K, ta::K, ta::K>() => MockStat::gen3(a, b, c);
} });
statics!(SsGr, F_GENERIC, None, { ctx |m| MockStat::gr_context(), {
    "MockStat::gr" (x: u8) own u32, with, &["{}"], m.expect::<u32>() => MockStat::gr::<u32>(x);
    "MockStat::gr" (x: u8) own String, with, &["{}"], m.expect::<String>() => MockStat::gr::<String>(x);
    "MockStat::gr" (x: u8) own ta::K, with, &["{}"], m.expect::<ta::K>() => MockStat::gr::<ta::K>(x);
    "MockStat::gr" (x: u8) own tb::K, with, &["{}"], m.expect::<tb::K>() => MockStat::gr::<tb::K>(x);
} });
statics!(SsSref, F_PLAIN, None, { ctx |m| MockStat::sref_context(), {
    "MockStat::sref" (s: String, x: u8) own u32, with, &["\"s{}\"", "{}"], m.expect() => MockStat::sref(&s, x);
} });

// static method of a generic struct
mock! {
    pub GStat<T: Debug + 'static> {
        pub fn sf(t: T) -> u32;
        pub fn sg<Q: Debug + 'static>(t: T, q: Q) -> u32;
        pub fn inst(&self, t: T) -> u32;
    }
}
statics!(SsGsf, F_STRUCTGEN | F_GENERIC | F_DROPARG, None, {
    ctx |m| MockGStat::<u8>::sf_context(), {
        "MockGStat::sf" (t: u8) own u32, with, &["{}"], m.expect() => MockGStat::<u8>::sf(t);
    }
    ctx |m| MockGStat::<Tok>::sf_context(), {
        "MockGStat::sf" (t: Tok) own u32, with, &["Tok({})"], m.expect() => MockGStat::<Tok>::sf(t);
    }
});
statics!(SsGsg, F_STRUCTGEN | F_GENERIC, None, {
    ctx |m| MockGStat::<u8>::sg_context(), {
        "MockGStat::sg" (t: u8, q: u8) own u32, with, &["{}", "{}"], m.expect::<u8>() => MockGStat::<u8>::sg(t, q);
        "MockGStat::sg" (t: u8, q: u16) own u32, with, &["{}", "{}"], m.expect::<u16>() => MockGStat::<u8>::sg(t, q);
    }
    ctx |m| MockGStat::<ta::K>::sg_context(), {
        "MockGStat::sg" (t: ta::K, q: tb::K) own u32, with, &["*", "*"], m.expect::<tb::K>() => MockGStat::<ta::K>::sg(t, q);
    }
    ctx |m| MockGStat::<tb::K>::sg_context(), {
        "MockGStat::sg" (t: tb::K, q: ta::K) own u32, with, &["*", "*"], m.expect::<ta::K>() => MockGStat::<tb::K>::sg(t, q);
    }
});
shape!(ShGStatInst, MockGStat<u8>, MockGStat::new(), F_STRUCTGEN, {
    r "MockGStat::inst" (t: u8) own u32, with, &["{}"], |m| m.expect_inst() => m.inst(t);
});

// generic trait with a static method (constructor like)
#[automock]
pub trait Ctor {
    fn make(x: u8) -> Box<Self>
    where
        Self: Sized;
    fn use_it(&self, x: u8) -> u32;
}

pub const STATICS: &[StaticInfo] =
    &[SsF::INFO, SsG::INFO, SsU::INFO, SsSf::INFO, SsGen::INFO, SsGen3::INFO, SsGr::INFO, SsSref::INFO, SsGsf::INFO, SsGsg::INFO];
pub const SHAPES: &[ShapeInfo] = &[ShStInst::INFO, ShGStatInst::INFO];
