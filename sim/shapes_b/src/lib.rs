//! Catalogue part B: reference returns, generic methods, generic structs.
#![allow(dead_code, clippy::all)]
use mockall::*;
use simcore::*;
use std::fmt::Debug;

// -------------------------------------------------------------- returning references
#[automock]
pub trait RefRet {
    fn get(&self, x: u8) -> &u32;
    fn tok(&self) -> &Tok;
    fn st(&self, x: u8) -> &str;
    fn sl(&self, x: u8) -> &[u32];
    fn dy(&self, x: u8) -> &dyn SlotDyn;
    fn stat(&self, x: u8) -> &'static str;
    fn statref(&self) -> &'static u32;
}
shape!(ShRefRet, MockRefRet, MockRefRet::new(), F_REFRET, {
    r "MockRefRet::get" (x: u8) refr u32, with, &["{}"], |m| m.expect_get() => m.get(x).res();
    r "MockRefRet::tok" () refr Tok, with, &[], |m| m.expect_tok() => m.tok().res();
    r "MockRefRet::st" (x: u8) refr String, with, &["{}"], |m| m.expect_st() => m.st(x).to_string().res();
    r "MockRefRet::sl" (x: u8) refr Vec<u32>, with, &["{}"], |m| m.expect_sl() => m.sl(x).first().map_or(Res(EMPTY, 0), |v| v.res());
    r "MockRefRet::dy" (x: u8) refr Box<dyn SlotDyn>, with, &["{}"], |m| m.expect_dy() => m.dy(x).peek_dyn();
    r "MockRefRet::stat" (x: u8) own &'static str, with, &["{}"], |m| m.expect_stat() => m.stat(x);
    r "MockRefRet::statref" () own &'static u32, with, &[], |m| m.expect_statref() => m.statref();
});

// -------------------------------------------------------------- returning mutable references
#[automock]
pub trait MutRet {
    fn slot(&mut self, x: u8) -> &mut Slot;
    fn plain(&mut self, x: u8, t: Tok) -> &mut Slot;
    fn dy(&mut self) -> &mut dyn SlotDyn;
    fn sl(&mut self, x: u8) -> &mut [Slot];
    fn view(&self, x: u8) -> &Slot;
    fn own(&self, x: u8) -> u32;
}
shape!(ShMutRet, MockMutRet, MockMutRet::new(), F_MUTRET | F_DROPARG, {
    m "MockMutRet::slot" (x: u8) mutr Slot, with, &["{}"], |m| m.expect_slot() => m.slot(x).bump();
    m "MockMutRet::plain" (x: u8, t: Tok) mutr Slot, with, &["{}", "Tok({})"], |m| m.expect_plain() => m.plain(x, t).bump();
    m "MockMutRet::dy" () mutr Box<dyn SlotDyn>, with, &[], |m| m.expect_dy() => m.dy().bump_dyn();
    m "MockMutRet::sl" (x: u8) mutr Vec<Slot>, with, &["{}"], |m| m.expect_sl() => m.sl(x).first_mut().map_or(Res(EMPTY, 0), |v| v.bump());
    r "MockMutRet::view" (x: u8) refr Slot, with, &["{}"], |m| m.expect_view() => m.view(x).res();
    r "MockMutRet::own" (x: u8) own u32, with, &["{}"], |m| m.expect_own() => m.own(x);
});

// -------------------------------------------------------------- generic methods
#[automock]
pub trait Gen {
    fn arg<T: Debug + 'static>(&self, t: T) -> u32;
    fn ret<T: 'static>(&self, x: u8) -> T;
    fn two<A: 'static, B: Debug + 'static>(&self, a: A, b: B) -> u32;
    fn rf<T: Send + Sync + 'static>(&self, x: u8) -> &T;
    fn mt<T: Send + Sync + 'static>(&mut self, x: u8) -> &mut T;
    fn wh<T>(&self, t: T) -> u32 where T: Clone + Debug + 'static;
}
shape!(ShGen, MockGen, MockGen::new(), F_GENERIC | F_DROPARG, {
    r "MockGen::arg" (t: u8) own u32, with, &["{}"], |m| m.expect_arg::<u8>() => m.arg(t);
    r "MockGen::arg" (t: i16) own u32, with, &["{}"], |m| m.expect_arg::<i16>() => m.arg(t);
    r "MockGen::arg" (t: ta::K) own u32, with, &["*"], |m| m.expect_arg::<ta::K>() => m.arg(t);
    r "MockGen::arg" (t: tb::K) own u32, with, &["*"], |m| m.expect_arg::<tb::K>() => m.arg(t);
    r "MockGen::arg" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_arg::<Tok>() => m.arg(t);
    r "MockGen::ret" (x: u8) own u32, with, &["{}"], |m| m.expect_ret::<u32>() => m.ret::<u32>(x);
    r "MockGen::ret" (x: u8) own String, with, &["{}"], |m| m.expect_ret::<String>() => m.ret::<String>(x);
    r "MockGen::ret" (x: u8) own ta::K, with, &["{}"], |m| m.expect_ret::<ta::K>() => m.ret::<ta::K>(x);
    r "MockGen::ret" (x: u8) own tb::K, with, &["{}"], |m| m.expect_ret::<tb::K>() => m.ret::<tb::K>(x);
    r "MockGen::two" (a: u8, b: u16) own u32, with, &["*", "{}"], |m| m.expect_two::<u8, u16>() => m.two(a, b);
    r "MockGen::two" (a: u16, b: u8) own u32, with, &["*", "{}"], |m| m.expect_two::<u16, u8>() => m.two(a, b);
    r "MockGen::two" (a: ta::K, b: tb::K) own u32, with, &["*", "*"], |m| m.expect_two::<ta::K, tb::K>() => m.two(a, b);
    r "MockGen::two" (a: tb::K, b: ta::K) own u32, with, &["*", "*"], |m| m.expect_two::<tb::K, ta::K>() => m.two(a, b);
    r "MockGen::rf" (x: u8) refr u32, with, &["{}"], |m| m.expect_rf::<u32>() => m.rf::<u32>(x).res();
    r "MockGen::rf" (x: u8) refr String, with, &["{}"], |m| m.expect_rf::<String>() => m.rf::<String>(x).res();
    m "MockGen::mt" (x: u8) mutr Slot, with, &["{}"], |m| m.expect_mt::<Slot>() => m.mt::<Slot>(x).bump();
    m "MockGen::mt" (x: u8) mutr Box<Slot>, with, &["{}"], |m| m.expect_mt::<Box<Slot>>() => m.mt::<Box<Slot>>(x).bump();
    r "MockGen::wh" (t: u8) own u32, with, &["{}"], |m| m.expect_wh::<u8>() => m.wh(t);
    r "MockGen::wh" (t: String) own u32, with, &["\"s{}\""], |m| m.expect_wh::<String>() => m.wh(t);
});

// -------------------------------------------------------------- generic structs and traits
mock! {
    pub GStruct<T: 'static> {
        pub fn put(&self, t: T) -> u32;
        pub fn get(&self, x: u8) -> T;
        pub fn peek(&self, t: &T) -> u32;
        pub fn gm<U: 'static>(&self, t: T, u: U) -> u32;
        pub fn mu(&mut self, t: T) -> T;
    }
}
shape!(ShGStructU, MockGStruct<u32>, MockGStruct::new(), F_GENERIC | F_STRUCTGEN, {
    r "MockGStruct::put" (t: u32) own u32, with, &["?"], |m| m.expect_put() => m.put(t);
    r "MockGStruct::get" (x: u8) own u32, with, &["{}"], |m| m.expect_get() => m.get(x);
    r "MockGStruct::peek" (t: u32) own u32, with, &["?"], |m| m.expect_peek() => m.peek(&t);
    r "MockGStruct::gm" (t: u32, u: u8) own u32, with, &["?", "?"], |m| m.expect_gm::<u8>() => m.gm(t, u);
    r "MockGStruct::gm" (t: u32, u: u16) own u32, with, &["?", "?"], |m| m.expect_gm::<u16>() => m.gm(t, u);
    m "MockGStruct::mu" (t: u32) own u32, with, &["?"], |m| m.expect_mu() => m.mu(t);
});
shape!(ShGStructT, MockGStruct<Tok>, MockGStruct::new(), F_GENERIC | F_STRUCTGEN | F_DROPARG, {
    r "MockGStruct::put" (t: Tok) own u32, with, &["?"], |m| m.expect_put() => m.put(t);
    r "MockGStruct::get" (x: u8) own Tok, with, &["{}"], |m| m.expect_get() => m.get(x);
    r "MockGStruct::peek" (t: Tok) own u32, with, &["?"], |m| m.expect_peek() => m.peek(&t);
    r "MockGStruct::gm" (t: Tok, u: ta::K) own u32, with, &["?", "?"], |m| m.expect_gm::<ta::K>() => m.gm(t, u);
    r "MockGStruct::gm" (t: Tok, u: tb::K) own u32, with, &["?", "?"], |m| m.expect_gm::<tb::K>() => m.gm(t, u);
    m "MockGStruct::mu" (t: Tok) own Tok, with, &["?"], |m| m.expect_mu() => m.mu(t);
});
#[automock]
pub trait GTrait<T, V> where T: 'static, V: Debug + 'static {
    fn conv(&self, t: T) -> V;
    fn back(&self, v: V) -> T;
    fn refv(&self, x: u8) -> &V;
}
shape!(ShGTrait, MockGTrait<u32, Tok>, MockGTrait::new(), F_GENERIC | F_STRUCTGEN | F_DROPARG, {
    r "MockGTrait::conv" (t: u32) own Tok, with, &["?"], |m| m.expect_conv() => m.conv(t);
    r "MockGTrait::back" (v: Tok) own u32, with, &["Tok({})"], |m| m.expect_back() => m.back(v);
    r "MockGTrait::refv" (x: u8) refr Tok, with, &["{}"], |m| m.expect_refv() => m.refv(x).res();
});

// -------------------------------------------------------------- three type parameters
#[automock]
pub trait Gen3 {
    fn three<A: 'static, B: 'static, C: Debug + 'static>(&self, a: A, b: B, c: C) -> u32;
    fn ret3<A: 'static, B: 'static, C: 'static>(&self, a: A, b: B) -> C;
    fn wide<A: 'static, B: 'static, C: 'static, D: 'static>(&self, a: A, b: B, c: C, d: D) -> u32;
}
shape!(ShGen3, MockGen3, MockGen3::new(), F_GENERIC, {
    r "MockGen3::three" (a: u8, b: u8, c: u8) own u32, with, &["?", "?", "{}"], |m| m.expect_three::<u8, u8, u8>() => m.three(a, b, c);
    r "MockGen3::three" (a: u8, b: u8, c: u16) own u32, with, &["?", "?", "{}"], |m| m.expect_three::<u8, u8, u16>() => m.three(a, b, c);
    r "MockGen3::three" (a: u8, b: u16, c: u8) own u32, with, &["?", "?", "{}"], |m| m.expect_three::<u8, u16, u8>() => m.three(a, b, c);
    r "MockGen3::three" (a: u16, b: u8, c: u8) own u32, with, &["?", "?", "{}"], |m| m.expect_three::<u16, u8, u8>() => m.three(a, b, c);
    r "MockGen3::three" (a: ta::K, b: tb::K, c: ta::K) own u32, with, &["*", "*", "*"], |m| m.expect_three::<ta::K, tb::K, ta::K>() => m.three(a, b, c);
    r "MockGen3::three" (a: ta::K, b: tb::K, c: tb::K) own u32, with, &["*", "*", "*"], |m| m.expect_three::<ta::K, tb::K, tb::K>() => m.three(a, b, c);
    r "MockGen3::ret3" (a: u8, b: u8) own u32, with, &["?", "?"], |m| m.expect_ret3::<u8, u8, u32>() => m.ret3::<u8, u8, u32>(a, b);
    r "MockGen3::ret3" (a: u8, b: u8) own i64, with, &["?", "?"], |m| m.expect_ret3::<u8, u8, i64>() => m.ret3::<u8, u8, i64>(a, b);
    r "MockGen3::wide" (a: u8, b: u8, c: u8, d: u8) own u32, with, &["?", "?", "?", "?"], |m| m.expect_wide::<u8, u8, u8, u8>() => m.wide(a, b, c, d);
    r "MockGen3::wide" (a: u8, b: u8, c: u8, d: i64) own u32, with, &["?", "?", "?", "?"], |m| m.expect_wide::<u8, u8, u8, i64>() => m.wide(a, b, c, d);
    r "MockGen3::wide" (a: u8, b: u8, c: i64, d: u8) own u32, with, &["?", "?", "?", "?"], |m| m.expect_wide::<u8, u8, i64, u8>() => m.wide(a, b, c, d);
});
mock! {
    pub GPair<T: 'static, U: 'static> {
        pub fn put(&self, t: T, u: U) -> u32;
        pub fn gm<V: 'static>(&self, t: T, v: V) -> U;
        pub fn gmut<V: Send + Sync + 'static>(&mut self, u: U) -> &mut V;
    }
    impl<T: 'static, U: 'static> Clone for GPair<T, U> {
        fn clone(&self) -> Self;
    }
}
// a mock that is itself returned by a mock; answers with its code
impl RetV for MockGPair<u32, i64> {
    fn make(c: u32) -> Self {
        let mut m = MockGPair::new();
        m.expect_put().returning(move |_, _| c);
        m
    }
    fn res(&self) -> Res {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.put(0, 0)));
        Res(r.unwrap_or(EMPTY), 0)
    }
}
shape!(ShGPair, MockGPair<u32, i64>, MockGPair::new(), F_GENERIC | F_STRUCTGEN | F_MULTI, {
    r "MockGPair::clone" () ownnc MockGPair<u32, i64>, with, &[], |m| m.expect_clone() => m.clone();
    r "MockGPair::put" (t: u32, u: i64) own u32, with, &["?", "?"], |m| m.expect_put() => m.put(t, u);
    r "MockGPair::gm" (t: u32, v: u8) own i64, with, &["?", "?"], |m| m.expect_gm::<u8>() => m.gm(t, v);
    r "MockGPair::gm" (t: u32, v: u16) own i64, with, &["?", "?"], |m| m.expect_gm::<u16>() => m.gm(t, v);
    m "MockGPair::gmut" (u: i64) mutr Slot, with, &["?"], |m| m.expect_gmut::<Slot>() => m.gmut::<Slot>(u).bump();
    m "MockGPair::gmut" (u: i64) mutr Box<Slot>, with, &["?"], |m| m.expect_gmut::<Box<Slot>>() => m.gmut::<Box<Slot>>(u).bump();
});

pub const SHAPES: &[ShapeInfo] =
    &[ShGen3::INFO, ShGPair::INFO, ShRefRet::INFO, ShMutRet::INFO, ShGen::INFO, ShGStructU::INFO, ShGStructT::INFO, ShGTrait::INFO];
