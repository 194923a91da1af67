//! Catalogue part H: sizes.  Many arguments, many methods, many instantiations.
#![allow(dead_code, clippy::all)]
use mockall::*;
use simcore::*;

// -------------------------------------------------------------- many arguments
#[automock]
pub trait Wide {
    fn own(&self, a0: u8, a1: u16, a2: u32, a3: Tok, a4: String, a5: i16, a6: u8, a7: u8, a8: u64, a9: Tok, a10: u8, a11: u32, a12: u16, a13: u8, a14: String, a15: Tok) -> u32;
    fn rf(&self, a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: Tok, a9: u16, a10: u16, a11: u16) -> &u32;
    fn mt(&mut self, a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: Tok, a9: u16, a10: u16, a11: u16) -> &mut String;
    fn by_val(self, a0: u8, a1: Tok, a2: u8, a3: u16, a4: String, a5: u8, a6: u32, a7: u8, a8: Tok, a9: u8) -> Tok;
    fn st(a0: u8, a1: Tok, a2: u8, a3: u16, a4: String, a5: u8, a6: u32, a7: u8, a8: Tok, a9: u8) -> Tok;
}
shape!(ShWide, MockWide, MockWide::new(), F_DROPARG | F_REFRET | F_MUTRET | F_OWN, {
    r "MockWide::own" (a0: u8, a1: u16, a2: u32, a3: Tok, a4: String, a5: i16, a6: u8, a7: u8, a8: u64, a9: Tok, a10: u8, a11: u32, a12: u16, a13: u8, a14: String, a15: Tok) own u32, with, &["{}", "{}", "{}", "Tok({})", "\"s{}\"", "{}", "{}", "{}", "{}", "Tok({})", "{}", "{}", "{}", "{}", "\"s{}\"", "Tok({})"], |m| m.expect_own() => m.own(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15);
    r "MockWide::rf" (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: Tok, a9: u16, a10: u16, a11: u16) refr u32, with, &["{}", "{}", "{}", "{}", "{}", "{}", "{}", "{}", "Tok({})", "{}", "{}", "{}"], |m| m.expect_rf() => m.rf(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11).res();
    m "MockWide::mt" (a0: u8, a1: u8, a2: u8, a3: u8, a4: u8, a5: u8, a6: u8, a7: u8, a8: Tok, a9: u16, a10: u16, a11: u16) mutr String, with, &["{}", "{}", "{}", "{}", "{}", "{}", "{}", "{}", "Tok({})", "{}", "{}", "{}"], |m| m.expect_mt() => str_bump(m.mt(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11));
    o "MockWide::by_val" (a0: u8, a1: Tok, a2: u8, a3: u16, a4: String, a5: u8, a6: u32, a7: u8, a8: Tok, a9: u8) own Tok, with, &["{}", "Tok({})", "{}", "{}", "\"s{}\"", "{}", "{}", "{}", "Tok({})", "{}"], |m| m.expect_by_val() => m.by_val(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
});
statics!(SxWide, F_DROPARG | F_PLAIN, None, { ctx |m| MockWide::st_context(), {
    "MockWide::st" (a0: u8, a1: Tok, a2: u8, a3: u16, a4: String, a5: u8, a6: u32, a7: u8, a8: Tok, a9: u8) own Tok, with, &["{}", "Tok({})", "{}", "{}", "\"s{}\"", "{}", "{}", "{}", "Tok({})", "{}"], m.expect() => MockWide::st(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9);
} });

// -------------------------------------------------------------- many methods, some with confusing names
#[automock]
pub trait Crowd {
    fn m(&self, x: u8) -> u32;
    fn m1(&self, x: u16) -> Tok;
    fn m10(&self, x: u32) -> u32;
    fn m_1(&self, x: Tok) -> String;
    fn mm(&mut self, x: String) -> u32;
    fn m1m(&self, x: u8) -> Tok;
    fn n(&self, x: u8) -> u32;
    fn new_m(&self, x: i16) -> String;
    fn expect(&self, x: u8) -> u32;
    fn is(&mut self, x: u16) -> Tok;
    fn go(&self, x: u32) -> u32;
    fn set(&self, x: Tok) -> String;
    fn get(&self, x: String) -> u32;
    fn default_(&self, x: u8) -> Tok;
    fn clone_it(&mut self, x: u8) -> u32;
    fn len(&self, x: i16) -> String;
    fn call(&self, x: u8) -> u32;
    fn times(&self, x: u16) -> Tok;
    fn with_it(&self, x: u32) -> u32;
    fn matches_it(&mut self, x: Tok) -> String;
    fn once_(&self, x: String) -> u32;
    fn never_(&self, x: u8) -> Tok;
    fn checkpoint_(&self, x: u8) -> u32;
    fn drop_it(&self, x: i16) -> String;
}
shape!(ShCrowd, MockCrowd, MockCrowd::new(), F_PLAIN | F_DROPARG, {
    r "MockCrowd::m" (x: u8) own u32, with, &["{}"], |m| m.expect_m() => m.m(x);
    r "MockCrowd::m1" (x: u16) own Tok, with, &["{}"], |m| m.expect_m1() => m.m1(x);
    r "MockCrowd::m10" (x: u32) own u32, with, &["{}"], |m| m.expect_m10() => m.m10(x);
    r "MockCrowd::m_1" (x: Tok) own String, with, &["Tok({})"], |m| m.expect_m_1() => m.m_1(x);
    m "MockCrowd::mm" (x: String) own u32, with, &["\"s{}\""], |m| m.expect_mm() => m.mm(x);
    r "MockCrowd::m1m" (x: u8) own Tok, with, &["{}"], |m| m.expect_m1m() => m.m1m(x);
    r "MockCrowd::n" (x: u8) own u32, with, &["{}"], |m| m.expect_n() => m.n(x);
    r "MockCrowd::new_m" (x: i16) own String, with, &["{}"], |m| m.expect_new_m() => m.new_m(x);
    r "MockCrowd::expect" (x: u8) own u32, with, &["{}"], |m| m.expect_expect() => m.expect(x);
    m "MockCrowd::is" (x: u16) own Tok, with, &["{}"], |m| m.expect_is() => m.is(x);
    r "MockCrowd::go" (x: u32) own u32, with, &["{}"], |m| m.expect_go() => m.go(x);
    r "MockCrowd::set" (x: Tok) own String, with, &["Tok({})"], |m| m.expect_set() => m.set(x);
    r "MockCrowd::get" (x: String) own u32, with, &["\"s{}\""], |m| m.expect_get() => m.get(x);
    r "MockCrowd::default_" (x: u8) own Tok, with, &["{}"], |m| m.expect_default_() => m.default_(x);
    m "MockCrowd::clone_it" (x: u8) own u32, with, &["{}"], |m| m.expect_clone_it() => m.clone_it(x);
    r "MockCrowd::len" (x: i16) own String, with, &["{}"], |m| m.expect_len() => m.len(x);
    r "MockCrowd::call" (x: u8) own u32, with, &["{}"], |m| m.expect_call() => m.call(x);
    r "MockCrowd::times" (x: u16) own Tok, with, &["{}"], |m| m.expect_times() => m.times(x);
    r "MockCrowd::with_it" (x: u32) own u32, with, &["{}"], |m| m.expect_with_it() => m.with_it(x);
    m "MockCrowd::matches_it" (x: Tok) own String, with, &["Tok({})"], |m| m.expect_matches_it() => m.matches_it(x);
    r "MockCrowd::once_" (x: String) own u32, with, &["\"s{}\""], |m| m.expect_once_() => m.once_(x);
    r "MockCrowd::never_" (x: u8) own Tok, with, &["{}"], |m| m.expect_never_() => m.never_(x);
    r "MockCrowd::checkpoint_" (x: u8) own u32, with, &["{}"], |m| m.expect_checkpoint_() => m.checkpoint_(x);
    r "MockCrowd::drop_it" (x: i16) own String, with, &["{}"], |m| m.expect_drop_it() => m.drop_it(x);
});

// -------------------------------------------------------------- concretized methods of every kind
mock! {
    pub Conc {
        // (the name of a variable of the generated code, once)
        #[mockall::concretize]
        pub fn inst<P: AsRef<str>>(&self, no_match_msg: P, x: u8) -> String;
        #[mockall::concretize]
        pub fn rf<P: AsRef<str>>(&self, p: P) -> &u32;
        #[mockall::concretize]
        pub fn mt<P: AsRef<str>>(&mut self, x: u8, p: P) -> &mut String;
        #[mockall::concretize]
        pub fn st<P: AsRef<str>>(no_match_msg: P) -> Tok;
        #[mockall::concretize]
        pub fn two<P: AsRef<str>, Q: AsRef<str>>(p: P, x: u8, q: &Q) -> u32;
    }
}
shape!(ShConc, MockConc, MockConc::new(), F_CONCR | F_REFRET | F_MUTRET, {
    r "MockConc::inst" (p: String, x: u8) own String, nowith, &["*", "{}"], |m| m.expect_inst() => m.inst(p, x);
    r "MockConc::rf" (p: String) refr u32, nowith, &["*"], |m| m.expect_rf() => m.rf(p).res();
    m "MockConc::mt" (x: u8, p: String) mutr String, nowith, &["{}", "*"], |m| m.expect_mt() => str_bump(m.mt(x, p));
});
statics!(SxConc, F_CONCR, None, { ctx |m| MockConc::st_context(), {
    "MockConc::st" (p: String) own Tok, nowith, &["*"], m.expect() => MockConc::st(p);
} });
statics!(SxConc2, F_CONCR, None, { ctx |m| MockConc::two_context(), {
    "MockConc::two" (p: String, x: u8, q: String) own u32, nowith, &["*", "{}", "*"], m.expect() => MockConc::two(p, x, &q);
} });

// -------------------------------------------------------------- many instantiations, many type parameters
mock! {
    pub Insts {
        pub fn gk<T: 'static>(&self, t: T) -> u32;
        pub fn gret<T: 'static>(&mut self, x: u8) -> T;
        pub fn five<A: 'static, B: 'static, C: 'static, D: 'static, E: 'static>(&self, a: A, b: B, c: C, d: D, e: E) -> u32;
        pub fn wrap<T: 'static>(&self, v: Vec<T>, o: Option<T>) -> Vec<T>;
        pub fn sk<T: 'static>(t: T) -> u32;
        pub fn s2<A: 'static, R: 'static>(a: A) -> R;
    }
}
shape!(ShInsts, MockInsts, MockInsts::new(), F_GENERIC, {
    r "MockInsts::gk" (t: N<0>) own u32, with, &["?"], |m| m.expect_gk::<N<0>>() => m.gk(t);
    r "MockInsts::gk" (t: N<1>) own u32, with, &["?"], |m| m.expect_gk::<N<1>>() => m.gk(t);
    r "MockInsts::gk" (t: N<2>) own u32, with, &["?"], |m| m.expect_gk::<N<2>>() => m.gk(t);
    r "MockInsts::gk" (t: N<3>) own u32, with, &["?"], |m| m.expect_gk::<N<3>>() => m.gk(t);
    r "MockInsts::gk" (t: N<4>) own u32, with, &["?"], |m| m.expect_gk::<N<4>>() => m.gk(t);
    r "MockInsts::gk" (t: N<5>) own u32, with, &["?"], |m| m.expect_gk::<N<5>>() => m.gk(t);
    r "MockInsts::gk" (t: N<6>) own u32, with, &["?"], |m| m.expect_gk::<N<6>>() => m.gk(t);
    r "MockInsts::gk" (t: N<7>) own u32, with, &["?"], |m| m.expect_gk::<N<7>>() => m.gk(t);
    r "MockInsts::gk" (t: N<8>) own u32, with, &["?"], |m| m.expect_gk::<N<8>>() => m.gk(t);
    r "MockInsts::gk" (t: N<9>) own u32, with, &["?"], |m| m.expect_gk::<N<9>>() => m.gk(t);
    r "MockInsts::gk" (t: N<10>) own u32, with, &["?"], |m| m.expect_gk::<N<10>>() => m.gk(t);
    r "MockInsts::gk" (t: N<11>) own u32, with, &["?"], |m| m.expect_gk::<N<11>>() => m.gk(t);
    r "MockInsts::gk" (t: N<12>) own u32, with, &["?"], |m| m.expect_gk::<N<12>>() => m.gk(t);
    r "MockInsts::gk" (t: N<13>) own u32, with, &["?"], |m| m.expect_gk::<N<13>>() => m.gk(t);
    r "MockInsts::gk" (t: N<14>) own u32, with, &["?"], |m| m.expect_gk::<N<14>>() => m.gk(t);
    r "MockInsts::gk" (t: N<15>) own u32, with, &["?"], |m| m.expect_gk::<N<15>>() => m.gk(t);
    r "MockInsts::gk" (t: N<16>) own u32, with, &["?"], |m| m.expect_gk::<N<16>>() => m.gk(t);
    r "MockInsts::gk" (t: N<17>) own u32, with, &["?"], |m| m.expect_gk::<N<17>>() => m.gk(t);
    r "MockInsts::gk" (t: N<18>) own u32, with, &["?"], |m| m.expect_gk::<N<18>>() => m.gk(t);
    r "MockInsts::gk" (t: N<19>) own u32, with, &["?"], |m| m.expect_gk::<N<19>>() => m.gk(t);
    m "MockInsts::gret" (x: u8) own N<0>, with, &["{}"], |m| m.expect_gret::<N<0>>() => m.gret::<N<0>>(x);
    m "MockInsts::gret" (x: u8) own N<1>, with, &["{}"], |m| m.expect_gret::<N<1>>() => m.gret::<N<1>>(x);
    m "MockInsts::gret" (x: u8) own N<2>, with, &["{}"], |m| m.expect_gret::<N<2>>() => m.gret::<N<2>>(x);
    m "MockInsts::gret" (x: u8) own N<3>, with, &["{}"], |m| m.expect_gret::<N<3>>() => m.gret::<N<3>>(x);
    m "MockInsts::gret" (x: u8) own N<4>, with, &["{}"], |m| m.expect_gret::<N<4>>() => m.gret::<N<4>>(x);
    m "MockInsts::gret" (x: u8) own N<5>, with, &["{}"], |m| m.expect_gret::<N<5>>() => m.gret::<N<5>>(x);
    r "MockInsts::five" (a: u8, b: u8, c: u8, d: u8, e: u8) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<u8, u8, u8, u8, u8>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: u8, b: u8, c: u8, d: u8, e: u16) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<u8, u8, u8, u8, u16>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: u16, b: u8, c: u8, d: u8, e: u8) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<u16, u8, u8, u8, u8>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: u8, b: u16, c: u8, d: u8, e: u8) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<u8, u16, u8, u8, u8>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: u16, b: u8, c: u16, d: u8, e: u16) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<u16, u8, u16, u8, u16>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: ta::K, b: tb::K, c: ta::K, d: tb::K, e: ta::K) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<ta::K, tb::K, ta::K, tb::K, ta::K>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: tb::K, b: ta::K, c: tb::K, d: ta::K, e: tb::K) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<tb::K, ta::K, tb::K, ta::K, tb::K>() => m.five(a, b, c, d, e);
    r "MockInsts::five" (a: u8, b: Tok, c: u8, d: String, e: N<1>) own u32, with, &["?", "?", "?", "?", "?"], |m| m.expect_five::<u8, Tok, u8, String, N<1>>() => m.five(a, b, c, d, e);
    r "MockInsts::wrap" (v: Vec<u32>, o: Option<u32>) own Vec<u32>, with, &["?", "?"], |m| m.expect_wrap::<u32>() => m.wrap(v, o);
    r "MockInsts::wrap" (v: Vec<String>, o: Option<String>) own Vec<String>, with, &["?", "?"], |m| m.expect_wrap::<String>() => m.wrap(v, o);
    r "MockInsts::wrap" (v: Vec<N<2>>, o: Option<N<2>>) own Vec<N<2>>, with, &["?", "?"], |m| m.expect_wrap::<N<2>>() => m.wrap(v, o);
});
statics!(SxK, F_GENERIC, None, { ctx |m| MockInsts::sk_context(), {
    "MockInsts::sk" (t: N<0>) own u32, with, &["?"], m.expect::<N<0>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<1>) own u32, with, &["?"], m.expect::<N<1>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<2>) own u32, with, &["?"], m.expect::<N<2>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<3>) own u32, with, &["?"], m.expect::<N<3>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<4>) own u32, with, &["?"], m.expect::<N<4>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<5>) own u32, with, &["?"], m.expect::<N<5>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<6>) own u32, with, &["?"], m.expect::<N<6>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<7>) own u32, with, &["?"], m.expect::<N<7>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<8>) own u32, with, &["?"], m.expect::<N<8>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<9>) own u32, with, &["?"], m.expect::<N<9>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<10>) own u32, with, &["?"], m.expect::<N<10>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<11>) own u32, with, &["?"], m.expect::<N<11>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<12>) own u32, with, &["?"], m.expect::<N<12>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<13>) own u32, with, &["?"], m.expect::<N<13>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<14>) own u32, with, &["?"], m.expect::<N<14>>() => MockInsts::sk(t);
    "MockInsts::sk" (t: N<15>) own u32, with, &["?"], m.expect::<N<15>>() => MockInsts::sk(t);
} });
statics!(SxS2, F_GENERIC, None, { ctx |m| MockInsts::s2_context(), {
    "MockInsts::s2" (a: u8) own u32, with, &["?"], m.expect::<u8, u32>() => MockInsts::s2::<u8, u32>(a);
    "MockInsts::s2" (a: u32) own u32, with, &["?"], m.expect::<u32, u32>() => MockInsts::s2::<u32, u32>(a);
    "MockInsts::s2" (a: u32) own String, with, &["?"], m.expect::<u32, String>() => MockInsts::s2::<u32, String>(a);
    "MockInsts::s2" (a: String) own u32, with, &["?"], m.expect::<String, u32>() => MockInsts::s2::<String, u32>(a);
    "MockInsts::s2" (a: N<1>) own N<2>, with, &["?"], m.expect::<N<1>, N<2>>() => MockInsts::s2::<N<1>, N<2>>(a);
    "MockInsts::s2" (a: N<2>) own N<1>, with, &["?"], m.expect::<N<2>, N<1>>() => MockInsts::s2::<N<2>, N<1>>(a);
    "MockInsts::s2" (a: ta::K) own tb::K, with, &["?"], m.expect::<ta::K, tb::K>() => MockInsts::s2::<ta::K, tb::K>(a);
    "MockInsts::s2" (a: tb::K) own ta::K, with, &["?"], m.expect::<tb::K, ta::K>() => MockInsts::s2::<tb::K, ta::K>(a);
} });

pub const SHAPES: &[ShapeInfo] = &[ShWide::INFO, ShCrowd::INFO, ShConc::INFO, ShInsts::INFO];
pub const STATICS: &[StaticInfo] = &[SxWide::INFO, SxConc::INFO, SxConc2::INFO, SxK::INFO, SxS2::INFO];
