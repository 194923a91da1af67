//! Catalogue part G: special references, shared receivers, trait objects,
//! constructors, statics of traits, supertraits, more async statics.
#![allow(dead_code, clippy::all)]
use async_trait::async_trait;
use mockall::*;
use simcore::*;
use std::ffi::{CStr, CString, OsStr, OsString};
use std::future::Future;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Waker};

// -------------------------------------------------------------- references to unsized types
#[automock]
pub trait Kinds {
    fn pa(&self, x: u8) -> &Path;
    fn os(&self) -> &OsStr;
    fn cs(&self, x: u8) -> &CStr;
    fn ms(&mut self, x: u8) -> &mut str;
    fn parg(&self, p: &Path) -> u32;
}
fn own_res<T: ToOwned + ?Sized>(x: &T) -> Res
where
    T::Owned: RetV,
{
    x.to_owned().res()
}
shape!(ShKinds, MockKinds, MockKinds::new(), F_REFRET | F_MUTRET, {
    r "MockKinds::pa" (x: u8) refr PathBuf, with, &["{}"], |m| m.expect_pa() => own_res(m.pa(x));
    r "MockKinds::os" () refr OsString, with, &[], |m| m.expect_os() => own_res(m.os());
    r "MockKinds::cs" (x: u8) refr CString, with, &["{}"], |m| m.expect_cs() => own_res(m.cs(x));
    m "MockKinds::ms" (x: u8) mutr String, with, &["{}"], |m| m.expect_ms() => str_bump(m.ms(x));
    r "MockKinds::parg" (s: String) own u32, with, &["\"s{}\""], |m| m.expect_parg() => m.parg(Path::new(&s));
});

// -------------------------------------------------------------- receivers that share the mock
mock! {
    pub Shared {
        pub fn arc(self: Arc<Self>, x: u8) -> u32;
        pub fn rc(self: Rc<Self>, t: Tok) -> Tok;
        pub fn pb(self: Pin<Box<Self>>, x: u8) -> String;
        pub fn plain(&self, x: u8) -> u32;
    }
}
shape!(ShShared, MockShared, MockShared::new(), F_OWN | F_DROPARG, {
    o "MockShared::arc" (x: u8) own u32, with, &["{}"], |m| m.expect_arc() => Arc::new(m).arc(x);
    o "MockShared::rc" (t: Tok) own Tok, with, &["Tok({})"], |m| m.expect_rc() => Rc::new(m).rc(t);
    o "MockShared::pb" (x: u8) own String, with, &["{}"], |m| m.expect_pb() => Box::pin(m).pb(x);
    r "MockShared::plain" (x: u8) own u32, with, &["{}"], |m| m.expect_plain() => m.plain(x);
});

// -------------------------------------------------------------- trait objects and exclusive references as arguments
#[automock]
pub trait Dynamic {
    fn obj(&self, o: &dyn Obj) -> u32;
    fn bobj(&self, o: Box<dyn Obj>, x: u8) -> u32;
    fn fill(&self, t: &mut Tok) -> u32;
    unsafe fn danger(&self, x: u8) -> u32;
    fn never_debug(&mut self, o: &dyn Obj) -> Tok;
}
shape!(ShDynamic, MockDynamic, MockDynamic::new(), F_DROPARG, {
    r "MockDynamic::obj" (t: Tok) own u32, with, &["?"], |m| m.expect_obj() => m.obj(&t);
    r "MockDynamic::bobj" (t: Tok, x: u8) own u32, with, &["?", "{}"], |m| m.expect_bobj() => m.bobj(Box::new(t), x);
    r "MockDynamic::fill" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_fill() => m.fill(&mut t);
    r "MockDynamic::danger" (x: u8) own u32, with, &["{}"], |m| m.expect_danger() => unsafe { m.danger(x) };
    m "MockDynamic::never_debug" (t: Tok) own Tok, with, &["?"], |m| m.expect_never_debug() => m.never_debug(&t);
});

// -------------------------------------------------------------- supertraits; statics of a trait implemented by mock!
pub trait Sup {
    fn sup(&self, x: u8) -> u32;
    fn ssup(x: u8) -> u32;
}
pub trait Sub: Sup {
    fn sub(&mut self, t: Tok) -> u32;
    fn gsub<T: 'static>(t: T) -> u32;
}
mock! {
    pub Sb {
        pub fn own(&self, x: u8) -> u32;
        pub fn sown(x: u8) -> u32;
    }
    impl Sup for Sb {
        fn sup(&self, x: u8) -> u32;
        fn ssup(x: u8) -> u32;
    }
    impl Sub for Sb {
        fn sub(&mut self, t: Tok) -> u32;
        fn gsub<T: 'static>(t: T) -> u32;
    }
}
shape!(ShSb, MockSb, MockSb::new(), F_MULTI | F_DROPARG, {
    r "MockSb::own" (x: u8) own u32, with, &["{}"], |m| m.expect_own() => m.own(x);
    r "MockSb::sup" (x: u8) own u32, with, &["{}"], |m| m.expect_sup() => m.sup(x);
    m "MockSb::sub" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_sub() => m.sub(t);
});
statics!(SgOwn, F_MULTI, None, { ctx |m| MockSb::sown_context(), {
    "MockSb::sown" (x: u8) own u32, with, &["{}"], m.expect() => MockSb::sown(x);
} });
statics!(SgSup, F_MULTI, None, { ctx |m| MockSb::ssup_context(), {
    "MockSb::ssup" (x: u8) own u32, with, &["{}"], m.expect() => <MockSb as Sup>::ssup(x);
} });
statics!(SgSub, F_MULTI | F_GENERIC, None, { ctx |m| MockSb::gsub_context(), {
    "MockSb::gsub" (t: u8) own u32, with, &["?"], m.expect::<u8>() => <MockSb as Sub>::gsub(t);
    "MockSb::gsub" (t: i64) own u32, with, &["?"], m.expect::<i64>() => <MockSb as Sub>::gsub(t);
} });

// -------------------------------------------------------------- constructors: statics that return mocks
#[automock]
pub trait Maker {
    fn make(x: u8) -> Self where Self: Sized;
    fn boxed(x: u8) -> Box<Self> where Self: Sized;
    fn stat(x: u8) -> &'static str;
    fn id(&self) -> u32;
}
impl RetV for MockMaker {
    fn make(c: u32) -> Self {
        let mut m = MockMaker::new();
        m.expect_id().returning(move || c);
        m
    }
    fn res(&self) -> Res {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.id()));
        Res(r.unwrap_or(EMPTY), 0)
    }
}
statics!(SgMake, F_PLAIN, None, { ctx |m| MockMaker::make_context(), {
    "MockMaker::make" (x: u8) ownnc MockMaker, with, &["{}"], m.expect() => <MockMaker as Maker>::make(x);
} });
statics!(SgBoxed, F_PLAIN, None, { ctx |m| MockMaker::boxed_context(), {
    "MockMaker::boxed" (x: u8) ownnc Box<MockMaker>, with, &["{}"], m.expect() => <MockMaker as Maker>::boxed(x);
} });
statics!(SgStat, F_PLAIN, None, { ctx |m| MockMaker::stat_context(), {
    "MockMaker::stat" (x: u8) own &'static str, with, &["{}"], m.expect() => MockMaker::stat(x);
} });

// -------------------------------------------------------------- automock on the impl of a trait; attributes
pub trait Plainer {
    fn pl(&self, x: u8) -> u32;
    fn gl<T: 'static>(&self, t: T) -> T;
}
pub struct Impl {}
#[automock]
impl Plainer for Impl {
    fn pl(&self, x: u8) -> u32 {
        x as u32
    }
    fn gl<T: 'static>(&self, t: T) -> T {
        t
    }
}
shape!(ShImpl, MockImpl, MockImpl::new(), F_GENERIC, {
    r "MockImpl::pl" (x: u8) own u32, with, &["{}"], |m| m.expect_pl() => m.pl(x);
    r "MockImpl::gl" (t: u32) own u32, with, &["?"], |m| m.expect_gl::<u32>() => m.gl(t);
    r "MockImpl::gl" (t: Tok) own Tok, with, &["?"], |m| m.expect_gl::<Tok>() => m.gl(t);
});

// -------------------------------------------------------------- async statics and explicitly boxed futures
fn now<F: Future + ?Sized>(mut f: Pin<Box<F>>) -> F::Output {
    match f.as_mut().poll(&mut Cx::from_waker(Waker::noop())) {
        Poll::Ready(x) => x,
        Poll::Pending => panic!("future of a mock is pending"),
    }
}
#[automock]
#[async_trait]
pub trait AsT {
    async fn st(x: u8) -> u32;
    async fn inst(&self, t: Tok) -> u32;
}
mock! {
    pub AsG {
        pub async fn sg<T: Send + 'static>(t: T) -> u32;
    }
}
statics!(SgAst, F_ASYNC, None, { ctx |m| MockAsT::st_context(), {
    "MockAsT::st" (x: u8) own u32, with, &["{}"], m.expect() => now(Box::pin(MockAsT::st(x)));
} });
statics!(SgAsg, F_ASYNC | F_GENERIC | F_DROPARG, None, { ctx |m| MockAsG::sg_context(), {
    "MockAsG::sg" (t: u8) own u32, with, &["?"], m.expect::<u8>() => now(Box::pin(MockAsG::sg(t)));
    "MockAsG::sg" (t: Tok) own u32, with, &["?"], m.expect::<Tok>() => now(Box::pin(MockAsG::sg(t)));
} });
shape!(ShAsT, MockAsT, MockAsT::new(), F_ASYNC | F_DROPARG, {
    a "MockAsT::inst" (t: Tok) own u32, with, &["Tok({})"], |m| m.expect_inst() => m.inst(t);
});

pub const SHAPES: &[ShapeInfo] =
    &[ShKinds::INFO, ShShared::INFO, ShDynamic::INFO, ShSb::INFO, ShImpl::INFO, ShAsT::INFO];
pub const STATICS: &[StaticInfo] = &[
    SgOwn::INFO, SgSup::INFO, SgSub::INFO, SgMake::INFO, SgBoxed::INFO, SgStat::INFO, SgAst::INFO, SgAsg::INFO,
];
