//! Catalogue part F: modules of functions, foreign functions.
#![allow(dead_code, clippy::all, improper_ctypes)]
use mockall::*;
use simcore::*;

#[automock]
pub mod md {
    use simcore::Tok;
    pub fn m1(_x: u8) -> u32 {
        unimplemented!()
    }
    pub fn m2(_t: Tok) -> Tok {
        unimplemented!()
    }
    pub fn m3<T: 'static>(_t: T) -> u32 {
        unimplemented!()
    }
    pub fn m4() -> u32 {
        unimplemented!()
    }
}
const G: Option<(usize, fn())> = Some((0, || mock_md::checkpoint()));
statics!(SfM1, F_MODULE, G, { ctx |m| mock_md::m1_context(), {
    "mock_md::m1" (x: u8) own u32, with, &["{}"], m.expect() => mock_md::m1(x);
} });
statics!(SfM2, F_MODULE | F_DROPARG, G, { ctx |m| mock_md::m2_context(), {
    "mock_md::m2" (t: Tok) own Tok, with, &["Tok({})"], m.expect() => mock_md::m2(t);
} });
statics!(SfM3, F_MODULE | F_GENERIC, G, { ctx |m| mock_md::m3_context(), {
    "mock_md::m3" (t: u8) own u32, with, &["?"], m.expect::<u8>() => mock_md::m3(t);
    "mock_md::m3" (t: u16) own u32, with, &["?"], m.expect::<u16>() => mock_md::m3(t);
} });
statics!(SfM4, F_MODULE, G, { ctx |m| mock_md::m4_context(), {
    "mock_md::m4" () own u32, with, &[], m.expect() => mock_md::m4();
} });

#[automock]
pub mod ffi {
    extern "C" {
        pub fn mocksim_c1(x: u32) -> i64;
        pub fn mocksim_c2(x: u32, y: u8) -> u32;
    }
    extern "Rust" {
        pub fn mocksim_r1(x: u8) -> u32;
    }
}
const GF: Option<(usize, fn())> = Some((1, || mock_ffi::checkpoint()));
statics!(SfC1, F_FOREIGN | F_MODULE, GF, { ctx |m| mock_ffi::mocksim_c1_context(), {
    "mock_ffi::mocksim_c1" (x: u32) own i64, with, &["{}"], m.expect() => unsafe { mock_ffi::mocksim_c1(x) };
} });
statics!(SfC2, F_FOREIGN | F_MODULE, GF, { ctx |m| mock_ffi::mocksim_c2_context(), {
    "mock_ffi::mocksim_c2" (x: u32, y: u8) own u32, with, &["{}", "{}"], m.expect() => unsafe { mock_ffi::mocksim_c2(x, y) };
} });
statics!(SfR1, F_FOREIGN | F_MODULE, GF, { ctx |m| mock_ffi::mocksim_r1_context(), {
    "mock_ffi::mocksim_r1" (x: u8) own u32, with, &["{}"], m.expect() => unsafe { mock_ffi::mocksim_r1(x) };
} });

pub const STATICS: &[StaticInfo] =
    &[SfM1::INFO, SfM2::INFO, SfM3::INFO, SfM4::INFO, SfC1::INFO, SfC2::INFO, SfR1::INFO];
