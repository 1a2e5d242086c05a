//! Coverage-guided search over the choice tapes: libFuzzer (the one that comes with clang) mutates the
//! tape of one property, chosen by FUZZ_PROP; the code under test and the harness are instrumented.
#![no_main]
use dlhn_verif::runner::{self, Prop};

static mut PROP: Option<&'static Prop> = None;
static mut THOROUGH: bool = true;

#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(_: *mut i32, _: *mut *mut *mut u8) -> i32 {
    let id = std::env::var("FUZZ_PROP").expect("FUZZ_PROP");
    let p = dlhn_verif::props::all().into_iter().find(|p| p.id == id).expect("property");
    runner::install_hook();
    unsafe {
        PROP = Some(p);
        THOROUGH = std::env::var("VERIF_TIER").map_or(true, |t| t == "thorough");
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, len: usize) -> i32 {
    let tape = if len == 0 { &[] } else { std::slice::from_raw_parts(data, len) };
    runner::fuzz_one(PROP.unwrap(), THOROUGH, tape);
    0
}
