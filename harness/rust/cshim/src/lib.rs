//! The C bindings of /repo as a shared library over the checking allocator, plus hooks to read its counters.
extern crate polyglot;

#[cfg(not(feature = "plain"))]
#[global_allocator]
static A: talloc::Checked = talloc::Checked;

/// Keeps every entry point of the bindings in the library.
#[no_mangle]
pub extern "C" fn vchk_faults(what: *mut u32) -> u32 {
    let (n, w) = talloc::faults();
    unsafe { *what = w as u32 };
    n as u32
}
#[no_mangle]
pub extern "C" fn vchk_live_blocks() -> u64 {
    talloc::live().1 as u64
}
#[no_mangle]
pub extern "C" fn vchk_total() -> u64 {
    talloc::total() as u64
}
#[no_mangle]
pub extern "C" fn vchk_drain() {
    talloc::check_quarantine()
}
/// Bytes the calling thread allocated minus freed, as a wrapping number; 0 means balanced.
#[no_mangle]
pub extern "C" fn vchk_mine() -> u64 {
    talloc::mine().1 as u64
}
