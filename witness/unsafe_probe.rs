//! The lint that C21 relies on must reject each of these (compiled on every run with the same flag as the library).
#![allow(unsafe_code)]
pub fn block(p: *const u8) -> u8 { unsafe { *p } }
pub unsafe fn function() {}
pub struct S(*const u8);
unsafe impl Sync for S {}
pub unsafe trait T {}
#[unsafe(no_mangle)]
pub extern "C" fn exported() {}
#[allow(unsafe_code)]
pub fn allowed(p: *const u8) -> u8 { unsafe { p.read() } }
macro_rules! m { ($e:expr) => { unsafe { $e } } }
pub fn macro_use(p: *const u8) -> u8 { m!(p.read()) }
