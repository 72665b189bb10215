//! A sample of each kind of unsafe code: the lint has to find every one.
#![allow(unsafe_code, dead_code)]
pub struct S;
pub unsafe trait T {} // unsafe
unsafe impl T for S {} // unsafe
pub fn block(p: *const u8) -> u8 {
    unsafe { *p } // unsafe
}
pub unsafe fn function() {} // unsafe
#[no_mangle]
pub extern "C" fn exported() {} // unsafe
#[export_name = "name"]
pub fn named() {} // unsafe
#[link_section = ".init_array"]
pub static PLACED: u8 = 1; // unsafe
extern "C" {
    fn foreign(); // does not count by itself; calling it does
}
pub fn calls() {
    unsafe { foreign() } // unsafe
}
