//! The few C functions the explorer needs, and the counters of its interposing allocator (alloc.c).
#![allow(dead_code)]
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
extern "C" {
    pub fn fork() -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn waitpid(p: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn kill(p: c_int, s: c_int) -> c_int;
    pub fn mmap(a: *mut c_void, l: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, l: usize, prot: c_int) -> c_int;
    pub fn open(p: *const c_char, fl: c_int, ...) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn close(a: c_int) -> c_int;
    pub fn getpid() -> c_int;
    pub fn prctl(o: c_int, a: usize, b: usize, c: usize, d: usize) -> c_int;
    pub fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;

    pub static mut vp_active: c_int;
    pub static mut vp_count: u64;
    pub static mut vp_total: u64;
    pub static mut vp_fail_at: u64;
    pub static mut vp_fail_len: u64;
    pub static mut vp_failed: u64;
    pub static mut vp_live: i64;
    pub static mut vp_live_bytes: i64;
    pub static mut vp_peak_bytes: i64;
    pub static mut vp_corrupt: u64;
    pub static mut vp_maxreq: u64;
    pub static mut vp_cap: u64;
    pub static mut vp_quarantine: c_int;
    pub static mut vp_poison: c_int;
    pub static mut vp_fpoison: c_int;
    pub fn vp_flush_quarantine();
    pub static mut vp_hook: Option<extern "C" fn()>;
    pub static mut vp_steps: u64; pub static mut vp_steps_in: u64;
    pub fn vp_step_on(cb: extern "C" fn()) -> c_int;
    pub fn vp_step_off();
    pub fn syscall(n: c_long, ...) -> c_long;
    pub fn clock_gettime(id: c_int, t: *mut c_long) -> c_int;
}
/// Marks "inside the library" for the allocator; the handlers switch it off while they run.
pub struct In(c_int);
impl In {
    #[inline] pub fn lib() -> In { unsafe { let o = vp_active; vp_active = 1; In(o) } }
    #[inline] pub fn user() -> In { unsafe { let o = vp_active; vp_active = 0; In(o) } }
}
impl Drop for In { #[inline] fn drop(&mut self) { unsafe { vp_active = self.0 } } }
/// `lib!(expr)`: evaluates a call into the library with allocation tracking on.
#[macro_export]
macro_rules! lib { ($e:expr) => {{ let _g = $crate::sys::In::lib(); #[allow(unused_unsafe)] let r = unsafe { $e }; r }}; }

pub fn shared(len: usize) -> *mut u8 {
    unsafe {
        let p = mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0); // RW, SHARED|ANON
        assert!(p as isize != -1); p as *mut u8
    }
}
/// A region whose last byte is followed by an inaccessible page.
pub struct Guarded { base: *mut u8, len: usize }
impl Guarded {
    pub fn new(len: usize) -> Guarded {
        let len = (len + 4095) / 4096 * 4096;
        unsafe {
            let p = mmap(std::ptr::null_mut(), len + 4096, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            assert!(mprotect((p as *mut u8).add(len) as *mut c_void, 4096, 0) == 0);
            Guarded { base: p as *mut u8, len }
        }
    }
    pub fn put(&self, d: &[u8]) -> *mut u8 {
        assert!(d.len() <= self.len);
        unsafe { let q = self.base.add(self.len - d.len()); std::ptr::copy_nonoverlapping(d.as_ptr(), q, d.len()); q }
    }
    pub fn cap(&self) -> usize { self.len }
}
