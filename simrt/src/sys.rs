//! The few system calls the runtime needs (no libc crate: nothing can be fetched here).

use core::ffi::{c_int, c_long, c_void};

unsafe extern "C" {
    pub fn mmap(a: *mut c_void, l: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    pub fn mprotect(a: *mut c_void, l: usize, p: c_int) -> c_int;
    pub fn madvise(a: *mut c_void, l: usize, p: c_int) -> c_int;
    pub fn _exit(c: c_int) -> !;
    pub fn write(fd: c_int, b: *const c_void, n: usize) -> isize;
    pub fn sigaction(s: c_int, a: *const SigAction, o: *mut SigAction) -> c_int;
    pub fn sigaltstack(a: *const StackT, o: *mut StackT) -> c_int;
    pub fn setitimer(w: c_int, n: *const ITimerVal, o: *mut ITimerVal) -> c_int;
    pub fn prctl(o: c_int, a: c_long, ...) -> c_int;
}

#[repr(C)]
pub struct SigAction {
    pub handler: usize,
    pub mask: [u64; 16],
    pub flags: c_int,
    pub restorer: usize,
}
#[repr(C)]
pub struct StackT {
    pub sp: *mut c_void,
    pub flags: c_int,
    pub size: usize,
}
#[repr(C)]
pub struct ITimerVal {
    pub interval: [i64; 2],
    pub value: [i64; 2],
}

pub const PROT_RW: c_int = 3;
pub const PROT_NONE: c_int = 0;
/// MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE
pub const MAP_ANON: c_int = 0x2 | 0x20 | 0x4000;
pub const MAP_FIXED_NOREPLACE: c_int = 0x10_0000;
pub const MADV_DONTNEED: c_int = 4;

/// Maps anonymous memory at a fixed address, so that every process sees the same addresses.
pub fn map_fixed(addr: usize, len: usize) -> *mut u8 {
    let p = unsafe {
        mmap(
            addr as *mut c_void,
            len,
            PROT_RW,
            MAP_ANON | MAP_FIXED_NOREPLACE,
            -1,
            0,
        )
    };
    assert_eq!(p as usize, addr, "cannot map the simulation arena");
    p.cast()
}
