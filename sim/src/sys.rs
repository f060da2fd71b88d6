//! The few libc entry points the harness needs (no `libc` crate: nothing may be fetched).
#![allow(non_camel_case_types)]
use std::ffi::{c_int, c_long, c_void};

#[repr(C)]
pub struct pollfd {
    pub fd: c_int,
    pub events: i16,
    pub revents: i16,
}

unsafe extern "C" {
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, options: c_int) -> c_int;
    pub fn pipe(fds: *mut c_int) -> c_int;
    pub fn poll(fds: *mut pollfd, n: u64, timeout: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize;
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    pub fn close(fd: c_int) -> c_int;
    pub fn open(path: *const std::ffi::c_char, flags: c_int, ...) -> c_int;
    pub fn dup2(a: c_int, b: c_int) -> c_int;
    pub fn mmap(addr: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn munmap(addr: *mut c_void, len: usize) -> c_int;
    pub fn mprotect(addr: *mut c_void, len: usize, prot: c_int) -> c_int;
    pub fn gettid() -> c_int;
    pub fn prctl(op: c_int, ...) -> c_int;
}

pub fn tid() -> i32 {
    unsafe { gettid() }
}

pub fn write_all(fd: c_int, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr() as *const c_void, b.len()) };
        if n <= 0 {
            unsafe { _exit(70) }
        }
        b = &b[n as usize..];
    }
}
