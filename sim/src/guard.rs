//! Input buffers that end flush against an inaccessible page: a read outside the buffer is a memory fault, not luck.

use crate::sys;

pub struct Guarded {
    base: *mut u8,
    map: usize,
    start: usize,
    len: usize,
}

const PAGE: usize = 4096;

impl Guarded {
    /// `front`: flush against the leading guard page instead of the trailing one.
    pub fn new(data: &[u8], front: bool) -> Guarded {
        let body = data.len().div_ceil(PAGE).max(1) * PAGE;
        let map = body + 2 * PAGE;
        unsafe {
            let base = sys::mmap(std::ptr::null_mut(), map, 3, 0x22, -1, 0) as *mut u8;
            assert!(base as isize != -1, "mmap");
            let start = if front { PAGE } else { PAGE + body - data.len() };
            std::ptr::copy_nonoverlapping(data.as_ptr(), base.add(start), data.len());
            sys::mprotect(base as *mut _, PAGE, 0);
            sys::mprotect(base.add(PAGE + body) as *mut _, PAGE, 0);
            sys::mprotect(base.add(PAGE) as *mut _, body, 1);
            Guarded { base, map, start, len: data.len() }
        }
    }
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.base.add(self.start), self.len) }
    }
}
impl Drop for Guarded {
    fn drop(&mut self) {
        unsafe {
            sys::munmap(self.base as *mut _, self.map);
        }
    }
}
