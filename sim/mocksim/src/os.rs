//! The few system calls the driver needs.
use std::os::raw::{c_int, c_long, c_void};
extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn fork() -> c_int;
    pub fn waitpid(pid: c_int, st: *mut c_int, opt: c_int) -> c_int;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    fn open(p: *const u8, fl: c_int, ...) -> c_int;
    fn dup2(a: c_int, b: c_int) -> c_int;
    fn prctl(a: c_int, ...) -> c_int;
    fn usleep(n: u32) -> c_int;
    fn sched_setaffinity(pid: c_int, n: usize, mask: *const u64) -> c_int;
}
pub fn shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap");
    p as *mut u8
}
pub fn silence() {
    unsafe {
        let fd = open(c"/dev/null".as_ptr() as *const u8, 1);
        if fd >= 0 {
            dup2(fd, 2);
        }
    }
}
/// die with the parent
pub fn die_with_parent() {
    unsafe {
        prctl(1, 9);
    }
}
pub fn pin(cpu: usize) {
    let mut m = [0u64; 16];
    m[cpu / 64] = 1 << (cpu % 64);
    unsafe {
        sched_setaffinity(0, 128, m.as_ptr());
    }
}
pub fn sleep_us(n: u32) {
    unsafe {
        usleep(n);
    }
}
