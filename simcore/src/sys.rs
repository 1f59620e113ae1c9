//! The few system calls the simulator itself needs.
use std::os::raw::{c_int, c_long, c_void};

extern "C" {
    pub fn fork() -> c_int;
    pub fn personality(p: std::os::raw::c_ulong) -> c_int;
    pub fn waitpid(pid: c_int, status: *mut c_int, opt: c_int) -> c_int;
    pub fn _exit(code: c_int) -> !;
    pub fn kill(pid: c_int, sig: c_int) -> c_int;
    pub fn getpid() -> c_int;
    pub fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: c_long) -> *mut c_void;
    pub fn setitimer(which: c_int, new: *const ITimer, old: *mut ITimer) -> c_int;
    pub fn setrlimit(res: c_int, r: *const [u64; 2]) -> c_int;
    pub fn prctl(op: c_int, a: u64, b: u64, c: u64, d: u64) -> c_int;
    pub fn write(fd: c_int, buf: *const c_void, n: usize) -> isize;
    pub fn alarm(secs: u32) -> u32;
    pub fn setpgid(pid: c_int, pg: c_int) -> c_int;
}

#[repr(C)]
pub struct ITimer {
    pub isec: c_long,
    pub iusec: c_long,
    pub sec: c_long,
    pub usec: c_long,
}

/// Kill this process when it has used this much CPU time (0 = off).
pub fn cpu_watchdog(secs: u64) {
    let t = ITimer { isec: 0, iusec: 0, sec: secs as c_long, usec: 0 };
    unsafe {
        setitimer(2, &t, std::ptr::null_mut());
    }
}

pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
    }
}

pub fn no_core() {
    unsafe {
        setrlimit(4, &[0, 0]);
    }
}

pub fn shared_page(len: usize) -> *mut u8 {
    let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x21, -1, 0) };
    assert!(p as isize != -1, "mmap failed");
    p as *mut u8
}

pub enum End {
    Exit(i32),
    Signal(i32),
}

pub fn wait(pid: c_int) -> End {
    let mut st = 0;
    loop {
        let r = unsafe { waitpid(pid, &mut st, 0) };
        if r == pid {
            break;
        }
        if r < 0 && std::io::Error::last_os_error().raw_os_error() != Some(4) {
            return End::Exit(-1);
        }
    }
    if st & 0x7f == 0 {
        End::Exit((st >> 8) & 0xff)
    } else {
        End::Signal(st & 0x7f)
    }
}
