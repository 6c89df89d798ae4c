//! The few system calls the harness needs, without a libc crate.
use std::ffi::c_void;

extern "C" {
    fn write(fd: i32, buf: *const c_void, n: usize) -> isize;
    fn _exit(code: i32) -> !;
    fn personality(p: u64) -> i32;
    fn pwrite(fd: i32, buf: *const c_void, n: usize, off: i64) -> isize;
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    if cfg!(miri) {
        print!("{}", String::from_utf8_lossy(b));
        return;
    }
    while !b.is_empty() {
        let n = unsafe { write(fd, b.as_ptr().cast(), b.len()) };
        if n <= 0 {
            return;
        }
        b = &b[n as usize..];
    }
}
pub fn exit_now(code: i32) -> ! {
    if cfg!(miri) {
        std::process::exit(code)
    }
    unsafe { _exit(code) }
}
pub fn put_at(fd: i32, b: &[u8], off: i64) {
    unsafe {
        pwrite(fd, b.as_ptr().cast(), b.len(), off);
    }
}
/// Address-space randomisation off, so that a run that corrupts memory does so the same way again.
pub fn no_aslr() {
    unsafe {
        let cur = personality(0xffff_ffff);
        if cur >= 0 {
            personality(cur as u64 | 0x0040000);
        }
    }
}
pub fn limit_memory(bytes: u64) {
    unsafe {
        setrlimit(9, &[bytes, bytes]);
        setrlimit(4, &[0, 0]); // no core files
    }
}
/// CPU time used by this process, in ms. Read by the watchdog only.
pub fn cpu_ms() -> u64 {
    let mut ts = [0i64; 2];
    unsafe {
        clock_gettime(2, &mut ts);
    }
    ts[0] as u64 * 1000 + ts[1] as u64 / 1_000_000
}
