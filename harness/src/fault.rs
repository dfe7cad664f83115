//! Preloaded into a tool: read and write fail after a number of bytes, or transfer a byte at a time.
//! VF_READ=n, VF_WRITE=n: the operation that would go beyond n bytes in total fails (standard error is exempt);
//! VF_ERRNO: the error (otherwise EIO for reads, ENOSPC for writes);
//! VF_SHORT=1: one byte at a time; the file VF_MARK appears when an operation has failed.
use std::ffi::{c_char, c_int, c_long, c_void};
use std::sync::atomic::{AtomicI64, Ordering};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn getenv(n: *const c_char) -> *const c_char;
    fn atol(s: *const c_char) -> c_long;
    fn __errno_location() -> *mut c_int;
}

const SYS_READ: c_long = 0;
const SYS_WRITE: c_long = 1;
const SYS_OPEN: c_long = 2;
const SYS_CLOSE: c_long = 3;

static GOT: AtomicI64 = AtomicI64::new(0);
static PUT: AtomicI64 = AtomicI64::new(0);

unsafe fn limit(name: &[u8]) -> i64 {
    let p = getenv(name.as_ptr() as *const c_char);
    if p.is_null() {
        -1
    } else {
        atol(p) as i64
    }
}

unsafe fn fails(e: c_int) -> isize {
    let p = getenv(b"VF_MARK\0".as_ptr() as *const c_char);
    if !p.is_null() {
        let fd = syscall(SYS_OPEN, p, 0o101 as c_int, 0o600 as c_int);
        if fd >= 0 {
            syscall(SYS_CLOSE, fd);
        }
    }
    *__errno_location() = e;
    -1
}

unsafe fn transfer(sys: c_long, fd: c_int, buf: *mut c_void, n: usize, lim: i64, done: &AtomicI64, e: c_int) -> isize {
    let mut n = n;
    if limit(b"VF_SHORT\0") > 0 && n > 1 {
        n = 1;
    }
    if lim >= 0 && n > 0 {
        let left = lim - done.load(Ordering::SeqCst);
        if left <= 0 {
            let x = limit(b"VF_ERRNO\0");
            return fails(if x > 0 { x as c_int } else { e });
        }
        n = n.min(left as usize);
    }
    let r = syscall(sys, fd as c_long, buf, n) as isize;
    if r > 0 {
        done.fetch_add(r as i64, Ordering::SeqCst);
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    transfer(SYS_READ, fd, buf, n, limit(b"VF_READ\0"), &GOT, 5)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd == 2 {
        return syscall(SYS_WRITE, fd as c_long, buf, n) as isize;
    }
    transfer(SYS_WRITE, fd, buf as *mut c_void, n, limit(b"VF_WRITE\0"), &PUT, 28)
}
