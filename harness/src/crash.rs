//! Ends the process (kill -9) at the n-th change to files under a directory, or at the n-th access to a store. The
//! functions of libc that change files are interposed; a write can be torn.
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_long, c_uint, c_void};
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
use std::sync::Mutex;

static LEFT: AtomicI64 = AtomicI64::new(0);
static ARMED: AtomicBool = AtomicBool::new(false);
static TORN: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicI64 = AtomicI64::new(0);
static ROOT: Mutex<Option<String>> = Mutex::new(None);

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
}

pub fn die() -> ! {
    unsafe {
        kill(getpid(), 9);
    }
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1))
    }
}

/// Die at the n-th (from 1) change below `root`.
pub fn arm(root: &str, n: i64, torn: bool) {
    *ROOT.lock().unwrap() = Some(root.to_string());
    TORN.store(torn, SeqCst);
    LEFT.store(n, SeqCst);
    COUNT.store(0, SeqCst);
    ARMED.store(true, SeqCst);
}

fn below(path: &str) -> bool {
    ROOT.lock().unwrap().as_ref().map(|r| path.starts_with(r.as_str())).unwrap_or(false)
}
fn below_fd(fd: c_int) -> bool {
    let link = format!("/proc/self/fd/{}\0", fd);
    let mut buf = [0u8; 512];
    let n = unsafe { syscall(89, link.as_ptr(), buf.as_mut_ptr(), buf.len()) };
    n > 0 && std::str::from_utf8(&buf[..n as usize]).map(below).unwrap_or(false)
}
fn below_ptr(p: *const c_char) -> bool {
    unsafe { CStr::from_ptr(p) }.to_str().map(below).unwrap_or(false)
}
/// true: this is the change at which to die
fn now() -> bool {
    COUNT.fetch_add(1, SeqCst);
    LEFT.fetch_sub(1, SeqCst) == 1
}
unsafe fn ret(r: c_long) -> c_long {
    r // syscall() of libc sets errno itself
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    if ARMED.load(SeqCst) && flags & 0o1100 != 0 && below_ptr(path) && now() {
        die();
    }
    ret(syscall(257, -100 as c_long, path, flags as c_long, mode as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: c_uint) -> c_int {
    if ARMED.load(SeqCst) && below_ptr(path) && now() {
        die();
    }
    ret(syscall(83, path, mode as c_long)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if ARMED.load(SeqCst) && below_ptr(b) && now() {
        die();
    }
    ret(syscall(82, a, b)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if ARMED.load(SeqCst) && below_ptr(a) && now() {
        die();
    }
    ret(syscall(87, a)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    if fd > 2 && ARMED.load(SeqCst) && below_fd(fd) && now() {
        if TORN.load(SeqCst) {
            syscall(1, fd as c_long, buf, n / 2);
        }
        die();
    }
    ret(syscall(1, fd as c_long, buf, n)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    if ARMED.load(SeqCst) && below_fd(fd) && now() {
        if TORN.load(SeqCst) {
            syscall(18, fd as c_long, buf, n / 2, off);
        }
        die();
    }
    ret(syscall(18, fd as c_long, buf, n, off)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if ARMED.load(SeqCst) && below_fd(fd) && now() {
        die();
    }
    ret(syscall(77, fd as c_long, len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    if ARMED.load(SeqCst) && below_fd(fd) && now() {
        die();
    }
    ret(syscall(74, fd as c_long)) as c_int
}
