//! Interposes the process's `write` so that writes to one watched file become scheduling points,
//! crash points, and places to inject short writes, interruptions and errors.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;

static ACTIVE: AtomicBool = AtomicBool::new(false);
static INO: AtomicU64 = AtomicU64::new(0);
static DEV: AtomicU64 = AtomicU64::new(0);
/// When INO is zero, the first regular file written to while armed is adopted.
static ADOPT: AtomicBool = AtomicBool::new(false);

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// accept at most this many bytes
    Short(usize),
    Eintr,
    Error(i32),
    /// accept nothing, without an error
    Zero,
}

pub type Hook = dyn FnMut(usize, &[u8]) -> Fault + Send;
static HOOK: Mutex<Option<Box<Hook>>> = Mutex::new(None);

/// Watch the file at `path` (or the first regular file written, if None).
pub fn arm(path: Option<&std::path::Path>, hook: Box<Hook>) {
    use std::os::unix::fs::MetadataExt;
    match path {
        Some(p) => {
            let m = std::fs::metadata(p).unwrap();
            INO.store(m.ino(), Ordering::SeqCst);
            DEV.store(m.dev(), Ordering::SeqCst);
            ADOPT.store(false, Ordering::SeqCst);
        }
        None => {
            INO.store(0, Ordering::SeqCst);
            ADOPT.store(true, Ordering::SeqCst);
        }
    }
    *HOOK.lock().unwrap_or_else(|e| e.into_inner()) = Some(hook);
    ACTIVE.store(true, Ordering::SeqCst);
}

pub fn disarm() {
    ACTIVE.store(false, Ordering::SeqCst);
    *HOOK.lock().unwrap_or_else(|e| e.into_inner()) = None;
}

fn watched(fd: i32) -> bool {
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::fstat(fd, &mut st) != 0 || (st.st_mode & libc::S_IFMT) != libc::S_IFREG {
            return false;
        }
        if ADOPT.swap(false, Ordering::SeqCst) {
            INO.store(st.st_ino, Ordering::SeqCst);
            DEV.store(st.st_dev, Ordering::SeqCst);
        }
        st.st_ino == INO.load(Ordering::SeqCst) && st.st_dev == DEV.load(Ordering::SeqCst)
    }
}

unsafe fn errno(e: i32) -> isize {
    *libc::__errno_location() = e;
    -1
}

unsafe fn handle(fd: i32, buf: *const u8, n: usize, raw: &dyn Fn(usize) -> isize) -> isize {
    if fd <= 2 || !ACTIVE.load(Ordering::Relaxed) || !watched(fd) {
        return raw(n);
    }
    crate::sched::yield_point();
    let fault = {
        let mut h = HOOK.lock().unwrap_or_else(|e| e.into_inner());
        match h.as_mut() {
            Some(h) => h(n, std::slice::from_raw_parts(buf, n)),
            None => Fault::None,
        }
    };
    match fault {
        Fault::None => raw(n),
        Fault::Short(k) => raw(k.min(n).max(1.min(n))),
        Fault::Eintr => errno(libc::EINTR),
        Fault::Error(e) => errno(e),
        Fault::Zero => 0,
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    handle(fd, buf, n, &|k| libc::syscall(libc::SYS_write, fd, buf, k) as isize)
}

#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    handle(fd, buf, n, &|k| libc::syscall(libc::SYS_pwrite64, fd, buf, k, off) as isize)
}

/// Vectored writes are turned into one plain write of a prefix: a legal short write.
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, iov: *const libc::iovec, cnt: i32) -> isize {
    if fd <= 2 || !ACTIVE.load(Ordering::Relaxed) || !watched(fd) {
        return libc::syscall(libc::SYS_writev, fd, iov, cnt) as isize;
    }
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            let (b, l) = (v.iov_base as *const u8, v.iov_len);
            return handle(fd, b, l, &|k| libc::syscall(libc::SYS_write, fd, b, k) as isize);
        }
    }
    0
}
