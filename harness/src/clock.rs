//! Interposes the process's `clock_gettime` so that the monotonic clock can be made to jump ahead:
//! recordings that last for days take no time.
use std::sync::atomic::{AtomicU64, Ordering};

/// Nanoseconds the monotonic clock is ahead.
static AHEAD: AtomicU64 = AtomicU64::new(0);

pub fn jump(ns: u64) {
    AHEAD.fetch_add(ns, Ordering::SeqCst);
}
pub fn reset() {
    AHEAD.store(0, Ordering::SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    let r = libc::syscall(libc::SYS_clock_gettime, id, ts) as i32;
    if r == 0 && id == libc::CLOCK_MONOTONIC {
        let ahead = AHEAD.load(Ordering::SeqCst);
        let n = (*ts).tv_nsec as u64 + ahead % 1_000_000_000;
        (*ts).tv_sec += (ahead / 1_000_000_000 + n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
    }
    r
}
