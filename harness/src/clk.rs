//! The wall clock seen by the code under test. `clock_gettime` is interposed for CLOCK_REALTIME:
//! a thread may pin it; otherwise it is pinned far ahead of every generated slot, so that the
//! "not yet begun" rule only applies where a check sets the clock.
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub const ERA: i64 = 1_735_732_800;
pub const SLOT: i64 = 6;
const FAR: i64 = ERA + SLOT * (1 << 32) + 5;

static ON: AtomicBool = AtomicBool::new(false);
thread_local! {
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
pub fn install() {
    ON.store(true, Ordering::SeqCst);
}
/// Runs `f` with this thread's wall clock pinned.
pub fn at<T>(secs: i64, nanos: i64, f: impl FnOnce() -> T) -> T {
    struct Reset(Option<(i64, i64)>);
    impl Drop for Reset {
        fn drop(&mut self) {
            NOW.with(|n| n.set(self.0));
        }
    }
    let _r = Reset(NOW.with(|n| n.replace(Some((secs, nanos)))));
    f()
}
pub fn at_slot<T>(slot: u32, within_ms: u64, f: impl FnOnce() -> T) -> T {
    at(
        ERA + slot as i64 * SLOT + (within_ms / 1000) as i64,
        (within_ms % 1000) as i64 * 1_000_000,
        f,
    )
}

#[no_mangle]
/// # Safety
/// Same contract as the C function.
pub unsafe extern "C" fn clock_gettime(
    id: libc::clockid_t,
    ts: *mut libc::timespec,
) -> libc::c_int {
    if id == libc::CLOCK_REALTIME && ON.load(Ordering::Relaxed) {
        let (s, n) = NOW.try_with(|n| n.get()).ok().flatten().unwrap_or((FAR, 0));
        (*ts).tv_sec = s;
        (*ts).tv_nsec = n;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int
}
