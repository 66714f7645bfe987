// shifts the wall clock (CLOCK_REALTIME) that this process sees, so that expiry can be exercised without waiting
use std::sync::atomic::{AtomicI64, Ordering};
#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
extern "C" { fn syscall(n: i64, ...) -> i64; }
static SKEW: AtomicI64 = AtomicI64::new(0);
pub fn skew(secs: i64) { SKEW.store(secs, Ordering::SeqCst) }
#[cfg(target_arch = "x86_64")]
const NR: i64 = 228;
#[cfg(not(target_arch = "x86_64"))]
const NR: i64 = 113;
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let r = syscall(NR, clk as i64, ts);
    if r == 0 && clk == 0 { (*ts).sec += SKEW.load(Ordering::SeqCst); }
    r as i32
}
