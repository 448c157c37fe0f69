//! The remaining operating system seams: randomness and clocks of the process are the
//! simulator's; plus CPU and memory fences around each worker.

use crate::sched;
use std::ffi::{c_int, c_long, c_void};

extern "C" {
    fn syscall(n: c_long, ...) -> c_long;
    fn setitimer(which: c_int, new: *const [i64; 4], old: *mut [i64; 4]) -> c_int;
    fn setrlimit(res: c_int, lim: *const [u64; 2]) -> c_int;
    fn personality(p: u64) -> c_int;
}

/// std seeds its hash maps from here: always the same keys, so iteration orders replay.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, _flags: u32) -> isize {
    let out = std::slice::from_raw_parts_mut(buf as *mut u8, len);
    for (i, b) in out.iter_mut().enumerate() { *b = (i as u8).wrapping_mul(37).wrapping_add(11); }
    len as isize
}

/// Clocks show simulated time (one millisecond a step) while a run is in progress.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: c_int, ts: *mut [i64; 2]) -> c_int {
    if sched::active() {
        let ms = sched::with(|s| s.steps) as i64;
        *ts = [1_700_000_000 + ms / 1000, ms % 1000 * 1_000_000];
        return 0;
    }
    syscall(228, id as c_long, ts) as c_int
}

/// Kills the process (SIGPROF) when one run burns this much CPU time.
pub fn cpu_fence(secs: i64) { unsafe { setitimer(2, &[0, 0, secs, 0], std::ptr::null_mut()); } }

pub fn memory_fence(bytes: u64) { unsafe { setrlimit(9, &[bytes, bytes]); setrlimit(4, &[0, 0]); } }

/// For the children: the same addresses every time.
pub fn fixed_addresses() { unsafe { personality(0x0040000); } }
