//! libc entry points the simulator owns while a run is active.
use crate::raw::{ret_errno, sys6};
use crate::sched;


#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if sched::active() {
        if n == 202 {
            let op = b & 0x7f;
            let r = match op {
                // FUTEX_WAIT, FUTEX_WAIT_BITSET
                0 | 9 => {
                    let deadline = if d == 0 {
                        None
                    } else {
                        let ts = d as *const i64;
                        let t = (*ts as u64).wrapping_mul(1_000_000_000).wrapping_add(*ts.add(1) as u64);
                        let base = 1_000_000_000_000u64;
                        if op == 0 {
                            Some((sched::mono_ns() - base).saturating_add(t))
                        } else {
                            Some(t.saturating_sub(base))
                        }
                    };
                    sched::futex_wait(a as usize, c as u32, deadline, op == 9)
                }
                // FUTEX_WAKE, FUTEX_WAKE_BITSET
                1 | 10 => sched::futex_wake(a as usize, (c as i32).max(0) as usize),
                _ => -38,
            };
            return ret_errno(r);
        }
        if n == 186 {
            return 1000 + sched::cur() as i64; // gettid
        }
    }
    if n == 318 && sched::prepared() {
        return fill(a as *mut u8, b as usize);
    }
    ret_errno(sys6(n, a, b, c, d, e, f))
}

unsafe fn fill(p: *mut u8, n: usize) -> i64 {
    for i in 0..n {
        *p.add(i) = (sched::rnd_u64() >> 24) as u8;
    }
    n as i64
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> i64 {
    if sched::prepared() {
        return fill(p, n);
    }
    ret_errno(sys6(318, p as i64, n as i64, flags as i64, 0, 0, 0))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if sched::prepared() {
        let t = match id {
            0 | 5 => sched::real_ns(),
            _ => sched::mono_ns(),
        };
        *ts = (t as i64).div_euclid(1_000_000_000);
        *ts.add(1) = (t as i64).rem_euclid(1_000_000_000);
        return 0;
    }
    ret_errno(sys6(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if sched::active() {
        sched::point(sched::K_YIELD);
        return 0;
    }
    sys6(24, 0, 0, 0, 0, 0, 0) as i32
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
    if sched::active() {
        sched::sleep_ns((*req as u64).saturating_mul(1_000_000_000).saturating_add(*req.add(1) as u64));
        return 0;
    }
    ret_errno(sys6(35, req as i64, rem as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
    if sched::active() {
        let t = (*req as u64).saturating_mul(1_000_000_000).saturating_add(*req.add(1) as u64);
        let ns = if flags & 1 != 0 { t.saturating_sub(sched::mono_ns()) } else { t };
        sched::sleep_ns(ns);
        return 0;
    }
    -(sys6(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}
