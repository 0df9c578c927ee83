//! Raw system calls: never routed through the interposed libc symbols.
use core::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    fn __errno_location() -> *mut i32;
}

#[inline]
pub unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

const SYS_FUTEX: i64 = 202;

/// Wait (really) until `*w` becomes nonzero, then reset it to zero.
pub fn gate_wait(w: &core::sync::atomic::AtomicU32) {
    use core::sync::atomic::Ordering::SeqCst;
    while w.swap(0, SeqCst) == 0 {
        unsafe { sys6(SYS_FUTEX, w as *const _ as i64, 128, 0, 0, 0, 0) };
    }
}

pub fn gate_open(w: &core::sync::atomic::AtomicU32) {
    use core::sync::atomic::Ordering::SeqCst;
    w.store(1, SeqCst);
    unsafe { sys6(SYS_FUTEX, w as *const _ as i64, 129, 1, 0, 0, 0) };
}

pub fn exit_group(code: i32) -> ! {
    unsafe { sys6(231, code as i64, 0, 0, 0, 0, 0) };
    unreachable!()
}

pub fn mmap_fixed(addr: usize, len: usize) -> bool {
    // PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
    let r = unsafe { sys6(9, addr as i64, len as i64, 3, 0x02 | 0x20 | 0x4000 | 0x100000, -1, 0) };
    r == addr as i64
}

pub fn mmap_shared(len: usize) -> *mut u8 {
    let r = unsafe { sys6(9, 0, len as i64, 3, 0x01 | 0x20, -1, 0) };
    assert!(r > 0, "mmap");
    r as *mut u8
}

/// Monotonic wall time in nanoseconds (orchestration only, never in a run).
pub fn wall_ns() -> u64 {
    let mut ts = [0i64; 2];
    unsafe { sys6(228, 1, ts.as_mut_ptr() as i64, 0, 0, 0, 0) };
    ts[0] as u64 * 1_000_000_000 + ts[1] as u64
}

/// Pin the calling process to one CPU; best effort.
pub fn pin_cpu(cpu: usize) {
    let mut mask = [0u64; 16];
    mask[cpu / 64] |= 1 << (cpu % 64);
    unsafe { sys6(203, 0, 128, mask.as_ptr() as i64, 0, 0, 0) };
}

pub fn sleep_ms(ms: i64) {
    let ts = [ms / 1000, ms % 1000 * 1_000_000];
    unsafe { sys6(35, ts.as_ptr() as i64, 0, 0, 0, 0, 0) };
}
