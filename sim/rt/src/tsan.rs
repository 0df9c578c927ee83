//! The ThreadSanitizer ABI, implemented by the simulator.
use crate::alloc::gen_at;
use crate::hb;
use crate::sched::{self, active, cur, fail, own_stack, point, K_ATOMIC, K_MEM, RACES, UAF};
use core::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8, Ordering::SeqCst};

static mut PC: [u64; sched::MAXT] = [0; sched::MAXT];

#[inline]
unsafe fn check_live(addr: usize, write: bool) {
    if UAF && gen_at(addr) == Some(0) {
        fail(
            "use-after-free",
            &format!(
                "thread {} {} freed memory (function entered from {:#x})",
                cur(),
                if write { "writes" } else { "reads" },
                PC[cur()]
            ),
        );
    }
}

#[inline]
unsafe fn plain(addr: usize, size: usize, write: bool) {
    if !active() {
        return;
    }
    if own_stack(addr) {
        return;
    }
    point(K_MEM);
    check_live(addr, write);
    if RACES {
        hb::access(cur(), addr, size, write, false, PC[cur()]);
    }
}

#[no_mangle]
pub extern "C" fn __tsan_init() {}
#[no_mangle]
pub unsafe extern "C" fn __tsan_func_entry(pc: usize) {
    if active() {
        PC[cur()] = pc as u64;
    }
}
#[no_mangle]
pub extern "C" fn __tsan_func_exit() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_begin() {}
#[no_mangle]
pub extern "C" fn __tsan_ignore_thread_end() {}

macro_rules! rw {
    ($($r:ident $w:ident $rw:ident $ur:ident $uw:ident $urw:ident $n:expr;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $r(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $w(a: usize) { plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $rw(a: usize) { plain(a, $n, false); plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $ur(a: usize) { plain(a, $n, false) }
        #[no_mangle] pub unsafe extern "C" fn $uw(a: usize) { plain(a, $n, true) }
        #[no_mangle] pub unsafe extern "C" fn $urw(a: usize) { plain(a, $n, false); plain(a, $n, true) }
    )* };
}
rw! {
    __tsan_read1 __tsan_write1 __tsan_read_write1 __tsan_unaligned_read1 __tsan_unaligned_write1 __tsan_unaligned_read_write1 1;
    __tsan_read2 __tsan_write2 __tsan_read_write2 __tsan_unaligned_read2 __tsan_unaligned_write2 __tsan_unaligned_read_write2 2;
    __tsan_read4 __tsan_write4 __tsan_read_write4 __tsan_unaligned_read4 __tsan_unaligned_write4 __tsan_unaligned_read_write4 4;
    __tsan_read8 __tsan_write8 __tsan_read_write8 __tsan_unaligned_read8 __tsan_unaligned_write8 __tsan_unaligned_read_write8 8;
    __tsan_read16 __tsan_write16 __tsan_read_write16 __tsan_unaligned_read16 __tsan_unaligned_write16 __tsan_unaligned_read_write16 16;
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_read(a: usize) {
    plain(a, 8, false)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_vptr_update(a: usize, _v: usize) {
    plain(a, 8, true)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_read_range(a: usize, n: usize) {
    range(a, n, false)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_write_range(a: usize, n: usize) {
    range(a, n, true)
}

unsafe fn range(a: usize, n: usize, write: bool) {
    if !active() || n == 0 || own_stack(a) {
        return;
    }
    check_live(a, write);
    check_live(a + n - 1, write);
    if RACES {
        hb::access(cur(), a, n, write, false, PC[cur()]);
    }
}

const CHUNK: usize = 24;

#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if !active() || (own_stack(d as usize) && own_stack(s as usize)) {
        core::ptr::copy_nonoverlapping(s, d, n);
        return d;
    }
    // A copy is interruptible: preemption may land between any two pieces.
    let mut o = 0;
    while o < n {
        let k = (n - o).min(CHUNK);
        point(K_MEM);
        range(s as usize + o, k, false);
        range(d as usize + o, k, true);
        core::ptr::copy_nonoverlapping(s.add(o), d.add(o), k);
        o += k;
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if active() {
        point(K_MEM);
        range(s as usize, n, false);
        range(d as usize, n, true);
    }
    core::ptr::copy(s, d, n);
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    if !active() || own_stack(d as usize) {
        core::ptr::write_bytes(d, v as u8, n);
        return d;
    }
    let mut o = 0;
    while o < n {
        let k = (n - o).min(CHUNK * 4);
        point(K_MEM);
        range(d as usize + o, k, true);
        core::ptr::write_bytes(d.add(o), v as u8, k);
        o += k;
    }
    d
}

macro_rules! atomics {
    ($($t:ty, $a:ty, $n:expr, $load:ident $store:ident $xchg:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cs:ident $cw:ident $cv:ident;)*) => { $(
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const $t, o: i32) -> $t {
            pre(p as usize, $n, false);
            let v = (*(p as *const $a)).load(SeqCst);
            post(p as usize, o, true, false, v as u64, v as u64);
            v
        }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *mut $t, v: $t, o: i32) {
            pre(p as usize, $n, true);
            let old = (*(p as *const $a)).swap(v, SeqCst);
            post(p as usize, o, false, true, old as u64, v as u64);
        }
        #[no_mangle] pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, o: i32) -> $t {
            pre(p as usize, $n, true);
            let old = (*(p as *const $a)).swap(v, SeqCst);
            post(p as usize, o, true, true, old as u64, v as u64);
            old
        }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *mut $t, v: $t, o: i32) -> $t { rmw!(p, $a, $n, o, fetch_add, v, |x: $t| x.wrapping_add(v)) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *mut $t, v: $t, o: i32) -> $t { rmw!(p, $a, $n, o, fetch_sub, v, |x: $t| x.wrapping_sub(v)) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *mut $t, v: $t, o: i32) -> $t { rmw!(p, $a, $n, o, fetch_and, v, |x: $t| x & v) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *mut $t, v: $t, o: i32) -> $t { rmw!(p, $a, $n, o, fetch_or, v, |x: $t| x | v) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *mut $t, v: $t, o: i32) -> $t { rmw!(p, $a, $n, o, fetch_xor, v, |x: $t| x ^ v) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *mut $t, v: $t, o: i32) -> $t { rmw!(p, $a, $n, o, fetch_nand, v, |x: $t| !(x & v)) }
        #[no_mangle] pub unsafe extern "C" fn $cv(p: *mut $t, c: $t, v: $t, o: i32, fo: i32) -> $t {
            pre(p as usize, $n, true);
            match (*(p as *const $a)).compare_exchange(c, v, SeqCst, SeqCst) {
                Ok(old) => { post(p as usize, o, true, true, old as u64, v as u64); old }
                // after a failed exchange std's locks go on in code we do not
                // see, which acquires: treat the failure as an acquire
                Err(old) => { let _ = fo; post(p as usize, 2, true, false, old as u64, old as u64); old }
            }
        }
        #[no_mangle] pub unsafe extern "C" fn $cs(p: *mut $t, c: *mut $t, v: $t, o: i32, fo: i32) -> i32 {
            let e = *c;
            let old = $cv(p, e, v, o, fo);
            if old == e { 1 } else { *c = old; 0 }
        }
        #[no_mangle] pub unsafe extern "C" fn $cw(p: *mut $t, c: *mut $t, v: $t, o: i32, fo: i32) -> i32 {
            $cs(p, c, v, o, fo)
        }
    )* };
}

macro_rules! rmw {
    ($p:expr, $a:ty, $n:expr, $o:expr, $m:ident, $v:expr, $f:expr) => {{
        pre($p as usize, $n, true);
        let old = (*($p as *const $a)).$m($v, SeqCst);
        #[allow(clippy::redundant_closure_call)]
        let new = ($f)(old);
        post($p as usize, $o, true, true, old as u64, new as u64);
        old
    }};
}

#[inline]
unsafe fn pre(addr: usize, size: usize, write: bool) {
    if !active() {
        return;
    }
    point(K_ATOMIC);
    check_live(addr, write);
    if RACES && !own_stack(addr) {
        hb::access(cur(), addr, size, write, true, PC[cur()]);
    }
}
#[inline]
unsafe fn post(addr: usize, order: i32, read: bool, write: bool, seen: u64, after: u64) {
    if active() && RACES {
        hb::atomic(cur(), addr, order, read, write, seen, after);
    }
}

atomics! {
    u8, AtomicU8, 1, __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_strong __tsan_atomic8_compare_exchange_weak __tsan_atomic8_compare_exchange_val;
    u16, AtomicU16, 2, __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_strong __tsan_atomic16_compare_exchange_weak __tsan_atomic16_compare_exchange_val;
    u32, AtomicU32, 4, __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_strong __tsan_atomic32_compare_exchange_weak __tsan_atomic32_compare_exchange_val;
    u64, AtomicU64, 8, __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_strong __tsan_atomic64_compare_exchange_weak __tsan_atomic64_compare_exchange_val;
}

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(o: i32) {
    if active() {
        point(K_ATOMIC);
        if RACES {
            hb::fence(cur(), o);
        }
    }
    core::sync::atomic::fence(SeqCst);
}
#[no_mangle]
pub extern "C" fn __tsan_atomic_signal_fence(_o: i32) {}
