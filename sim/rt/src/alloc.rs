//! The simulated allocator.
//!
//! Two arenas at fixed addresses: one for the orchestrating process, one for
//! the simulated run (always starting empty), so the addresses a run sees are a
//! function of the run alone. Freed blocks are either quarantined and poisoned
//! (use-after-free becomes visible) or reused last-in-first-out (address-reuse
//! bugs become visible), chosen per run.
use core::alloc::{GlobalAlloc, Layout};
use core::sync::atomic::{AtomicBool, Ordering};

pub const HOST_BASE: usize = 0x2000_0000_0000;
pub const HOST_LEN: usize = 1 << 32;
pub const SIM_BASE: usize = 0x3000_0000_0000;
pub const SIM_LEN: usize = 1 << 27;
pub const POISON: u8 = 0xDD;

const CLASSES: usize = 48;

struct Arena {
    base: usize,
    len: usize,
    top: usize,
    free: [usize; CLASSES],
    mapped: bool,
}

impl Arena {
    const fn new(base: usize, len: usize) -> Self {
        Arena { base, len, top: 0, free: [0; CLASSES], mapped: false }
    }
}

pub struct SimAlloc;

static LOCK: AtomicBool = AtomicBool::new(false);
static mut HOST: Arena = Arena::new(HOST_BASE, HOST_LEN);
static mut SIM: Arena = Arena::new(SIM_BASE, SIM_LEN);
static mut IN_SIM: bool = false;
static mut REUSE: bool = true;
static mut SEQ: u32 = 0;
static mut FREED: u64 = 0;
static mut REUSED: u64 = 0;
static mut LIVE: (u64, u64) = (0, 0);
/// Per 16-byte granule of the simulated arena: allocation sequence number of
/// the live block covering it, or 0 if it is not (or no longer) allocated.
static mut GEN: *mut u32 = core::ptr::null_mut();
const GEN_BASE: usize = 0x4000_0000_0000;

fn class_of(size: usize) -> (usize, usize) {
    // Size classes: multiples of 16 up to 256, then powers of two.
    if size <= 256 {
        let s = size.max(16).div_ceil(16) * 16;
        (s / 16 - 1, s)
    } else {
        let s = size.next_power_of_two();
        (16 + s.trailing_zeros() as usize - 9, s)
    }
}

struct Guard;
impl Guard {
    fn new() -> Self {
        while LOCK.swap(true, Ordering::Acquire) {
            core::hint::spin_loop();
        }
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(false, Ordering::Release);
    }
}

/// Start allocating from the (empty) simulated arena. Called once, in the
/// forked child, before any simulated thread exists.
pub unsafe fn enter_sim(reuse: bool) {
    let _g = Guard::new();
    if !SIM.mapped {
        if !crate::raw::mmap_fixed(SIM.base, SIM.len) {
            crate::raw::exit_group(97);
        }
        SIM.mapped = true;
    }
    if GEN.is_null() {
        if !crate::raw::mmap_fixed(GEN_BASE, SIM_LEN / 16 * 4) {
            crate::raw::exit_group(97);
        }
        GEN = GEN_BASE as *mut u32;
    }
    REUSE = reuse;
    IN_SIM = true;
}

/// Run harness bookkeeping with allocations taken from the host arena, so that
/// it cannot disturb the addresses the code under test sees. `f` must not reach
/// a scheduling point.
pub fn host_scope<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let was = IN_SIM;
        IN_SIM = false;
        let r = f();
        IN_SIM = was;
        r
    }
}

/// Allocation generation of the block at `addr`: None if outside the simulated
/// arena, Some(0) if not allocated.
#[inline]
pub fn gen_at(addr: usize) -> Option<u32> {
    unsafe {
        if addr.wrapping_sub(SIM_BASE) < SIM_LEN && !GEN.is_null() {
            Some(*GEN.add((addr - SIM_BASE) / 16))
        } else {
            None
        }
    }
}

/// Are freed blocks handed out again in this run?
pub fn reusing() -> bool {
    unsafe { REUSE }
}

pub fn in_sim() -> bool {
    unsafe { IN_SIM }
}

/// What kind of memory an address is in, for messages.
pub fn region(addr: usize) -> String {
    if addr.wrapping_sub(SIM_BASE) < SIM_LEN {
        format!("heap+{:#x}", addr - SIM_BASE)
    } else if addr.wrapping_sub(HOST_BASE) < HOST_LEN {
        format!("host heap+{:#x}", addr - HOST_BASE)
    } else {
        format!("static {addr:#x}")
    }
}

/// Blocks and bytes of the simulated arena in use.
pub fn live() -> (u64, u64) {
    unsafe { LIVE }
}

pub fn counts() -> (u64, u64) {
    unsafe { (FREED, REUSED) }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let _g = Guard::new();
        let in_sim = IN_SIM;
        let a: &mut Arena = if in_sim { &mut *core::ptr::addr_of_mut!(SIM) } else { &mut *core::ptr::addr_of_mut!(HOST) };
        if !a.mapped {
            if !crate::raw::mmap_fixed(a.base, a.len) {
                crate::raw::exit_group(97);
            }
            a.mapped = true;
        }
        let (c, size) = class_of(layout.size());
        let align = layout.align().max(16);
        let mut p = 0usize;
        if align <= 16 && a.free[c] != 0 && (REUSE || !in_sim) {
            p = a.free[c];
            a.free[c] = *(p as *const usize);
            if in_sim {
                REUSED += 1;
            }
        }
        if p == 0 {
            let off = (a.top + align - 1) & !(align - 1);
            if off + size > a.len {
                return core::ptr::null_mut();
            }
            a.top = off + size;
            p = a.base + off;
        }
        if in_sim {
            SEQ += 1;
            LIVE = (LIVE.0 + 1, LIVE.1 + layout.size() as u64);
            let g0 = (p - SIM_BASE) / 16;
            for i in 0..size / 16 {
                *GEN.add(g0 + i) = SEQ;
            }
        }
        p as *mut u8
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        let _g = Guard::new();
        let p = ptr as usize;
        let (c, size) = class_of(layout.size());
        if p.wrapping_sub(SIM_BASE) < SIM_LEN {
            let g0 = (p - SIM_BASE) / 16;
            for i in 0..size / 16 {
                *GEN.add(g0 + i) = 0;
            }
            FREED += 1;
            LIVE = (LIVE.0 - 1, LIVE.1 - layout.size() as u64);
            core::ptr::write_bytes(ptr, POISON, size);
            if REUSE && layout.align() <= 16 {
                *(p as *mut usize) = SIM.free[c];
                SIM.free[c] = p;
            }
        } else if p.wrapping_sub(HOST_BASE) < HOST_LEN && !IN_SIM && layout.align() <= 16 {
            *(p as *mut usize) = HOST.free[c];
            HOST.free[c] = p;
        }
    }
}
