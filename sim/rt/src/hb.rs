//! Happens-before tracking (vector clocks) and data-race detection.
//!
//! Precise for instrumented code. Uninstrumented code (the prebuilt std) is
//! over-approximated towards *more* ordering: when an atomic's value changed
//! behind our back, an acquiring access is ordered after everything so far. That
//! can hide a race but never invents one.
use crate::alloc::gen_at;
use crate::sched::{fail, MAXT};

pub type Vc = [u32; MAXT];

static mut VC: [Vc; MAXT] = [[0; MAXT]; MAXT];
static mut FREL: [Vc; MAXT] = [[0; MAXT]; MAXT];
static mut FACQ: [Vc; MAXT] = [[0; MAXT]; MAXT];
static mut NT: usize = 0;

#[inline]
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAXT {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

#[derive(Clone, Copy)]
struct Sync {
    addr: usize,
    gen: u32,
    vc: Vc,
    last: u64,
    known: bool,
}

const SLOTS: usize = 1 << 15;
static mut SYNC: [Sync; SLOTS] = [Sync { addr: 0, gen: 0, vc: [0; MAXT], last: 0, known: false }; SLOTS];

#[inline]
fn gen(addr: usize) -> u32 {
    gen_at(addr).unwrap_or(u32::MAX)
}

unsafe fn sync(addr: usize) -> &'static mut Sync {
    let mut h = ((addr >> 2) ^ (addr >> 20)) & (SLOTS - 1);
    for _ in 0..SLOTS {
        let c = &mut SYNC[h];
        if c.addr == addr || c.addr == 0 {
            let g = gen(addr);
            if c.addr == 0 || c.gen != g {
                *c = Sync { addr, gen: g, vc: [0; MAXT], last: 0, known: false };
            }
            return c;
        }
        h = (h + 1) & (SLOTS - 1);
    }
    // full: an atomic nobody remembers is over-approximated as always unknown
    static mut SPARE: Sync = Sync { addr: 0, gen: 0, vc: [0; MAXT], last: 0, known: false };
    SPARE.known = false;
    &mut *core::ptr::addr_of_mut!(SPARE)
}

pub fn reset() {
    unsafe {
        VC = [[0; MAXT]; MAXT];
    }
}

pub unsafe fn start(n: usize) {
    let mut all: Vc = [0; MAXT];
    for v in VC.iter() {
        join(&mut all, v);
    }
    NT = n;
    for v in VC.iter_mut() {
        *v = all;
    }
    for (i, v) in VC.iter_mut().enumerate().take(n) {
        v[i] += 1;
    }
}

#[inline]
fn is_acq(o: i32) -> bool {
    matches!(o, 1 | 2 | 4 | 5) // consume, acquire, acq_rel, seq_cst
}
#[inline]
fn is_rel(o: i32) -> bool {
    matches!(o, 3..=5)
}

/// `seen` is the value in memory before the operation.
pub unsafe fn atomic(t: usize, addr: usize, order: i32, read: bool, write: bool, seen: u64, after: u64) {
    let s = sync(addr);
    let unknown = !s.known || s.last != seen;
    if read && unknown {
        // The value was written by code we do not see: it may publish whatever
        // any thread has done so far, to this reader and to later ones.
        for i in 0..NT {
            let o = VC[i];
            join(&mut s.vc, &o);
            // what i does next is not part of it
            VC[i][i] += 1;
        }
    }
    if read {
        if is_acq(order) {
            join(&mut VC[t], &s.vc);
        } else {
            join(&mut FACQ[t], &s.vc);
        }
    }
    if write {
        let head: Vc = if is_rel(order) { VC[t] } else { FREL[t] };
        if read {
            join(&mut s.vc, &head); // release sequence continues through RMW
        } else {
            s.vc = head;
        }
        if is_rel(order) {
            VC[t][t] += 1;
        }
    }
    s.last = after;
    s.known = true;
}

pub unsafe fn fence(t: usize, order: i32) {
    if is_acq(order) {
        let f = FACQ[t];
        join(&mut VC[t], &f);
    }
    if is_rel(order) {
        FREL[t] = VC[t];
        VC[t][t] += 1;
    }
}

pub unsafe fn wake_edge(waker: usize, woken: usize) {
    let o = VC[waker];
    join(&mut VC[woken], &o);
    VC[waker][waker] += 1;
}

pub unsafe fn futex_return(t: usize, addr: usize, opaque: bool) {
    if opaque {
        for i in 0..NT {
            let o = VC[i];
            join(&mut VC[t], &o);
            VC[i][i] += 1;
        }
    }
    let v = (*(addr as *const core::sync::atomic::AtomicU32)).load(core::sync::atomic::Ordering::SeqCst) as u64;
    atomic(t, addr, 2, true, false, v, v);
}

static mut CHAN: [Vc; 64] = [[0; MAXT]; 64];

pub fn chan_release(t: usize, c: usize) {
    unsafe {
        let o = VC[t];
        join(&mut CHAN[c % 64], &o);
        VC[t][t] += 1;
    }
}
pub fn chan_acquire(t: usize, c: usize) {
    unsafe {
        let o = CHAN[c % 64];
        join(&mut VC[t], &o);
    }
}

#[derive(Clone, Copy)]
struct Rec {
    clk: u32,
    tid: u8,
    mask: u8,
    flags: u8, // 1 = used, 2 = write, 4 = atomic
    pc: u64,
}
const R0: Rec = Rec { clk: 0, tid: 0, mask: 0, flags: 0, pc: 0 };

#[derive(Clone, Copy)]
struct Cell {
    gran: usize,
    gen: u32,
    rot: u8,
    r: [Rec; 6],
}

const CSLOTS: usize = 1 << 16;
static mut CELLS: [Cell; CSLOTS] = [Cell { gran: 0, gen: 0, rot: 0, r: [R0; 6] }; CSLOTS];
static mut CELLS_USED: usize = 0;

unsafe fn granule(t: usize, gran: usize, mask: u8, write: bool, atomic: bool, pc: u64) {
    let mut h = (gran ^ (gran >> 18)) & (CSLOTS - 1);
    let c = loop {
        let c = &mut CELLS[h];
        if c.gran == gran {
            break c;
        }
        if c.gran == 0 {
            if CELLS_USED > CSLOTS * 3 / 4 {
                return; // capacity: stop adding cells (misses, never false alarms)
            }
            CELLS_USED += 1;
            c.gran = gran;
            c.gen = gen(gran << 3);
            break c;
        }
        h = (h + 1) & (CSLOTS - 1);
    };
    let g = gen(gran << 3);
    if c.gen != g {
        c.gen = g;
        c.r = [R0; 6];
    }
    let flags = 1 | if write { 2 } else { 0 } | if atomic { 4 } else { 0 };
    let clk = VC[t][t];
    let mut slot = usize::MAX;
    for i in 0..6 {
        let r = &mut c.r[i];
        if r.flags == 0 {
            if slot == usize::MAX {
                slot = i;
            }
            continue;
        }
        if r.tid as usize == t {
            if r.mask == mask && r.flags == flags {
                slot = i;
                if r.clk == clk {
                    return;
                }
            }
            continue;
        }
        if r.mask & mask == 0 {
            continue;
        }
        let ordered = r.clk <= VC[t][r.tid as usize];
        if !ordered && (r.flags | flags) & 2 != 0 && !(r.flags & 4 != 0 && atomic) {
            let m = format!(
                "thread {} {}{} and thread {} {}{} the same memory ({}) without synchronisation (code at {:#x} and {:#x})",
                t,
                if atomic { "atomically " } else { "" },
                if write { "writes" } else { "reads" },
                r.tid,
                if r.flags & 4 != 0 { "atomically " } else { "" },
                if r.flags & 2 != 0 { "wrote" } else { "read" },
                crate::alloc::region(gran << 3),
                pc,
                r.pc
            );
            fail("data-race", &m);
        }
        if ordered && write && slot == usize::MAX && r.mask & !mask == 0 && !atomic {
            slot = i; // superseded
        }
    }
    if slot == usize::MAX {
        slot = c.rot as usize % 6;
        c.rot = c.rot.wrapping_add(1);
    }
    c.r[slot] = Rec { clk, tid: t as u8, mask, flags, pc };
}

pub unsafe fn access(t: usize, addr: usize, size: usize, write: bool, atomic: bool, pc: u64) {
    let mut a = addr;
    let end = addr + size;
    while a < end {
        let g = a >> 3;
        let lo = a & 7;
        let hi = (end - (g << 3)).min(8);
        let mask = (((1u16 << (hi - lo)) - 1) << lo) as u8;
        granule(t, g, mask, write, atomic, pc);
        a = (g + 1) << 3;
    }
}
