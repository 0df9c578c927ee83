//! The simulated devices: a reader, a writer, and the libc boundary of the file
//! system, clock and randomness. Every transfer size, interruption and fault is
//! decided here from the scenario.
#![allow(static_mut_refs)]
#![allow(unknown_lints, suspicious_runtime_symbol_definitions, invalid_runtime_symbol_definitions)]
use crate::rng::mix;
use crate::scen::{Fault, Frag};
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::sync::Mutex;

pub const NAMES: [&str; 53] = [
    "reads", "short_reads", "interrupted_reads", "read_errors", "seeks", "seek_errors", "position_queries", "position_query_errors", "writes", "short_writes", "interrupted_writes", "write_errors",
    "zero_length_writes", "disk_full", "flushes", "flush_errors", "stream_cuts", "byte_corruptions", "input_growths", "input_truncations_while_running", "nonzero_starts", "crash_prefixes_checked", "process_crashes", "torn_tails",
    "process_restarts", "file_opens", "open_errors", "snapshots_written", "rows_checked", "cells_checked", "hash_seeds", "conversions_ok", "conversions_failed", "clock_readings", "clock_steps_back", "simulated_ns", "metrics_created",
    "metrics_dropped", "snapshots_decoded", "json_streams", "msgpack_streams", "independently_encoded_streams", "bytes_lost_unsynced", "symlinked_paths", "relative_paths",
    "other_file_calls", "other_file_call_errors", "long_recordings", "wide_snapshots", "big_metrics", "rounds_of_conversions", "runs_extended_on_suspicion", "long_recordings_measured",
];
pub const NC: usize = NAMES.len();

pub fn name(n: &str) -> usize {
    NAMES.iter().position(|x| *x == n).unwrap_or_else(|| panic!("counter {n}"))
}

pub struct State {
    pub inp: Frag,
    pub out: Frag,
    pub faults: Vec<Fault>,
    pub sticky: Option<(&'static str, ErrorKind)>,
    pub cnt: [u64; NC],
    pub n: [u64; 8],
    /// the first fault that must surface as an error
    pub hard: String,
    /// a fault the code may legitimately tolerate fired
    pub soft: bool,
    pub perturbed: bool,
    pub trace: u64,
    pub budget: u64,
    pub rnd: u64,
    pub clock: Option<Clock>,
    pub crash_at: Option<u64>,
    pub ops: u64,
}

pub struct Clock {
    pub now: u64,
    pub log: Vec<u64>,
}

pub static ST: Mutex<State> = Mutex::new(State {
    inp: Frag { seed: 0, max: 0, eintr: 0 },
    out: Frag { seed: 0, max: 0, eintr: 0 },
    faults: vec![],
    sticky: None,
    cnt: [0; NC],
    n: [0; 8],
    hard: String::new(),
    soft: false,
    perturbed: false,
    trace: 0,
    budget: 0,
    rnd: 0,
    clock: None,
    crash_at: None,
    ops: 0,
});

pub fn st() -> std::sync::MutexGuard<'static, State> {
    ST.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn cov(n: &str, k: u64) {
    st().cnt[name(n)] += k;
}
pub fn perturb() {
    st().perturbed = true;
}
pub fn trace(x: u64) {
    let mut s = st();
    s.trace = mix(s.trace ^ x);
}

pub fn plan(inp: &Frag, out: &Frag, faults: &[Fault]) {
    let mut s = st();
    s.inp = inp.clone();
    s.out = out.clone();
    s.faults = faults.to_vec();
    s.sticky = None;
    s.n = [0; 8];
    s.hard.clear();
    s.soft = false;
    s.budget = 30_000_000;
    s.crash_at = None;
    s.ops = 0;
}

pub const READ: usize = 0;
pub const SEEK: usize = 1;
pub const QUERY: usize = 2;
pub const WRITE: usize = 3;
pub const FLUSH: usize = 4;
pub const OPENIN: usize = 5;
pub const OPENOUT: usize = 6;
/// truncation, allocation, renaming, syncing, removal
pub const META: usize = 7;
pub const CLASS: [&str; 8] = ["read", "seek", "query", "write", "flush", "open-in", "open-out", "meta"];

fn ek(k: &str) -> ErrorKind {
    match k {
        "wouldblock" => ErrorKind::WouldBlock,
        "eof" => ErrorKind::UnexpectedEof,
        "enospc" => ErrorKind::StorageFull,
        "eacces" => ErrorKind::PermissionDenied,
        "timedout" => ErrorKind::TimedOut,
        _ => ErrorKind::Other,
    }
}

impl State {
    /// Decide what happens to this call: None = proceed with at most the
    /// returned number of bytes.
    fn step(&mut self, class: usize, len: usize) -> std::result::Result<usize, ErrorKind> {
        if self.budget == 0 {
            crate::run::fail("hang", "the conversion keeps issuing I/O calls without finishing");
        }
        self.budget -= 1;
        let op = self.n[class];
        self.n[class] += 1;
        self.ops += 1;
        if self.crash_at == Some(self.ops) {
            crate::run::die();
        }
        self.trace = mix(self.trace ^ (class as u64) << 40 ^ len as u64);
        let c = |s: &mut State, n: &str| s.cnt[name(n)] += 1;
        c(self, ["reads", "seeks", "position_queries", "writes", "flushes", "file_opens", "file_opens", "other_file_calls"][class]);
        if let Some((cl, k)) = self.sticky {
            if cl == CLASS[class] {
                return Err(k);
            }
        }
        if let Some(f) = self.faults.iter().find(|f| f.class == CLASS[class] && f.op == op).cloned() {
            self.perturbed = true;
            if f.kind == "eintr" {
                if class == READ || class == WRITE || class == OPENIN || class == OPENOUT {
                    c(self, if class == READ { "interrupted_reads" } else { "interrupted_writes" });
                    return Err(ErrorKind::Interrupted);
                }
            } else {
                c(self, ["read_errors", "seek_errors", "position_query_errors", "write_errors", "flush_errors", "open_errors", "open_errors", "other_file_call_errors"][class]);
                if class == QUERY || class == META {
                    self.soft = true;
                } else if self.hard.is_empty() {
                    self.hard = format!("{} call {op} failed with {}", CLASS[class], f.kind);
                }
                if f.kind == "zero" {
                    c(self, "zero_length_writes");
                    return Ok(0);
                }
                let k = f.kind.strip_suffix("-sticky").unwrap_or(&f.kind);
                if k != f.kind {
                    self.sticky = Some((CLASS[class], ek(k)));
                }
                return Err(ek(k));
            }
        }
        let fr = if class == READ { &self.inp } else { &self.out };
        if (class == READ || class == WRITE) && fr.seed != 0 && len > 0 {
            let x = mix(fr.seed ^ mix(op.wrapping_mul(3) + 1));
            if fr.eintr != 0 && (x >> 20) % fr.eintr == 0 && (x >> 50) % 7 != 0 {
                self.perturbed = true;
                c(self, if class == READ { "interrupted_reads" } else { "interrupted_writes" });
                return Err(ErrorKind::Interrupted);
            }
            // keep the number of calls bounded on large transfers
            let max = fr.max.max(len / 400).max(1);
            let n = (1 + (mix(x) as usize) % max).min(len);
            if n < len {
                self.perturbed = true;
                c(self, if class == READ { "short_reads" } else { "short_writes" });
            }
            return Ok(n);
        }
        Ok(len)
    }
}

// ------------------------------------------------------------ reader
pub enum Ev {
    Grow(Vec<u8>),
    Shrink(usize),
}
pub struct SimRead {
    pub data: Vec<u8>,
    pub pos: usize,
    /// applied before the n-th read
    pub events: Vec<(u64, Ev)>,
    /// how far the input had been delivered when it shrank
    pub seen: std::sync::Arc<std::sync::atomic::AtomicUsize>,
    far: usize,
    reads: u64,
}
impl SimRead {
    pub fn new(data: Vec<u8>, pos: usize) -> Self {
        SimRead { data, pos, events: vec![], seen: Default::default(), far: 0, reads: 0 }
    }
}
impl Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let k = self.reads;
        self.reads += 1;
        for (n, e) in &mut self.events {
            if *n == k {
                perturb();
                match e {
                    Ev::Grow(b) => {
                        cov("input_growths", 1);
                        self.data.append(b)
                    }
                    Ev::Shrink(n) => {
                        cov("input_truncations_while_running", 1);
                        self.data.truncate(*n);
                        self.seen.store(self.far, std::sync::atomic::Ordering::Relaxed);
                    }
                }
            }
        }
        let left = self.data.len().saturating_sub(self.pos).min(buf.len());
        match st().step(READ, left) {
            Err(k) => Err(Error::new(k, "injected")),
            Ok(n) => {
                if n > 0 {
                    buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                }
                self.pos += n;
                self.far = self.far.max(self.pos);
                Ok(n)
            }
        }
    }
}
impl Seek for SimRead {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let class = if matches!(p, SeekFrom::Current(0) | SeekFrom::End(_)) { QUERY } else { SEEK };
        st().step(class, 0).map_err(|k| Error::new(k, "injected"))?;
        let n = match p {
            SeekFrom::Start(n) => n as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
            SeekFrom::End(d) => self.data.len() as i128 + d as i128,
        };
        if n < 0 {
            return Err(Error::new(ErrorKind::InvalidInput, "negative seek"));
        }
        self.pos = n as usize;
        Ok(n as u64)
    }
}

// ------------------------------------------------------------ writer
#[derive(Default)]
pub struct Disk {
    pub data: Vec<u8>,
    /// length covered by the last successful flush
    pub flushed: usize,
    pub boundaries: Vec<usize>,
    pub full_at: Option<usize>,
}
#[derive(Clone, Default)]
pub struct SimWrite(pub std::sync::Arc<Mutex<Disk>>);
impl SimWrite {
    pub fn bytes(&self) -> Vec<u8> {
        self.0.lock().unwrap().data.clone()
    }
}
impl Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut d = self.0.lock().unwrap();
        let mut n = st().step(WRITE, buf.len()).map_err(|k| Error::new(k, "injected"))?;
        if let Some(f) = d.full_at {
            let room = f.saturating_sub(d.data.len());
            if n > room {
                let mut s = st();
                s.perturbed = true;
                s.cnt[name("disk_full")] += 1;
                if room == 0 {
                    if s.hard.is_empty() {
                        s.hard = format!("device full after {f} bytes");
                    }
                    return Err(Error::new(ErrorKind::StorageFull, "injected"));
                }
                n = room;
            }
        }
        d.data.extend_from_slice(&buf[..n]);
        let l = d.data.len();
        d.boundaries.push(l);
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        st().step(FLUSH, 0).map_err(|k| Error::new(k, "injected"))?;
        let mut d = self.0.lock().unwrap();
        d.flushed = d.data.len();
        Ok(())
    }
}

// ------------------------------------------------------------ libc boundary
pub static mut SCRATCH: Vec<u8> = Vec::new();
static mut ROLE: [u8; 4096] = [0; 4096];
pub static mut ACTIVE: bool = false;
static mut OUT_LEFT: i64 = -1;

pub fn disk_room(n: Option<usize>) {
    unsafe { OUT_LEFT = n.map_or(-1, |x| x as i64) }
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
pub unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") 0i64, in("r9") 0i64, out("rcx") _, out("r11") _);
    r
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 {
        *__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}
fn errno(k: ErrorKind) -> i64 {
    match k {
        ErrorKind::Interrupted => -4,
        ErrorKind::WouldBlock => -11,
        ErrorKind::StorageFull => -28,
        ErrorKind::PermissionDenied => -13,
        ErrorKind::TimedOut => -110,
        _ => -5,
    }
}
/// Relative paths are relative to the scratch directory.
pub static mut RELATIVE: bool = false;
unsafe fn under_scratch(p: *const u8) -> bool {
    if !ACTIVE || SCRATCH.is_empty() || p.is_null() {
        return false;
    }
    if RELATIVE && *p != b'/' {
        return true;
    }
    for (i, b) in SCRATCH.iter().enumerate() {
        if *p.add(i) != *b {
            return false;
        }
    }
    true
}
unsafe fn role(fd: i32) -> u8 {
    if ACTIVE && (0..4096).contains(&fd) {
        ROLE[fd as usize]
    } else {
        0
    }
}

unsafe fn do_open(dir: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    let sim = under_scratch(p);
    let wr = flags & 3 != 0;
    if sim {
        let r = st().step(if wr { OPENOUT } else { OPENIN }, 0);
        if let Err(k) = r {
            return ret(errno(k)) as i32;
        }
    }
    let fd = sys(257, dir as i64, p as i64, (flags | 0o100000) as i64, mode as i64);
    if sim && (0..4096).contains(&fd) {
        ROLE[fd as usize] = 1 + wr as u8;
    }
    ret(fd) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(-100, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, p: *const u8, flags: i32, mode: u32) -> i32 {
    do_open(d, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if (0..4096).contains(&fd) {
        ROLE[fd as usize] = 0;
    }
    ret(sys(3, fd as i64, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    let mut n = n;
    if role(fd) != 0 {
        match st().step(READ, n) {
            Ok(k) => n = k,
            Err(k) => return ret(errno(k)) as isize,
        }
    }
    ret(sys(0, fd as i64, p as i64, n as i64, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    let mut n = n;
    if role(fd) != 0 {
        match st().step(WRITE, n) {
            Ok(k) => n = k,
            Err(k) => return ret(errno(k)) as isize,
        }
        if OUT_LEFT >= 0 && n as i64 > OUT_LEFT {
            let mut s = st();
            s.perturbed = true;
            s.cnt[name("disk_full")] += 1;
            if OUT_LEFT == 0 {
                if s.hard.is_empty() {
                    s.hard = "file system full".into();
                }
                return ret(-28) as isize;
            }
            n = OUT_LEFT as usize;
        }
        if OUT_LEFT >= 0 {
            OUT_LEFT -= n as i64;
        }
    }
    ret(sys(1, fd as i64, p as i64, n as i64, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if role(fd) != 0 {
        let class = if whence == 0 || (whence == 1 && off != 0) { SEEK } else { QUERY };
        if let Err(k) = st().step(class, 0) {
            return ret(errno(k));
        }
    }
    ret(sys(8, fd as i64, off, whence as i64, 0))
}

/// Positioned and vectored transfers, and the calls that shape files.
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, p: *mut u8, n: usize, off: i64) -> isize {
    let mut n = n;
    if role(fd) != 0 {
        match st().step(READ, n) {
            Ok(k) => n = k,
            Err(k) => return ret(errno(k)) as isize,
        }
    }
    ret(sys(17, fd as i64, p as i64, n as i64, off)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, p: *const u8, n: usize, off: i64) -> isize {
    let mut n = n;
    if role(fd) != 0 {
        match st().step(WRITE, n) {
            Ok(k) => n = k,
            Err(k) => return ret(errno(k)) as isize,
        }
    }
    ret(sys(18, fd as i64, p as i64, n as i64, off)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const (*const u8, usize), n: i32) -> isize {
    if role(fd) != 0 {
        for i in 0..n.max(0) as usize {
            let (p, l) = *v.add(i);
            if l > 0 {
                return write(fd, p, l);
            }
        }
    }
    ret(sys(20, fd as i64, v as i64, n as i64, 0)) as isize
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const (*mut u8, usize), n: i32) -> isize {
    if role(fd) != 0 {
        for i in 0..n.max(0) as usize {
            let (p, l) = *v.add(i);
            if l > 0 {
                return read(fd, p, l);
            }
        }
    }
    ret(sys(19, fd as i64, v as i64, n as i64, 0)) as isize
}
unsafe fn meta(sim: bool) -> Option<i64> {
    if !sim {
        return None;
    }
    st().step(META, 0).err().map(|k| ret(errno(k)))
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    meta(role(fd) != 0).unwrap_or_else(|| ret(sys(77, fd as i64, n, 0, 0))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: i32, n: i64) -> i32 {
    ftruncate64(fd, n)
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    meta(role(fd) != 0).unwrap_or_else(|| ret(sys(74, fd as i64, 0, 0, 0))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    meta(role(fd) != 0).unwrap_or_else(|| ret(sys(75, fd as i64, 0, 0, 0))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const u8, b: *const u8) -> i32 {
    meta(under_scratch(a) || under_scratch(b)).unwrap_or_else(|| ret(sys(82, a as i64, b as i64, 0, 0))) as i32
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const u8) -> i32 {
    meta(under_scratch(a)).unwrap_or_else(|| ret(sys(87, a as i64, 0, 0, 0))) as i32
}
// not offered on simulated files, so that copies go through read and write
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(a: i32, ao: *mut i64, b: i32, bo: *mut i64, n: usize, flags: u32) -> isize {
    if role(a) != 0 || role(b) != 0 {
        return ret(-18) as isize;
    }
    let r: i64;
    core::arch::asm!("syscall", inlateout("rax") 326i64 => r, in("rdi") a as i64, in("rsi") ao, in("rdx") b as i64, in("r10") bo, in("r8") n, in("r9") flags as i64, out("rcx") _, out("r11") _);
    ret(r) as isize
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(b: i32, a: i32, off: *mut i64, n: usize) -> isize {
    if role(a) != 0 || role(b) != 0 {
        return ret(-22) as isize;
    }
    ret(sys(40, b as i64, a as i64, off as i64, n as i64)) as isize
}

// randomness and clocks
pub static mut SEEDED: bool = false;
unsafe fn fill(p: *mut u8, n: usize) -> i64 {
    let mut s = st();
    for i in 0..n {
        s.rnd = s.rnd.wrapping_add(0x9E37_79B9_7F4A_7C15);
        *p.add(i) = (mix(s.rnd) >> 24) as u8;
    }
    n as i64
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> i64 {
    if SEEDED {
        return fill(p, n);
    }
    ret(sys(318, p as i64, n as i64, flags as i64, 0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if SEEDED && (id == 0 || id == 5) {
        let mut s = st();
        s.cnt[name("clock_readings")] += 1;
        if let Some(c) = &mut s.clock {
            c.log.push(c.now);
            *ts = (c.now / 1_000_000_000) as i64;
            *ts.add(1) = (c.now % 1_000_000_000) as i64;
            return 0;
        }
    }
    ret(sys(228, id as i64, ts as i64, 0, 0)) as i32
}
