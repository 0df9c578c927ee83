//! One run = one forked process; its result comes back through shared memory.
#![allow(static_mut_refs)]
use crate::dev::{self, NC};
use crate::scen::{total, Scen};
use crate::Prop;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, opts: i32) -> i32;
    fn setitimer(which: i32, new: *const i64, old: *mut i64) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn setrlimit(r: i32, v: *const u64) -> i32;
}

const BUF: usize = 1 << 14;
#[repr(C)]
pub struct Shm {
    status: u32,
    kind_len: u32,
    msg_len: u32,
    trace: u64,
    nontrivial: u64,
    cnt: [u64; NC],
    buf: [u8; BUF],
}
static mut SHM: *mut Shm = core::ptr::null_mut();

pub fn shared(n: usize) -> *mut u8 {
    let p = unsafe { mmap(core::ptr::null_mut(), n, 3, 0x21, -1, 0) };
    assert!(p as isize != -1);
    p
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub ok: bool,
    pub kind: String,
    pub msg: String,
    pub trace: u64,
    pub nontrivial: bool,
    pub cnt: Vec<u64>,
}

fn write_back(status: u32, kind: &str, msg: &str) -> ! {
    unsafe {
        dev::ACTIVE = false;
        let s = &mut *SHM;
        let (k, m) = (kind.as_bytes(), msg.as_bytes());
        let (kl, ml) = (k.len().min(64), m.len().min(BUF - 64));
        s.buf[..kl].copy_from_slice(&k[..kl]);
        s.buf[kl..kl + ml].copy_from_slice(&m[..ml]);
        s.kind_len = kl as u32;
        s.msg_len = ml as u32;
        if let Ok(d) = dev::ST.try_lock() {
            s.trace = d.trace;
            s.nontrivial = d.perturbed as u64;
            s.cnt = d.cnt;
        }
        s.status = status;
        exit(if status == 1 { 0 } else { 1 })
    }
}
pub fn exit(code: i32) -> ! {
    unsafe { dev::sys(231, code as i64, 0, 0, 0) };
    unreachable!()
}
/// Report a violation and end the run.
pub fn fail(kind: &str, msg: &str) -> ! {
    write_back(2, kind, msg)
}
/// The simulated process dies here.
pub fn die() -> ! {
    exit(77)
}

static mut PANIC: String = String::new();
pub fn panic_text() -> String {
    unsafe { PANIC.clone() }
}
pub fn hook() {
    std::panic::set_hook(Box::new(|i| unsafe {
        PANIC = i.to_string().replace('\n', " ");
    }));
}

/// Run `f` on a thread whose hash maps are seeded with `seed`.
pub fn with_seed<R: Send>(seed: u64, f: impl FnOnce() -> R + Send) -> R {
    dev::st().rnd = seed;
    dev::cov("hash_seeds", 1);
    unsafe { dev::SEEDED = true };
    let r = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, f).unwrap().join());
    match r {
        Ok(r) => r,
        Err(_) => fail("panic", &format!("panicked: {}", panic_text())),
    }
}

/// Fork; the child runs `f` and never returns.
pub fn child(f: impl FnOnce()) -> i32 {
    unsafe {
        let mut pid = fork();
        while pid < 0 {
            std::thread::sleep(std::time::Duration::from_millis(50));
            pid = fork();
        }
        if pid == 0 {
            f();
            exit(0);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        st
    }
}

pub fn run_one(p: &Prop, sc: &Scen) -> Outcome {
    let mut o = run_once(p, sc);
    for _ in 0..2 {
        if o.kind != "killed" && o.kind != "stuck" {
            break;
        }
        o = run_once(p, sc);
    }
    o
}

fn run_once(p: &Prop, sc: &Scen) -> Outcome {
    unsafe {
        if SHM.is_null() {
            SHM = shared(core::mem::size_of::<Shm>()) as *mut Shm;
        }
        (*SHM).status = 0;
        let exec = p.exec;
        let st = child(|| {
            setitimer(2, [0i64, 0, 40, 0].as_ptr(), core::ptr::null_mut());
            setitimer(0, [0i64, 0, 120, 0].as_ptr(), core::ptr::null_mut());
            setrlimit(9, [3u64 << 30, 3u64 << 30].as_ptr());
            if sc.snaps.len() > 100 {
                dev::cov("long_recordings", 1);
            }
            if sc.snaps.iter().any(|s| s.mets.len() > 50) {
                dev::cov("wide_snapshots", 1);
            }
            if sc.snaps.iter().any(|s| s.mets.iter().any(|m| m.name.len() > 4000 || m.meta.len() > 13 || m.meta.iter().any(|x| x.0.len() + x.1.len() > 4000) || m.h.as_ref().is_some_and(|h| total(h.0, h.1) > 1000))) {
                dev::cov("big_metrics", 1);
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| exec(sc)));
            if r.is_err() {
                fail("panic", &format!("panicked: {}", panic_text()));
            }
            write_back(1, "", "");
        });
        let s = &*SHM;
        let mut o = Outcome { ok: s.status == 1 && st == 0, cnt: vec![0; NC], ..Default::default() };
        if s.status != 0 {
            let (k, m) = (s.kind_len as usize, s.msg_len as usize);
            o.kind = String::from_utf8_lossy(&s.buf[..k]).into_owned();
            o.msg = String::from_utf8_lossy(&s.buf[k..k + m]).into_owned();
            o.trace = s.trace;
            o.nontrivial = s.nontrivial != 0;
            o.cnt = s.cnt.to_vec();
        } else {
            let (k, m) = match st & 0x7f {
                27 => ("hang", "40 s of CPU without finishing".to_string()),
                14 => ("stuck", "no progress for 120 s".to_string()),
                9 => ("killed", "killed from outside".to_string()),
                0 => ("crash", format!("the process ended with status {}", st >> 8)),
                n => ("crash", format!("the process was killed by signal {n}")),
            };
            o.kind = k.into();
            o.msg = m;
        }
        o
    }
}
