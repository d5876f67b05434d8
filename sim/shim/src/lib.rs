#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
//! Preloaded into the real command-line tools: their standard output, clock,
//! environment and randomness are simulated from a plan in SIMSHIM.
//!
//! SIMSHIM = items separated by ';':
//!   cap=N        device capacity in bytes
//!   sticky       after a refusal everything is refused
//!   wK=FAULT     fault of write number K: shortN intr again eio epipe full zero kill
//!   clock=N jumps=N env=N rand=N files=N   surroundings
//! A report is kept in the file descriptor named by SIMSHIM_FD.
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};
use std::arch::asm;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

unsafe fn sys(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") 0i64, in("r9") 0i64, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
fn errno(e: i32) -> ssize_t {
    unsafe { *libc::__errno_location() = e };
    -1
}

extern "C" {
    static environ: *const *const c_char;
}
unsafe fn real_getenv(name: &[u8]) -> *const u8 {
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null();
    }
    while !(*e).is_null() {
        let p = *e as *const u8;
        let mut i = 0;
        while i < name.len() && *p.add(i) == name[i] {
            i += 1;
        }
        if i == name.len() && *p.add(i) == b'=' {
            return p.add(i + 1);
        }
        e = e.add(1);
    }
    std::ptr::null()
}

#[derive(Clone, Copy, PartialEq)]
enum F {
    None,
    Short(usize),
    Intr,
    Err(i32),
    Zero,
    Kill,
}

struct Plan {
    cap: Option<u64>,
    sticky: bool,
    faults: [(u64, F); 64],
    nf: usize,
    clock: u64,
    jumps: u64,
    env: u64,
    rand: u64,
    files: u64,
    fd: i64,
}
static mut PLAN: Plan = Plan {
    cap: None,
    sticky: false,
    faults: [(0, F::None); 64],
    nf: 0,
    clock: 0,
    jumps: 0,
    env: 0,
    rand: 0,
    files: 0,
    fd: -1,
};
static READY: AtomicU64 = AtomicU64::new(0);
/// calls, accepted bytes, refusals, calls after the first refusal, then how
/// often each kind fired: short intr again eio epipe full zero kill, then reads
/// of clock, environment, randomness, files
static REP: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];

unsafe fn num(p: &mut *const u8) -> u64 {
    let mut v = 0u64;
    while (**p).is_ascii_digit() {
        v = v.wrapping_mul(10).wrapping_add((**p - b'0') as u64);
        *p = p.add(1);
    }
    v
}
unsafe fn eat(p: &mut *const u8, w: &[u8]) -> bool {
    for (i, c) in w.iter().enumerate() {
        if *p.add(i) != *c {
            return false;
        }
    }
    *p = p.add(w.len());
    true
}

#[allow(static_mut_refs)]
unsafe fn plan() -> &'static mut Plan {
    if READY.load(Relaxed) == 0 {
        READY.store(1, Relaxed);
        let mut p = real_getenv(b"SIMSHIM_FD");
        if !p.is_null() {
            PLAN.fd = num(&mut p) as i64;
        }
        let mut p = real_getenv(b"SIMSHIM");
        while !p.is_null() && *p != 0 {
            if eat(&mut p, b"cap=") {
                PLAN.cap = Some(num(&mut p));
            } else if eat(&mut p, b"sticky") {
                PLAN.sticky = true;
            } else if eat(&mut p, b"clock=") {
                PLAN.clock = num(&mut p);
            } else if eat(&mut p, b"jumps=") {
                PLAN.jumps = num(&mut p);
            } else if eat(&mut p, b"env=") {
                PLAN.env = num(&mut p);
            } else if eat(&mut p, b"rand=") {
                PLAN.rand = num(&mut p);
            } else if eat(&mut p, b"files=") {
                PLAN.files = num(&mut p);
            } else if eat(&mut p, b"w") {
                let k = num(&mut p);
                eat(&mut p, b"=");
                let f = if eat(&mut p, b"short") {
                    F::Short(num(&mut p) as usize)
                } else if eat(&mut p, b"intr") {
                    F::Intr
                } else if eat(&mut p, b"again") {
                    F::Err(libc::EAGAIN)
                } else if eat(&mut p, b"eio") {
                    F::Err(libc::EIO)
                } else if eat(&mut p, b"epipe") {
                    F::Err(libc::EPIPE)
                } else if eat(&mut p, b"full") {
                    F::Err(libc::ENOSPC)
                } else if eat(&mut p, b"zero") {
                    F::Zero
                } else if eat(&mut p, b"kill") {
                    F::Kill
                } else {
                    F::None
                };
                if PLAN.nf < 64 {
                    PLAN.faults[PLAN.nf] = (k, f);
                    PLAN.nf += 1;
                }
            } else {
                p = p.add(1);
            }
        }
    }
    &mut PLAN
}

unsafe fn report() {
    let p = plan();
    if p.fd >= 0 {
        let mut b = [0u64; 16];
        for i in 0..16 {
            b[i] = REP[i].load(Relaxed);
        }
        sys(libc::SYS_pwrite64, p.fd, b.as_ptr() as i64, 128, 0);
    }
}
fn count(i: usize) -> u64 {
    REP[i].fetch_add(1, Relaxed)
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if fd != 1 {
        let r = sys(libc::SYS_write, fd as i64, b as i64, n as i64, 0);
        return if r < 0 { errno(-r as i32) } else { r as ssize_t };
    }
    let p = plan();
    let k = count(0);
    if REP[2].load(Relaxed) > 0 {
        let a = count(3);
        if a > 2000 {
            // the tool does not stop writing to a dead device
            report();
            sys(libc::SYS_exit_group, 113, 0, 0, 0);
        }
        if p.sticky {
            report();
            return errno(libc::EIO);
        }
    }
    let mut take = n;
    let mut res: Option<ssize_t> = None;
    let mut err = 0;
    for i in 0..p.nf {
        if p.faults[i].0 != k {
            continue;
        }
        match p.faults[i].1 {
            F::Short(m) => {
                if n > 1 {
                    count(4);
                    take = take.min(1 + m % n);
                }
            }
            F::Intr => {
                count(5);
                take = 0;
                err = libc::EINTR;
            }
            F::Err(e) => {
                count(match e {
                    libc::EAGAIN => 6,
                    libc::EIO => 7,
                    libc::EPIPE => 8,
                    _ => 9,
                });
                count(2);
                take = 0;
                err = e;
            }
            F::Zero => {
                count(10);
                count(2);
                take = 0;
                res = Some(0);
            }
            F::Kill => {
                count(11);
                report();
                sys(libc::SYS_kill, sys(libc::SYS_getpid, 0, 0, 0, 0), libc::SIGKILL as i64, 0, 0);
            }
            F::None => (),
        }
    }
    if err == 0 && res.is_none() {
        if let Some(c) = p.cap {
            let room = c.saturating_sub(REP[1].load(Relaxed)) as usize;
            if take > room {
                count(9);
                take = room;
                if room == 0 {
                    count(2);
                    err = libc::ENOSPC;
                }
            }
        }
    }
    let mut done = 0;
    while done < take {
        let r = sys(libc::SYS_write, 1, b as i64 + done as i64, (take - done) as i64, 0);
        if r <= 0 {
            sys(libc::SYS_exit_group, 114, 0, 0, 0);
        }
        done += r as usize;
    }
    REP[1].fetch_add(take as u64, Relaxed);
    report();
    if err != 0 {
        return errno(err);
    }
    if let Some(r) = res {
        return r;
    }
    take as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    if fd != 1 {
        let r = sys(libc::SYS_writev, fd as i64, v as i64, n as i64, 0);
        return if r < 0 { errno(-r as i32) } else { r as ssize_t };
    }
    for i in 0..n as usize {
        let x = &*v.add(i);
        if x.iov_len > 0 {
            return write(fd, x.iov_base, x.iov_len);
        }
    }
    0
}

fn wall() -> u64 {
    unsafe {
        let p = plan();
        let k = count(12);
        report();
        let mut t = if p.clock == 0 { 1_704_067_200_000_000_000 } else { p.clock };
        if p.jumps != 0 {
            let h = mix(p.jumps ^ k);
            let span = [3_155_760_000u64, 86_400_000, 10][(h % 3) as usize] * 1_000_000_000;
            let j = (h >> 8) % span;
            t = if h & 128 == 0 { t.wrapping_add(j) } else { t.saturating_sub(j) };
        }
        t
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: libc::clockid_t, ts: *mut timespec) -> c_int {
    let t = wall();
    (*ts).tv_sec = (t / 1_000_000_000) as _;
    (*ts).tv_nsec = (t % 1_000_000_000) as _;
    0
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _z: *mut c_void) -> c_int {
    let t = wall();
    (*tv).tv_sec = (t / 1_000_000_000) as _;
    (*tv).tv_usec = (t % 1_000_000_000 / 1000) as _;
    0
}
#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let t = (wall() / 1_000_000_000) as libc::time_t;
    if !p.is_null() {
        *p = t;
    }
    t
}

const VALUES: [&[u8]; 12] = [
    b"1\0", b"0\0", b"0.5\0", b"-1\0", b"2035\0", b"38\0", b"true\0", b"tr_TR.UTF-8\0", b"America/New_York\0", b"/nonexistent\0", b"debug\0", b"\0",
];
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let mut n = 0;
    while *name.add(n) != 0 {
        n += 1;
    }
    let s = std::slice::from_raw_parts(name as *const u8, n);
    let p = plan();
    let own = [&b"RUST_"[..], b"SIMSHIM", b"LD_", b"GLIBC", b"MALLOC"].iter().any(|w| s.starts_with(w));
    if own || p.env == 0 {
        return real_getenv(s) as *mut c_char;
    }
    count(13);
    let mut h = p.env;
    for c in s {
        h = mix(h ^ *c as u64);
    }
    report();
    VALUES[(h % 12) as usize].as_ptr() as *mut c_char
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, _f: c_uint) -> ssize_t {
    let p = plan();
    let mut h = p.rand;
    h ^= count(14) << 32;
    for i in 0..n {
        h = mix(h.wrapping_add(0x9e3779b97f4a7c15));
        *(b as *mut u8).add(i) = h as u8;
    }
    n as ssize_t
}

/// Some(hash) if the simulation answers for this path.
unsafe fn sim_path(p: *const c_char) -> Option<u64> {
    let n = libc::strlen(p);
    let s = std::slice::from_raw_parts(p as *const u8, n);
    let own = [&b"/proc/"[..], b"/dev/", b"/sys/", b"/lib", b"/usr/lib", b"/etc/ld"].iter().any(|w| s.starts_with(w));
    let pl = plan();
    if n == 0 || own || pl.files == 0 {
        return None;
    }
    count(15);
    report();
    let mut h = pl.files;
    for c in s {
        h = mix(h ^ *c as u64);
    }
    Some(h)
}
fn ret(r: i64) -> c_int {
    if r < 0 {
        errno(-r as i32) as c_int
    } else {
        r as c_int
    }
}
/// Where a path of the tool's own files really lies.
unsafe fn mapped<'a>(p: *const c_char, b: &'a mut [u8; 512]) -> Option<*const c_char> {
    let n = libc::strlen(p);
    let s = std::slice::from_raw_parts(p as *const u8, n);
    let own = [&b"/proc/"[..], b"/dev/", b"/sys/", b"/lib", b"/usr/lib", b"/etc/ld"].iter().any(|w| s.starts_with(w));
    let r = real_getenv(b"SIMSHIM_ROOT");
    if n == 0 || own || r.is_null() {
        return None;
    }
    let k = libc::strlen(r as *const c_char);
    if k > 480 {
        return None;
    }
    std::ptr::copy_nonoverlapping(r, b.as_mut_ptr(), k);
    b[k] = b'/';
    let s = s.strip_prefix(b"./").unwrap_or(s);
    let mut h = 7u64;
    for c in s {
        h = mix(h ^ *c as u64);
    }
    for i in 0..16 {
        b[k + 1 + i] = b"0123456789abcdef"[(h >> (4 * i)) as usize & 15];
    }
    b[k + 17] = 0;
    Some(b.as_ptr() as *const c_char)
}
unsafe fn make_root() {
    let r = real_getenv(b"SIMSHIM_ROOT");
    if !r.is_null() {
        sys(libc::SYS_mkdir, r as i64, 0o700, 0, 0);
    }
}
/// The tool's own file, if it is to be opened.
unsafe fn own_file(p: *const c_char, fl: c_int, mode: c_uint) -> Option<c_int> {
    let mut b = [0u8; 512];
    let m = mapped(p, &mut b)?;
    let at = libc::AT_FDCWD as i64;
    if fl & libc::O_ACCMODE != libc::O_RDONLY {
        make_root();
        if fl & libc::O_CREAT == 0 && sim_path(p).is_some() {
            return Some(ret(sys(libc::SYS_openat, at, m as i64, (fl | libc::O_CREAT) as i64, 0o600)));
        }
        return Some(ret(sys(libc::SYS_openat, at, m as i64, fl as i64, mode as i64)));
    }
    let r = sys(libc::SYS_openat, at, m as i64, fl as i64, mode as i64);
    if r >= 0 {
        return Some(r as c_int);
    }
    None
}
unsafe fn on_own(n: i64, p: *const c_char, x: i64) -> c_int {
    let mut b = [0u8; 512];
    make_root();
    match mapped(p, &mut b) {
        Some(m) => ret(sys(n, m as i64, x, 0, 0)),
        None => errno(libc::EPERM) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    on_own(libc::SYS_unlink, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    on_own(libc::SYS_rmdir, p, 0)
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int {
    on_own(libc::SYS_mkdir, p, m as i64)
}
#[no_mangle]
pub unsafe extern "C" fn rename(p: *const c_char, q: *const c_char) -> c_int {
    let mut b = [0u8; 512];
    match mapped(q, &mut b) {
        Some(m) => on_own(libc::SYS_rename, p, m as i64),
        None => errno(libc::EPERM) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(_: c_int, _: *const c_char, _: c_int) -> c_int {
    errno(libc::EPERM) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(_: *const c_char, _: *const c_char) -> c_int {
    errno(libc::EPERM) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(_: *const c_char, _: *const c_char) -> c_int {
    errno(libc::EPERM) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(_: *const c_char, _: libc::mode_t) -> c_int {
    errno(libc::EPERM) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn kill(_: libc::pid_t, _: c_int) -> c_int {
    errno(libc::EPERM) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chdir(_: *const c_char) -> c_int {
    0
}
unsafe fn content(h: u64) -> c_int {
    let t: &[u8] = match h % 8 {
        0 => b"",
        1 => b"1\n",
        2 => b"0.25\n",
        3 => b"2017 1 38.0\n2030 7 41\n",
        4 => b"dut1=0.3\nxp=0.1\n",
        5 => b"{\"dut1\": 0.5}\n",
        6 => b"America/New_York\n",
        _ => b"\xff\xfe\x00",
    };
    let fd = sys(libc::SYS_memfd_create, c"sim".as_ptr() as i64, 0, 0, 0);
    if fd >= 0 {
        sys(libc::SYS_pwrite64, fd, t.as_ptr() as i64, t.len() as i64, 0);
    }
    ret(fd)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    if let Some(r) = own_file(p, fl, mode) {
        return r;
    }
    match sim_path(p) {
        Some(h) => content(h),
        None => ret(sys(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, fl as i64, mode as i64)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    if let Some(r) = own_file(p, fl, mode) {
        return r;
    }
    match sim_path(p) {
        Some(h) => content(h),
        None => ret(sys(libc::SYS_openat, d as i64, p as i64, fl as i64, mode as i64)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    openat64(d, p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    let mut own = [0u8; 512];
    let mut d = d;
    let mut p = p;
    if !p.is_null() {
        let m = mapped(p, &mut own).filter(|m| sys(libc::SYS_access, *m as i64, 0, 0, 0) == 0);
        if let Some(m) = m {
            d = libc::AT_FDCWD;
            p = m;
        } else if let Some(h) = sim_path(p) {
            *b = std::mem::zeroed();
            (*b).stx_mask = mask;
            (*b).stx_mode = (libc::S_IFREG | 0o644) as u16;
            (*b).stx_size = h % 100;
            (*b).stx_mtime.tv_sec = (h >> 20) as i64 % 4_000_000_000;
            return 0;
        }
    }
    let r: i64;
    asm!("syscall", inlateout("rax") libc::SYS_statx => r, in("rdi") d as i64, in("rsi") p as i64, in("rdx") fl as i64,
         in("r10") mask as i64, in("r8") b as i64, in("r9") 0i64, lateout("rcx") _, lateout("r11") _, options(nostack));
    ret(r)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    let mut own = [0u8; 512];
    let m = mapped(p, &mut own).filter(|m| sys(libc::SYS_access, *m as i64, 0, 0, 0) == 0);
    let p = m.unwrap_or(p);
    if let Some(h) = sim_path(p).filter(|_| m.is_none()) {
        *b = std::mem::zeroed();
        (*b).st_mode = libc::S_IFREG | 0o644;
        (*b).st_size = (h % 100) as i64;
        return 0;
    }
    ret(sys(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, b as i64, 0))
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    let mut own = [0u8; 512];
    if mapped(p, &mut own).is_some_and(|m| sys(libc::SYS_access, m as i64, 0, 0, 0) == 0) {
        return 0;
    }
    match sim_path(p) {
        Some(_) => 0,
        None => ret(sys(libc::SYS_access, p as i64, m as i64, 0, 0)),
    }
}

#[allow(dead_code)]
fn unused(_: c_long) {}
