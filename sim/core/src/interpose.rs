//! libc symbols redefined in the executable.  Inside a library call they are
//! answered by the simulator; anywhere else they go to the kernel.
use crate::raw::syscall6;
use crate::rng::mix;
use crate::rt;
use crate::world::{key, world, Node, World};
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}

/// Simulated code: a library call on a simulated thread.
fn simulated() -> bool {
    rt::in_op() && rt::is_sim_thread()
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if rt::in_op() {
        if n == libc::SYS_futex && simulated() {
            let op = (b as c_int) & 0x7f;
            let foreign = rt::rt().foreign > 0;
            return rt::outside(|| match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET if foreign => {
                    // who will wake this caller, another one or a thread the
                    // library made?  Neither may be kept from it.
                    if std::ptr::read_volatile(a as *const u32) != c as u32 {
                        return ret(-(libc::EAGAIN as i64));
                    }
                    if d != 0 {
                        let ts = &*(d as *const timespec);
                        let v = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        let now = rt::now();
                        let left = if op == libc::FUTEX_WAIT { v } else { v.saturating_sub(now) };
                        rt::pause(left.min(1_000_000));
                        if left <= 1_000_000 {
                            return ret(-(libc::ETIMEDOUT as i64));
                        }
                        return 0;
                    }
                    rt::advance(50_000);
                    if !rt::yield_now() {
                        let ts = timespec { tv_sec: 0, tv_nsec: 20_000 };
                        syscall6(libc::SYS_nanosleep, &ts as *const _ as i64, 0, 0, 0, 0, 0);
                    }
                    0
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET if foreign => {
                    let n = rt::futex_wake(a as usize, c);
                    n + ret(syscall6(libc::SYS_futex, a, b, c, d, e, f)).max(0)
                }
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let dl = if d == 0 {
                        None
                    } else {
                        let ts = &*(d as *const timespec);
                        let v = ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64;
                        Some(if op == libc::FUTEX_WAIT { rt::now() + v } else { v })
                    };
                    ret(rt::futex_wait(a as usize, c as u32, dl))
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => rt::futex_wake(a as usize, c),
                _ => ret(syscall6(n, a, b, c, d, e, f)),
            });
        }
        if n == libc::SYS_getrandom {
            return getrandom(a as *mut c_void, b as size_t, c as c_uint) as c_long;
        }
    }
    ret(syscall6(n, a, b, c, d, e, f))
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if simulated() {
        rt::outside(|| rt::yield_now());
        return 0;
    }
    ret(syscall6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}

fn put(ts: *mut timespec, ns: u64) {
    unsafe {
        (*ts).tv_sec = (ns / 1_000_000_000) as _;
        (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    }
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut timespec) -> c_int {
    if rt::in_op() {
        rt::outside(|| match clk {
            libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_TAI => put(ts, rt::wall_clock()),
            _ => {
                rt::amb().reads_clock += 1;
                // monotonic: origin differs between processes, never steps back
                let o = mix(rt::amb().amb.clock ^ rt::amb().amb.jumps) % 1_000_000_000_000_000;
                let o = if rt::amb().amb.clock == 0 { 0 } else { o };
                put(ts, o + rt::now());
            }
        });
        return 0;
    }
    ret(syscall6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, tz: *mut c_void) -> c_int {
    if rt::in_op() {
        let t = rt::outside(rt::wall_clock);
        (*tv).tv_sec = (t / 1_000_000_000) as _;
        (*tv).tv_usec = (t % 1_000_000_000 / 1000) as _;
        return 0;
    }
    ret(syscall6(libc::SYS_gettimeofday, tv as i64, tz as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn time(p: *mut libc::time_t) -> libc::time_t {
    let t = if rt::in_op() {
        (rt::outside(rt::wall_clock) / 1_000_000_000) as libc::time_t
    } else {
        syscall6(libc::SYS_time, 0, 0, 0, 0, 0, 0)
    };
    if !p.is_null() {
        *p = t;
    }
    t
}

unsafe fn sleep_for(ts: *const timespec) {
    let ns = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
    rt::outside(|| {
        if rt::is_sim_thread() {
            rt::pause(ns)
        } else {
            rt::advance(ns)
        }
    })
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(ts: *const timespec, rem: *mut timespec) -> c_int {
    if rt::in_op() {
        sleep_for(ts);
        return 0;
    }
    ret(syscall6(libc::SYS_nanosleep, ts as i64, rem as i64, 0, 0, 0, 0)) as c_int
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: libc::clockid_t, fl: c_int, ts: *const timespec, rem: *mut timespec) -> c_int {
    if rt::in_op() {
        if fl & libc::TIMER_ABSTIME == 0 {
            sleep_for(ts);
        } else {
            let v = (*ts).tv_sec as u64 * 1_000_000_000 + (*ts).tv_nsec as u64;
            let d = v.saturating_sub(rt::now());
            let t = timespec { tv_sec: (d / 1_000_000_000) as _, tv_nsec: (d % 1_000_000_000) as _ };
            sleep_for(&t);
        }
        return 0;
    }
    -(syscall6(libc::SYS_clock_nanosleep, clk as i64, fl as i64, ts as i64, rem as i64, 0, 0) as c_int)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut c_void, n: size_t, fl: c_uint) -> ssize_t {
    if rt::in_op() {
        rt::outside(|| {
            let s = rt::amb();
            s.reads_rand += 1;
            for i in 0..n {
                s.rng = mix(s.rng.wrapping_add(0x9e3779b97f4a7c15));
                *(p as *mut u8).add(i) = s.rng as u8;
            }
        });
        return n as ssize_t;
    }
    ret(syscall6(libc::SYS_getrandom, p as i64, n as i64, fl as i64, 0, 0, 0)) as ssize_t
}

extern "C" {
    static environ: *const *const c_char;
}

/// Values an environment variable might have.
pub const ENV_VALUES: [&[u8]; 12] = [
    b"1\0", b"0\0", b"0.5\0", b"-1\0", b"2035\0", b"38\0", b"true\0", b"tr_TR.UTF-8\0", b"America/New_York\0", b"/nonexistent\0", b"debug\0", b"\0",
];

/// Strings the library's source names: values its surroundings might have.
static mut STRINGS: Vec<std::ffi::CString> = vec![];
pub fn set_strings(v: &[String]) {
    unsafe { STRINGS = v.iter().filter_map(|s| std::ffi::CString::new(s.as_str()).ok()).collect() }
}

#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    if rt::in_op() {
        return rt::outside(|| {
            let s = rt::amb();
            s.reads_env += 1;
            if let Some(v) = world().env(std::ffi::CStr::from_ptr(name).to_bytes()) {
                return v.map_or(std::ptr::null_mut(), |v| v.as_ptr() as *mut c_char);
            }
            if s.amb.env == 0 {
                return std::ptr::null_mut();
            }
            let mut h = s.amb.env;
            let mut q = name;
            while *q != 0 {
                h = mix(h ^ *q as u64);
                q = q.add(1);
            }
            let own = &*std::ptr::addr_of!(STRINGS);
            if h >> 63 == 1 && !own.is_empty() {
                return own[(h >> 8) as usize % own.len()].as_ptr() as *mut c_char;
            }
            ENV_VALUES[(h % 12) as usize].as_ptr() as *mut c_char
        });
    }
    let nl = libc::strlen(name);
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        if libc::strncmp(*e, name, nl) == 0 && *(*e).add(nl) == b'=' as c_char {
            return (*e).add(nl + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}

fn fail(e: i32) -> c_int {
    set_errno(e);
    -1
}
fn fresh_memfd() -> i64 {
    unsafe { syscall6(libc::SYS_memfd_create, c"sim".as_ptr() as i64, libc::MFD_CLOEXEC as i64, 0, 0, 0, 0) }
}
unsafe fn sim_open(p: *const c_char, fl: c_int) -> c_int {
    rt::outside(|| {
        let s = rt::amb();
        s.reads_file += 1;
        let k = key(p);
        let there = world().node(&k);
        let exists = match there {
            None => s.amb.files != 0 || k.starts_with(b"/dev/"),
            Some(n) => n != Node::Gone,
        };
        let wr = fl & libc::O_ACCMODE != libc::O_RDONLY;
        if !exists && fl & libc::O_CREAT == 0 {
            return fail(libc::ENOENT);
        }
        if exists && fl & libc::O_CREAT != 0 && fl & libc::O_EXCL != 0 {
            return fail(libc::EEXIST);
        }
        if there == Some(Node::Dir) && wr {
            return fail(libc::EISDIR);
        }
        if wr && s.amb.files != 0 && mix(s.amb.files ^ 77) % 3 == 0 {
            return fail([libc::EACCES, libc::ENOSPC, libc::EROFS, libc::EMFILE][(s.amb.files % 4) as usize]);
        }
        if wr && !k.starts_with(b"/dev/") {
            let base = match there {
                Some(Node::File(b)) => b,
                _ => {
                    let b = if exists { sim_content() as i64 } else { fresh_memfd() };
                    world().held += 1;
                    world().put(k, Node::File(b));
                    b
                }
            };
            return ret(World::reopen(base, fl)) as c_int;
        }
        match there {
            Some(Node::File(b)) => ret(World::reopen(b, fl)) as c_int,
            Some(_) => ret(fresh_memfd()) as c_int,
            None if k.starts_with(b"/dev/") && k.ends_with(b"random") => {
                let fd = fresh_memfd();
                s.reads_rand += 1;
                let mut b = [0u8; 4096];
                for x in b.iter_mut() {
                    s.rng = mix(s.rng.wrapping_add(0x9e3779b97f4a7c15));
                    *x = s.rng as u8;
                }
                syscall6(libc::SYS_pwrite64, fd, b.as_ptr() as i64, 4096, 0, 0, 0);
                ret(fd) as c_int
            }
            None if s.amb.files == 0 => ret(fresh_memfd()) as c_int,
            None => sim_content(),
        }
    })
}
/// A file of generated contents.
unsafe fn sim_content() -> c_int {
        let s = rt::amb();
        let fd = syscall6(libc::SYS_memfd_create, c"sim".as_ptr() as i64, 0, 0, 0, 0, 0);
        let h = mix(s.amb.files);
        let own = &*std::ptr::addr_of!(STRINGS);
        let word = if own.is_empty() { "x" } else { own[(h >> 32) as usize % own.len()].to_str().unwrap_or("x") };
        let t = match h % 8 {
            4 => format!("{}\n", word),
            5 => format!("{} 0.5\n", word),
            6 => format!("{}=1\n", word),
            7 => format!("{}\n", mix(h) % 4),
            0 => String::new(),
            1 => format!("{}\n", (h >> 8) % 100),
            2 => format!("2017 1 38.0\n2030 7 {}\n", 39 + h % 7),
            _ => format!("0.{}\n", h % 1000),
        };
        syscall6(libc::SYS_write, fd, t.as_ptr() as i64, t.len() as i64, 0, 0, 0);
        syscall6(libc::SYS_lseek, fd, 0, 0, 0, 0, 0);
        fd as c_int
}

#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    if rt::in_op() {
        return sim_open(p, fl);
    }
    ret(syscall6(libc::SYS_openat, libc::AT_FDCWD as i64, p as i64, fl as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    open64(p, fl, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    if rt::in_op() {
        return sim_open(p, fl);
    }
    ret(syscall6(libc::SYS_openat, d as i64, p as i64, fl as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, fl: c_int, mode: c_uint) -> c_int {
    openat64(d, p, fl, mode)
}

/// Whether a path asked about exists, by the run's surroundings.
unsafe fn sim_exists(p: *const c_char) -> Option<u64> {
    let what = text(p);
    rt::outside(|| {
        let s = rt::amb();
        s.reads_file += 1;
        match world().node(&key(p)) {
            Some(Node::Gone) => {
                set_errno(libc::ENOENT);
                return None;
            }
            Some(Node::File(_)) => return Some(mix(s.amb.files ^ what) & !DIR),
            Some(Node::Dir) => return Some(mix(s.amb.files ^ what) | DIR),
            None => (),
        }
        if s.amb.files == 0 {
            set_errno(libc::ENOENT);
            None
        } else {
            Some(mix(s.amb.files ^ what) & !DIR)
        }
    })
}
unsafe fn text(p: *const c_char) -> u64 {
    let mut h = 7u64;
    let mut q = p;
    while *q != 0 {
        h = h.wrapping_mul(131).wrapping_add(*q as u64);
        q = q.add(1);
    }
    h
}
const REGULAR: u32 = libc::S_IFREG | 0o644;
const DIR: u64 = 1 << 63;
fn mode(h: u64) -> u32 {
    if h & DIR != 0 { libc::S_IFDIR | 0o755 } else { REGULAR }
}
/// How long a file written in this run is.
unsafe fn length(p: *const c_char) -> Option<i64> {
    rt::outside(|| match world().node(&key(p)) {
        Some(Node::File(fd)) => {
            let mut b: libc::stat64 = std::mem::zeroed();
            syscall6(libc::SYS_newfstatat, fd, c"".as_ptr() as i64, &mut b as *mut _ as i64, libc::AT_EMPTY_PATH as i64, 0, 0);
            Some(b.st_size)
        }
        _ => None,
    })
}

#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, b: *mut libc::statx) -> c_int {
    if rt::in_op() && !p.is_null() && *p != 0 {
        return match sim_exists(p) {
            None => -1,
            Some(h) => {
                *b = std::mem::zeroed();
                (*b).stx_mask = mask;
                (*b).stx_mode = mode(h) as u16;
                (*b).stx_size = length(p).map_or(h % 1000, |n| n as u64);
                (*b).stx_mtime.tv_sec = (h >> 20) as i64 % 4_000_000_000;
                0
            }
        };
    }
    ret(syscall6(libc::SYS_statx, d as i64, p as i64, fl as i64, mask as i64, b as i64, 0)) as c_int
}
unsafe fn sim_stat(p: *const c_char, b: *mut libc::stat64) -> c_int {
    match sim_exists(p) {
        None => -1,
        Some(h) => {
            *b = std::mem::zeroed();
            (*b).st_mode = mode(h);
            (*b).st_size = length(p).unwrap_or((h % 1000) as i64);
            (*b).st_mtime = (h >> 20) as i64 % 4_000_000_000;
            0
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    if rt::in_op() {
        return sim_stat(p, b);
    }
    ret(syscall6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, b as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(p: *const c_char, b: *mut libc::stat64) -> c_int {
    if rt::in_op() {
        return sim_stat(p, b);
    }
    ret(syscall6(libc::SYS_newfstatat, libc::AT_FDCWD as i64, p as i64, b as i64, libc::AT_SYMLINK_NOFOLLOW as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int {
    if rt::in_op() {
        return if sim_exists(p).is_some() { 0 } else { -1 };
    }
    ret(syscall6(libc::SYS_access, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    if rt::in_op() {
        return match sim_exists(p) {
            None => -1,
            Some(h) => {
                let t = format_path(h);
                let k = (t.len() - 1).min(n);
                std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, k);
                k as ssize_t
            }
        };
    }
    ret(syscall6(libc::SYS_readlink, p as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
fn format_path(h: u64) -> &'static [u8] {
    [&b"/srv/run\0"[..], b"/home/user\0", b"/tmp\0", b"/opt/tofas/bin/tool\0"][(h % 4) as usize]
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    if rt::in_op() && !b.is_null() {
        let t = rt::outside(|| {
            let s = rt::amb();
            s.reads_file += 1;
            match &world().cwd {
                Some(c) => [c, &b"\0"[..]].concat(),
                None if s.amb.files == 0 => b"/\0".to_vec(),
                None => format_path(mix(s.amb.files)).to_vec(),
            }
        });
        if t.len() > n {
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, t.len());
        return b;
    }
    if ret(syscall6(libc::SYS_getcwd, b as i64, n as i64, 0, 0, 0, 0)) < 0 {
        return std::ptr::null_mut();
    }
    b
}
#[no_mangle]
pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int {
    if rt::in_op() {
        return rt::outside(|| {
            let k = key(p);
            let w = world();
            w.changes += 1;
            w.cwd = Some(if k.starts_with(b"/") || w.cwd.is_none() { k } else { [w.cwd.as_deref().unwrap_or(b""), b"/", &k[..]].concat() });
            0
        });
    }
    ret(syscall6(libc::SYS_chdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}
unsafe fn sim_remove(p: *const c_char) -> c_int {
    rt::outside(|| {
        let k = key(p);
        let there = match world().node(&k) {
            None => rt::amb().amb.files != 0,
            Some(n) => n != Node::Gone,
        };
        if !there {
            return fail(libc::ENOENT);
        }
        world().put(k, Node::Gone);
        0
    })
}
#[no_mangle]
pub unsafe extern "C" fn unlink(p: *const c_char) -> c_int {
    if rt::in_op() {
        return sim_remove(p);
    }
    ret(syscall6(libc::SYS_unlink, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(p: *const c_char) -> c_int {
    if rt::in_op() {
        return sim_remove(p);
    }
    ret(syscall6(libc::SYS_rmdir, p as i64, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if rt::in_op() {
        return sim_remove(p);
    }
    ret(syscall6(libc::SYS_unlinkat, d as i64, p as i64, fl as i64, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(p: *const c_char, m: libc::mode_t) -> c_int {
    if rt::in_op() {
        return rt::outside(|| {
            let k = key(p);
            if world().node(&k).map_or(rt::amb().amb.files != 0, |n| n != Node::Gone) {
                return fail(libc::EEXIST);
            }
            world().put(k, Node::Dir);
            0
        });
    }
    ret(syscall6(libc::SYS_mkdir, p as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if rt::in_op() {
        return rt::outside(|| if world().rename(&key(a), key(b)) { 0 } else { fail(libc::ENOENT) });
    }
    ret(syscall6(libc::SYS_rename, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if rt::in_op() {
        return fail(libc::EPERM);
    }
    ret(syscall6(libc::SYS_link, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn symlink(a: *const c_char, b: *const c_char) -> c_int {
    if rt::in_op() {
        return fail(libc::EPERM);
    }
    ret(syscall6(libc::SYS_symlink, a as i64, b as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn chmod(a: *const c_char, m: libc::mode_t) -> c_int {
    if rt::in_op() {
        return fail(libc::EPERM);
    }
    ret(syscall6(libc::SYS_chmod, a as i64, m as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn kill(p: libc::pid_t, s: c_int) -> c_int {
    if rt::in_op() {
        return fail(libc::EPERM);
    }
    ret(syscall6(libc::SYS_kill, p as i64, s as i64, 0, 0, 0, 0)) as c_int
}

/// Gives calls an environment of their own that holds what they set.
unsafe fn rebuild_environ(name: &[u8]) {
    let e = std::ptr::addr_of!(environ) as *mut *const *const c_char;
    let mut v: Vec<*const c_char> = vec![];
    let mut q = *e;
    while !q.is_null() && !(*q).is_null() {
        let t = std::ffi::CStr::from_ptr(*q).to_bytes();
        if !(t.starts_with(name) && t.get(name.len()) == Some(&b'=')) {
            v.push(*q);
        }
        q = q.add(1);
    }
    if let Some(Some(x)) = world().env(name) {
        let t = std::ffi::CString::new([name, b"=", x.to_bytes()].concat()).unwrap_or_default();
        v.push(t.into_raw());
    }
    v.push(std::ptr::null());
    if REAL_ENVIRON.is_null() {
        REAL_ENVIRON = *e;
    }
    *e = Box::leak(v.into_boxed_slice()).as_ptr();
}
unsafe fn again_environ() {
    if crate::world::changed() {
        for n in world().names() {
            rebuild_environ(&n);
        }
    }
}
type SetEnv = unsafe extern "C" fn(*const c_char, *const c_char, c_int) -> c_int;
#[no_mangle]
pub unsafe extern "C" fn setenv(n: *const c_char, v: *const c_char, over: c_int) -> c_int {
    if rt::in_op() {
        if over == 0 && !getenv(n).is_null() {
            return 0;
        }
        return rt::outside(|| {
            let n = std::ffi::CStr::from_ptr(n).to_bytes();
            world().set_env(n, Some(std::ffi::CStr::from_ptr(v).to_bytes()));
            rebuild_environ(n);
            0
        });
    }
    let f: SetEnv = std::mem::transmute(real(c"setenv"));
    f(n, v, over)
}
#[no_mangle]
pub unsafe extern "C" fn unsetenv(n: *const c_char) -> c_int {
    if rt::in_op() {
        return rt::outside(|| {
            let n = std::ffi::CStr::from_ptr(n).to_bytes();
            world().set_env(n, None);
            rebuild_environ(n);
            0
        });
    }
    let f: unsafe extern "C" fn(*const c_char) -> c_int = std::mem::transmute(real(c"unsetenv"));
    f(n)
}
unsafe fn real(name: &std::ffi::CStr) -> *mut c_void {
    let f = libc::dlsym(libc::RTLD_NEXT, name.as_ptr());
    if f.is_null() {
        libc::abort();
    }
    f
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut libc::DIR {
    if rt::in_op() && sim_exists(p).is_none() {
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*const c_char) -> *mut libc::DIR = std::mem::transmute(real(c"opendir"));
    f(if rt::in_op() { c"/".as_ptr() } else { p })
}
/// A number that differs between machines.
fn machine(salt: u64) -> u64 {
    rt::outside(|| {
        let s = rt::amb();
        s.reads_rand += 1;
        mix(s.amb.rand ^ salt)
    })
}
#[no_mangle]
pub unsafe extern "C" fn sysconf(n: c_int) -> c_long {
    if rt::in_op() && (n == libc::_SC_NPROCESSORS_ONLN || n == libc::_SC_NPROCESSORS_CONF) {
        return 1 + (machine(1) % 64) as c_long;
    }
    let f: unsafe extern "C" fn(c_int) -> c_long = std::mem::transmute(real(c"sysconf"));
    f(n)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(p: libc::pid_t, n: size_t, m: *mut libc::cpu_set_t) -> c_int {
    if rt::in_op() {
        std::ptr::write_bytes(m as *mut u8, 0, n);
        let k = 1 + machine(1) % 64;
        for c in 0..k as usize {
            if c / 8 < n {
                *(m as *mut u8).add(c / 8) |= 1 << (c % 8);
            }
        }
        return 0;
    }
    let r = ret(syscall6(libc::SYS_sched_getaffinity, p as i64, n as i64, m as i64, 0, 0, 0)) as c_int;
    if r > 0 {
        // the kernel wrote r bytes
        std::ptr::write_bytes((m as *mut u8).add(r as usize), 0, n.saturating_sub(r as usize));
        return 0;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    if rt::in_op() {
        return (machine(2 + fd as u64) & 1) as c_int;
    }
    let mut t: libc::termios = std::mem::zeroed();
    (ret(syscall6(libc::SYS_ioctl, fd as i64, libc::TCGETS as i64, &mut t as *mut _ as i64, 0, 0, 0)) == 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getuid() -> libc::uid_t {
    if rt::in_op() {
        return (machine(9) % 3000) as libc::uid_t;
    }
    syscall6(libc::SYS_getuid, 0, 0, 0, 0, 0, 0) as libc::uid_t
}
#[no_mangle]
pub unsafe extern "C" fn getppid() -> libc::pid_t {
    if rt::in_op() {
        return 1 + (machine(10) % 30000) as libc::pid_t;
    }
    syscall6(libc::SYS_getppid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}
#[no_mangle]
pub unsafe extern "C" fn gethostname(b: *mut c_char, n: size_t) -> c_int {
    if rt::in_op() {
        let t = format!("h{}\0", machine(11) % 1000);
        std::ptr::copy_nonoverlapping(t.as_ptr(), b as *mut u8, t.len().min(n));
        return 0;
    }
    let f: unsafe extern "C" fn(*mut c_char, size_t) -> c_int = std::mem::transmute(real(c"gethostname"));
    f(b, n)
}

// The whole environment, for a call that enumerates it.
static mut REAL_ENVIRON: *const *const c_char = std::ptr::null();
static mut SIM_ENVIRON: [*const c_char; 8] = [std::ptr::null(); 8];
const ENV_PAIRS: [&[u8]; 12] = [
    b"TZ=America/New_York\0", b"LANG=tr_TR.UTF-8\0", b"LC_ALL=de_DE.UTF-8\0", b"HOME=/nonexistent\0", b"TOFAS_DEBUG=1\0", b"TOFAS_DUT1=0.25\0",
    b"TOFAS_PRECISION=3\0", b"DEBUG=1\0", b"COLUMNS=40\0", b"USER=nobody\0", b"RUST_BACKTRACE=1\0", b"PATH=/nowhere\0",
];
const ARGS: [&[u8]; 8] = [
    b"/usr/bin/tofas\0", b"--precise\0", b"-v\0", b"\0", b"2024-02-29\0", b"--low-accuracy\0", b"main-0123456789abcdef\0", b"--debug\0",
];
static mut ARGC: usize = 0;
static mut ARGV: *mut *const c_char = std::ptr::null_mut();
static mut REAL_ARGV: [*const c_char; 8] = [std::ptr::null(); 8];
unsafe extern "C" fn take_args(argc: c_int, argv: *mut *const c_char, _envp: *const *const c_char) {
    ARGC = (argc as usize).min(8);
    ARGV = argv;
    for k in 0..ARGC {
        REAL_ARGV[k] = *argv.add(k);
    }
}
#[used]
#[link_section = ".init_array"]
static TAKE_ARGS: unsafe extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = take_args;

/// Shows calls another environment and another command line from now on (0:
/// the real ones).
pub fn set_environ(env: u64) {
    unsafe {
        for k in 0..ARGC {
            *ARGV.add(k) = if env == 0 { REAL_ARGV[k] } else { ARGS[(env >> (24 + 3 * k)) as usize % 8].as_ptr() as *const c_char };
        }
        let e = std::ptr::addr_of!(environ) as *mut *const *const c_char;
        if REAL_ENVIRON.is_null() {
            REAL_ENVIRON = *e;
        }
        if env == 0 {
            *e = REAL_ENVIRON;
            again_environ();
            return;
        }
        let t = std::ptr::addr_of_mut!(SIM_ENVIRON) as *mut *const c_char;
        let n = (env % 7) as usize;
        for k in 0..n {
            *t.add(k) = ENV_PAIRS[((env >> 8) as usize + k * (1 + (env >> 16) as usize % 5)) % 12].as_ptr() as *const c_char;
        }
        *t.add(n) = std::ptr::null();
        *e = t as *const *const c_char;
        again_environ();
    }
}

// The processor's cycle counter, when it traps.
unsafe extern "C" fn on_tsc(_s: c_int, _i: *mut libc::siginfo_t, c: *mut c_void) {
    let g = &mut (*(c as *mut libc::ucontext_t)).uc_mcontext.gregs;
    let p = g[libc::REG_RIP as usize] as *const u8;
    let len = if *p == 0x0f && *p.add(1) == 0x31 {
        2
    } else if *p == 0x0f && *p.add(1) == 0x01 && *p.add(2) == 0xf9 {
        g[libc::REG_RCX as usize] = 0;
        3
    } else {
        libc::signal(libc::SIGSEGV, libc::SIG_DFL);
        return;
    };
    let v = if rt::in_op() {
        mix(rt::outside(rt::wall_clock)) >> 4
    } else {
        syscall6(libc::SYS_prctl, 26, 1, 0, 0, 0, 0);
        let v = std::arch::x86_64::_rdtsc();
        syscall6(libc::SYS_prctl, 26, 2, 0, 0, 0, 0);
        v
    };
    g[libc::REG_RAX as usize] = (v & 0xffff_ffff) as i64;
    g[libc::REG_RDX as usize] = (v >> 32) as i64;
    g[libc::REG_RIP as usize] += len;
}
/// Makes the cycle counter a simulated clock in this process.
pub fn trap_tsc() {
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_tsc as *const () as usize;
        a.sa_flags = libc::SA_SIGINFO | libc::SA_ONSTACK | libc::SA_NODEFER;
        if libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut()) == 0 {
            // PR_SET_TSC, PR_TSC_SIGSEGV
            syscall6(libc::SYS_prctl, 26, 2, 0, 0, 0, 0);
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, p: *const c_void, n: size_t) -> ssize_t {
    if rt::in_op() && (fd == 1 || fd == 2) {
        rt::amb().prints += 1;
        return n as ssize_t;
    }
    ret(syscall6(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0)) as ssize_t
}

#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    if rt::in_op() {
        return rt::outside(|| {
            rt::amb().reads_rand += 1;
            2 + (mix(rt::amb().amb.rand) % 30000) as libc::pid_t
        });
    }
    syscall6(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as libc::pid_t
}

type PtCreate = unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, extern "C" fn(*mut c_void) -> *mut c_void, *mut c_void) -> c_int;
pub static mut THREADS_MADE: u64 = 0;

#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    a: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    x: *mut c_void,
) -> c_int {
    if rt::in_op() {
        THREADS_MADE += 1;
        if rt::is_sim_thread() {
            rt::rt().foreign += 1;
            rt::wake_all();
        }
    }
    let real = libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr());
    let real: PtCreate = std::mem::transmute(real);
    real(t, a, f, x)
}
