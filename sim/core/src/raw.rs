//! System calls made by the simulator itself, bypassing the interposed
//! symbols.
use std::arch::asm;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[inline]
pub unsafe fn syscall6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall",
         inlateout("rax") n => r,
         in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f,
         lateout("rcx") _, lateout("r11") _,
         options(nostack));
    r
}

pub fn futex_wait(a: &AtomicU32, v: u32) {
    unsafe {
        syscall6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, v as i64, 0, 0, 0);
    }
}

pub fn futex_wake(a: &AtomicU32) {
    unsafe {
        syscall6(libc::SYS_futex, a as *const _ as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64, 0, 0, 0);
    }
}

/// A one-permit gate: the baton of one thread.
pub struct Gate(pub AtomicU32);
impl Gate {
    pub const fn new() -> Self {
        Gate(AtomicU32::new(0))
    }
    pub fn open(&self) {
        self.0.store(1, SeqCst);
        futex_wake(&self.0);
    }
    pub fn pass(&self) {
        let mut spin = 0;
        loop {
            if self.0.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
                return;
            }
            spin += 1;
            if spin > 200 {
                futex_wait(&self.0, 0);
            } else {
                std::hint::spin_loop();
            }
        }
    }
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        syscall6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0);
    }
    loop {}
}
