//! Atomic accesses of the instrumented crates (LLVM's ThreadSanitizer pass
//! turns each into one of these calls): a preemption point before and after
//! every one of them, and (see weak.rs) loads that may return an older value.
use crate::rt::{atomic_access, memory_piece, weak_fence, weak_load, weak_rmw, weak_store};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::atomic::{AtomicU16, AtomicU32, AtomicU64, AtomicU8};

macro_rules! ops {
    ($t:ty,$a:ty,$load:ident,$store:ident,$xchg:ident,$cas:ident,$($rmw:ident $f:ident),*) => {
        #[no_mangle]
        pub unsafe extern "C" fn $load(p: *mut $t, o: i32) -> $t {
            atomic_access(p as usize, false, |t| {
                let v = (*(p as *const $a)).load(SeqCst);
                weak_load(t, p as usize, size_of::<$t>() as u8, v as u64, o, true) as $t
            })
        }
        #[no_mangle]
        pub unsafe extern "C" fn $store(p: *mut $t, v: $t, o: i32) {
            atomic_access(p as usize, true, |t| {
                let old = (*(p as *const $a)).swap(v, SeqCst);
                weak_store(t, p as usize, size_of::<$t>() as u8, old as u64, v as u64, o)
            })
        }
        #[no_mangle]
        pub unsafe extern "C" fn $xchg(p: *mut $t, v: $t, o: i32) -> $t {
            atomic_access(p as usize, true, |t| {
                let old = (*(p as *const $a)).swap(v, SeqCst);
                weak_rmw(t, p as usize, size_of::<$t>() as u8, old as u64, v as u64, o);
                old
            })
        }
        #[no_mangle]
        pub unsafe extern "C" fn $cas(p: *mut $t, old: $t, new: $t, o: i32, f: i32) -> $t {
            atomic_access(p as usize, true, |t| match (*(p as *const $a)).compare_exchange(old, new, SeqCst, SeqCst) {
                Ok(x) => {
                    weak_rmw(t, p as usize, size_of::<$t>() as u8, x as u64, new as u64, o);
                    x
                }
                Err(x) => {
                    weak_load(t, p as usize, size_of::<$t>() as u8, x as u64, f, false);
                    x
                }
            })
        }
        $(
            #[no_mangle]
            pub unsafe extern "C" fn $rmw(p: *mut $t, v: $t, o: i32) -> $t {
                atomic_access(p as usize, true, |t| {
                    let old = (*(p as *const $a)).$f(v, SeqCst);
                    let new = (*(p as *const $a)).load(SeqCst);
                    weak_rmw(t, p as usize, size_of::<$t>() as u8, old as u64, new as u64, o);
                    old
                })
            }
        )*
    };
}
ops!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_compare_exchange_val,
    __tsan_atomic8_fetch_add fetch_add, __tsan_atomic8_fetch_sub fetch_sub, __tsan_atomic8_fetch_and fetch_and,
    __tsan_atomic8_fetch_or fetch_or, __tsan_atomic8_fetch_xor fetch_xor, __tsan_atomic8_fetch_nand fetch_nand);
ops!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_compare_exchange_val,
    __tsan_atomic16_fetch_add fetch_add, __tsan_atomic16_fetch_sub fetch_sub, __tsan_atomic16_fetch_and fetch_and,
    __tsan_atomic16_fetch_or fetch_or, __tsan_atomic16_fetch_xor fetch_xor, __tsan_atomic16_fetch_nand fetch_nand);
ops!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_compare_exchange_val,
    __tsan_atomic32_fetch_add fetch_add, __tsan_atomic32_fetch_sub fetch_sub, __tsan_atomic32_fetch_and fetch_and,
    __tsan_atomic32_fetch_or fetch_or, __tsan_atomic32_fetch_xor fetch_xor, __tsan_atomic32_fetch_nand fetch_nand);
ops!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_compare_exchange_val,
    __tsan_atomic64_fetch_add fetch_add, __tsan_atomic64_fetch_sub fetch_sub, __tsan_atomic64_fetch_and fetch_and,
    __tsan_atomic64_fetch_or fetch_or, __tsan_atomic64_fetch_xor fetch_xor, __tsan_atomic64_fetch_nand fetch_nand);

#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_thread_fence(o: i32) {
    std::sync::atomic::fence(SeqCst);
    weak_fence(o)
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_atomic_signal_fence(_o: i32) {
    std::sync::atomic::compiler_fence(SeqCst)
}

/// Copies and fills (left to the pass because the code generator would turn
/// the short ones into instructions nobody sees): eight bytes at a time.
unsafe fn pieces(d: *mut u8, n: usize, s: Option<*const u8>, mut f: impl FnMut(usize, usize)) {
    if !memory_piece(d as usize, s.map_or(0, |s| s as usize), 0) {
        f(0, n);
        return;
    }
    let mut k = 0;
    while k < n {
        let m = (n - k).min(8);
        if k > 0 {
            memory_piece(d as usize + k, s.map_or(0, |s| s as usize + k), 0);
        }
        f(k, m);
        memory_piece(d as usize + k, s.map_or(0, |s| s as usize + k), 1);
        k += m;
    }
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    pieces(d, n, Some(s), |k, m| std::ptr::copy(s.add(k), d.add(k), m));
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    if (d as usize).wrapping_sub(s as usize) < n {
        // backwards: not in pieces
        memory_piece(d as usize, s as usize, 0);
        std::ptr::copy(s, d, n);
    } else {
        pieces(d, n, Some(s), |k, m| std::ptr::copy(s.add(k), d.add(k), m));
    }
    d
}
#[no_mangle]
pub unsafe extern "C" fn __tsan_memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    pieces(d, n, None, |k, m| std::ptr::write_bytes(d.add(k), v as u8, m));
    d
}
