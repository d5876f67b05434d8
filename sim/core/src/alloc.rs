//! Global allocator: accounts for memory allocated inside library calls and
//! optionally fills it with a chosen byte.
use crate::rt;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct SimAlloc;

/// Bytes and blocks that library calls allocated and nobody freed yet.
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

const TAG_OP: u64 = 0x0b0b_5eed_0000_0001;
const TAG_NO: u64 = 0x0b0b_5eed_0000_0002;

#[inline]
fn pad(l: &Layout) -> usize {
    l.align().max(16)
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let h = pad(&l);
        let on = rt::in_op();
        if on && rt::no_memory(l.size()) {
            return std::ptr::null_mut();
        }
        let shift = if on && l.align() <= 16 { 16 * rt::heap_shift() } else { 0 };
        let p = System.alloc(Layout::from_size_align_unchecked(l.size() + h + shift, l.align().max(16)));
        if p.is_null() {
            return p;
        }
        let p = p.add(h + shift);
        *(p.sub(16) as *mut u64) = shift as u64;
        rt::weak_forget(p as usize, l.size());
        *(p.sub(8) as *mut u64) = if on { TAG_OP } else { TAG_NO };
        if on {
            LIVE.fetch_add(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            TOTAL.fetch_add(1, Relaxed);
            if let Some(b) = rt::paint_byte() {
                std::ptr::write_bytes(p, b, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = pad(&l);
        if *(p.sub(8) as *const u64) == TAG_OP {
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
        }
        let shift = *(p.sub(16) as *const u64) as usize;
        System.dealloc(p.sub(h + shift), Layout::from_size_align_unchecked(l.size() + h + shift, l.align().max(16)))
    }
}
