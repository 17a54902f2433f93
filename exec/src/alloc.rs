//! Accounting allocator: knows how many bytes are live, whether each block is given back with the
//! size and the alignment it was taken with, exactly once, and whether anything was written around it.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU32, Ordering};

pub struct Tracking;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static BAD_SIZE: AtomicU32 = AtomicU32::new(0);
pub static BAD_FREE: AtomicU32 = AtomicU32::new(0);
pub static BAD_ZONE: AtomicU32 = AtomicU32::new(0);
static SALT: AtomicU32 = AtomicU32::new(1);

const PRE: usize = 64;
const POST: usize = 64;
const MAGIC: u64 = 0x5afe_b10c_0dd5_ca1e;
const FREED: u64 = 0xdead_b10c_dead_b10c;
const ZONE: u8 = 0xEB;

unsafe fn check_zones(base: *mut u8, size: usize) {
    let mut bad = false;
    for i in 16..PRE {
        bad |= *base.add(i) != ZONE;
    }
    for i in 0..POST {
        bad |= *base.add(PRE + size + i) != ZONE;
    }
    if bad {
        BAD_ZONE.fetch_add(1, Ordering::Relaxed);
    }
}

unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc(l);
        }
        let full = Layout::from_size_align_unchecked(l.size() + PRE + POST, 16);
        let base = System.alloc(full);
        if base.is_null() {
            return base;
        }
        *(base as *mut u64) = MAGIC;
        *(base.add(8) as *mut u64) = l.size() as u64 | (l.align() as u64) << 48;
        for i in 16..PRE {
            *base.add(i) = ZONE;
        }
        for i in 0..POST {
            *base.add(PRE + l.size() + i) = ZONE;
        }
        // what fresh memory holds must not matter: never the same twice
        let salt = SALT.fetch_add(0x9E37_79B9, Ordering::Relaxed);
        std::ptr::write_bytes(base.add(PRE), (salt >> 24) as u8, l.size());
        LIVE.fetch_add(l.size() as i64, Ordering::Relaxed);
        BLOCKS.fetch_add(1, Ordering::Relaxed);
        base.add(PRE)
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.align() > 16 {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() > 16 {
            return System.dealloc(p, l);
        }
        let base = p.sub(PRE);
        let magic = *(base as *mut u64);
        if magic != MAGIC {
            BAD_FREE.fetch_add(1, Ordering::Relaxed);
            return;
        }
        let layout = *(base.add(8) as *mut u64);
        let size = (layout & 0xffff_ffff_ffff) as usize;
        if size != l.size() || (layout >> 48) as usize != l.align() {
            BAD_SIZE.fetch_add(1, Ordering::Relaxed);
        }
        check_zones(base, size);
        *(base as *mut u64) = FREED;
        std::ptr::write_bytes(p, 0xDD, size);
        LIVE.fetch_sub(size as i64, Ordering::Relaxed);
        BLOCKS.fetch_sub(1, Ordering::Relaxed);
        System.dealloc(base, Layout::from_size_align_unchecked(size + PRE + POST, 16));
    }
}
