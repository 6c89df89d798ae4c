//! A checking global allocator: canaries before and after each block, poisoned fresh and
//! freed memory, a quarantine that delays reuse and detects writes after free, and a
//! count of live blocks for leak checks. It is the "disk" of this simulation: a bad write
//! shows up as a violation instead of passing unnoticed.
use crate::world;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::*};

pub struct SimAlloc;

pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);

const HDR: usize = 32;
const TRL: usize = 16;
const M_LIVE: u64 = 0x51A1_1C0D_E000_1111;
const M_FREE: u64 = 0xDEAD_1C0D_E000_2222;
const FRESH: u8 = 0xA7;
const FREED: u8 = 0xD9;
const TRAIL: u8 = 0x5C;
const QN: usize = 192;
const QMAX: usize = 64 * 1024;

#[derive(Clone, Copy)]
struct Q {
    base: *mut u8,
    pre: usize,
    size: usize,
    align: usize,
}
struct Ring(UnsafeCell<([Q; QN], usize)>);
unsafe impl Sync for Ring {}
static RING: Ring = Ring(UnsafeCell::new((
    [Q { base: std::ptr::null_mut(), pre: 0, size: 0, align: 0 }; QN],
    0,
)));
static LOCK: AtomicBool = AtomicBool::new(false);

#[inline]
fn pre(align: usize) -> usize {
    align.max(HDR)
}

unsafe fn bad(class: &str, msg: &str) -> ! {
    world::fatal(class, msg)
}

unsafe fn all(p: *const u8, n: usize, b: u8) -> bool {
    std::slice::from_raw_parts(p, n).iter().all(|x| *x == b)
}

unsafe fn release(q: Q) {
    let user = q.base.add(q.pre);
    // Only the first part is checked: enough to catch a write through a stale node pointer.
    if !all(user, q.size.min(4096), FREED) {
        bad("memory:write-after-free", "a freed block was written to");
    }
    System.dealloc(
        q.base,
        Layout::from_size_align_unchecked(q.pre + q.size + TRL, q.align.max(16)),
    );
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if cfg!(miri) {
            // the interpreter checks every access itself
            TOTAL.fetch_add(1, Relaxed);
            LIVE.fetch_add(1, Relaxed);
            return System.alloc(l);
        }
        let pre = pre(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(
            pre + l.size() + TRL,
            l.align().max(16),
        ));
        if base.is_null() {
            return base;
        }
        let user = base.add(pre);
        let h = user.sub(HDR) as *mut u64;
        h.write(l.size() as u64);
        h.add(1).write(l.align() as u64);
        h.add(2).write(TOTAL.fetch_add(1, Relaxed));
        h.add(3).write(M_LIVE);
        std::ptr::write_bytes(user, FRESH, l.size().min(QMAX));
        std::ptr::write_bytes(user.add(l.size()), TRAIL, TRL);
        LIVE.fetch_add(1, Relaxed);
        user
    }
    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        if cfg!(miri) {
            LIVE.fetch_sub(1, Relaxed);
            return System.dealloc(user, l);
        }
        let h = user.sub(HDR) as *mut u64;
        if h.add(3).read() != M_LIVE {
            if h.add(3).read() == M_FREE {
                bad("memory:double-free", "a block was freed twice");
            }
            bad("memory:bad-free", "a block was freed whose header is damaged or that was never allocated");
        }
        if h.read() != l.size() as u64 || h.add(1).read() != l.align() as u64 {
            bad("memory:bad-free", "a block was freed as a different type than it was allocated as");
        }
        if !all(user.add(l.size()), TRL, TRAIL) {
            bad("memory:overflow", "memory past the end of a block was written");
        }
        h.add(3).write(M_FREE);
        LIVE.fetch_sub(1, Relaxed);
        let q = Q { base: user.sub(pre(l.align())), pre: pre(l.align()), size: l.size(), align: l.align() };
        std::ptr::write_bytes(user, FREED, l.size().min(QMAX));
        if l.size() > 4096 {
            System.dealloc(
                q.base,
                Layout::from_size_align_unchecked(q.pre + q.size + TRL, q.align.max(16)),
            );
            return;
        }
        while LOCK.compare_exchange(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let ring = &mut *RING.0.get();
        let i = ring.1;
        let old = ring.0[i];
        ring.0[i] = q;
        ring.1 = (i + 1) % QN;
        LOCK.store(false, Release);
        if !old.base.is_null() {
            release(old);
        }
    }
}
