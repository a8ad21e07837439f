//! A checking global allocator: red zones, layout check on free, poison and quarantine of freed
//! blocks, and counters of live, total and peak bytes.
//!
//! Any misuse is recorded (never unwound through the allocator) and read with `faults`.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicPtr, AtomicUsize, Ordering::SeqCst};

pub struct Checked;

const MAGIC: usize = 0x5AFE_B10C_0DD5_EED5u64 as usize;
const DEAD: usize = 0xDEAD_B10C_0DEA_DBADu64 as usize;
const ZONE: usize = 32;
const FILL: u8 = 0xCB;
const POISON: u8 = 0xDB;

#[repr(C)]
struct Head {
    magic: usize,
    size: usize,
    align: usize,
    base: usize,
}

static LIVE: AtomicUsize = AtomicUsize::new(0);
static LIVE_N: AtomicUsize = AtomicUsize::new(0);
static TOTAL: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static COUNT: AtomicUsize = AtomicUsize::new(0);
static FAULTS: AtomicUsize = AtomicUsize::new(0);
static WHAT: AtomicUsize = AtomicUsize::new(0);
static QUARANTINE: AtomicBool = AtomicBool::new(true);

thread_local! {
    static MINE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
}

const Q: usize = 1024;
static RING: [AtomicPtr<u8>; Q] = [const { AtomicPtr::new(std::ptr::null_mut()) }; Q];
static AT: AtomicUsize = AtomicUsize::new(0);

fn fault(code: usize) {
    FAULTS.fetch_add(1, SeqCst);
    let _ = WHAT.compare_exchange(0, code, SeqCst, SeqCst);
}

/// Number of misuses seen and the code of the first:
/// 1 write before the block, 2 write after it, 3 freed with another layout, 4 freed twice or never
/// allocated, 5 written after free.
pub fn faults() -> (usize, usize) {
    (FAULTS.load(SeqCst), WHAT.load(SeqCst))
}
pub fn live() -> (usize, usize) {
    (LIVE.load(SeqCst), LIVE_N.load(SeqCst))
}
pub fn total() -> usize {
    TOTAL.load(SeqCst)
}
/// Blocks and bytes this thread allocated less what it freed.
pub fn mine() -> (usize, usize) {
    MINE.with(|c| c.get())
}
pub fn count() -> usize {
    COUNT.load(SeqCst)
}
pub fn reset_peak() {
    PEAK.store(LIVE.load(SeqCst), SeqCst);
}
pub fn peak() -> usize {
    PEAK.load(SeqCst)
}

fn lead(align: usize) -> usize {
    (std::mem::size_of::<Head>() + ZONE).div_ceil(align) * align
}

unsafe fn head(p: *mut u8) -> *mut Head {
    p.sub(ZONE + std::mem::size_of::<Head>()) as *mut Head
}

unsafe fn check_zones(p: *mut u8, size: usize) {
    for i in 1..=ZONE {
        if *p.sub(i) != FILL {
            fault(1);
            break;
        }
    }
    for i in 0..ZONE {
        if *p.add(size + i) != FILL {
            fault(2);
            break;
        }
    }
}

/// Checks every block still in quarantine for writes after free.
pub fn check_quarantine() {
    for slot in RING.iter() {
        let p = slot.swap(std::ptr::null_mut(), SeqCst);
        if !p.is_null() {
            unsafe { evict(p) }
        }
    }
}

unsafe fn evict(p: *mut u8) {
    let h = head(p);
    let size = (*h).size;
    for i in 0..size.min(4096) {
        if *p.add(i) != POISON {
            fault(5);
            break;
        }
    }
    let align = (*h).align;
    let base = (*h).base as *mut u8;
    System.dealloc(base, Layout::from_size_align_unchecked(lead(align) + size + ZONE, align.max(16)));
}

unsafe impl GlobalAlloc for Checked {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(16);
        let base = match lead(align).checked_add(l.size()).and_then(|n| n.checked_add(ZONE)) {
            Some(n) => match Layout::from_size_align(n, align) {
                Ok(full) => System.alloc(full),
                Err(_) => std::ptr::null_mut(),
            },
            None => std::ptr::null_mut(),
        };
        if base.is_null() {
            return base;
        }
        let p = base.add(lead(align));
        let h = head(p);
        (*h).magic = MAGIC;
        (*h).size = l.size();
        (*h).align = l.align().max(16);
        (*h).base = base as usize;
        std::ptr::write_bytes(p.sub(ZONE), FILL, ZONE);
        std::ptr::write_bytes(p.add(l.size()), FILL, ZONE);
        // uninitialised memory gets a recognisable pattern
        std::ptr::write_bytes(p, 0xAB, l.size().min(1 << 16));
        let live = LIVE.fetch_add(l.size(), SeqCst) + l.size();
        LIVE_N.fetch_add(1, SeqCst);
        TOTAL.fetch_add(l.size(), SeqCst);
        COUNT.fetch_add(1, SeqCst);
        PEAK.fetch_max(live, SeqCst);
        let _ = MINE.try_with(|c| {
            let (n, b) = c.get();
            c.set((n.wrapping_add(1), b.wrapping_add(l.size())))
        });
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = head(p);
        if (*h).magic != MAGIC {
            fault(4);
            return;
        }
        if (*h).size != l.size() || (*h).align != l.align().max(16) {
            fault(3);
        }
        let size = (*h).size;
        check_zones(p, size);
        (*h).magic = DEAD;
        LIVE.fetch_sub(size, SeqCst);
        LIVE_N.fetch_sub(1, SeqCst);
        let _ = MINE.try_with(|c| {
            let (n, b) = c.get();
            c.set((n.wrapping_sub(1), b.wrapping_sub(size)))
        });
        std::ptr::write_bytes(p, POISON, size.min(4096));
        if QUARANTINE.load(SeqCst) && size < 1 << 20 {
            let i = AT.fetch_add(1, SeqCst) % Q;
            let old = RING[i].swap(p, SeqCst);
            if !old.is_null() {
                evict(old);
            }
        } else {
            let align = (*h).align;
            System.dealloc((*h).base as *mut u8, Layout::from_size_align_unchecked(lead(align) + size + ZONE, align));
        }
    }
}
