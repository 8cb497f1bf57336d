//! Instrumented global allocator: red zones, poison, quarantine and a ledger of live blocks.
//!
//! Fresh memory is filled with 0xCB (so reads of uninitialised or out-of-range memory give
//! recognisable garbage), freed memory with 0xDD and kept in quarantine. Errors are recorded, not
//! fatal; C16 and C22 turn them into violations.
//!
//! With `guarded(true, ..)` small tracked allocations each get a page of their own between two
//! inaccessible pages, flush with one end of it; the page becomes inaccessible when it is freed. Any
//! access outside a live allocation, reading included, then kills the process, which the driver
//! reports as a failure of the case.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct Alloc;

#[global_allocator]
static GLOBAL: Alloc = Alloc;

const ZONE: usize = 64;
const LIVE: u64 = 0x11fe_b10c_a110_c8ed;
const DEAD: u64 = 0xdead_b10c_dead_b10c;
const Z: u8 = 0xE7;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u64,
    tracked: u64,
}

static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static ERRORS: AtomicU64 = AtomicU64::new(0);
static ERR_MSG: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
}

pub const MESSAGES: [&str; 6] = [
    "",
    "write before the start of an allocation",
    "write past the end of an allocation",
    "free of memory that was already freed or never allocated",
    "free with a size or alignment different from the allocation",
    "write to freed memory",
];

fn error(kind: usize) {
    ERRORS.fetch_add(1, Relaxed);
    let _ = ERR_MSG.compare_exchange(0, kind, Relaxed, Relaxed);
}

/// Takes the first recorded error, if any.
pub fn take_error() -> Option<&'static str> {
    let kind = ERR_MSG.swap(0, Relaxed);
    if kind == 0 { None } else { Some(MESSAGES[kind]) }
}

/// Number of live tracked blocks and bytes.
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed))
}

/// Runs `f` with allocations on this thread counted in the ledger (or not).
pub fn tracking<R>(on: bool, f: impl FnOnce() -> R) -> R {
    struct Restore(bool);
    impl Drop for Restore {
        fn drop(&mut self) {
            let _ = TRACK.try_with(|t| t.set(self.0));
        }
    }
    let _restore = Restore(TRACK.with(|t| t.replace(on)));
    f()
}

static GUARD: AtomicUsize = AtomicUsize::new(0);

/// 0: no guard pages, 1: allocations end at a guard page, 2: they begin at one.
pub fn guard_mode(mode: usize) {
    GUARD.store(mode, Relaxed);
}

#[cfg(not(feature = "plainalloc"))]
mod guard {
    use super::*;
    use std::ffi::c_void;

    extern "C" {
        fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
        fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    }

    const PAGE: usize = 4096;
    const SLOTS: usize = 3000;
    const NONE: i32 = 0;
    const RW: i32 = 3;

    #[derive(Clone, Copy)]
    struct Slot { ptr: usize, size: usize, align: usize }

    static LOCK: AtomicBool = AtomicBool::new(false);
    static BASE: AtomicUsize = AtomicUsize::new(0);
    static mut SLOT: [Slot; SLOTS] = [Slot { ptr: 0, size: 0, align: 0 }; SLOTS];
    // ring of free slots, least recently freed first
    static mut FREE: [u16; SLOTS] = [0; SLOTS];
    static mut HEAD: usize = 0;
    static mut COUNT: usize = 0;

    fn locked<R>(f: impl FnOnce() -> R) -> R {
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let r = f();
        LOCK.store(false, Release);
        r
    }

    unsafe fn init() {
        let p = mmap(std::ptr::null_mut(), (2 * SLOTS + 1) * PAGE, NONE, 0x22, -1, 0);
        if p as isize == -1 { return; }
        for i in 0..SLOTS { FREE[i] = i as u16; }
        COUNT = SLOTS;
        BASE.store(p as usize, Release);
    }

    pub fn owns(p: *mut u8) -> bool {
        let b = BASE.load(Relaxed);
        b != 0 && (p as usize) >= b && (p as usize) < b + (2 * SLOTS + 1) * PAGE
    }

    pub unsafe fn alloc(l: Layout, mode: usize) -> Option<*mut u8> {
        if l.size() == 0 || l.size() > PAGE || l.align() > 64 { return None; }
        locked(|| {
            if BASE.load(Relaxed) == 0 { init(); }
            if COUNT == 0 { return None; }
            let s = FREE[HEAD] as usize;
            let page = BASE.load(Relaxed) + (2 * s + 1) * PAGE;
            if mprotect(page as *mut c_void, PAGE, RW) != 0 { return None; }
            HEAD = (HEAD + 1) % SLOTS;
            COUNT -= 1;
            let p = if mode == 1 { (page + PAGE - l.size()) & !(l.align() - 1) } else { page };
            std::ptr::write_bytes(page as *mut u8, Z, PAGE);
            std::ptr::write_bytes(p as *mut u8, 0xCB, l.size());
            SLOT[s] = Slot { ptr: p, size: l.size(), align: l.align() };
            Some(p as *mut u8)
        })
    }

    pub unsafe fn free(p: *mut u8, l: Layout) {
        locked(|| {
            let s = (p as usize - BASE.load(Relaxed)) / PAGE;
            let (s, odd) = ((s.wrapping_sub(1)) / 2, s % 2 == 1);
            if !odd || SLOT[s].ptr != p as usize { error(3); return; }
            if SLOT[s].size != l.size() || SLOT[s].align != l.align() { error(4); }
            let page = BASE.load(Relaxed) + (2 * s + 1) * PAGE;
            let bytes = std::slice::from_raw_parts(page as *const u8, PAGE);
            let at = p as usize - page;
            if bytes[..at].iter().any(|&b| b != Z) { error(1); }
            if bytes[at + SLOT[s].size..].iter().any(|&b| b != Z) { error(2); }
            account(SLOT[s].size, true, -1);
            SLOT[s].ptr = 0;
            mprotect(page as *mut c_void, PAGE, NONE);
            FREE[(HEAD + COUNT) % SLOTS] = s as u16;
            COUNT += 1;
        })
    }
}

fn account(size: usize, tracked: bool, sign: i64) {
    if tracked {
        LIVE_BLOCKS.fetch_add(sign, Relaxed);
        LIVE_BYTES.fetch_add(sign * size as i64, Relaxed);
    }
}

#[cfg(feature = "plainalloc")]
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
}

#[cfg(not(feature = "plainalloc"))]
mod quarantine {
    use super::*;
    const SLOTS: usize = 1024;
    const MAX: usize = 1 << 14;
    static LOCK: AtomicBool = AtomicBool::new(false);
    static mut RING: [(*mut u8, usize, usize, usize); SLOTS] = [(std::ptr::null_mut(), 0, 0, 0); SLOTS];
    static mut NEXT: usize = 0;

    /// block start, prefix, payload size, alignment
    pub unsafe fn put(raw: *mut u8, prefix: usize, size: usize, align: usize) {
        if size > MAX {
            release(raw, prefix, size, align);
            return;
        }
        while LOCK.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
        let slot = NEXT;
        NEXT = (NEXT + 1) % SLOTS;
        let old = RING[slot];
        RING[slot] = (raw, prefix, size, align);
        LOCK.store(false, Release);
        if !old.0.is_null() {
            release(old.0, old.1, old.2, old.3);
        }
    }

    unsafe fn release(raw: *mut u8, prefix: usize, size: usize, align: usize) {
        let p = raw.add(prefix);
        for i in 0..size {
            if *p.add(i) != 0xDD {
                error(5);
                break;
            }
        }
        // keep the header's magic meaningful for late double frees as long as possible
        System.dealloc(raw, Layout::from_size_align_unchecked(prefix + size + ZONE, align.max(16)));
    }
}

#[cfg(not(feature = "plainalloc"))]
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mode = GUARD.load(Relaxed);
        if mode != 0 && TRACK.try_with(|t| t.get()).unwrap_or(false) {
            if let Some(p) = guard::alloc(l, mode) {
                account(l.size(), true, 1);
                return p;
            }
        }
        let prefix = ZONE.max(l.align());
        let Ok(full) = Layout::from_size_align(prefix + l.size() + ZONE, l.align().max(16)) else {
            return std::ptr::null_mut();
        };
        let raw = System.alloc(full);
        if raw.is_null() {
            return raw;
        }
        std::ptr::write_bytes(raw, Z, prefix);
        let p = raw.add(prefix);
        std::ptr::write_bytes(p, 0xCB, l.size());
        std::ptr::write_bytes(p.add(l.size()), Z, ZONE);
        let tracked = TRACK.try_with(|t| t.get()).unwrap_or(false);
        *(p.sub(ZONE) as *mut Header) = Header { magic: LIVE, size: l.size() as u64, align: l.align() as u64, tracked: tracked as u64 };
        account(l.size(), tracked, 1);
        p
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if guard::owns(p) {
            guard::free(p, l);
            return;
        }
        let h = p.sub(ZONE) as *mut Header;
        if (*h).magic != LIVE {
            error(3);
            return;
        }
        let (size, align) = ((*h).size as usize, (*h).align as usize);
        if size != l.size() || align != l.align() {
            error(4);
        }
        for i in std::mem::size_of::<Header>()..ZONE {
            if *p.sub(ZONE).add(i) != Z {
                error(1);
                break;
            }
        }
        for i in 0..ZONE {
            if *p.add(size).add(i) != Z {
                error(2);
                break;
            }
        }
        account(size, (*h).tracked != 0, -1);
        (*h).magic = DEAD;
        std::ptr::write_bytes(p, 0xDD, size);
        let prefix = ZONE.max(align);
        quarantine::put(p.sub(prefix), prefix, size, align);
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            std::ptr::write_bytes(p, 0, l.size());
        }
        p
    }
}
