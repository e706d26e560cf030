//! Electric-fence allocation: while a thread is inside [`guarded`], its heap blocks end (or begin) exactly at the edge of
//! a page that cannot be accessed, so a load or store outside of a block kills the process instead of going unnoticed.
use std::alloc::Layout;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::*};

const PAGE: usize = 4096;
const CLASSES: usize = 13;
const REGION: usize = 1 << 34;
static BASE: AtomicUsize = AtomicUsize::new(0);
static BUMP: [AtomicUsize; CLASSES] = [const { AtomicUsize::new(0) }; CLASSES];
static FREE: [AtomicUsize; CLASSES] = [const { AtomicUsize::new(0) }; CLASSES];
static LOCK: [AtomicBool; CLASSES] = [const { AtomicBool::new(false) }; CLASSES];
thread_local! { static MODE: Cell<u8> = const { Cell::new(0) }; }

extern "C" {
    fn mmap(a: *mut u8, l: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, prot: i32) -> i32;
}

/// Reserve the address space. Returns false if the system refuses.
pub fn init() -> bool {
    let p = unsafe { mmap(std::ptr::null_mut(), REGION * CLASSES, 0, 0x2 | 0x20 | 0x4000, -1, 0) };
    if p as isize == -1 {
        return false;
    }
    BASE.store(p as usize, Release);
    true
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Edge {
    /// blocks end at an inaccessible page
    End = 1,
    /// blocks begin right behind an inaccessible page
    Start = 2,
}

/// Run `f`; the heap blocks it allocates are fenced.
pub fn guarded<T>(e: Edge, f: impl FnOnce() -> T) -> T {
    struct Reset(u8);
    impl Drop for Reset {
        fn drop(&mut self) {
            MODE.with(|m| m.set(self.0));
        }
    }
    let _r = Reset(MODE.with(|m| m.replace(e as u8)));
    f()
}

#[inline]
pub fn mode() -> u8 {
    MODE.try_with(|m| m.get()).unwrap_or(0)
}
#[inline]
pub fn owns(p: *mut u8) -> bool {
    let b = BASE.load(Relaxed);
    b != 0 && (p as usize) >= b && (p as usize) < b + REGION * CLASSES
}

fn locked<T>(c: usize, f: impl FnOnce() -> T) -> T {
    while LOCK[c].swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let r = f();
    LOCK[c].store(false, Release);
    r
}

/// A fenced block, or null if it is too large for a fence (the caller then uses the system allocator).
pub unsafe fn alloc(l: Layout) -> *mut u8 {
    let base = BASE.load(Relaxed);
    if base == 0 || l.size() == 0 || l.align() > PAGE {
        return std::ptr::null_mut();
    }
    let pages = l.size().div_ceil(PAGE);
    // class c: slots of 2^(c+1) pages, the last of them inaccessible
    let c = (pages + 1).next_power_of_two().trailing_zeros() as usize - 1;
    if c >= CLASSES {
        return std::ptr::null_mut();
    }
    let slot_len = PAGE << (c + 1);
    let start = base + c * REGION;
    let slot = locked(c, || {
        let f = FREE[c].load(Relaxed);
        if f != 0 {
            FREE[c].store(*(f as *const usize), Relaxed);
            return f;
        }
        // the first slot is skipped, so that every slot has an inaccessible page in front
        let n = BUMP[c].fetch_add(1, Relaxed) + 1;
        if (n + 1) * slot_len > REGION {
            return 0;
        }
        let s = start + n * slot_len;
        if mprotect(s as *mut u8, slot_len - PAGE, 3) != 0 {
            return 0;
        }
        s
    });
    if slot == 0 {
        return std::ptr::null_mut();
    }
    let end = slot + slot_len - PAGE;
    // what lies around the block inside of its slot is recognisable junk
    let p = if mode() == Edge::End as u8 { (end - l.size()) & !(l.align() - 1) } else { slot };
    p as *mut u8
}

pub unsafe fn dealloc(p: *mut u8) {
    let off = p as usize - BASE.load(Relaxed);
    let c = off / REGION;
    let slot_len = PAGE << (c + 1);
    let slot = p as usize - (off % REGION) % slot_len;
    locked(c, || {
        *(slot as *mut usize) = FREE[c].load(Relaxed);
        FREE[c].store(slot, Relaxed);
    });
}
