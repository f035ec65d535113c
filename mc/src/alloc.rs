//! Guard allocator: makes every memory error of the implementation observable and deterministic.
//!
//! While a library call runs (see [`crate::imp`]), every allocation gets its own run of pages that ends
//! directly before an inaccessible page, so reading or writing past the end of a buffer is a fault; 64
//! canary bytes precede the buffer; fresh memory is filled with a pattern; freed memory is filled with
//! another one (or, in strict mode, made inaccessible) and is reused first-in first-out.  Frees are checked
//! against the recorded layout.  Addresses are fixed, so that runs are reproducible.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Guard;

const PAGE: usize = 4096;
const BASE: usize = 0x5100_0000_0000;
const FRESH: u8 = 0xCB;
const FREED: u8 = 0xDB;
const CANARY: u8 = 0xA7;
const CANARY_LEN: usize = 64;

// (data pages per slot, slots)
const CLASSES: [(usize, usize); 6] = [(1, 2048), (4, 256), (16, 64), (64, 32), (256, 16), (1024, 8)];
const TOTAL_SLOTS: usize = 2048 + 256 + 64 + 32 + 16 + 8;

#[derive(Clone, Copy)]
struct Slot {
    live: bool,
    start: usize,
    size: usize,
    align: usize,
}

struct State {
    init: bool,
    slots: [Slot; TOTAL_SLOTS],
    // free rings per class
    ring: [u16; TOTAL_SLOTS],
    head: [usize; 6],
    free: [usize; 6],
    live: usize,
    live_bytes: usize,
    allocs: usize,
    error: Option<&'static str>,
}

static mut STATE: State = State {
    init: false,
    slots: [Slot { live: false, start: 0, size: 0, align: 0 }; TOTAL_SLOTS],
    ring: [0; TOTAL_SLOTS],
    head: [0; 6],
    free: [0; 6],
    live: 0,
    live_bytes: 0,
    allocs: 0,
    error: None,
};

/// Whether allocations are currently guarded (only while implementation code runs).
pub static GUARDED: AtomicBool = AtomicBool::new(false);
/// Strict mode: freed memory becomes inaccessible instead of merely being overwritten.
pub static STRICT: AtomicBool = AtomicBool::new(false);
/// Allocations that did not fit the guarded region (they are served unguarded).
pub static UNGUARDED: AtomicUsize = AtomicUsize::new(0);

fn class_base(class: usize) -> (usize, usize) {
    let (mut addr, mut slot) = (BASE, 0);
    for &(pages, slots) in &CLASSES[..class] {
        addr += (pages + 1) * PAGE * slots;
        slot += slots;
    }
    (addr, slot)
}

const REGION: usize = {
    let mut len = 0;
    let mut c = 0;
    while c < CLASSES.len() {
        len += (CLASSES[c].0 + 1) * PAGE * CLASSES[c].1;
        c += 1;
    }
    len
};

const fn region_len() -> usize { REGION }

/// Reserves the region.  Called once, before any worker is forked.
pub fn init() {
    unsafe {
        let st = &mut *std::ptr::addr_of_mut!(STATE);
        if st.init {
            return;
        }
        let p = libc::mmap(BASE as *mut _, region_len(), libc::PROT_READ | libc::PROT_WRITE,
                           libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE, -1, 0);
        if p as usize != BASE {
            eprintln!("guard allocator: cannot reserve memory");
            std::process::exit(2);
        }
        for (c, &(pages, slots)) in CLASSES.iter().enumerate() {
            let (addr, slot0) = class_base(c);
            for i in 0..slots {
                let guard = addr + i * (pages + 1) * PAGE + pages * PAGE;
                libc::mprotect(guard as *mut _, PAGE, libc::PROT_NONE);
                st.ring[slot0 + i] = i as u16;
            }
            st.head[c] = 0;
            st.free[c] = slots;
        }
        st.init = true;
    }
}

/// Starts a new case.  What earlier cases leaked stays allocated (it might be a lazily created global).
pub fn reset() {
    unsafe {
        let st = &mut *std::ptr::addr_of_mut!(STATE);
        st.allocs = 0;
        st.error = None;
    }
}

pub fn live() -> usize { unsafe { (*std::ptr::addr_of!(STATE)).live } }
pub fn allocs() -> usize { unsafe { (*std::ptr::addr_of!(STATE)).allocs } }
pub fn take_error() -> Option<&'static str> { unsafe { (*std::ptr::addr_of_mut!(STATE)).error.take() } }

/// Checks the canaries of everything that is allocated.
pub fn check_live() {
    unsafe {
        let st = &mut *std::ptr::addr_of_mut!(STATE);
        if st.live == 0 { return; }
        for i in 0..TOTAL_SLOTS {
            if st.slots[i].live {
                let s = st.slots[i];
                check_canary(st, i, &s);
            }
        }
    }
}

fn push(st: &mut State, class: usize, i: usize) {
    let (_, slot0) = class_base(class);
    let n = CLASSES[class].1;
    let pos = (st.head[class] + st.free[class]) % n;
    st.ring[slot0 + pos] = i as u16;
    st.free[class] += 1;
}

fn locate(addr: usize) -> Option<(usize, usize, usize, usize)> {
    if addr < BASE || addr >= BASE + region_len() { return None; }
    let mut base = BASE;
    let mut slot0 = 0;
    for (c, &(pages, slots)) in CLASSES.iter().enumerate() {
        let len = (pages + 1) * PAGE * slots;
        if addr < base + len {
            let i = (addr - base) / ((pages + 1) * PAGE);
            return Some((c, i, slot0 + i, base + i * (pages + 1) * PAGE));
        }
        base += len;
        slot0 += slots;
    }
    None
}

unsafe fn check_canary(st: &mut State, idx: usize, s: &Slot) {
    let (_, _, _, page) = locate(s.start).unwrap();
    let _ = idx;
    let lo = s.start.saturating_sub(CANARY_LEN).max(page);
    let mut p = lo;
    while p < s.start {
        if *(p as *const u8) != CANARY {
            st.error = Some("memory before a buffer was overwritten");
        }
        p += 1;
    }
    let (c, _, _, _) = locate(s.start).unwrap();
    let end = page + CLASSES[c].0 * PAGE;
    let mut p = s.start + s.size;
    while p < end {
        if *(p as *const u8) != CANARY {
            st.error = Some("memory after a buffer was overwritten");
        }
        p += 1;
    }
}

unsafe fn guarded_alloc(layout: Layout) -> *mut u8 {
    let st = &mut *std::ptr::addr_of_mut!(STATE);
    let size = layout.size();
    for (c, &(pages, slots)) in CLASSES.iter().enumerate() {
        if size <= pages * PAGE && layout.align() <= PAGE && st.free[c] > 0 {
            let (addr, slot0) = class_base(c);
            let i = st.ring[slot0 + st.head[c]] as usize;
            st.head[c] = (st.head[c] + 1) % slots;
            st.free[c] -= 1;
            let page = addr + i * (pages + 1) * PAGE;
            if STRICT.load(Relaxed) {
                libc::mprotect(page as *mut _, pages * PAGE, libc::PROT_READ | libc::PROT_WRITE);
            }
            let end = page + pages * PAGE;
            let start = (end - size) & !(layout.align() - 1);
            let lo = start.saturating_sub(CANARY_LEN).max(page);
            std::ptr::write_bytes(lo as *mut u8, CANARY, start - lo);
            std::ptr::write_bytes(start as *mut u8, FRESH, size);
            std::ptr::write_bytes((start + size) as *mut u8, CANARY, end - start - size);
            st.slots[slot0 + i] = Slot { live: true, start, size, align: layout.align() };
            st.live += 1;
            st.live_bytes += size;
            st.allocs += 1;
            return start as *mut u8;
        }
    }
    UNGUARDED.fetch_add(1, Relaxed);
    System.alloc(layout)
}

unsafe fn guarded_free(ptr: *mut u8, layout: Layout) {
    let st = &mut *std::ptr::addr_of_mut!(STATE);
    let Some((c, i, idx, page)) = locate(ptr as usize) else { return };
    let s = st.slots[idx];
    if !s.live {
        st.error = Some("memory was freed twice");
        return;
    }
    if s.start != ptr as usize {
        st.error = Some("a pointer into the middle of a buffer was freed");
        return;
    }
    if s.size != layout.size() || s.align != layout.align() {
        st.error = Some("memory was freed with a size or alignment other than it was allocated with");
    }
    check_canary(st, idx, &s);
    std::ptr::write_bytes(s.start as *mut u8, FREED, s.size);
    if STRICT.load(Relaxed) {
        libc::mprotect(page as *mut _, CLASSES[c].0 * PAGE, libc::PROT_NONE);
    }
    st.slots[idx].live = false;
    st.live -= 1;
    st.live_bytes -= s.size;
    push(st, c, i);
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        if GUARDED.load(Relaxed) { guarded_alloc(layout) } else { System.alloc(layout) }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        if GUARDED.load(Relaxed) {
            let p = guarded_alloc(layout);
            if !p.is_null() { std::ptr::write_bytes(p, 0, layout.size()); }
            p
        } else {
            System.alloc_zeroed(layout)
        }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        if (ptr as usize) >= BASE && (ptr as usize) < BASE + region_len() {
            guarded_free(ptr, layout)
        } else {
            System.dealloc(ptr, layout)
        }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        let inside = (ptr as usize) >= BASE && (ptr as usize) < BASE + region_len();
        if !inside && !GUARDED.load(Relaxed) {
            return System.realloc(ptr, layout, new_size);
        }
        let new = self.alloc(Layout::from_size_align_unchecked(new_size, layout.align()));
        if !new.is_null() {
            std::ptr::copy_nonoverlapping(ptr, new, layout.size().min(new_size));
            self.dealloc(ptr, layout);
        }
        new
    }
}
