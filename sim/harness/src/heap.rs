//! The heap of a simulated run: an arena at a fixed address which starts empty for every run,
//! so that the addresses (which `Mutable::swap` compares, and which are reused or not) are the
//! same whenever a seed is run, in any process.  Freed memory is poisoned and never reused
//! within a run, which makes double frees and writes after a free visible.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

const BASE: usize = 0x6000_0000_0000;
const SIZE: usize = 4 << 30;
/// memory above this is given back after a run
const KEEP: usize = 8 << 20;
const LIVE: u64 = 0x4C49_5645_4C49_5645;
const FREED: u64 = 0x4652_4545_4652_4545;
const POISON: u8 = 0xDB;
/// at most so many bytes of each freed block are poisoned and checked
const CHECKED: usize = 256;

#[derive(Clone, Copy)]
struct State {
    base: usize,
    top: usize,
    on: bool,
    error: Option<&'static str>,
    /// what is allocated at present
    blocks: usize,
    bytes: usize,
}

thread_local! {
    static STATE: Cell<State> = const { Cell::new(State { base: 0, top: 0, on: false, error: None, blocks: 0, bytes: 0 }) };
}

pub struct Heap;

#[repr(C)]
struct Header {
    state: u64,
    size: usize,
}

const HEADER: usize = std::mem::size_of::<Header>();

#[inline]
fn ours(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}

unsafe impl GlobalAlloc for Heap {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let mut s = STATE.get();
        if !s.on {
            return unsafe { System.alloc(l) };
        }
        let align = l.align().max(HEADER);
        let p = (s.top + HEADER + align - 1) & !(align - 1);
        let end = (p + l.size() + 15) & !15;
        if end > s.base + SIZE {
            return unsafe { System.alloc(l) };
        }
        // The gap in front of an over-aligned block is a block of its own, so that they can be walked.
        unsafe {
            let gap = p - HEADER - s.top;
            if gap != 0 {
                *(s.top as *mut Header) = Header { state: LIVE, size: gap - HEADER };
            }
            *((p - HEADER) as *mut Header) = Header { state: LIVE, size: l.size() };
        }
        s.top = end;
        s.blocks += 1;
        s.bytes += l.size();
        STATE.set(s);
        p as *mut u8
    }

    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !STATE.get().on {
            return unsafe { System.alloc_zeroed(l) };
        }
        unsafe {
            let p = self.alloc(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            p
        }
    }

    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if !ours(p) {
            return unsafe { System.dealloc(p, l) };
        }
        unsafe {
            let h = &mut *((p as usize - HEADER) as *mut Header);
            if h.state != LIVE {
                error(if h.state == FREED { "memory was freed twice" } else { "memory was freed which was never allocated" });
                return;
            }
            h.state = FREED;
            let mut s = STATE.get();
            s.blocks = s.blocks.wrapping_sub(1);
            s.bytes = s.bytes.wrapping_sub(l.size());
            STATE.set(s);
            std::ptr::write_bytes(p, POISON, l.size().min(CHECKED));
        }
    }

    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, size: usize) -> *mut u8 {
        if !ours(p) && !STATE.get().on {
            return unsafe { System.realloc(p, l, size) };
        }
        unsafe {
            let n = self.alloc(Layout::from_size_align_unchecked(size, l.align()));
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(size));
                self.dealloc(p, l);
            }
            n
        }
    }
}

fn error(what: &'static str) {
    let mut s = STATE.get();
    if s.error.is_none() {
        s.error = Some(what);
    }
    STATE.set(s);
}

/// From here on this thread allocates in its arena, which is empty again.
pub fn enter() {
    let mut s = STATE.get();
    if s.base == 0 {
        let p = unsafe {
            libc::mmap(
                BASE as *mut _,
                SIZE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            )
        };
        if p as usize != BASE {
            eprintln!("dst: no arena at its address, runs depend on the real allocator");
            return;
        }
        s.base = BASE;
    }
    if s.top > s.base + KEEP {
        unsafe { libc::madvise((s.base + KEEP) as *mut _, s.top - s.base - KEEP, libc::MADV_DONTNEED) };
    }
    s.top = s.base;
    s.error = None;
    s.blocks = 0;
    s.bytes = 0;
    s.on = true;
    STATE.set(s);
}

/// Back to the ordinary heap. What is wrong with the arena, if anything.
pub fn leave() -> Option<&'static str> {
    let mut s = STATE.get();
    if !s.on {
        return None;
    }
    s.on = false;
    STATE.set(s);
    s.error
}

/// Whether somebody wrote into memory after it was freed.
pub fn check_freed() -> Option<&'static str> {
    let s = STATE.get();
    let mut at = s.base;
    while at < s.top {
        let h = unsafe { &*(at as *const Header) };
        let data = at + HEADER;
        if h.state == FREED {
            let n = h.size.min(CHECKED);
            let b = unsafe { std::slice::from_raw_parts(data as *const u8, n) };
            if b.iter().any(|&x| x != POISON) {
                return Some("memory was written to after it was freed");
            }
        } else if h.state != LIVE {
            return Some("memory in front of an allocation was overwritten");
        }
        at = (data + h.size + 15) & !15;
    }
    None
}

/// For what outlives the run.
#[inline]
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let mut s = STATE.get();
    let on = s.on;
    s.on = false;
    STATE.set(s);
    let r = f();
    let mut s = STATE.get();
    s.on = on;
    STATE.set(s);
    r
}

/// How many blocks and bytes of this run are allocated.
pub fn in_use() -> (usize, usize) {
    let s = STATE.get();
    (s.blocks, s.bytes)
}
