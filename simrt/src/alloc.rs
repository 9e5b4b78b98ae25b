//! Deterministic arena allocator with use-after-free, double-free and leak detection.
//!
//! While a fiber executes library code (`ARENA` set), every allocation comes from one arena at a
//! fixed address. Freed memory is poisoned; depending on the run it is quarantined (never handed
//! out again in this run) or reused last-in-first-out, which provokes ABA.

use core::alloc::{GlobalAlloc, Layout};
use core::ptr::null_mut;
use std::alloc::System;
use std::collections::HashMap;

use crate::sys;

pub const ARENA_BASE: usize = 0x6100_0000_0000;
pub const ARENA_SIZE: usize = 1 << 31;
const GRANULE: usize = 16;
const SHADOW_BASE: usize = 0x6300_0000_0000;
const SHADOW_SIZE: usize = ARENA_SIZE / GRANULE;
pub const POISON: u8 = 0xDD;

const S_FREE: u8 = 0;
const S_LIVE: u8 = 1;
const S_DEAD: u8 = 2;

/// Allocations go to the arena while set. Saved and restored for each fiber.
pub(crate) static mut ARENA: bool = false;
static mut READY: bool = false;
static mut TOP: usize = 0;
static mut HIGH: usize = 0;
static mut LIVE: usize = 0;
static mut LIVE_BYTES: usize = 0;
static mut TOTAL: u64 = 0;
static mut REUSE: bool = false;
static mut FREELISTS: Option<HashMap<(usize, usize), Vec<usize>>> = None;

pub struct SimAlloc;

#[inline]
unsafe fn shadow(addr: usize) -> *mut u8 {
    (SHADOW_BASE + ((addr - ARENA_BASE) / GRANULE)) as *mut u8
}

#[inline]
pub fn in_arena(addr: usize) -> bool {
    addr.wrapping_sub(ARENA_BASE) < ARENA_SIZE
}

unsafe fn arena_alloc(layout: Layout) -> *mut u8 {
    unsafe {
        let size = layout.size().max(1).next_multiple_of(GRANULE);
        let align = layout.align().max(GRANULE);
        ARENA = false;
        let mut ptr = 0;
        if REUSE {
            #[allow(static_mut_refs)]
            if let Some(m) = FREELISTS.as_mut() {
                if let Some(v) = m.get_mut(&(size, align)) {
                    ptr = v.pop().unwrap_or(0);
                }
            }
        }
        if ptr == 0 {
            let p = (TOP + align - 1) & !(align - 1);
            // One granule of red zone.
            if p + size + GRANULE > ARENA_BASE + ARENA_SIZE {
                ARENA = true;
                return null_mut();
            }
            TOP = p + size + GRANULE;
            if TOP > HIGH {
                HIGH = TOP;
            }
            ptr = p;
        }
        core::ptr::write_bytes(shadow(ptr), S_LIVE, size / GRANULE);
        LIVE += 1;
        LIVE_BYTES += layout.size();
        TOTAL += 1;
        ARENA = true;
        ptr as *mut u8
    }
}

unsafe fn arena_free(ptr: *mut u8, layout: Layout) {
    unsafe {
        let saved = ARENA;
        ARENA = false;
        let size = layout.size().max(1).next_multiple_of(GRANULE);
        let align = layout.align().max(GRANULE);
        let sh = shadow(ptr as usize);
        if *sh != S_LIVE {
            crate::fail("double-free", "memory freed twice or never allocated");
        }
        core::ptr::write_bytes(sh, S_DEAD, size / GRANULE);
        core::ptr::write_bytes(ptr, POISON, size);
        LIVE -= 1;
        LIVE_BYTES -= layout.size();
        if REUSE {
            #[allow(static_mut_refs)]
            FREELISTS
                .get_or_insert_with(HashMap::new)
                .entry((size, align))
                .or_default()
                .push(ptr as usize);
        }
        ARENA = saved;
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        unsafe {
            if ARENA {
                let p = arena_alloc(layout);
                if !p.is_null() {
                    // Fresh memory is deliberately not zero.
                    core::ptr::write_bytes(p, 0xA5, layout.size());
                }
                return p;
            }
            System.alloc(layout)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        unsafe {
            if ARENA {
                let p = arena_alloc(layout);
                if !p.is_null() {
                    core::ptr::write_bytes(p, 0, layout.size());
                }
                return p;
            }
            System.alloc_zeroed(layout)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        unsafe {
            if in_arena(ptr as usize) {
                if layout.size() >= 512 {
                    crate::sched::log_free(ptr as usize, layout.size());
                }
                arena_free(ptr, layout);
            } else {
                System.dealloc(ptr, layout);
            }
        }
    }
    #[inline]
    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, new_size: usize) -> *mut u8 {
        unsafe {
            if in_arena(ptr as usize) || ARENA {
                let nl = Layout::from_size_align_unchecked(new_size, layout.align());
                let n = self.alloc(nl);
                if !n.is_null() {
                    core::ptr::copy_nonoverlapping(ptr, n, layout.size().min(new_size));
                    self.dealloc(ptr, layout);
                }
                n
            } else {
                System.realloc(ptr, layout, new_size)
            }
        }
    }
}

/// Maps the arena. Called once in a worker process.
pub fn init() {
    unsafe {
        if READY {
            return;
        }
        sys::map_fixed(ARENA_BASE, ARENA_SIZE);
        sys::map_fixed(SHADOW_BASE, SHADOW_SIZE);
        TOP = ARENA_BASE;
        HIGH = ARENA_BASE;
        READY = true;
    }
}

/// Empties the arena for a new run.
pub fn reset(reuse: bool) {
    crate::sched::told_reset();
    unsafe {
        let used = (HIGH - ARENA_BASE).next_multiple_of(4096);
        if used > 8 << 20 {
            sys::madvise(ARENA_BASE as *mut _, used, sys::MADV_DONTNEED);
            sys::madvise(
                SHADOW_BASE as *mut _,
                (used / GRANULE).next_multiple_of(4096),
                sys::MADV_DONTNEED,
            );
        } else {
            core::ptr::write_bytes(SHADOW_BASE as *mut u8, S_FREE, used / GRANULE);
        }
        TOP = ARENA_BASE;
        HIGH = ARENA_BASE;
        LIVE = 0;
        LIVE_BYTES = 0;
        TOTAL = 0;
        REUSE = reuse;
        FREELISTS = None;
    }
}

/// (live allocations, live bytes, allocations made in this run)
pub fn stats() -> (usize, usize, u64) {
    unsafe { (LIVE, LIVE_BYTES, TOTAL) }
}

/// Is the address, if it lies in the arena, inside a live allocation?
#[inline]
pub fn is_live(addr: usize) -> bool {
    !in_arena(addr) || unsafe { *shadow(addr) == S_LIVE }
}

/// Verifies that quarantined memory was not written after it was freed.
pub fn check_poison() -> Result<(), usize> {
    unsafe {
        if REUSE {
            return Ok(());
        }
        let n = (TOP - ARENA_BASE) / GRANULE;
        let sh = core::slice::from_raw_parts(SHADOW_BASE as *const u8, n);
        for (i, s) in sh.iter().enumerate() {
            if *s == S_DEAD {
                let p = (ARENA_BASE + i * GRANULE) as *const u128;
                if *p != u128::from_ne_bytes([POISON; 16]) {
                    return Err(p as usize);
                }
            }
        }
        Ok(())
    }
}

/// Runs host (harness) code whose allocations must not come from the arena.
#[inline]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let _restore = Restore(ARENA);
        ARENA = false;
        f()
    }
}

struct Restore(bool);
impl Drop for Restore {
    fn drop(&mut self) {
        unsafe { ARENA = self.0 }
    }
}

/// Runs library code: its allocations come from the arena.
#[inline]
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let _restore = Restore(ARENA);
        ARENA = true;
        f()
    }
}
