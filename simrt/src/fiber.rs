//! Stackful fibers: one simulated thread each, all on one OS thread (x86-64 only).

use crate::sys;

pub const MAX_FIBERS: usize = 16;
const STACK_BASE: usize = 0x6200_0000_0000;
const STACK_SIZE: usize = 512 << 10;
const STRIDE: usize = STACK_SIZE + (64 << 10);
/// The part of each stack that is wiped before a run, so that stale data cannot leak between runs.
const WIPE: usize = 24 << 10;

/// Saves the callee-saved registers on the current stack and continues on another one.
#[unsafe(naked)]
pub unsafe extern "sysv64" fn switch_ctx(_save: *mut usize, _to: usize) {
    core::arch::naked_asm!(
        "push rbp",
        "push rbx",
        "push r12",
        "push r13",
        "push r14",
        "push r15",
        "mov [rdi], rsp",
        "mov rsp, rsi",
        "pop r15",
        "pop r14",
        "pop r13",
        "pop r12",
        "pop rbx",
        "pop rbp",
        "ret",
    )
}

#[unsafe(naked)]
unsafe extern "sysv64" fn trampoline() {
    // The entry function is in r12; the stack is 16-byte aligned here.
    core::arch::naked_asm!("xor ebp, ebp", "call r12", "ud2")
}

pub fn init() {
    let len = STRIDE * MAX_FIBERS;
    let p = sys::map_fixed(STACK_BASE, len);
    for i in 0..MAX_FIBERS {
        unsafe {
            sys::mprotect(
                p.add(i * STRIDE).cast(),
                STRIDE - STACK_SIZE,
                sys::PROT_NONE,
            );
        }
    }
}

/// Prepares the stack of fiber `i`, returns its initial stack pointer.
pub fn prepare(i: usize, entry: unsafe extern "sysv64" fn() -> !) -> usize {
    unsafe {
        let top = STACK_BASE + (i + 1) * STRIDE;
        core::ptr::write_bytes((top - WIPE) as *mut u8, 0, WIPE);
        let mut sp = top - 64;
        sp &= !15;
        // Layout popped by `switch_ctx`: r15 r14 r13 r12 rbx rbp ret.
        let slots = (sp - 7 * 8) as *mut usize;
        let base = slots as usize;
        // After the seven pops the stack pointer must be 16-byte aligned for the call.
        debug_assert_eq!((base + 56) % 16, 0);
        *slots.add(0) = 0;
        *slots.add(1) = 0;
        *slots.add(2) = 0;
        *slots.add(3) = entry as usize;
        *slots.add(4) = 0;
        *slots.add(5) = 0;
        *slots.add(6) = trampoline as usize;
        base
    }
}
