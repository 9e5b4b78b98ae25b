//! Deterministic simulation runtime: fibers, seeded scheduler, atomics, allocator, weak memory.
#![allow(clippy::missing_safety_doc, static_mut_refs)]

pub mod alloc;
pub mod atomic;
pub mod fiber;
pub mod rng;
pub mod sched;
pub mod std_shim;
pub mod sys;
pub mod weak;

pub use alloc::{SimAlloc, host, lib};
pub use sched::{
    Cfg, Choice, RunStats, Strategy, Tid, Trace, choose, choose_n, current, join, no_preempt, now,
    park, run, solo, spawn, unpark, yield_now,
};

/// Payload of an injected panic.
pub struct SimFault(pub &'static str);

/// An explicit scheduling point in user code.
#[inline]
pub fn point() {
    sched::point(sched::Pt::User, 0);
}

pub fn panic_message(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(f) = e.downcast_ref::<SimFault>() {
        format!("injected {}", f.0)
    } else if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".to_string()
    }
}

/// Allocation-failure fault: when set, called at every allocation of library code.
pub static mut ALLOC_FAULT: Option<fn() -> bool> = None;

#[inline]
pub fn alloc_fails() -> bool {
    unsafe { sched::active() && ALLOC_FAULT.is_some_and(|f| f()) }
}

/// Panics if the allocation about to be made shall fail.
#[inline]
pub fn alloc_fault_point() {
    if alloc_fails() {
        note("panic");
        std::panic::panic_any(SimFault("allocation failure"));
    }
}

// ---------------------------------------------------------------------------------------------
// Failure output: no allocation, so that it also works from a signal handler.

struct Out {
    buf: [u8; 4096],
    n: usize,
}
impl Out {
    fn put(&mut self, s: &[u8]) {
        for b in s {
            if self.n == self.buf.len() {
                self.flush();
            }
            self.buf[self.n] = *b;
            self.n += 1;
        }
    }
    fn num(&mut self, mut v: u64) {
        let mut d = [0u8; 20];
        let mut i = 20;
        loop {
            i -= 1;
            d[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        let t = d;
        self.put(&t[i..]);
    }
    fn flush(&mut self) {
        unsafe {
            let mut p = 0;
            while p < self.n {
                let r = sys::write(1, self.buf.as_ptr().add(p).cast(), self.n - p);
                if r <= 0 {
                    break;
                }
                p += r as usize;
            }
        }
        self.n = 0;
    }
}

/// Extra text printed with a failure (for example the recorded history).
pub static mut ON_FAIL: Option<fn() -> String> = None;

/// Ends the process, reporting the violation and the recorded schedule.
pub fn fail(kind: &str, msg: &str) -> ! {
    fail_inner(kind, msg, true)
}
pub fn fail_owned(kind: &str, msg: String) -> ! {
    fail_inner(kind, &msg, true)
}

static mut FAILING: bool = false;

fn fail_inner(kind: &str, msg: &str, may_alloc: bool) -> ! {
    unsafe {
        if FAILING {
            sys::_exit(1);
        }
        FAILING = true;
        alloc::ARENA = false;
    }
    let mut o = Out {
        buf: [0; 4096],
        n: 0,
    };
    o.put(b"\nVIOL ");
    o.put(kind.as_bytes());
    o.put(b"\t");
    for b in msg.bytes() {
        o.put(&[if b == b'\n' { b' ' } else { b }]);
    }
    o.put(b"\n");
    let p = sched::sched_ptr();
    if !p.is_null() && may_alloc && unsafe { (*p).cfg.verbose } {
        eprintln!("{}", std::backtrace::Backtrace::force_capture());
    }
    if !p.is_null() {
        let s = unsafe { &*p };
        o.put(b"RUN ");
        o.put(s.context.as_bytes());
        o.put(b"\nAT thread ");
        o.num(s.cur as u64);
        o.put(b" step ");
        o.num(s.steps);
        o.put(b"\n");
        for (a, b, c, d) in &s.trace.switches {
            o.put(b"SW ");
            o.num(u64::from(*a));
            o.put(b" ");
            o.num(*b);
            o.put(b" ");
            o.num(u64::from(*c));
            o.put(b" ");
            o.num(*d);
            o.put(b"\n");
        }
        for (a, b, c, d) in &s.trace.choices {
            o.put(b"CH ");
            o.num(u64::from(*a));
            o.put(b" ");
            o.num(u64::from(*b));
            o.put(b" ");
            o.num(u64::from(*c));
            o.put(b" ");
            o.num(u64::from(*d));
            o.put(b"\n");
        }
        o.put(b"HASH ");
        o.num(s.hash);
        o.put(b"\n");
    }
    if may_alloc {
        if let Some(f) = unsafe { ON_FAIL } {
            let t = f();
            for l in t.lines() {
                o.put(b"HIST ");
                o.put(l.as_bytes());
                o.put(b"\n");
            }
        }
    }
    o.put(b"ENDVIOL\n");
    o.flush();
    unsafe { sys::_exit(1) }
}

extern "C" fn on_signal(sig: i32) {
    let (k, m) = match sig {
        11 => ("crash", "invalid memory access (SIGSEGV)"),
        7 => ("crash", "invalid memory access (SIGBUS)"),
        4 => ("crash", "illegal instruction or abort (SIGILL)"),
        6 => ("crash", "abort (SIGABRT)"),
        8 => ("crash", "arithmetic fault (SIGFPE)"),
        26 => ("no-progress", "the run does not reach its next scheduling point"),
        _ => ("crash", "signal"),
    };
    fail_inner(k, m, false)
}

/// Arms the processor-time limit of the current run.
pub fn watchdog(seconds: i64) {
    let t = sys::ITimerVal {
        interval: [0, 0],
        value: [seconds, 0],
    };
    unsafe {
        sys::setitimer(1, &raw const t, core::ptr::null_mut());
    }
}

/// Prepares the process: arena, fiber stacks, signal handlers, panic hook.
pub fn init_process() {
    sched::init();
    unsafe {
        const ALT: usize = 64 << 10;
        let alt = Box::leak(vec![0u8; ALT].into_boxed_slice());
        let st = sys::StackT {
            sp: alt.as_mut_ptr().cast(),
            flags: 0,
            size: ALT,
        };
        sys::sigaltstack(&raw const st, core::ptr::null_mut());
        for sig in [4, 6, 7, 8, 11, 26] {
            let a = sys::SigAction {
                handler: on_signal as *const () as usize,
                mask: [0; 16],
                flags: 0x0800_0000 | 0x4000_0000,
                restorer: 0,
            };
            sys::sigaction(sig, &raw const a, core::ptr::null_mut());
        }
        // Die with the parent.
        sys::prctl(1, 9);
    }
    std::panic::set_hook(Box::new(|info| {
        if info.payload().downcast_ref::<SimFault>().is_some() {
            return;
        }
        // The first panic after a failed allocation is the code's way to report it.
        if sched::active() && *sched::oom() == 1 {
            *sched::oom() = 2;
            return;
        }
        host(|| {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
                (*s).to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let at = info
                .location()
                .map(|l| format!(" at {}:{}", l.file(), l.line()))
                .unwrap_or_default();
            if !sched::active() {
                eprintln!("harness panic: {msg}{at}");
                unsafe { sys::_exit(3) }
            }
            // An assertion of the library or of the language failed.
            fail_owned("panic", format!("{msg}{at}"));
        });
    }));
}

/// Prints where something was injected in a verbose replay.
pub fn note(what: &str) {
    let p = sched::sched_ptr();
    if !p.is_null() && unsafe { (*p).cfg.verbose } {
        alloc::host(|| {
            eprintln!(
                "INJECT {what} t{}\n{}",
                unsafe { (*p).cur },
                std::backtrace::Backtrace::force_capture()
            )
        });
    }
}
