//! What the code under test sees as `std`: the standard library with the nondeterministic parts
//! (atomics, spin hints, threads, raw allocation) replaced.

pub use ::std::*;

pub mod sync {
    pub use ::std::sync::*;
    pub mod atomic {
        pub use crate::atomic::*;
    }
}

pub mod hint {
    pub use ::std::hint::*;
    pub fn spin_loop() {
        crate::sched::yield_now();
    }
}

pub mod alloc {
    pub use ::std::alloc::*;
    /// Allocation that can be made to fail.
    pub unsafe fn alloc(l: Layout) -> *mut u8 {
        if crate::alloc_fails() {
            *crate::sched::oom() = 1;
            return ::std::ptr::null_mut();
        }
        unsafe { ::std::alloc::alloc(l) }
    }
    /// Zeroed allocation that can be made to fail.
    pub unsafe fn alloc_zeroed(l: Layout) -> *mut u8 {
        if crate::alloc_fails() {
            *crate::sched::oom() = 1;
            return ::std::ptr::null_mut();
        }
        unsafe { ::std::alloc::alloc_zeroed(l) }
    }
}

pub mod thread {
    pub use ::std::thread::*;
    use crate::sched;
    use crate::weak::{self, Edge};

    /// A handle of a simulated thread.
    #[derive(Clone, Debug)]
    pub struct Thread(usize);

    static mut EDGES: [Option<Edge>; crate::fiber::MAX_FIBERS] = [const { None }; crate::fiber::MAX_FIBERS];

    impl Thread {
        pub fn unpark(&self) {
            unsafe {
                #[allow(static_mut_refs)]
                let e = EDGES[self.0].get_or_insert_with(Edge::default);
                weak::edge_release(e);
            }
            sched::unpark(self.0);
        }
    }
    pub fn current() -> Thread {
        Thread(sched::current())
    }
    pub fn park() {
        sched::park();
        unsafe {
            #[allow(static_mut_refs)]
            if let Some(e) = &EDGES[sched::current()] {
                weak::edge_acquire(e);
            }
        }
    }
    pub fn yield_now() {
        sched::yield_now();
    }
    pub fn reset_edges() {
        unsafe {
            #[allow(static_mut_refs)]
            for e in EDGES.iter_mut() {
                *e = None;
            }
        }
    }
}
