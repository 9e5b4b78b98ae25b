//! Drop-in replacements for `core::sync::atomic` whose every access is a scheduling point.

use core::fmt;
pub use core::sync::atomic::Ordering;
use core::sync::atomic as real;

use crate::sched::{self, Choice, Pt, point};
use crate::weak;

#[inline]
fn weak_fail() -> bool {
    if !sched::active() {
        return false;
    }
    let den = sched::sched().cfg.weak_cas_den;
    den > 0 && sched::choose(Choice::WeakCas, den) != 0
}

pub fn fence(o: Ordering) {
    point(Pt::Fence, 0);
    if weak::enabled() {
        weak::on_fence(o);
    }
}

pub fn compiler_fence(_: Ordering) {}

pub fn spin_loop_hint() {
    sched::yield_now();
}

macro_rules! common {
    ($name:ident, $t:ty, [$($g:tt)*], $to:expr, $from:expr) => {
        impl$($g)* $name$($g)* {
            #[inline]
            pub fn get_mut(&mut self) -> &mut $t {
                weak::on_plain(self.addr_());
                self.0.get_mut()
            }
            #[inline]
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            #[inline]
            pub const fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            #[inline]
            fn addr_(&self) -> usize {
                core::ptr::from_ref(self).addr()
            }
            #[inline]
            pub fn load(&self, o: Ordering) -> $t {
                point(Pt::Load, self.addr_());
                let v = self.0.load(Ordering::Relaxed);
                if weak::enabled() {
                    let to: fn($t) -> u64 = $to;
                    let from: fn(u64) -> $t = $from;
                    return from(weak::on_load(self.addr_(), to(v), o));
                }
                v
            }
            #[inline]
            pub fn store(&self, v: $t, o: Ordering) {
                point(Pt::Write, self.addr_());
                if weak::enabled() {
                    let to: fn($t) -> u64 = $to;
                    weak::on_store(self.addr_(), to(self.0.load(Ordering::Relaxed)), to(v), o);
                }
                self.0.store(v, Ordering::Relaxed);
            }
            #[inline]
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |_| v)
            }
            #[inline]
            fn rmw_(&self, o: Ordering, f: impl FnOnce($t) -> $t) -> $t {
                point(Pt::Write, self.addr_());
                let old = self.0.load(Ordering::Relaxed);
                let new = f(old);
                if weak::enabled() {
                    let to: fn($t) -> u64 = $to;
                    weak::on_rmw(self.addr_(), to(old), to(new), o);
                }
                self.0.store(new, Ordering::Relaxed);
                old
            }
            #[inline]
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point(Pt::Write, self.addr_());
                let old = self.0.load(Ordering::Relaxed);
                if old == a {
                    if weak::enabled() {
                        let to: fn($t) -> u64 = $to;
                        weak::on_rmw(self.addr_(), to(old), to(b), s);
                    }
                    self.0.store(b, Ordering::Relaxed);
                    Ok(old)
                } else {
                    if weak::enabled() {
                        let to: fn($t) -> u64 = $to;
                        weak::on_failed_cas(self.addr_(), to(old), f);
                    }
                    Err(old)
                }
            }
            #[inline]
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                if weak_fail() {
                    return Err(self.load(f));
                }
                self.compare_exchange(a, b, s, f)
            }
            #[inline]
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(
                &self,
                s: Ordering,
                f: Ordering,
                mut g: F,
            ) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        Ok(x) => return Ok(x),
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            #[inline]
            pub fn try_update<F: FnMut($t) -> Option<$t>>(
                &self,
                s: Ordering,
                f: Ordering,
                g: F,
            ) -> Result<$t, $t> {
                self.fetch_update(s, f, g)
            }
        }
        impl$($g)* fmt::Debug for $name$($g)* {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&self.0, f)
            }
        }
    };
}

macro_rules! int {
    ($name:ident, $real:ident, $t:ty) => {
        #[repr(transparent)]
        #[derive(Default)]
        pub struct $name(real::$real);
        common!($name, $t, [], |v| v as u64, |v| v as $t);
        impl From<$t> for $name {
            fn from(v: $t) -> Self {
                Self::new(v)
            }
        }
        impl $name {
            #[inline]
            #[must_use]
            pub const fn new(v: $t) -> Self {
                Self(real::$real::new(v))
            }
            #[inline]
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x.wrapping_add(v))
            }
            #[inline]
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x.wrapping_sub(v))
            }
            #[inline]
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x | v)
            }
            #[inline]
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x & v)
            }
            #[inline]
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x ^ v)
            }
            #[inline]
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| !(x & v))
            }
            #[inline]
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x.max(v))
            }
            #[inline]
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t {
                self.rmw_(o, |x| x.min(v))
            }
        }
    };
}

int!(AtomicUsize, AtomicUsize, usize);
int!(AtomicIsize, AtomicIsize, isize);
int!(AtomicU8, AtomicU8, u8);
int!(AtomicU16, AtomicU16, u16);
int!(AtomicU32, AtomicU32, u32);
int!(AtomicU64, AtomicU64, u64);
int!(AtomicI8, AtomicI8, i8);
int!(AtomicI16, AtomicI16, i16);
int!(AtomicI32, AtomicI32, i32);
int!(AtomicI64, AtomicI64, i64);

#[repr(transparent)]
#[derive(Default)]
pub struct AtomicBool(real::AtomicBool);
common!(AtomicBool, bool, [], |v| u64::from(v), |v| v != 0);
impl AtomicBool {
    #[inline]
    #[must_use]
    pub const fn new(v: bool) -> Self {
        Self(real::AtomicBool::new(v))
    }
    #[inline]
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool {
        self.rmw_(o, |x| x | v)
    }
    #[inline]
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool {
        self.rmw_(o, |x| x & v)
    }
    #[inline]
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool {
        self.rmw_(o, |x| x ^ v)
    }
    #[inline]
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.rmw_(o, |x| !x)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
common!(
    AtomicPtr,
    *mut T,
    [<T>],
    |v| v.expose_provenance() as u64,
    |v| core::ptr::with_exposed_provenance_mut(v as usize)
);
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(core::ptr::null_mut())
    }
}
impl<T> AtomicPtr<T> {
    #[inline]
    #[must_use]
    pub const fn new(v: *mut T) -> Self {
        Self(real::AtomicPtr::new(v))
    }
    #[inline]
    pub fn fetch_or(&self, v: usize, o: Ordering) -> *mut T {
        self.rmw_(o, |x| x.map_addr(|a| a | v))
    }
    #[inline]
    pub fn fetch_and(&self, v: usize, o: Ordering) -> *mut T {
        self.rmw_(o, |x| x.map_addr(|a| a & v))
    }
    #[inline]
    pub fn fetch_xor(&self, v: usize, o: Ordering) -> *mut T {
        self.rmw_(o, |x| x.map_addr(|a| a ^ v))
    }
}
