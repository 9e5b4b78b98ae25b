//! Happens-before tracking and weak-memory loads.
//!
//! `Hb` tracks vector clocks through the declared memory orderings, which lets race checks on user
//! data notice a missing release/acquire pair even though the simulated execution is sequentially
//! consistent. `Stale` additionally lets loads return older values as far as coherence and
//! happens-before of the C11 model permit it (sequentially consistent operations and fences are
//! modelled slightly stronger than required, never weaker).

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

use crate::fiber::MAX_FIBERS;
use crate::sched::{self, Choice};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Off,
    Hb,
    Stale,
}

pub type Vc = [u32; MAX_FIBERS];

#[inline]
fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAX_FIBERS {
        if b[i] > a[i] {
            a[i] = b[i];
        }
    }
}

#[derive(Default)]
struct AddrHasher(u64);
impl Hasher for AddrHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {}
    fn write_usize(&mut self, i: usize) {
        self.0 = (i as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
    }
}

#[derive(Clone)]
struct Store {
    val: u64,
    tid: usize,
    ts: u32,
    sync: Vc,
}

struct Loc {
    /// Modification order; `first` is the index of `stores[0]`.
    stores: Vec<Store>,
    first: u32,
    /// For each thread, (timestamp, index) of its reads, both increasing.
    reads: Vec<(u8, u32, u32)>,
}

struct World {
    locs: HashMap<usize, Loc, BuildHasherDefault<AddrHasher>>,
    clock: [Vc; MAX_FIBERS],
    acq_pending: [Vc; MAX_FIBERS],
    rel_fence: [Vc; MAX_FIBERS],
    exit: [Vc; MAX_FIBERS],
    sc: Vc,
    stale_den: u64,
    stamps: Vec<(u64, usize, Vc)>,
}

static mut MODE: Mode = Mode::Off;
static mut WORLD: *mut World = core::ptr::null_mut();
const HISTORY: usize = 8;

#[inline]
pub fn enabled() -> bool {
    unsafe { MODE as u8 != Mode::Off as u8 && sched::active() }
}

#[allow(static_mut_refs)]
fn world() -> &'static mut World {
    unsafe { &mut *WORLD }
}

pub fn reset(mode: Mode, stale_den: u64) {
    unsafe {
        MODE = mode;
        if mode == Mode::Off {
            return;
        }
        if !WORLD.is_null() {
            drop(Box::from_raw(WORLD));
        }
        let mut w = Box::new(World {
            locs: HashMap::default(),
            clock: [[0; MAX_FIBERS]; MAX_FIBERS],
            acq_pending: [[0; MAX_FIBERS]; MAX_FIBERS],
            rel_fence: [[0; MAX_FIBERS]; MAX_FIBERS],
            exit: [[0; MAX_FIBERS]; MAX_FIBERS],
            sc: [0; MAX_FIBERS],
            stale_den,
            stamps: Vec::new(),
        });
        for i in 0..MAX_FIBERS {
            w.clock[i][i] = 1;
        }
        WORLD = Box::into_raw(w);
    }
}

/// Remembers what happens before the moment `time`.
pub fn stamp(time: u64) {
    if enabled() && unsafe { MODE } == Mode::Stale {
        let w = world();
        let t = sched::current();
        let c = w.clock[t];
        crate::host(|| w.stamps.push((time, t, c)));
    }
}

/// The moments recorded in this run: (time, thread, clock), ordered by time.
pub fn stamps() -> &'static [(u64, usize, Vc)] {
    unsafe {
        if MODE == Mode::Stale && !WORLD.is_null() {
            &(*WORLD).stamps
        } else {
            &[]
        }
    }
}

/// Does the moment `a` happen before the moment `b`?
pub fn happens_before(a: u64, b: u64) -> bool {
    if a >= b {
        return false;
    }
    let s = stamps();
    let (Ok(i), Ok(j)) = (
        s.binary_search_by_key(&a, |x| x.0),
        s.binary_search_by_key(&b, |x| x.0),
    ) else {
        return false;
    };
    s[j].2[s[i].1] >= s[i].2[s[i].1]
}

pub fn on_spawn(parent: usize, child: usize) {
    if !enabled() || parent == child {
        return;
    }
    let w = world();
    let p = w.clock[parent];
    join(&mut w.clock[child], &p);
    w.clock[parent][parent] += 1;
}

pub fn on_exit(tid: usize) {
    if !enabled() {
        return;
    }
    let w = world();
    w.exit[tid] = w.clock[tid];
}

pub fn on_join(tid: usize, child: usize) {
    if !enabled() {
        return;
    }
    let w = world();
    let e = w.exit[child];
    join(&mut w.clock[tid], &e);
}

/// A synchronisation edge created by the runtime itself (park/unpark, task hand-over).
#[derive(Clone, Default)]
pub struct Edge(Vc);

pub fn edge_release(e: &mut Edge) {
    if enabled() {
        let w = world();
        let t = sched::current();
        join(&mut e.0, &w.clock[t]);
        w.clock[t][t] += 1;
    }
}

pub fn edge_acquire(e: &Edge) {
    if enabled() {
        let t = sched::current();
        join(&mut world().clock[t], &e.0);
    }
}

#[derive(Clone, Copy)]
pub struct Ord {
    pub acq: bool,
    pub rel: bool,
    pub sc: bool,
}

use core::sync::atomic::Ordering;
#[inline]
pub fn ord(o: Ordering) -> Ord {
    match o {
        Ordering::Relaxed => Ord {
            acq: false,
            rel: false,
            sc: false,
        },
        Ordering::Acquire => Ord {
            acq: true,
            rel: false,
            sc: false,
        },
        Ordering::Release => Ord {
            acq: false,
            rel: true,
            sc: false,
        },
        Ordering::AcqRel => Ord {
            acq: true,
            rel: true,
            sc: false,
        },
        _ => Ord {
            acq: true,
            rel: true,
            sc: true,
        },
    }
}

fn loc(w: &mut World, addr: usize, mem: u64) -> &mut Loc {
    let l = w.locs.entry(addr).or_insert_with(|| Loc {
        stores: Vec::new(),
        first: 0,
        reads: Vec::new(),
    });
    // Not seen before, or initialised anew by plain writes since.
    if l.stores.last().is_none_or(|s| s.val != mem) {
        l.stores.clear();
        l.reads.clear();
        l.first = 0;
        l.stores.push(Store {
            val: mem,
            tid: 0,
            ts: 0,
            sync: [0; MAX_FIBERS],
        });
    }
    l
}

fn note_read(l: &mut Loc, t: usize, ts: u32, idx: u32) {
    for r in l.reads.iter_mut().rev() {
        if r.0 as usize == t {
            if r.2 >= idx {
                return;
            }
            break;
        }
    }
    if l.reads.len() > 96 {
        // Dropping old entries would permit more than the model does; forget history instead.
        let last = l.stores.pop().unwrap();
        l.first += l.stores.len() as u32;
        l.stores.clear();
        l.stores.push(last);
        l.reads.clear();
        return;
    }
    l.reads.push((t as u8, ts, idx));
}

/// Returns the value the load observes.
pub fn on_load(addr: usize, mem: u64, o: Ordering) -> u64 {
    crate::host(|| on_load_(addr, mem, o))
}

fn on_load_(addr: usize, mem: u64, o: Ordering) -> u64 {
    let o = ord(o);
    let t = sched::current();
    let w = world();
    let stale =
        unsafe { MODE } == Mode::Stale && w.stale_den > 0 && crate::alloc::in_arena(addr);
    if o.sc {
        let sc = w.sc;
        join(&mut w.clock[t], &sc);
    }
    w.clock[t][t] += 1;
    let clock = w.clock[t];
    let stale_den = w.stale_den;
    let l = loc(w, addr, mem);
    let n = l.stores.len();
    let mut pick = n - 1;
    if stale && n > 1 {
        let mut floor = l.first;
        for (rt, ts, idx) in &l.reads {
            if clock[*rt as usize] >= *ts && *idx > floor {
                floor = *idx;
            }
        }
        // The newest store that happens before this load hides everything older.
        let mut lo = (floor - l.first) as usize;
        for i in (lo..n).rev() {
            let s = &l.stores[i];
            if clock[s.tid] >= s.ts {
                lo = lo.max(i);
                break;
            }
        }
        if lo < n - 1 && sched::choose(Choice::Stale, stale_den) != 0 {
            let k = sched::choose_n(Choice::Misc, (n - 1 - lo) as u64) as usize;
            pick = n - 2 - k;
        }
    }
    let idx = l.first + pick as u32;
    let s = l.stores[pick].clone();
    note_read(l, t, clock[t], idx);
    if o.acq {
        join(&mut w.clock[t], &s.sync);
    } else {
        join(&mut w.acq_pending[t], &s.sync);
    }
    if o.sc {
        let c = w.clock[t];
        join(&mut w.sc, &c);
    }
    s.val
}

fn push_store(w: &mut World, addr: usize, old: u64, new: u64, o: Ord, rmw: bool) {
    let t = sched::current();
    if o.sc {
        let sc = w.sc;
        join(&mut w.clock[t], &sc);
    }
    w.clock[t][t] += 1;
    if rmw {
        let prev = loc(w, addr, old).stores.last().unwrap().sync;
        if o.acq {
            join(&mut w.clock[t], &prev);
        } else {
            join(&mut w.acq_pending[t], &prev);
        }
    }
    let mut sync = w.rel_fence[t];
    if o.rel {
        sync = w.clock[t];
        // Release is cumulative on every real architecture, all of them being multi-copy atomic
        // or having cumulative barriers: what relaxed loads before it have seen is published too.
        let p = w.acq_pending[t];
        join(&mut sync, &p);
    }
    let ts = w.clock[t][t];
    let l = loc(w, addr, old);
    if rmw {
        let prev = l.stores.last().unwrap().sync;
        join(&mut sync, &prev);
    }
    l.stores.push(Store {
        val: new,
        tid: t,
        ts,
        sync,
    });
    if l.stores.len() > HISTORY {
        l.stores.remove(0);
        l.first += 1;
    }
    let idx = l.first + l.stores.len() as u32 - 1;
    note_read(l, t, ts, idx);
    w.clock[t][t] += 1;
    if o.sc {
        let c = w.clock[t];
        join(&mut w.sc, &c);
    }
}

pub fn on_store(addr: usize, old: u64, new: u64, o: Ordering) {
    crate::host(|| push_store(world(), addr, old, new, ord(o), false));
}

pub fn on_rmw(addr: usize, old: u64, new: u64, o: Ordering) {
    crate::host(|| push_store(world(), addr, old, new, ord(o), true));
}

/// A failed compare-exchange reads the newest value.
pub fn on_failed_cas(addr: usize, mem: u64, o: Ordering) {
    crate::host(|| on_failed_cas_(addr, mem, o));
}

fn on_failed_cas_(addr: usize, mem: u64, o: Ordering) {
    let o = ord(o);
    let t = sched::current();
    let w = world();
    w.clock[t][t] += 1;
    let clock = w.clock[t];
    let l = loc(w, addr, mem);
    let idx = l.first + l.stores.len() as u32 - 1;
    let sync = l.stores.last().unwrap().sync;
    note_read(l, t, clock[t], idx);
    if o.acq {
        join(&mut w.clock[t], &sync);
    } else {
        join(&mut w.acq_pending[t], &sync);
    }
}

/// An exclusive access through `&mut`: the plain store replaces the history.
pub fn on_plain(addr: usize) {
    if enabled() {
        world().locs.remove(&addr);
    }
}

pub fn on_fence(o: Ordering) {
    let o = ord(o);
    let t = sched::current();
    let w = world();
    w.clock[t][t] += 1;
    if o.acq {
        let p = w.acq_pending[t];
        join(&mut w.clock[t], &p);
    }
    if o.sc {
        let sc = w.sc;
        join(&mut w.clock[t], &sc);
        let c = w.clock[t];
        join(&mut w.sc, &c);
    }
    if o.rel {
        w.rel_fence[t] = w.clock[t];
        let p = w.acq_pending[t];
        join(&mut w.rel_fence[t], &p);
    }
    w.clock[t][t] += 1;
}

/// Race detection on user data, by identity rather than by address.
#[derive(Clone, Debug)]
pub struct RaceCell {
    w: (u8, u32),
    r: Vc,
}

impl RaceCell {
    /// Created by the current thread.
    pub fn new() -> Self {
        let mut c = RaceCell {
            w: (0, 0),
            r: [0; MAX_FIBERS],
        };
        if enabled() {
            let t = sched::current();
            let w = world();
            w.clock[t][t] += 1;
            c.w = (t as u8, w.clock[t][t]);
        }
        c
    }
    pub fn read(&mut self) -> bool {
        if !enabled() {
            return true;
        }
        let t = sched::current();
        let w = world();
        w.clock[t][t] += 1;
        self.r[t] = w.clock[t][t];
        w.clock[t][self.w.0 as usize] >= self.w.1
    }
    pub fn write(&mut self) -> bool {
        if !enabled() {
            return true;
        }
        let t = sched::current();
        let w = world();
        w.clock[t][t] += 1;
        let c = &w.clock[t];
        let ok = c[self.w.0 as usize] >= self.w.1
            && (0..MAX_FIBERS).all(|i| self.r[i] <= c[i]);
        self.w = (t as u8, c[t]);
        ok
    }
}

impl Default for RaceCell {
    fn default() -> Self {
        Self::new()
    }
}
