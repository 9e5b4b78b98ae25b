//! One simulated run of a plan, with all its checks.

use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

use simrt::{RunStats, Trace, fail, fail_owned, host, lib};

use crate::cont::{self, Cont, Local, Shared, notes};
use crate::exec::{self, OpFut, world};
use crate::hist::{self, ABSENT, ANY, Gap, SAME, WILD};
use crate::plan::{Kind, Op, Plan};
use crate::vals::{self, SimHash};

pub struct Outcome {
    pub stats: RunStats,
    pub done: u64,
    pub aborted: u64,
    pub pendings: u64,
    pub migrations: u64,
    pub spurious: u64,
    pub cancels: u64,
    pub panics: u64,
    pub alloc_faults: u64,
    pub events: u64,
    pub overlaps: u64,
    pub allocs: u64,
    pub giveups: u64,
}

fn fut_of(sh: &'static Shared, op: &'static Op, l: *mut Local) -> Pin<Box<dyn Future<Output = ()>>> {
    // In the arena: the address of a wait queue entry must not depend on the host, and an access to
    // an entry of a future that is gone must be noticed.
    lib(|| Box::pin(cont::run_op(sh, op, unsafe { &mut *l })) as Pin<Box<dyn Future<Output = ()>>>)
}

/// Runs an operation to completion on the current fiber, without an executor.
fn run_here(cid: usize, idx: usize, sh: &'static Shared, op: &'static Op, l: *mut Local) {
    let mut f = OpFut::new(cid, idx, op, fut_of(sh, op, l));
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        match Pin::new(&mut f).poll(&mut cx) {
            Poll::Ready(()) => break,
            Poll::Pending => simrt::yield_now(),
        }
    }
    host(|| drop(f));
}

fn client_fut(cid: usize, sh: &'static Shared, ops: &'static [Op]) -> Pin<Box<dyn Future<Output = ()>>> {
    host(|| {
        Box::pin(async move {
            let l: *mut Local = host(|| Box::into_raw(Box::new(Local::default())));
            for (i, op) in ops.iter().enumerate() {
                let f = OpFut::new(cid, i, op, fut_of(sh, op, l));
                f.await;
            }
            let t0 = simrt::now();
            let r = lib(|| catch_unwind(AssertUnwindSafe(|| unsafe { (*l).release(sh) })));
            let t1 = simrt::now();
            host(|| cont::notes().spans.push((t0, t1)));
            if r.is_err() {
                fail("panic", "releasing handles panicked");
            }
            host(|| unsafe { drop(Box::from_raw(l)) });
        }) as Pin<Box<dyn Future<Output = ()>>>
    })
}

fn on_fail() -> String {
    hist::render_failed()
}

pub fn init() {
    simrt::init_process();
    unsafe {
        simrt::ON_FAIL = Some(on_fail);
        simrt::sched::FIBER_EXIT = Some(sdd::sim::sim_thread_exit);
    }
}

static mut OUT: (u64, u64, u64, u64) = (0, 0, 0, 0);

pub fn run(p: &Plan, replay: Option<Trace>, context: String, verbose: bool) -> Outcome {
    hist::reset();
    vals::reset(p.drop_points, p.excl);
    cont::reset_notes();
    exec::reset(p.clients.len() + 1);
    simrt::std_shim::thread::reset_edges();
    let _ = sdd::sim::sim_reset();
    let mut cfg = p.cfg();
    cfg.replay = replay;
    cfg.verbose = verbose;
    simrt::watchdog(30);
    let plan: &'static Plan = unsafe { &*std::ptr::from_ref(p) };
    let stats = simrt::run(cfg, context, Box::new(move || body(plan)));
    simrt::watchdog(0);
    let w = world();
    #[allow(static_mut_refs)]
    let (events, overlaps, allocs, giveups) = unsafe { OUT };
    Outcome {
        stats,
        done: w.clients.iter().map(|c| u64::from(c.done)).sum(),
        aborted: w.clients.iter().map(|c| u64::from(c.aborted)).sum(),
        pendings: w.pendings,
        migrations: w.migrations,
        spurious: w.spurious,
        cancels: w.cancels,
        panics: w.panics,
        alloc_faults: w.alloc_faults,
        events,
        overlaps,
        allocs,
        giveups,
    }
}

fn body(p: &'static Plan) {
    exec::set_current(exec::MAIN);
    let boxed: *mut Shared = lib(|| {
        Box::into_raw(Box::new(Shared {
            c: cont::build(p),
            kind: p.kind,
            nkeys: p.nkeys,
            max: p.max,
            base: 0,
        }))
    });
    unsafe {
        (*boxed).base = lib(|| base(&(*boxed).c));
    }
    let sh: &'static Shared = unsafe { &*boxed };
    let mut local = Local::default();
    let l = &raw mut local;
    simrt::no_preempt(|| {
        for (i, op) in p.prefill.iter().enumerate() {
            run_here(exec::MAIN, i, sh, op, l);
        }
    });
    // Clients.
    let mut fibers = Vec::new();
    if p.workers > 0 {
        for (i, ops) in p.clients.iter().enumerate() {
            exec::add_task(i + 1, client_fut(i + 1, sh, ops));
        }
        for _ in 0..p.workers {
            let den = p.spurious_den;
            fibers.push(simrt::spawn(move || exec::run_worker(den)));
        }
    } else {
        for (i, ops) in p.clients.iter().enumerate() {
            let cid = i + 1;
            fibers.push(simrt::spawn(move || {
                let f = client_fut(cid, sh, ops);
                exec::run_pinned(cid, f);
            }));
        }
    }
    for f in fibers {
        simrt::join(f);
    }
    exec::set_current(exec::MAIN);
    let n = p.prefill.len();
    for (i, op) in p.finals.iter().enumerate() {
        run_here(exec::MAIN, n + i, sh, op, l);
    }
    lib(|| unsafe { (*l).release(sh) });
    host(|| {
        if p.lin {
            if let Some((key, kind, e)) = hist::check(|k| gap(p, k), p.weak == 2 && p.kind == Kind::Hi) {
                fail_owned(kind, format!("key {key}: {e}"));
            }
        }
        check_capacity(sh);
        if p.lru {
            check_lru(p);
        }
        let h = &hist::hist().ops;
        let mut v: Vec<(u32, u64, u64, u8)> = h.iter().map(|o| (o.key, o.t0, o.t1, o.who.0)).collect();
        v.sort_unstable();
        let over = v
            .windows(2)
            .filter(|w| w[0].0 == w[1].0 && w[1].1 <= w[0].2 && w[0].3 != w[1].3)
            .count() as u64;
        let total = simrt::alloc::stats().2;
        unsafe { OUT = (h.len() as u64, over, total, hist::take_giveups()) };
    });
    lib(|| unsafe { drop(Box::from_raw(boxed)) });
    // The last thread to leave tidies up after threads that left at the same moment.
    lib(|| drop(sdd::Guard::new()));
    lib(sdd::sim::sim_thread_exit);
    if p.drops {
        let leaked = vals::leaked();
        if !leaked.is_empty() {
            let i = &vals::reg().insts[leaked[0] as usize];
            fail_owned(
                "leak",
                format!(
                    "{} keys or values were never dropped, the first is {}#{} of {} created by client {} op {}",
                    leaked.len(),
                    i.kind as char,
                    leaked[0],
                    i.key,
                    i.born.0,
                    i.born.1
                ),
            );
        }
        let (live, bytes, _) = simrt::alloc::stats();
        if live != 0 {
            fail_owned("leak", format!("{live} allocations ({bytes} bytes) were never freed"));
        }
    }
    if let Err(a) = simrt::alloc::check_poison() {
        fail_owned("use-after-free", format!("freed memory was written (offset {:x})", a & 0xFFFF_FFFF));
    }
}

fn base(c: &Cont) -> u64 {
    (match c {
        Cont::Hm(m) => *m.capacity_range().start(),
        Cont::Hs(m) => *m.capacity_range().start(),
        Cont::Hi(m) => *m.capacity_range().start(),
        Cont::Hc(m) => *m.capacity_range().start(),
        Cont::Ti(_) => 0,
    }) as u64
}

fn check_capacity(sh: &Shared) {
    let n = notes();
    let obs = &n.caps;
    for o in obs {
        if o.cap != 0 && !o.cap.is_power_of_two() {
            fail_owned("capacity", format!("capacity() is {}, not a power of two", o.cap));
        }
        if o.min > o.max {
            fail_owned("capacity", format!("capacity_range() is {:#x}..={:#x}", o.min, o.max));
        }
        if o.cap > o.max {
            fail_owned("capacity", format!("capacity() is {}, above the maximum {}", o.cap, o.max));
        }
        if o.cap < sh.base {
            fail_owned("capacity", format!("capacity() is {}, below the minimum {}", o.cap, sh.base));
        }
        let sure: u64 = n.resv.iter().filter(|r| r.from <= o.t0 && r.to >= o.t1).map(|r| r.n).sum();
        let may: u64 = n.resv.iter().filter(|r| r.from0 <= o.t1 && r.to0 >= o.t0).map(|r| r.n).sum();
        if o.min < sh.base + sure || o.min > sh.base + may {
            fail_owned(
                "capacity",
                format!(
                    "the minimum capacity is {}, but {} + between {} and {} are reserved",
                    o.min, sh.base, sure, may
                ),
            );
        }
    }
    // A resize in progress when space is reserved may still end up with less.
    let settled: Vec<u64> = n
        .resv
        .iter()
        .map(|r| n.spans.iter().filter(|s| s.0 < r.from && s.1 > r.from0).map(|s| s.1).max().unwrap_or(0).max(r.from))
        .collect();
    for a in obs {
        for b in obs {
            if a.t1 < b.t0 && b.cap < a.cap {
                let sure: u64 = n
                    .resv
                    .iter()
                    .zip(&settled)
                    .filter(|(r, s)| **s <= a.t0 && r.to >= b.t1)
                    .map(|(r, _)| r.n)
                    .sum();
                if b.cap < sh.base + sure {
                    fail_owned(
                        "capacity",
                        format!(
                            "the capacity shrank from {} to {} while {} was reserved in addition to {}",
                            a.cap, b.cap, sure, sh.base
                        ),
                    );
                }
            }
        }
    }
}

/// Can a lookup in a hash index miss an entry that is being updated?
///
/// It can if the bucket has overflow buckets, and the documentation leaves it to the memory model
/// otherwise.
fn gap(p: &Plan, key: u32) -> Gap {
    if p.kind != Kind::Hi {
        return Gap::Wrong;
    }
    if p.weak == 2 {
        return Gap::Ignored;
    }
    // The smallest array has two buckets.
    let half = |k: u32| {
        use std::hash::{BuildHasher, Hasher};
        let mut h = SimHash { mode: p.hash, salt: p.salt }.build_hasher();
        h.write_u32(k);
        h.finish() >> 63
    };
    let mine = half(key);
    let n = hist::hist()
        .ops
        .iter()
        .filter(|o| o.post != hist::ABSENT && o.post != hist::SAME && half(o.key) == mine)
        .count();
    if n <= 32 {
        Gap::Wrong
    } else if p.prop == "H03" {
        Gap::Apart
    } else {
        Gap::Ignored
    }
}

/// The eviction order of a cache with a single bucket that never resizes.
fn check_lru(p: &Plan) {
    let ops = &hist::hist().ops;
    let n = notes();
    for e in &n.evicts {
        if e.key == e.by {
            fail_owned("lru", format!("the insertion of {} evicted itself", e.by));
        }
        let e_used = n
            .touches
            .iter()
            .filter(|t| t.key == e.key && t.t1 < e.t0)
            .map(|t| t.t0)
            .max();
        let mut possible = 0;
        for x in 0..p.nkeys {
            // The last certain absence of x before the eviction began.
            let absent = ops
                .iter()
                .filter(|o| o.key == x && o.must && o.post == ABSENT && o.t1 < e.t0)
                .map(|o| o.t0)
                .max()
                .unwrap_or(0);
            let inserts = |o: &&hist::KOp| {
                o.key == x && o.post != ABSENT && o.post != SAME && (o.pre == ABSENT || o.pre == WILD || o.pre == ANY)
            };
            if x != e.by && ops.iter().filter(inserts).any(|o| o.t1 >= absent && o.t0 <= e.t1) {
                possible += 1;
            }
            let Some(used) = e_used else { continue };
            if x == e.key || x == e.by {
                continue;
            }
            // Resident throughout?
            let Some(born) = ops
                .iter()
                .filter(|o| o.key == x && o.must && o.pre == ABSENT && o.post != SAME && o.t1 < e.t0)
                .max_by_key(|o| o.t0)
            else {
                continue;
            };
            if ops.iter().any(|o| o.key == x && o.post == ABSENT && o.t1 >= born.t0 && o.t0 <= e.t1) {
                continue;
            }
            let last = n
                .touches
                .iter()
                .filter(|t| t.key == x && t.t0 <= e.t1)
                .map(|t| t.t1)
                .max()
                .unwrap_or(0);
            if last != 0 && last < used {
                fail_owned(
                    "lru",
                    format!(
                        "inserting {} evicted key {} (used after {}) although key {} was last used before {}",
                        e.by, e.key, used, x, last
                    ),
                );
            }
        }
        if possible < 32 {
            fail_owned(
                "lru",
                format!("inserting {} evicted key {} with at most {} entries in the bucket", e.by, e.key, possible),
            );
        }
    }
    let _ = Kind::Hc;
}
