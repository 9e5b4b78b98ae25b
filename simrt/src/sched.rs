//! The seeded scheduler. Every interleaving, stall and fault of a run is decided here.

use std::panic::{AssertUnwindSafe, catch_unwind};

use crate::alloc;
use crate::fiber::{self, MAX_FIBERS};
use crate::rng::Rng;
use crate::weak;

pub type Tid = usize;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St {
    Runnable,
    Parked,
    Joining(Tid),
    Done,
}

pub struct Fiber {
    sp: usize,
    pub st: St,
    token: bool,
    /// Sched points executed by this fiber.
    pub local: u64,
    prio: u64,
    stalled_until: u64,
    arena: bool,
    no_preempt: u32,
    /// Number of accesses without preemption.
    quiet: u64,
    entry: Option<Box<dyn FnOnce()>>,
    slots: [*mut (); 4],
    choice_idx: [u32; N_CHOICE],
    /// When this fiber began to drop the future it is dropping.
    dropping: u64,
    /// An allocation has just failed: 1, and the code has panicked for it: 2.
    pub oom: u8,
}

/// More accesses than this by one fiber while nobody else may run: it will never come to an end.
const MAX_QUIET: u64 = 40_000_000;

/// Kinds of non-scheduling decisions.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum Choice {
    /// `compare_exchange_weak` fails spuriously.
    WeakCas = 0,
    /// A load returns an older value that the memory model still permits.
    Stale = 1,
    /// A parked thread wakes without being unparked / a pending task is polled without a wake.
    Spurious = 2,
    /// An allocation fails.
    Alloc = 3,
    /// User code (comparison, clone, closure) panics.
    UserPanic = 4,
    /// A future is dropped before completion.
    Cancel = 5,
    /// A task continues on another thread.
    Migrate = 6,
    /// Harness decisions made while running.
    Misc = 7,
    /// A thread is suspended for a long time.
    Stall = 8,
}
pub const N_CHOICE: usize = 9;
pub const CHOICE_NAMES: [&str; N_CHOICE] = [
    "weak_cas_failure",
    "stale_load",
    "spurious_wake",
    "alloc_failure",
    "user_panic",
    "cancel",
    "migrate",
    "misc",
    "stall",
];

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Preempt with probability 1/den at each point.
    Random { den: u64 },
    /// Probabilistic concurrency testing: priorities with a few change points.
    Pct { depth: u32, span: u64 },
    /// Like `Random`, with different rates before writes and loads.
    Writes { den_w: u64, den_r: u64 },
    /// A few preemptions at uniformly random points, otherwise run to completion.
    Few { n: u32, span: u64 },
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub seed: u64,
    pub strategy: Strategy,
    /// 1/den chance that a preempted thread is stalled for a long time (0: never).
    pub stall_den: u64,
    pub stall_len: u64,
    /// 1/den chance of a spurious weak CAS failure (0: never).
    pub weak_cas_den: u64,
    /// 1/den chance that a load is stale if an older value is permitted (0: never).
    pub stale_den: u64,
    pub weak: weak::Mode,
    pub spurious_den: u64,
    /// Points after which faults stop and scheduling becomes fair.
    pub fair_after: u64,
    /// Points after `fair_after` within which everything must finish.
    pub fair_budget: u64,
    pub reuse_memory: bool,
    pub cadence: u8,
    pub replay: Option<Trace>,
    /// Print every decision point (debugging, replay output).
    pub verbose: bool,
}

impl Cfg {
    pub fn new(seed: u64) -> Self {
        Cfg {
            seed,
            strategy: Strategy::Random { den: 10 },
            stall_den: 0,
            stall_len: 1000,
            weak_cas_den: 0,
            stale_den: 0,
            weak: weak::Mode::Off,
            spurious_den: 0,
            fair_after: 300_000,
            fair_budget: 3_000_000,
            reuse_memory: false,
            cadence: 4,
            replay: None,
            verbose: false,
        }
    }
}

/// A recorded schedule: the preemptions and the non-default choices.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    /// (thread, local point, next thread, stalled for)
    pub switches: Vec<(u32, u64, u32, u64)>,
    /// (thread, kind, nth choice of that kind in the thread, value)
    pub choices: Vec<(u32, u32, u32, u32)>,
}

pub struct Sched {
    pub active: bool,
    pub cfg: Cfg,
    pub rng: Rng,
    pub fibers: Vec<Fiber>,
    pub cur: Tid,
    pub steps: u64,
    countdown: u64,
    pct_points: Vec<u64>,
    pct_low: u64,
    fair: bool,
    fair_quantum: u64,
    fair_rng: Rng,
    main_sp: usize,
    pub trace: Trace,
    replay_sw: std::collections::HashMap<(u32, u64), (u32, u64)>,
    replay_ch: std::collections::HashMap<(u32, u32, u32), u32>,
    pub hash: u64,
    pub hash_prev: u64,
    pub fired: [u64; N_CHOICE],
    pub n_switch: u64,
    pub n_preempt: u64,
    /// Only this fiber may run (the others are frozen where they stand).
    solo: Option<Tid>,
    solo_deadline: u64,
    solo_what: &'static str,
    pub context: String,
}

static mut SCHED: *mut Sched = core::ptr::null_mut();
static mut ACTIVE: bool = false;
pub static mut FIBER_EXIT: Option<fn()> = None;
pub static mut CADENCE: u8 = 4;

#[inline]
pub fn active() -> bool {
    unsafe { ACTIVE }
}

#[inline]
pub fn sched() -> &'static mut Sched {
    unsafe { &mut *SCHED }
}

pub fn sched_ptr() -> *mut Sched {
    unsafe { SCHED }
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Pt {
    Load,
    Write,
    Fence,
    User,
}

/// The point before every shared-memory access.
#[inline]
pub fn point(kind: Pt, addr: usize) {
    unsafe {
        if !ACTIVE {
            return;
        }
    }
    point_slow(kind, addr);
}

#[inline(never)]
fn point_slow(kind: Pt, addr: usize) {
    let s = sched();
    let cur = s.cur;
    if !alloc::is_live(addr) {
        crate::fail(
            "use-after-free",
            "atomic access to memory that is not allocated",
        );
    }
    let f = &mut s.fibers[cur];
    if f.no_preempt > 0 {
        f.quiet += 1;
        if f.quiet > MAX_QUIET {
            crate::fail("no-progress", "spins forever with nobody else running");
        }
        return;
    }
    f.local += 1;
    s.steps += 1;
    // Addresses outside the arena depend on where the process was loaded.
    let a = if alloc::in_arena(addr) { addr as u64 & 0xFFFF_FFFF } else { 1 };
    s.hash = (s.hash ^ ((cur as u64) << 56 | (kind as u64) << 52 | a))
        .wrapping_mul(0x0000_0100_0000_01B3)
        .rotate_left(23);
    if s.cfg.verbose {
        eprintln!("  [{}] t{} #{} {:x}", s.steps, cur, s.fibers[cur].local, addr);
        if std::env::var("SIM_BT").is_ok_and(|v| v.split(',').any(|x| x == s.steps.to_string())) {
            crate::note("STEP");
        }
    }
    if s.solo.is_some() {
        if s.steps > s.solo_deadline {
            crate::fail("blocked", s.solo_what);
        }
        return;
    }
    if s.fair {
        s.fair_quantum -= 1;
        if s.fair_quantum == 0 {
            if s.steps > s.cfg.fair_after + s.cfg.fair_budget {
                crate::fail(
                    "no-progress",
                    "operations did not complete within the step bound under a fair schedule",
                );
            }
            s.reset_quantum();
            let next = s.next_round_robin();
            switch_to(next);
        }
        return;
    }
    if s.steps > s.cfg.fair_after {
        s.enter_fair();
        return;
    }
    if s.cfg.replay.is_some() {
        let key = (cur as u32, s.fibers[cur].local);
        if let Some((to, stall)) = s.replay_sw.get(&key).copied() {
            let to = to as usize;
            if to < s.fibers.len() && to != cur && s.runnable(to) {
                if stall > 0 {
                    s.fibers[cur].stalled_until = s.steps + stall;
                    s.fired[Choice::Stall as usize] += 1;
                }
                s.n_preempt += 1;
                s.record(to, stall);
                switch_to(to);
            }
        }
        return;
    }
    match &s.cfg.strategy {
        Strategy::Random { .. } => {
            s.countdown -= 1;
            if s.countdown == 0 {
                s.rearm();
                s.preempt_random();
            }
        }
        Strategy::Writes { den_w, den_r } => {
            let den = if kind == Pt::Load { *den_r } else { *den_w };
            if s.rng.below(den) == 0 {
                s.preempt_random();
            }
        }
        Strategy::Few { .. } => {
            if s.pct_points.last() == Some(&s.steps) {
                s.pct_points.pop();
                s.preempt_random();
            }
        }
        Strategy::Pct { .. } => {
            if s.pct_points.last() == Some(&s.steps) {
                s.pct_points.pop();
                s.pct_low -= 1;
                s.fibers[cur].prio = s.pct_low;
                if let Some(next) = s.highest(None) {
                    if next != cur {
                        s.n_preempt += 1;
                        s.record(next, 0);
                        switch_to(next);
                    }
                }
            }
        }
    }
}

impl Sched {
    fn rearm(&mut self) {
        if let Strategy::Random { den } = self.cfg.strategy {
            self.countdown = self.rng.geometric(den);
        }
    }

    #[inline]
    fn runnable(&self, t: Tid) -> bool {
        self.fibers[t].st == St::Runnable
    }

    fn reset_quantum(&mut self) {
        self.fair_quantum = 20 + self.fair_rng.below(80);
    }

    fn enter_fair(&mut self) {
        self.fair = true;
        self.reset_quantum();
        for f in &mut self.fibers {
            f.stalled_until = 0;
        }
    }

    fn record(&mut self, to: Tid, stall: u64) {
        let cur = self.cur;
        let local = self.fibers[cur].local;
        alloc::host(|| self.trace.switches.push((cur as u32, local, to as u32, stall)));
    }

    fn next_round_robin(&self) -> Tid {
        let n = self.fibers.len();
        for i in 1..=n {
            let t = (self.cur + i) % n;
            if self.runnable(t) {
                return t;
            }
        }
        self.cur
    }

    fn highest(&self, except: Option<Tid>) -> Option<Tid> {
        let mut best: Option<Tid> = None;
        for t in 0..self.fibers.len() {
            if self.runnable(t)
                && Some(t) != except
                && best.is_none_or(|b| self.fibers[t].prio > self.fibers[b].prio)
            {
                best = Some(t);
            }
        }
        best
    }

    /// A random runnable fiber other than the current one; stalled ones only if nothing else is.
    fn random_other(&mut self) -> Option<Tid> {
        let mut cand = [0usize; MAX_FIBERS];
        let mut n = 0;
        for pass in 0..2 {
            for t in 0..self.fibers.len() {
                if t != self.cur
                    && self.runnable(t)
                    && (pass == 1 || self.fibers[t].stalled_until <= self.steps)
                {
                    cand[n] = t;
                    n += 1;
                }
            }
            if n > 0 || pass == 1 {
                break;
            }
            if self.runnable(self.cur) {
                // Rather keep running than wake a stalled thread.
                return None;
            }
        }
        if n == 0 {
            None
        } else {
            Some(cand[self.rng.idx(n)])
        }
    }

    fn preempt_random(&mut self) {
        if let Some(next) = self.random_other() {
            let mut stall = 0;
            if self.cfg.stall_den > 0 && self.rng.below(self.cfg.stall_den) == 0 {
                stall = 1 + self.rng.below(self.cfg.stall_len);
                let cur = self.cur;
                self.fibers[cur].stalled_until = self.steps + stall;
                self.fired[Choice::Stall as usize] += 1;
            }
            self.n_preempt += 1;
            self.record(next, stall);
            switch_to(next);
        }
    }
}

/// Gives the processor away: the current fiber spins, yields, waits or ends.
fn reschedule(must_leave: bool) {
    let s = sched();
    let cur = s.cur;
    s.fibers[cur].local += 1;
    if let Some(t) = s.solo {
        if must_leave {
            crate::fail("blocked", s.solo_what);
        }
        debug_assert_eq!(t, cur);
        return;
    }
    let next = if s.fair {
        s.reset_quantum();
        let n = s.next_round_robin();
        if n == cur && must_leave { None } else { Some(n) }
    } else if s.cfg.replay.is_some() {
        let key = (cur as u32, s.fibers[cur].local);
        let mut n = s.replay_sw.get(&key).map(|x| x.0 as usize);
        if n.is_none_or(|n| n >= s.fibers.len() || !s.runnable(n)) {
            // Default: round robin, so that spinning fibers cannot starve the others.
            let r = s.next_round_robin();
            n = if r == cur && (must_leave || !s.runnable(cur)) {
                None
            } else {
                Some(r)
            };
        }
        n
    } else if let Strategy::Pct { .. } = s.cfg.strategy {
        if !must_leave {
            s.pct_low -= 1;
            s.fibers[cur].prio = s.pct_low;
        }
        s.highest(if must_leave { Some(cur) } else { None })
    } else {
        let o = s.random_other();
        if o.is_none() && !must_leave { Some(cur) } else { o }
    };
    match next {
        Some(n) if n == cur => {
            // A replay would hand over by default.
            if !s.fair && s.next_round_robin() != cur {
                s.record(n, 0);
            }
        }
        Some(n) => {
            s.record(n, 0);
            switch_to(n);
        }
        None => {
            let all: Vec<String> = alloc::host(|| {
                s.fibers
                    .iter()
                    .enumerate()
                    .map(|(i, f)| format!("t{i}:{:?}", f.st))
                    .collect()
            });
            crate::fail_owned("deadlock", format!("no thread can run: {}", all.join(" ")));
        }
    }
}

fn switch_to(next: Tid) {
    let s = sched();
    let cur = s.cur;
    if next == cur {
        return;
    }
    s.n_switch += 1;
    s.hash = (s.hash ^ next as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    s.cur = next;
    unsafe {
        s.fibers[cur].arena = alloc::ARENA;
        alloc::ARENA = s.fibers[next].arena;
        let save = &raw mut s.fibers[cur].sp;
        let to = s.fibers[next].sp;
        fiber::switch_ctx(save, to);
    }
}

unsafe extern "sysv64" fn entry() -> ! {
    let s = sched();
    let tid = s.cur;
    let f = s.fibers[tid].entry.take().unwrap();
    let r = catch_unwind(AssertUnwindSafe(f));
    if let Err(e) = r {
        let m = crate::panic_message(&e);
        crate::fail_owned("panic", format!("unexpected panic outside an operation: {m}"));
    }
    unsafe {
        if let Some(hook) = FIBER_EXIT {
            let r = catch_unwind(AssertUnwindSafe(|| alloc::lib(hook)));
            if r.is_err() {
                crate::fail("panic", "panic while a thread exits");
            }
        }
    }
    let s = sched();
    s.fibers[tid].st = St::Done;
    weak::on_exit(tid);
    for t in 0..s.fibers.len() {
        if s.fibers[t].st == St::Joining(tid) {
            s.fibers[t].st = St::Runnable;
        }
    }
    if tid == 0 {
        // The main fiber ends the run.
        unsafe {
            let mut dummy = 0;
            alloc::ARENA = false;
            ACTIVE = false;
            fiber::switch_ctx(&raw mut dummy, s.main_sp);
        }
    }
    s.solo = None;
    reschedule(true);
    unreachable!()
}

pub fn init() {
    fiber::init();
    alloc::init();
}

pub struct RunStats {
    pub steps: u64,
    pub switches: u64,
    pub preempts: u64,
    pub hash: u64,
    pub fired: [u64; N_CHOICE],
    pub fair: bool,
    pub trace: Trace,
}

/// Executes one simulated run.
pub fn run(cfg: Cfg, context: String, body: Box<dyn FnOnce()>) -> RunStats {
    alloc::reset(cfg.reuse_memory);
    weak::reset(cfg.weak, cfg.stale_den);
    unsafe {
        CADENCE = cfg.cadence;
    }
    let mut rng = Rng::new(cfg.seed ^ 0xD5C4_ED01);
    let mut pct_points = Vec::new();
    match cfg.strategy {
        Strategy::Pct { depth: n, span } | Strategy::Few { n, span } => {
            for _ in 0..n {
                pct_points.push(1 + rng.below(span));
            }
            pct_points.sort_unstable();
            pct_points.dedup();
            pct_points.reverse();
        }
        _ => (),
    }
    let mut replay_sw = std::collections::HashMap::new();
    let mut replay_ch = std::collections::HashMap::new();
    if let Some(t) = &cfg.replay {
        for (a, b, c, d) in &t.switches {
            replay_sw.insert((*a, *b), (*c, *d));
        }
        for (a, b, c, d) in &t.choices {
            replay_ch.insert((*a, *b, *c), *d);
        }
    }
    let mut s = Box::new(Sched {
        active: true,
        rng,
        fibers: Vec::with_capacity(MAX_FIBERS),
        cur: 0,
        steps: 0,
        countdown: 1,
        pct_points,
        pct_low: 1 << 40,
        fair: false,
        fair_quantum: 50,
        fair_rng: Rng::new(cfg.seed ^ 0xFA18),
        main_sp: 0,
        trace: Trace {
            switches: Vec::with_capacity(256),
            choices: Vec::with_capacity(64),
        },
        replay_sw,
        replay_ch,
        hash: 0xCBF2_9CE4_8422_2325,
        hash_prev: 0,
        fired: [0; N_CHOICE],
        n_switch: 0,
        n_preempt: 0,
        solo: None,
        solo_deadline: 0,
        solo_what: "",
        context,
        cfg,
    });
    s.rearm();
    unsafe {
        SCHED = &raw mut *s;
        ACTIVE = true;
    }
    let t0 = spawn_boxed(body);
    debug_assert_eq!(t0, 0);
    unsafe {
        let to = s.fibers[0].sp;
        let save = &raw mut s.main_sp;
        fiber::switch_ctx(save, to);
        ACTIVE = false;
        SCHED = core::ptr::null_mut();
    }
    RunStats {
        steps: s.steps,
        switches: s.n_switch,
        preempts: s.n_preempt,
        hash: s.hash,
        fired: s.fired,
        fair: s.fair,
        trace: std::mem::take(&mut s.trace),
    }
}

fn spawn_boxed(f: Box<dyn FnOnce()>) -> Tid {
    let s = sched();
    let tid = s.fibers.len();
    assert!(tid < MAX_FIBERS);
    let sp = fiber::prepare(tid, entry);
    let prio = (1 << 41) + s.rng.below(1 << 40);
    s.fibers.push(Fiber {
        sp,
        st: St::Runnable,
        token: false,
        local: 0,
        prio,
        stalled_until: 0,
        arena: false,
        no_preempt: 0,
        quiet: 0,
        entry: Some(f),
        slots: [core::ptr::null_mut(); 4],
        choice_idx: [0; N_CHOICE],
            dropping: u64::MAX,
            oom: 0,
    });
    weak::on_spawn(s.cur, tid);
    tid
}

pub fn spawn(f: impl FnOnce() + 'static) -> Tid {
    alloc::host(|| spawn_boxed(Box::new(f)))
}

pub fn join(t: Tid) {
    let s = sched();
    while s.fibers[t].st != St::Done {
        let cur = s.cur;
        s.fibers[cur].st = St::Joining(t);
        reschedule(true);
    }
    weak::on_join(s.cur, t);
}

pub fn current() -> Tid {
    sched().cur
}

pub fn is_done(t: Tid) -> bool {
    sched().fibers[t].st == St::Done
}

/// Logical time: strictly increasing.
/// State of allocation failure of the current fiber.
pub fn oom() -> &'static mut u8 {
    let s = sched();
    let c = s.cur;
    &mut s.fibers[c].oom
}

/// Marks the current fiber as dropping a future since now.
pub fn dropping(on: bool) {
    let s = sched();
    let t = s.steps;
    let c = s.cur;
    s.fibers[c].dropping = if on { t } else { u64::MAX };
}

/// When the waiting entries at the given addresses were told their result.
static mut TOLD: Vec<(usize, u64)> = Vec::new();

#[allow(static_mut_refs)]
pub fn told_reset() {
    unsafe { TOLD.clear() }
}

#[allow(static_mut_refs)]
pub fn told(addr: usize) {
    if active() {
        let t = sched().steps;
        alloc::host(|| unsafe {
            match TOLD.iter_mut().find(|x| x.0 == addr) {
                Some(x) => x.1 = t,
                None => TOLD.push((addr, t)),
            }
        });
    }
}

/// Was the entry told its result before the current fiber began to drop its future?
#[allow(static_mut_refs)]
pub fn told_before_drop(addr: usize) -> bool {
    let s = sched();
    let d = s.fibers[s.cur].dropping;
    unsafe { TOLD.iter().find(|x| x.0 == addr).is_none_or(|x| x.1 < d) }
}

pub fn now() -> u64 {
    let s = sched();
    s.steps += 1;
    weak::stamp(s.steps);
    s.steps
}

pub fn yield_now() {
    if !active() {
        return;
    }
    point(Pt::User, 0);
    if sched().fibers[sched().cur].no_preempt > 0 {
        let s = sched();
        let cur = s.cur;
        s.fibers[cur].local += 1;
        if s.fibers[cur].local > 50_000_000 {
            crate::fail("no-progress", "spins forever with nobody else running");
        }
        if s.fibers.iter().filter(|f| f.st != St::Done).count() == 1 {
            return;
        }
    }
    reschedule(false);
}

pub fn park() {
    let s = sched();
    let cur = s.cur;
    point(Pt::User, 0);
    if s.fibers[cur].token {
        s.fibers[cur].token = false;
        return;
    }
    let den = s.cfg.spurious_den;
    if den > 0 && choose(Choice::Spurious, den) != 0 {
        return;
    }
    s.fibers[cur].st = St::Parked;
    reschedule(true);
    let s = sched();
    s.fibers[cur].token = false;
}

pub fn unpark(t: Tid) {
    point(Pt::User, 0);
    let s = sched();
    let f = &mut s.fibers[t];
    if f.st == St::Parked {
        f.st = St::Runnable;
    }
    f.token = true;
}

/// True (1) with probability `1/den`; recorded when taken and replayed exactly.
pub fn choose(kind: Choice, den: u64) -> u32 {
    let s = sched();
    let cur = s.cur;
    let k = kind as usize;
    let idx = s.fibers[cur].choice_idx[k];
    s.fibers[cur].choice_idx[k] += 1;
    if s.fair && kind != Choice::Misc {
        return 0;
    }
    let v = if s.cfg.replay.is_some() {
        s.replay_ch
            .get(&(cur as u32, k as u32, idx))
            .copied()
            .unwrap_or(0)
    } else {
        u32::from(s.rng.below(den) == 0)
    };
    if v != 0 {
        if s.cfg.verbose {
            crate::note("CHOICE");
        }
        s.fired[k] += 1;
        alloc::host(|| s.trace.choices.push((cur as u32, k as u32, idx, v)));
    }
    v
}

/// A value in `0..n`; 0 is the default that is not recorded.
pub fn choose_n(kind: Choice, n: u64) -> u32 {
    let s = sched();
    let cur = s.cur;
    let k = kind as usize;
    let idx = s.fibers[cur].choice_idx[k];
    s.fibers[cur].choice_idx[k] += 1;
    if s.fair && kind != Choice::Misc {
        return 0;
    }
    let v = if s.cfg.replay.is_some() {
        s.replay_ch
            .get(&(cur as u32, k as u32, idx))
            .copied()
            .unwrap_or(0)
            .min(n as u32 - 1)
    } else {
        s.rng.below(n) as u32
    };
    if v != 0 {
        alloc::host(|| s.trace.choices.push((cur as u32, k as u32, idx, v)));
    }
    v
}

/// Counts an injected fault of the given kind.
pub fn count(kind: Choice) {
    sched().fired[kind as usize] += 1;
}

/// Runs `f` without any preemption (bulk set-up).
pub fn no_preempt<R>(f: impl FnOnce() -> R) -> R {
    struct G(Tid);
    impl Drop for G {
        fn drop(&mut self) {
            sched().fibers[self.0].no_preempt -= 1;
        }
    }
    let s = sched();
    s.fibers[s.cur].no_preempt += 1;
    let _g = G(s.cur);
    f()
}

/// Freezes every other thread: `f` must finish on its own within `bound` points.
pub fn solo<R>(what: &'static str, bound: u64, f: impl FnOnce() -> R) -> R {
    let s = sched();
    if s.solo.is_some() || s.fair {
        return f();
    }
    s.solo = Some(s.cur);
    s.solo_deadline = s.steps + bound;
    s.solo_what = what;
    let r = f();
    sched().solo = None;
    r
}

#[inline]
pub fn slot(i: usize) -> *mut *mut () {
    static mut HOST: [*mut (); 4] = [core::ptr::null_mut(); 4];
    unsafe {
        if SCHED.is_null() {
            return (&raw mut HOST).cast::<*mut ()>().add(i);
        }
        let s = &mut *SCHED;
        &raw mut s.fibers[s.cur].slots[i]
    }
}

/// Prints where a large block is freed in a verbose replay.
pub fn log_free(addr: usize, size: usize) {
    let p = sched_ptr();
    if !p.is_null() && unsafe { (*p).cfg.verbose } {
        alloc::host(|| {
            eprintln!(
                "FREE {addr:x} size {size} t{}\n{}",
                unsafe { (*p).cur },
                std::backtrace::Backtrace::force_capture()
            )
        });
    }
}
