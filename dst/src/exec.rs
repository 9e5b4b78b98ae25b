//! Simulated clients: the executor, operation bookkeeping, cancellation and injected failures.

use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use simrt::fiber::MAX_FIBERS;
use simrt::weak::{self, Edge};
use simrt::{Choice, SimFault, Tid, host, lib};

use crate::hist::{self, KOp};
use crate::plan::{Fault, Op};

pub const MAIN: usize = 0;

pub struct Pending {
    pub key: u32,
    pub pre: u32,
    pub post: u32,
    pub sure: bool,
    pub t0: u64,
    pub t1: u64,
    pub live: bool,
    pub what: &'static str,
}

#[derive(Default)]
pub struct Client {
    pub op: u16,
    pub t0: u64,
    pub eff: Vec<Pending>,
    panic_at: u32,
    alloc_at: u32,
    pub default_vid: u32,
    pub aborted: u32,
    pub done: u32,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TaskSt {
    Idle,
    Queued,
    Running,
    RunningWoken,
    Done,
}

struct Task {
    st: TaskSt,
    fiber: Option<Tid>,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    edge: Edge,
    last_fiber: usize,
}

pub struct World {
    pub clients: Vec<Client>,
    cur: [usize; MAX_FIBERS],
    tasks: Vec<Task>,
    queue: Vec<usize>,
    idle_workers: Vec<Tid>,
    live_tasks: usize,
    pub pendings: u64,
    pub cancels: u64,
    pub panics: u64,
    pub alloc_faults: u64,
    pub migrations: u64,
    pub spurious: u64,
}

static mut WORLD: Option<World> = None;

#[allow(static_mut_refs)]
pub fn world() -> &'static mut World {
    unsafe { WORLD.as_mut().unwrap() }
}

pub fn reset(n: usize) {
    let w = World {
        clients: (0..n).map(|_| Client::default()).collect(),
        cur: [0; MAX_FIBERS],
        tasks: (0..n)
            .map(|_| Task {
                st: TaskSt::Idle,
                fiber: None,
                fut: None,
                edge: Edge::default(),
                last_fiber: usize::MAX,
            })
            .collect(),
        queue: Vec::new(),
        idle_workers: Vec::new(),
        live_tasks: 0,
        pendings: 0,
        cancels: 0,
        panics: 0,
        alloc_faults: 0,
        migrations: 0,
        spurious: 0,
    };
    unsafe {
        WORLD = Some(w);
        simrt::ALLOC_FAULT = Some(take_alloc_fault);
    }
}

#[inline]
pub fn cur_client() -> usize {
    if simrt::sched::active() {
        world().cur[simrt::current()]
    } else {
        0
    }
}

#[inline]
pub fn cx() -> &'static mut Client {
    let c = cur_client();
    &mut world().clients[c]
}

pub fn whoami() -> (u8, u16) {
    #[allow(static_mut_refs)]
    if unsafe { WORLD.is_none() } {
        return (0, 0);
    }
    let c = cur_client();
    (c as u8, world().clients[c].op)
}

pub fn next_default() -> u32 {
    cx().default_vid
}

/// Does the user code that starts now panic?
#[inline]
pub fn take_panic() -> bool {
    if !simrt::sched::active() {
        return false;
    }
    let c = cx();
    if c.panic_at == 0 {
        return false;
    }
    c.panic_at -= 1;
    if c.panic_at == 0 {
        world().panics += 1;
        simrt::sched::count(Choice::UserPanic);
        return true;
    }
    false
}

fn take_alloc_fault() -> bool {
    let c = cx();
    if c.alloc_at == 0 {
        return false;
    }
    c.alloc_at -= 1;
    if c.alloc_at == 0 {
        world().alloc_faults += 1;
        simrt::sched::count(Choice::Alloc);
        return true;
    }
    false
}

// ---------------------------------------------------------------------------------------------
// Effects of the operation in progress.

/// Registers an effect the operation may have; confirm it with `sure`.
pub fn maybe(key: u32, pre: u32, post: u32, what: &'static str) -> usize {
    host(|| {
        let c = cx();
        c.eff.push(Pending {
            key,
            pre,
            post,
            sure: false,
            t0: c.t0,
            t1: 0,
            live: true,
            what,
        });
        c.eff.len() - 1
    })
}

/// The effect happened, exactly like this.
pub fn sure(h: usize, pre: u32, post: u32) {
    let p = &mut cx().eff[h];
    p.pre = pre;
    p.post = post;
    p.sure = true;
    p.live = true;
}

/// The effect stays optional but is now known to have been possible only like this.
pub fn amend(h: usize, pre: u32, post: u32) {
    let p = &mut cx().eff[h];
    p.pre = pre;
    p.post = post;
    p.live = true;
}

/// The effect did not happen and says nothing.
pub fn void(h: usize) {
    cx().eff[h].live = false;
}

/// Something seen or done at this very moment (after the start of the operation).
pub fn seen(key: u32, pre: u32, post: u32, what: &'static str) -> usize {
    let t1 = simrt::now();
    host(|| {
        let c = cx();
        c.eff.push(Pending {
            key,
            pre,
            post,
            sure: true,
            t0: c.t0,
            t1,
            live: true,
            what,
        });
        c.eff.len() - 1
    })
}

/// A read that started at `t0`.
pub fn seen_from(t0: u64, key: u32, pre: u32, what: &'static str) {
    let h = seen(key, pre, hist::SAME, what);
    cx().eff[h].t0 = t0;
}

fn finish(cid: usize, aborted: bool) {
    let t1 = simrt::now();
    host(|| {
        let c = &mut world().clients[cid];
        if aborted {
            c.aborted += 1;
        } else {
            c.done += 1;
        }
        let op = c.op;
        crate::cont::notes().spans.push((c.t0, t1));
        for p in c.eff.drain(..) {
            if !p.live {
                continue;
            }
            hist::hist().ops.push(KOp {
                key: p.key,
                t0: p.t0,
                t1: if p.t1 == 0 { t1 } else { p.t1 },
                pre: p.pre,
                post: p.post,
                must: p.sure,
                who: (cid as u8, op),
                what: p.what,
            });
        }
    });
}

// ---------------------------------------------------------------------------------------------
// One operation.

/// Runs an operation, injecting what its fault says.
pub struct OpFut {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    cancel_at: u32,
    started: bool,
    cid: usize,
    op_idx: u16,
    fault: Fault,
}

impl OpFut {
    pub fn new(
        cid: usize,
        op_idx: usize,
        op: &Op,
        fut: Pin<Box<dyn Future<Output = ()>>>,
    ) -> OpFut {
        OpFut {
            fut: Some(fut),
            cancel_at: if let Fault::Cancel(n) = op.fault { n } else { 0 },
            started: false,
            cid,
            op_idx: op_idx as u16,
            fault: op.fault,
        }
    }
}

impl Future for OpFut {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, w: &mut Context<'_>) -> Poll<()> {
        let cid = self.cid;
        if !self.started {
            self.started = true;
            let c = &mut world().clients[cid];
            c.op = self.op_idx;
            c.t0 = simrt::now();
            c.panic_at = if let Fault::Panic(n) = self.fault { n } else { 0 };
            c.alloc_at = if let Fault::Alloc(n) = self.fault { n } else { 0 };
        }
        let fut = self.fut.as_mut().unwrap();
        let r = lib(|| catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(w))));
        match r {
            Ok(Poll::Ready(())) => {
                drop_fut(&mut self.fut);
                disarm(cid);
                finish(cid, false);
                Poll::Ready(())
            }
            Ok(Poll::Pending) => {
                world().pendings += 1;
                if self.cancel_at > 0 {
                    self.cancel_at -= 1;
                    if self.cancel_at == 0 {
                        world().cancels += 1;
                        simrt::sched::count(Choice::Cancel);
                        disarm(cid);
                        drop_fut(&mut self.fut);
                        finish(cid, true);
                        return Poll::Ready(());
                    }
                }
                Poll::Pending
            }
            Err(e) => {
                let injected = e.downcast_ref::<SimFault>().is_some() || *simrt::sched::oom() == 2;
                host(|| drop(e));
                disarm(cid);
                drop_fut(&mut self.fut);
                finish(cid, true);
                if !injected {
                    simrt::fail("panic", "an operation panicked");
                }
                Poll::Ready(())
            }
        }
    }
}

fn disarm(cid: usize) {
    let c = &mut world().clients[cid];
    c.panic_at = 0;
    c.alloc_at = 0;
    *simrt::sched::oom() = 0;
}

fn drop_fut(f: &mut Option<Pin<Box<dyn Future<Output = ()>>>>) {
    let f = f.take();
    simrt::sched::dropping(true);
    lib(|| drop(f));
    simrt::sched::dropping(false);
}

/// Suspends the task once (it is woken at once).
pub struct Yield(bool);
impl Future for Yield {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// Keeps whatever is held for a while.
pub async fn hold(op: &Op) {
    if op.asy {
        for _ in 0..op.hold {
            Yield(false).await;
        }
    } else {
        hold_sync(op);
    }
}

pub fn hold_sync(op: &Op) {
    for _ in 0..op.hold * 4 {
        simrt::point();
    }
}

// ---------------------------------------------------------------------------------------------
// Executor.

const VT: RawWakerVTable = RawWakerVTable::new(
    |d| RawWaker::new(d, &VT),
    |d| wake(d as usize),
    |d| wake(d as usize),
    |_| (),
);

fn waker(task: usize) -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(task as *const (), &VT)) }
}

fn wake(task: usize) {
    if !simrt::sched::active() {
        return;
    }
    simrt::point();
    let w = world();
    let t = &mut w.tasks[task];
    weak::edge_release(&mut t.edge);
    match t.st {
        TaskSt::Idle => {
            t.st = TaskSt::Queued;
            if let Some(f) = t.fiber {
                simrt::unpark(f);
            } else {
                host(|| w.queue.push(task));
                if let Some(f) = w.idle_workers.pop() {
                    simrt::unpark(f);
                }
            }
        }
        TaskSt::Running => t.st = TaskSt::RunningWoken,
        TaskSt::Queued | TaskSt::RunningWoken | TaskSt::Done => (),
    }
}

/// Runs the client's task on the current fiber only.
pub fn run_pinned(cid: usize, fut: Pin<Box<dyn Future<Output = ()>>>) {
    let me = simrt::current();
    world().cur[me] = cid;
    let mut fut = fut;
    let t = &mut world().tasks[cid];
    t.fiber = Some(me);
    let wk = waker(cid);
    let mut cx = Context::from_waker(&wk);
    loop {
        let t = &mut world().tasks[cid];
        t.st = TaskSt::Running;
        weak::edge_acquire(&t.edge.clone());
        if fut.as_mut().poll(&mut cx).is_ready() {
            world().tasks[cid].st = TaskSt::Done;
            return;
        }
        let t = &mut world().tasks[cid];
        if t.st == TaskSt::RunningWoken {
            simrt::yield_now();
            continue;
        }
        t.st = TaskSt::Idle;
        simrt::park();
        if world().tasks[cid].st != TaskSt::Queued {
            world().spurious += 1;
        }
    }
}

pub fn add_task(cid: usize, fut: Pin<Box<dyn Future<Output = ()>>>) {
    let w = world();
    w.tasks[cid].fut = Some(fut);
    w.tasks[cid].st = TaskSt::Queued;
    w.queue.push(cid);
    w.live_tasks += 1;
}

/// A worker thread of the executor that moves tasks between threads.
pub fn run_worker(spurious_den: u64) {
    let me = simrt::current();
    loop {
        let w = world();
        if w.live_tasks == 0 {
            for f in host(|| std::mem::take(&mut w.idle_workers)) {
                simrt::unpark(f);
            }
            return;
        }
        if w.queue.is_empty() {
            // Poll a task that was not woken now and then.
            if spurious_den > 0 && simrt::choose(Choice::Spurious, spurious_den) != 0 {
                if let Some(t) = (0..w.tasks.len()).find(|t| w.tasks[*t].st == TaskSt::Idle && w.tasks[*t].fut.is_some()) {
                    w.spurious += 1;
                    w.tasks[t].st = TaskSt::Queued;
                    host(|| w.queue.push(t));
                    continue;
                }
            }
            host(|| w.idle_workers.push(me));
            simrt::park();
            let w = world();
            w.idle_workers.retain(|f| *f != me);
            continue;
        }
        let n = w.queue.len() as u64;
        let i = if n > 1 {
            simrt::choose_n(Choice::Migrate, n) as usize
        } else {
            0
        };
        let task = host(|| w.queue.remove(i));
        let mut fut = w.tasks[task].fut.take().unwrap();
        w.tasks[task].st = TaskSt::Running;
        if w.tasks[task].last_fiber != usize::MAX && w.tasks[task].last_fiber != me {
            w.migrations += 1;
            simrt::sched::count(Choice::Migrate);
        }
        w.tasks[task].last_fiber = me;
        w.cur[me] = task;
        weak::edge_acquire(&w.tasks[task].edge.clone());
        let wk = waker(task);
        let mut cx = Context::from_waker(&wk);
        let ready = fut.as_mut().poll(&mut cx).is_ready();
        let w = world();
        w.cur[me] = MAIN;
        weak::edge_release(&mut w.tasks[task].edge);
        if ready {
            host(|| drop(fut));
            w.tasks[task].st = TaskSt::Done;
            w.live_tasks -= 1;
        } else {
            w.tasks[task].fut = Some(fut);
            if w.tasks[task].st == TaskSt::RunningWoken {
                w.tasks[task].st = TaskSt::Queued;
                host(|| w.queue.push(task));
            } else {
                w.tasks[task].st = TaskSt::Idle;
            }
        }
        simrt::point();
    }
}

pub fn set_current(cid: usize) {
    world().cur[simrt::current()] = cid;
}
