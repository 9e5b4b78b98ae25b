//! Interpreters: one operation of a plan against a real container, with its observed effect.

use std::ops::Bound;

use scc::hash_cache::{Entry as CEntry, ReplaceResult as CReplace};
use scc::hash_index::Entry as IEntry;
use scc::hash_map::{Entry as MEntry, ReplaceResult as MReplace};
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use simrt::{fail_owned, host};

use crate::exec::{amend, cx, hold, hold_sync, maybe, seen, seen_from, sure, void};
use crate::hist::{self, ABSENT, ANY, SAME, WILD};
use crate::plan::{Code, Kind, Op, Plan};
use crate::ser::{At, Items, Reader, Tape, TapeErr};
use crate::vals::{Cb, K, Probe, SimHash, V, callback, excl, shrd};

pub type Hm = HashMap<K, V, SimHash>;
pub type Hs = HashSet<K, SimHash>;
pub type Hi = HashIndex<K, V, SimHash>;
pub type Hc = HashCache<K, V, SimHash>;
pub type Ti = TreeIndex<K, V>;

pub enum Cont {
    Hm(Hm),
    Hs(Hs),
    Hi(Hi),
    Hc(Hc),
    Ti(Ti),
}

/// A reservation that was alive at least during `[from, to]` and at most during `[from0, to0]`.
pub struct Resv {
    pub n: u64,
    pub from0: u64,
    pub from: u64,
    pub to: u64,
    pub to0: u64,
}
pub struct CapObs {
    pub t0: u64,
    pub t1: u64,
    pub cap: u64,
    pub min: u64,
    pub max: u64,
}
/// Uses of a cache entry that make it the most recently used one, and evictions.
pub struct Touch {
    pub key: u32,
    pub vid: u32,
    pub t0: u64,
    pub t1: u64,
}
pub struct Evict {
    pub key: u32,
    pub vid: u32,
    pub by: u32,
    pub t0: u64,
    pub t1: u64,
}

pub struct Shared {
    pub c: Cont,
    pub kind: Kind,
    pub nkeys: u32,
    pub max: u64,
    pub base: u64,
}

pub struct Notes {
    pub resv: Vec<Resv>,
    pub caps: Vec<CapObs>,
    pub touches: Vec<Touch>,
    pub evicts: Vec<Evict>,
    /// When operations started and ended.
    pub spans: Vec<(u64, u64)>,
    pub probes: std::collections::BTreeMap<&'static str, u64>,
}
static mut NOTES: Notes = Notes {
    resv: Vec::new(),
    caps: Vec::new(),
    touches: Vec::new(),
    evicts: Vec::new(),
    spans: Vec::new(),
    probes: std::collections::BTreeMap::new(),
};
#[allow(static_mut_refs)]
pub fn notes() -> &'static mut Notes {
    unsafe { &mut NOTES }
}
pub fn reset_notes() {
    let n = notes();
    n.resv.clear();
    n.caps.clear();
    n.touches.clear();
    n.evicts.clear();
    n.spans.clear();
}
/// Counts that a situation was reached.
pub fn probe(name: &'static str) {
    host(|| *notes().probes.entry(name).or_insert(0) += 1);
}

pub enum ResvH {
    Hm(#[allow(dead_code)] scc::hash_map::Reserve<'static, K, V, SimHash>, usize),
    Hs(#[allow(dead_code)] scc::hash_set::Reserve<'static, K, SimHash>, usize),
    Hi(#[allow(dead_code)] scc::hash_index::Reserve<'static, K, V, SimHash>, usize),
}

/// A reference obtained under a guard, with what it showed then.
struct Held {
    k: Option<&'static K>,
    v: &'static V,
    kinst: u32,
    kid: u32,
    vinst: u32,
    vid: u32,
}

struct Pinned {
    held: Vec<Held>,
    guard: Box<Guard>,
}

#[derive(Default)]
pub struct Local {
    resv: Vec<ResvH>,
    pins: Vec<Pinned>,
    /// Number of entries found by the last quiescent scan.
    count: usize,
    scanned: bool,
    /// Lengths reported at rest before the first quiescent scan.
    claims: [Option<usize>; 2],
    nonempty: Option<bool>,
    keys: Vec<u32>,
}

impl Local {
    pub fn release(&mut self, sh: &'static Shared) {
        while !self.resv.is_empty() {
            unreserve(self, sh);
        }
        while !self.pins.is_empty() {
            unpin(self);
        }
    }
}

pub fn build(p: &Plan) -> Cont {
    let h = SimHash {
        mode: p.hash,
        salt: p.salt,
    };
    let cap = p.cap as usize;
    match p.kind {
        Kind::Hm if cap == 0 => Cont::Hm(HashMap::with_hasher(h)),
        Kind::Hm => Cont::Hm(HashMap::with_capacity_and_hasher(cap, h)),
        Kind::Hs if cap == 0 => Cont::Hs(HashSet::with_hasher(h)),
        Kind::Hs => Cont::Hs(HashSet::with_capacity_and_hasher(cap, h)),
        Kind::Hi if cap == 0 => Cont::Hi(HashIndex::with_hasher(h)),
        Kind::Hi => Cont::Hi(HashIndex::with_capacity_and_hasher(cap, h)),
        Kind::Hc => Cont::Hc(HashCache::with_capacity_and_hasher(cap, p.max as usize, h)),
        Kind::Ti => Cont::Ti(TreeIndex::new()),
    }
}

macro_rules! sa {
    ($op:expr, $s:expr, $a:expr) => {
        if $op.asy { $a.await } else { $s }
    };
}
/// Lookup by the key type or by an equivalent type.
macro_rules! by_key {
    ($op:expr, $q:ident, $e:expr) => {
        if $op.probe {
            let $q = &Probe($op.k);
            $e
        } else {
            let key = K::new($op.k);
            let $q = &key;
            $e
        }
    };
}
macro_rules! look {
    ($op:expr, $m:expr, $s:ident, $a:ident $(, $arg:expr)*) => {
        if $op.probe {
            if $op.asy {
                $m.$a(&Probe($op.k) $(, $arg)*).await
            } else {
                $m.$s(&Probe($op.k) $(, $arg)*)
            }
        } else {
            let key = K::new($op.k);
            if $op.asy {
                $m.$a(&key $(, $arg)*).await
            } else {
                $m.$s(&key $(, $arg)*)
            }
        }
    };
}

#[cold]
fn wrong(what: String) -> ! {
    fail_owned("wrong-result", what)
}

fn same_back(k: &K, ki: u32, v: Option<(&V, u32)>) {
    k.touch();
    if k.inst != ki {
        wrong(format!("a refused operation returned key instance {} instead of {}", k.inst, ki));
    }
    if let Some((v, vi)) = v {
        v.read();
        if v.inst != vi {
            wrong(format!("a refused operation returned value instance {} instead of {}", v.inst, vi));
        }
    }
}

fn right_key(k: &K, id: u32) {
    k.touch();
    if k.id != id {
        wrong(format!("an operation on key {id} returned key {}", k.id));
    }
}

fn right_val(got: u32, want: u32, what: &str) {
    if got != want {
        wrong(format!("{what}: value {got}, expected {want}"));
    }
}

fn bit(m: u64, k: u32) -> bool {
    m >> (k % 64) & 1 != 0
}

pub struct Visit {
    seen: Vec<u32>,
    pub n: u32,
}

impl Visit {
    fn new(sh: &Shared) -> Visit {
        Visit {
            seen: host(|| vec![0; sh.nkeys as usize]),
            n: 0,
        }
    }
    fn mark(&mut self, k: u32) {
        self.n += 1;
        match self.seen.get_mut(k as usize) {
            Some(x) => *x += 1,
            None => wrong(format!("a scan shows key {k}, which nobody ever inserted")),
        }
    }
    /// Every key in range that was not visited was absent at some moment since the start.
    fn missing(&self, what: &'static str, lo: u32, hi: u32) {
        for k in lo..hi.min(self.seen.len() as u32) {
            if self.seen[k as usize] == 0 {
                seen(k, ABSENT, SAME, what);
            }
        }
    }
    fn all(&self, what: &'static str) {
        self.missing(what, 0, u32::MAX);
    }
    fn once(&self, what: &str) {
        for (k, n) in self.seen.iter().enumerate() {
            if *n > 1 {
                wrong(format!("{what} shows key {k} {n} times with nobody else active"));
            }
        }
    }
}
impl Drop for Visit {
    fn drop(&mut self) {
        host(|| drop(std::mem::take(&mut self.seen)));
    }
}

fn touched(sh: &Shared, key: u32, vid: u32) {
    if sh.kind == Kind::Hc {
        let t0 = cx().t0;
        let t1 = simrt::now();
        host(|| notes().touches.push(Touch { key, vid, t0, t1 }));
    }
}

fn evicted(e: Option<(K, V)>, by: u32) -> bool {
    if let Some((k, v)) = e {
        k.touch();
        let vid = v.read();
        let h = seen(k.id, vid, ABSENT, "evicted");
        let t0 = cx().t0;
        let t1 = simrt::now();
        cx().eff[h].t1 = t1;
        host(|| {
            notes().evicts.push(Evict {
                key: k.id,
                vid,
                by,
                t0,
                t1,
            });
        });
        true
    } else {
        false
    }
}

pub async fn run_op(sh: &'static Shared, op: &Op, l: &mut Local) {
    match &sh.c {
        Cont::Hm(m) => hm_op(sh, m, op, l).await,
        Cont::Hs(m) => hs_op(sh, m, op, l).await,
        Cont::Hi(m) => hi_op(sh, m, op, l).await,
        Cont::Hc(m) => hc_op(sh, m, op, l).await,
        Cont::Ti(m) => ti_op(sh, m, op, l).await,
    }
}

// ---------------------------------------------------------------------------------------------
// Parts shared by HashMap and HashCache.

fn read_fn(op: &Op, h: usize) -> impl FnOnce(&K, &V) -> u32 {
    let id = op.k;
    let op = op.clone();
    move |k: &K, v: &V| {
        callback(Cb::Closure);
        right_key(k, id);
        let s = shrd(v);
        let x = v.read();
        hold_sync(&op);
        right_val(v.read(), x, "value changed while being read");
        drop(s);
        sure(h, x, SAME);
        x
    }
}

/// Decision of a removal condition with mutable access: (effect known, remove?)
fn cond_mut(op: &Op, h: usize) -> impl FnOnce(&mut V) -> bool {
    let op = op.clone();
    move |v: &mut V| {
        callback(Cb::Closure);
        let e = excl(v);
        let old = v.read();
        hold_sync(&op);
        let remove = match op.a % 5 {
            0 | 3 => false,
            1 | 4 => true,
            _ => old % 2 == 0,
        };
        if op.a % 5 >= 3 {
            v.write(op.v);
            if remove {
                amend(h, old, ABSENT);
            } else {
                sure(h, old, op.v);
            }
        } else if remove {
            amend(h, old, ABSENT);
        } else {
            sure(h, old, SAME);
        }
        drop(e);
        remove
    }
}

macro_rules! map_common {
    ($sh:expr, $m:expr, $op:expr, $l:expr) => {{
        let (sh, m, op) = ($sh, $m, $op);
        match op.code {
            Code::Read => {
                let h = maybe(op.k, ANY, SAME, "read");
                void(h);
                let r = look!(op, m, read_sync, read_async, read_fn(op, h));
                if r.is_none() {
                    sure(h, ABSENT, SAME);
                }
            }
            Code::Contains => {
                let h = maybe(op.k, ANY, SAME, "contains");
                void(h);
                let r = look!(op, m, contains_sync, contains_async);
                sure(h, if r { ANY } else { ABSENT }, SAME);
            }
            Code::Remove => {
                let h = maybe(op.k, ANY, ABSENT, "remove");
                match look!(op, m, remove_sync, remove_async) {
                    Some((k, v)) => {
                        right_key(&k, op.k);
                        sure(h, v.read(), ABSENT);
                    }
                    None => sure(h, ABSENT, SAME),
                }
            }
            Code::RemoveIf => {
                let h = maybe(op.k, ANY, SAME, "remove_if");
                void(h);
                let r = look!(op, m, remove_if_sync, remove_if_async, cond_mut(op, h));
                let p = &cx().eff[h];
                let (live, was_sure, pre) = (p.live, p.sure, p.pre);
                match r {
                    Some((k, v)) => {
                        right_key(&k, op.k);
                        if !live || was_sure {
                            wrong(format!("remove_if({}) removed without consent", op.k));
                        }
                        let want = if op.a % 5 == 4 { op.v } else { pre };
                        right_val(v.read(), want, "remove_if returned");
                        sure(h, pre, ABSENT);
                    }
                    None if !live => sure(h, ABSENT, SAME),
                    None if !was_sure => {
                        wrong(format!("remove_if({}) approved but returned nothing", op.k))
                    }
                    None => (),
                }
            }
            Code::Scan => {
                let mut vis = Visit::new(sh);
                let mut f = |k: &K, v: &V| {
                    callback(Cb::Closure);
                    k.touch();
                    let s = shrd(v);
                    let x = v.read();
                    hold_sync(op);
                    right_val(v.read(), x, "value changed while being read");
                    drop(s);
                    seen(k.id, x, SAME, "scan saw");
                    vis.mark(k.id);
                    op.a == 0 || vis.n < op.a
                };
                let done = sa!(op, m.iter_sync(&mut f), m.iter_async(&mut f));
                if done {
                    vis.all("not seen by scan");
                }
                if done != (op.a == 0 || vis.n < op.a) {
                    wrong(format!("iter returned {done} after {} entries (limit {})", vis.n, op.a));
                }
            }
            Code::Retain => {
                let mut vis = Visit::new(sh);
                let mut nv = op.v;
                let mut f = |k: &K, v: &mut V| {
                    callback(Cb::Closure);
                    k.touch();
                    let e = excl(v);
                    let pre = v.read();
                    hold_sync(op);
                    let mut post = SAME;
                    if op.b & 1 != 0 && bit(op.m.rotate_left(7), k.id) {
                        post = nv;
                        v.write(nv);
                        nv += 1;
                    }
                    drop(e);
                    vis.mark(k.id);
                    if bit(op.m, k.id) {
                        seen(k.id, pre, ABSENT, "retain removed");
                        false
                    } else {
                        seen(k.id, pre, post, "retain kept");
                        true
                    }
                };
                sa!(op, m.retain_sync(&mut f), m.retain_async(&mut f));
                vis.all("not seen by retain");
            }
            Code::IterMut => {
                let mut vis = Visit::new(sh);
                let mut nv = op.v;
                macro_rules! body {
                    () => {
                        |mut e| {
                            callback(Cb::Closure);
                            let id = {
                                e.0.touch();
                                e.0.id
                            };
                            let x = excl(&e.1);
                            let pre = e.1.read();
                            hold_sync(op);
                            let mut post = SAME;
                            if op.b & 1 != 0 && bit(op.m.rotate_left(7), id) {
                                e.1.write(nv);
                                post = nv;
                                nv += 1;
                            }
                            drop(x);
                            vis.mark(id);
                            if bit(op.m, id) {
                                let h = seen(id, pre, ABSENT, "iter_mut consumed");
                                let (k, v) = e.consume();
                                cx().eff[h].t1 = simrt::now();
                                right_key(&k, id);
                                right_val(
                                    v.read(),
                                    if post == SAME { pre } else { post },
                                    "consume returned",
                                );
                            } else {
                                seen(id, pre, post, "iter_mut saw");
                            }
                            op.a == 0 || vis.n < op.a
                        }
                    };
                }
                let done = if op.asy {
                    m.iter_mut_async(body!()).await
                } else {
                    m.iter_mut_sync(body!())
                };
                if done {
                    vis.all("not seen by iter_mut");
                }
                if done != (op.a == 0 || vis.n < op.a) {
                    wrong(format!("iter_mut returned {done} after {} entries", vis.n));
                }
            }
            Code::Clear => {
                let hs = clear_maybe(sh);
                sa!(op, m.clear_sync(), m.clear_async());
                clear_sure(hs);
            }
            Code::Cap => cap_obs(|| {
                let c = m.capacity();
                let r = m.capacity_range();
                (c, *r.start(), *r.end())
            }),
            Code::Len => len_obs(sh, || (m.len(), m.is_empty())),
            Code::FinalAll => {
                let mut vis = Visit::new(sh);
                m.iter_sync(|k, v| {
                    k.touch();
                    seen(k.id, v.read(), SAME, "final scan");
                    vis.mark(k.id);
                    true
                });
                vis.all("missing in final scan");
                vis.once("the final scan");
                final_counts(&vis, $l);
                for k in 0..sh.nkeys {
                    let t0 = simrt::now();
                    let r = m.read_sync(&Probe(k), |key, v| {
                        right_key(key, k);
                        v.read()
                    });
                    seen_from(t0, k, r.unwrap_or(ABSENT), "final read");
                }
            }
            Code::FinalLen => {
                final_lens(op, $l, || m.len(), || m.is_empty());
            }
            Code::Pause => hold(op).await,
            _ => return false,
        }
        true
    }};
}

fn clear_maybe(sh: &Shared) -> Vec<usize> {
    let mut v = host(|| Vec::with_capacity(sh.nkeys as usize));
    for k in 0..sh.nkeys {
        maybe(k, ANY, ABSENT, hist::MANY);
        let h = maybe(k, WILD, ABSENT, "clear");
        v.push(h);
    }
    v
}

fn clear_sure(hs: Vec<usize>) {
    for h in &hs {
        sure(*h, WILD, ABSENT);
    }
    host(|| drop(hs));
}

fn cap_obs(f: impl FnOnce() -> (usize, usize, usize)) {
    let t0 = simrt::now();
    let (cap, min, max) = f();
    let t1 = simrt::now();
    host(|| {
        notes().caps.push(CapObs {
            t0,
            t1,
            cap: cap as u64,
            min: min as u64,
            max: max as u64,
        });
    });
}

fn len_obs(sh: &Shared, f: impl FnOnce() -> (usize, bool)) {
    let (n, _) = f();
    if sh.kind == Kind::Hc && n as u64 > sh.max.max(64).next_power_of_two() {
        wrong(format!("the cache holds {n} entries, its maximum capacity is {}", sh.max));
    }
}

/// Before the first scan the claim is kept: a scan finishes whatever is in progress.
fn final_lens(op: &Op, l: &mut Local, len: impl Fn() -> usize, empty: impl Fn() -> bool) {
    if l.scanned {
        final_len(len(), empty(), l);
    } else if op.v >> 1 & 1 == 0 {
        l.claims[0] = Some(len());
        l.nonempty = Some(!empty());
    } else {
        l.nonempty = Some(!empty());
        l.claims[0] = Some(len());
    }
}

fn clone_len(n: usize, l: &mut Local) {
    if l.scanned {
        iso("length of the clone", n, l.count);
    } else {
        l.claims[1] = Some(n);
    }
}

fn final_counts(vis: &Visit, l: &mut Local) {
    l.count = vis.n as usize;
    if !l.scanned {
        l.scanned = true;
        let c = l.count;
        if let Some(n) = l.claims[0].filter(|n| *n != c) {
            fail_owned("count", format!("len() is {n} but the scan at rest that follows yields {c} entries"));
        }
        if l.nonempty.is_some_and(|x| x != (c > 0)) {
            fail_owned("count", format!("is_empty() is {} but the scan at rest that follows yields {c} entries", c > 0));
        }
        if let Some(n) = l.claims[1].filter(|n| *n != c) {
            fail_owned("copy", format!("a clone has {n} entries, the scan of its origin that follows yields {c}"));
        }
    }
    host(|| {
        l.keys = vis
            .seen
            .iter()
            .enumerate()
            .filter(|(_, n)| **n > 0)
            .map(|(k, _)| k as u32)
            .collect();
    });
}

fn final_len(len: usize, empty: bool, l: &Local) {
    if len != l.count {
        fail_owned("count", format!("len() is {len} but a scan at rest yields {} entries", l.count));
    }
    if empty != (l.count == 0) {
        fail_owned("count", format!("is_empty() is {empty} but a scan at rest yields {} entries", l.count));
    }
}

fn iso(what: &str, a: usize, b: usize) {
    if a != b {
        fail_owned("copy", format!("{what}: {a} vs {b}"));
    }
}

// ---------------------------------------------------------------------------------------------
// HashMap.

macro_rules! rmw_occupied {
    ($op:expr, $o:expr, $h:expr, $insert:ident) => {{
        let mut o = $o;
        let (op, h) = ($op, $h);
        right_key(o.key(), op.k);
        let e = excl(o.get());
        let pre = o.get().read();
        sure(h, pre, SAME);
        hold(op).await;
        right_val(o.get().read(), pre, "value changed under an exclusive handle");
        match op.a % 3 {
            0 => {
                o.get_mut().write(op.v);
                sure(h, pre, op.v);
            }
            1 => {
                let old = o.$insert(V::new(op.v));
                sure(h, pre, op.v);
                right_val(old.read(), pre, "insert returned");
            }
            _ => (),
        }
        hold(op).await;
        let now = if op.a % 3 == 2 { pre } else { op.v };
        right_val(o.get().read(), now, "value changed under an exclusive handle");
        drop(e);
    }};
}

async fn hm_op(sh: &'static Shared, m: &'static Hm, op: &Op, l: &mut Local) {
    if hm_common(sh, m, op, l).await {
        return;
    }
    match op.code {
        Code::Insert => {
            let (k, v) = (K::new(op.k), V::new(op.v));
            let (ki, vi) = (k.inst, v.inst);
            let h = maybe(op.k, ABSENT, op.v, "insert");
            match sa!(op, m.insert_sync(k, v), m.insert_async(k, v)) {
                Ok(()) => sure(h, ABSENT, op.v),
                Err((k, v)) => {
                    same_back(&k, ki, Some((&v, vi)));
                    sure(h, ANY, SAME);
                }
            }
        }
        Code::Upsert => {
            let (k, v) = (K::new(op.k), V::new(op.v));
            let h = maybe(op.k, WILD, op.v, "upsert");
            match sa!(op, m.upsert_sync(k, v), m.upsert_async(k, v)) {
                Some(old) => sure(h, old.read(), op.v),
                None => sure(h, ABSENT, op.v),
            }
        }
        Code::Update => {
            let h = maybe(op.k, ANY, SAME, "update");
            void(h);
            let f = |k: &K, v: &mut V| {
                callback(Cb::Closure);
                right_key(k, op.k);
                let e = excl(v);
                let old = v.read();
                sure(h, old, SAME);
                hold_sync(op);
                v.write(op.v);
                sure(h, old, op.v);
                hold_sync(op);
                right_val(v.read(), op.v, "value changed during update");
                drop(e);
                callback(Cb::Closure);
                old
            };
            let r = look!(op, m, update_sync, update_async, f);
            if r.is_none() {
                sure(h, ABSENT, SAME);
            }
        }
        Code::EntryOrInsert => {
            let h = maybe(op.k, ABSENT, op.v, "entry.or_insert");
            cx().default_vid = op.v;
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            right_key(e.key(), op.k);
            let o = match op.a % 4 {
                0 => e.or_insert(V::new(op.v)),
                1 => e.or_insert_with(|| {
                    callback(Cb::Closure);
                    V::new(op.v)
                }),
                2 => e.or_insert_with_key(|k| {
                    callback(Cb::Closure);
                    right_key(k, op.k);
                    V::new(op.v)
                }),
                _ => e.or_default(),
            };
            let x = o.get().read();
            if x == op.v {
                sure(h, ABSENT, x);
            } else {
                sure(h, x, SAME);
            }
            hold(op).await;
        }
        Code::EntryModify => {
            let h = maybe(op.k, ABSENT, op.v + 1, "entry.and_modify.or_insert");
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            let mut ran = false;
            let e = e.and_modify(|v| {
                amend(h, ANY, SAME);
                callback(Cb::Closure);
                let x = excl(v);
                let old = v.read();
                hold_sync(op);
                v.write(op.v);
                sure(h, old, op.v);
                drop(x);
                ran = true;
            });
            let o = e.or_insert(V::new(op.v + 1));
            let x = o.get().read();
            if ran {
                right_val(x, op.v, "and_modify");
            } else {
                right_val(x, op.v + 1, "or_insert");
                sure(h, ABSENT, op.v + 1);
            }
            hold(op).await;
        }
        Code::EntryInsert => {
            let h = maybe(op.k, WILD, op.v, "entry.insert_entry");
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            let pre = match &e {
                MEntry::Occupied(o) => o.get().read(),
                MEntry::Vacant(_) => ABSENT,
            };
            amend(h, pre, op.v);
            let o = e.insert_entry(V::new(op.v));
            sure(h, pre, op.v);
            hold(op).await;
            right_val(o.get().read(), op.v, "insert_entry");
        }
        Code::EntryRmw | Code::TryEntry => {
            let h = maybe(op.k, ANY, SAME, "entry");
            void(h);
            let e = if op.code == Code::TryEntry {
                match m.try_entry(K::new(op.k)) {
                    Some(e) => e,
                    None => return,
                }
            } else {
                sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)))
            };
            match e {
                MEntry::Occupied(o) => rmw_occupied!(op, o, h, insert),
                MEntry::Vacant(va) => {
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                    if op.b & 1 != 0 {
                        right_key(&va.into_key(), op.k);
                    } else {
                        cx().eff[h].sure = false;
                        amend(h, ABSENT, op.v);
                        let o = va.insert_entry(V::new(op.v));
                        sure(h, ABSENT, op.v);
                        hold(op).await;
                        right_val(o.get().read(), op.v, "value changed under an exclusive handle");
                    }
                }
            }
        }
        Code::EntryRemove => {
            let h = maybe(op.k, ANY, SAME, "entry.remove");
            void(h);
            match sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k))) {
                MEntry::Occupied(o) => {
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    sure(h, pre, ABSENT);
                    if op.a & 1 == 0 {
                        let (k, v) = o.remove_entry();
                        right_key(&k, op.k);
                        right_val(v.read(), pre, "remove_entry");
                    } else {
                        right_val(o.remove().read(), pre, "remove");
                    }
                }
                MEntry::Vacant(_) => sure(h, ABSENT, SAME),
            }
        }
        Code::EntryLook => {
            let h = maybe(op.k, ANY, SAME, "entry (look)");
            void(h);
            match sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k))) {
                MEntry::Occupied(o) => {
                    let e = excl(o.get());
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    right_val(o.get().read(), pre, "value changed under an exclusive handle");
                    drop(e);
                }
                MEntry::Vacant(va) => {
                    right_key(va.key(), op.k);
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                }
            }
        }
        Code::Get => {
            let h = maybe(op.k, ANY, SAME, "get");
            void(h);
            match look!(op, m, get_sync, get_async) {
                None => sure(h, ABSENT, SAME),
                Some(o) if op.a % 4 == 3 => {
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    sure(h, pre, ABSENT);
                    right_val(o.remove_entry().1.read(), pre, "remove_entry");
                }
                Some(o) => rmw_occupied!(op, o, h, insert),
            }
        }
        Code::Replace => {
            let h = maybe(op.k, ANY, SAME, "replace");
            void(h);
            let k = K::new(op.k);
            match sa!(op, m.replace_sync(k), m.replace_async(k)) {
                MReplace::Replaced(o, old) => {
                    right_key(&old, op.k);
                    rmw_occupied!(op, o, h, insert);
                }
                MReplace::NotReplaced(va) => {
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                    cx().eff[h].sure = false;
                    amend(h, ABSENT, op.v);
                    let _o = va.insert_entry(V::new(op.v));
                    sure(h, ABSENT, op.v);
                }
            }
        }
        Code::Any => {
            let mut f = |k: &K, v: &V| {
                callback(Cb::Closure);
                v.read();
                k.id == op.k
            };
            match sa!(op, m.any_sync(&mut f), m.any_async(&mut f)) {
                Some(o) => {
                    right_key(o.key(), op.k);
                    let e = excl(o.get());
                    seen(op.k, o.get().read(), SAME, "any found");
                    hold(op).await;
                    drop(e);
                }
                None => {
                    seen(op.k, ABSENT, SAME, "any did not find");
                }
            }
        }
        Code::Walk | Code::WalkRemove => {
            let mut vis = Visit::new(sh);
            let mut nv = op.v;
            let mut cur = sa!(op, m.begin_sync(), m.begin_async());
            while let Some(mut o) = cur {
                let id = o.key().id;
                o.key().touch();
                vis.mark(id);
                let e = excl(o.get());
                let pre = o.get().read();
                let h = seen(id, pre, SAME, "walk saw");
                hold(op).await;
                if op.b & 1 != 0 && bit(op.m.rotate_left(9), id) {
                    o.get_mut().write(nv);
                    sure(h, pre, nv);
                    cx().eff[h].t1 = simrt::now();
                    nv += 1;
                }
                let val = o.get().read();
                drop(e);
                if op.a > 0 && vis.n >= op.a {
                    return;
                }
                cur = if op.code == Code::WalkRemove && bit(op.m, id) {
                    sure(h, pre, ABSENT);
                    cx().eff[h].t1 = 0;
                    let ((k, v), n) = sa!(op, o.remove_and_sync(), o.remove_and_async());
                    right_key(&k, id);
                    right_val(v.read(), val, "remove_and");
                    n
                } else {
                    sa!(op, o.next_sync(), o.next_async())
                };
            }
            vis.all("not seen by walk");
        }
        Code::Reserve => reserve_op(op, l, |n| {
            m.reserve(n).map(|r| {
                let a = r.additional_capacity();
                (ResvH::Hm(r, 0), a)
            })
        }),
        Code::Unreserve => unreserve(l, sh),
        Code::CloneCmp => {
            let c = m.clone();
            let mut vis = Visit::new(sh);
            c.iter_sync(|k, v| {
                seen(k.id, v.read(), SAME, "clone has");
                vis.mark(k.id);
                true
            });
            vis.all("not in clone");
            vis.once("a clone");
        }
        Code::FinalClone => {
            let c = m.clone();
            clone_len(c.len(), l);
            if c != *m || *m != c {
                fail_owned("copy", "a clone differs from its origin at rest".into());
            }
            for k in 0..sh.nkeys {
                let a = m.read_sync(&Probe(k), |_, v| v.read());
                let b = c.read_sync(&Probe(k), |_, v| v.read());
                if a != b {
                    fail_owned("copy", format!("key {k}: {a:?} in the origin, {b:?} in the clone"));
                }
            }
            if let Some(k) = l.keys.first().copied() {
                let v = c.read_sync(&Probe(k), |_, v| v.read());
                c.update_sync(&Probe(k), |_, v| v.write(op.v));
                if m.read_sync(&Probe(k), |_, v| v.read()) != v {
                    fail_owned("copy", "changing the clone changed the origin".into());
                }
                if c == *m {
                    fail_owned("copy", "containers with different values are equal".into());
                }
                c.remove_sync(&Probe(k));
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
            }
            if !l.keys.is_empty() {
                let _ = c.insert_sync(K::new(sh.nkeys + 7), V::new(op.v + 1));
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
            }
        }
        Code::FinalTry => final_try(sh, |k| m.try_entry(K::new(k)).is_some()),
        Code::Ser => ser_op(sh, m, op, "scan saw", "not seen by scan"),
        Code::FinalSer => final_ser(sh, m, op),
        Code::FinalFrom => final_from::<Hm>(sh, op),
        Code::FinalUse => {
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let old = m.upsert_sync(K::new(k), V::new(op.v + k));
                let h = seen(k, old.as_ref().map_or(ABSENT, |o| o.read()), op.v + k, "final upsert");
                cx().eff[h].t0 = t0;
            }
            final_len(m.len(), m.is_empty(), &Local { count: sh.nkeys as usize, ..Local::default() });
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let old = m.remove_sync(&Probe(k));
                let h = seen(k, old.map_or(ABSENT, |o| o.1.read()), ABSENT, "final remove");
                cx().eff[h].t0 = t0;
            }
            final_len(m.len(), m.is_empty(), &Local::default());
        }
        Code::FinalShrink => final_shrink(
            sh,
            op,
            l,
            || m.capacity(),
            |k, v| {
                let _ = m.upsert_sync(K::new(k), V::new(v));
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        Code::FinalGrow => final_grow(
            sh,
            op,
            l,
            || m.capacity(),
            |n| m.reserve(n),
            |k, v| {
                let _ = m.upsert_sync(K::new(k), V::new(v));
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        Code::Pause => hold(op).await,
        _ => (),
    }
}

// ---------------------------------------------------------------------------------------------
// Serialization and construction.

trait Whole: serde::Serialize + for<'d> serde::Deserialize<'d> + PartialEq {
    /// A value, 0 for an element of a set.
    fn look(&self, k: u32) -> Option<u32>;
    fn count(&self) -> usize;
    fn max_capacity(&self) -> usize {
        0
    }
    /// None if there is no such constructor.
    fn collect(_items: &[(u32, u32)]) -> Option<Self>
    where
        Self: Sized,
    {
        None
    }
}
impl Whole for Hm {
    fn look(&self, k: u32) -> Option<u32> {
        self.read_sync(&Probe(k), |_, v| v.read())
    }
    fn count(&self) -> usize {
        self.len()
    }
    fn collect(items: &[(u32, u32)]) -> Option<Hm> {
        Some(items.iter().map(|x| (K::new(x.0), V::new(x.1))).collect())
    }
}
impl Whole for Hc {
    fn look(&self, k: u32) -> Option<u32> {
        self.read_sync(&Probe(k), |_, v| v.read())
    }
    fn count(&self) -> usize {
        self.len()
    }
    fn max_capacity(&self) -> usize {
        *self.capacity_range().end()
    }
    fn collect(items: &[(u32, u32)]) -> Option<Hc> {
        Some(items.iter().map(|x| (K::new(x.0), V::new(x.1))).collect())
    }
}
impl Whole for Hs {
    fn look(&self, k: u32) -> Option<u32> {
        self.read_sync(&Probe(k), |k| k.touch()).map(|()| 0)
    }
    fn collect(items: &[(u32, u32)]) -> Option<Hs> {
        Some(items.iter().map(|x| K::new(x.0)).collect())
    }
    fn count(&self) -> usize {
        self.len()
    }
}
impl Whole for Hi {
    fn collect(items: &[(u32, u32)]) -> Option<Hi> {
        Some(items.iter().map(|x| (K::new(x.0), V::new(x.1))).collect())
    }
    fn look(&self, k: u32) -> Option<u32> {
        self.peek_with(&Probe(k), |_, v| v.read())
    }
    fn count(&self) -> usize {
        self.len()
    }
}
impl Whole for Ti {
    fn look(&self, k: u32) -> Option<u32> {
        self.peek_with(&Probe(k), |_, v| v.read())
    }
    fn count(&self) -> usize {
        self.len()
    }
}

#[cold]
fn serde_bad(what: String) -> ! {
    fail_owned("serde", what)
}

/// A container built from `items` has exactly these keys, each with one of its values.
fn holds<C: Whole>(sh: &Shared, c: &C, items: &[(u32, u32)], what: &str) {
    let mut n = 0;
    for k in 0..sh.nkeys {
        let vals = || items.iter().filter(|x| x.0 == k).map(|x| x.1);
        match c.look(k) {
            Some(v) => {
                n += 1;
                if !vals().any(|x| x == v || sh.kind == Kind::Hs) {
                    serde_bad(format!("{what}: key {k} has value {v}, the input has {:?}", host(|| vals().collect::<Vec<_>>())));
                }
            }
            // A cache may have evicted it.
            None if sh.kind == Kind::Hc && items.len() > 32 => (),
            None => {
                if let Some(v) = vals().next() {
                    serde_bad(format!("{what}: key {k} with value {v} is missing"));
                }
            }
        }
    }
    if c.count() != n {
        serde_bad(format!("{what}: len() is {}, {n} keys are there", c.count()));
    }
}

fn read_back<C: Whole>(sh: &Shared, items: &[(u32, u32)], hint: Option<usize>, fail: At) -> Option<C> {
    let mut rd = Reader::new(items, hint, fail);
    match (C::deserialize(&mut rd), rd.failed) {
        (Ok(c), false) => {
            holds(sh, &c, items, "deserialized");
            Some(c)
        }
        (Err(TapeErr::Injected), true) => None,
        (Ok(_), true) => serde_bad("an error of the input is ignored".into()),
        (Err(e), f) => serde_bad(format!("deserialization fails with {e:?}, injected: {f}")),
    }
}

fn tape_result(r: Result<(), TapeErr>, failed: bool, ended: bool) -> bool {
    match (r, failed, ended) {
        (Ok(()), false, true) => true,
        (Err(TapeErr::Injected), true, false) => false,
        (r, ..) => serde_bad(format!("serialization returns {r:?}, injected error: {failed}, finished: {ended}")),
    }
}

fn hint_of(sh: &Shared, n: usize, hint: Option<usize>, how: u32) -> Option<usize> {
    match how % 6 {
        0 | 1 => hint,
        2 => None,
        3 => Some(0),
        4 => Some(n / 2 + 1),
        _ if sh.kind == Kind::Hc => Some(usize::MAX),
        _ => Some(n * 3 + 70),
    }
}

/// Serializes while others are active, then reads that back.
fn ser_op<C: Whole>(sh: &Shared, c: &C, op: &Op, saw: &'static str, missing: &'static str) {
    let fail = match op.b % 8 {
        1 => At::Begin,
        2 | 3 => At::Token(1 + (op.m % 40) as u32),
        4 => At::End,
        _ => At::Nowhere,
    };
    let mut vis = Visit::new(sh);
    let mut prev: Option<u32> = None;
    let mut tape = Tape::new(fail, |k, inst, v| {
        if sh.kind == Kind::Ti && prev.is_some_and(|p| p >= k) {
            fail_owned("order", format!("key {k} is serialized after key {}", prev.unwrap()));
        }
        prev = Some(k);
        seen(k, if sh.kind == Kind::Hs { inst + 1 } else { v }, SAME, saw);
        vis.mark(k);
    });
    let r = c.serialize(&mut tape);
    let ok = tape_result(r, tape.failed, tape.ended);
    let items = std::mem::take(&mut tape.items);
    let hint = tape.hint;
    drop(tape);
    if ok {
        vis.all(missing);
        probe("serialized while others are active");
    } else {
        probe("serializer fails");
    }
    if op.m >> 6 & 1 != 0 {
        let n = items.0.len();
        let fail = match op.m >> 7 & 3 {
            0 => At::Token(1 + (op.m >> 9 & 31) as u32),
            _ => At::Nowhere,
        };
        drop(read_back::<C>(sh, &items.0, hint_of(sh, n, hint, (op.m >> 16) as u32), fail));
    }
}

fn final_ser<C: Whole>(sh: &Shared, m: &C, op: &Op) {
    let mut vis = Visit::new(sh);
    let mut tape = Tape::new(At::Nowhere, |k, inst, v| {
        seen(k, if sh.kind == Kind::Hs { inst + 1 } else { v }, SAME, "serialized at rest");
        vis.mark(k);
    });
    let r = m.serialize(&mut tape);
    if !tape_result(r, tape.failed, tape.ended) {
        serde_bad("no result".into());
    }
    let items = std::mem::take(&mut tape.items);
    let hint = tape.hint;
    if tape.begun != 1 || tape.map == (sh.kind == Kind::Hs) {
        serde_bad("not serialized as one map or sequence".into());
    }
    drop(tape);
    vis.all("not serialized at rest");
    vis.once("the serialized form at rest");
    let n = items.0.len();
    if sh.kind != Kind::Hc && hint != Some(n) {
        serde_bad(format!("{n} entries are serialized at rest, announced were {hint:?}"));
    }
    let same = |c: &C, what: &str| {
        if sh.kind == Kind::Hc && n > 32 {
            return;
        }
        if *c != *m || *m != *c {
            serde_bad(format!("{what} differs from the original at rest"));
        }
    };
    if let Some(c) = read_back::<C>(sh, &items.0, hint, At::Nowhere) {
        same(&c, "the deserialized container");
        if c.max_capacity() != m.max_capacity() {
            serde_bad(format!("maximum capacity {} becomes {}", m.max_capacity(), c.max_capacity()));
        }
    }
    if let Some(c) = read_back::<C>(sh, &items.0, hint_of(sh, n, hint, op.v), At::Nowhere) {
        same(&c, "the container deserialized with another size hint");
    }
    // Errors on either side.
    let t = op.v % (2 * n as u32 + 3);
    let fail = match t {
        0 => At::Begin,
        1 => At::End,
        _ => At::Token(t - 1),
    };
    drop(read_back::<C>(sh, &items.0, hint, fail));
    let mut tape = Tape::new(fail, |_, _, _| ());
    let r = m.serialize(&mut tape);
    tape_result(r, tape.failed, tape.ended);
}

fn final_from<C: Whole>(sh: &Shared, op: &Op) {
    let n = 1 + op.v % 90;
    let items = host(|| {
        // With repetitions.
        let mut items = Items::default();
        for i in 0..n {
            items.0.push((op.v.wrapping_mul(7).wrapping_add(i * (1 + op.v % 5)) % sh.nkeys.max(1), op.v + i));
        }
        items
    });
    if let Some(c) = C::collect(&items.0) {
        holds(sh, &c, &items.0, "collected");
    }
}

async fn hm_common(sh: &'static Shared, m: &'static Hm, op: &Op, l: &mut Local) -> bool {
    map_common!(sh, m, op, l)
}

/// Nobody uses the container any more: `try_entry` has no reason to give up.
fn final_try(sh: &Shared, try_entry: impl Fn(u32) -> bool) {
    for k in 0..sh.nkeys.min(64) {
        if !try_entry(k) {
            fail_owned("try", format!("try_entry({k}) gives up although nobody else uses the container"));
        }
    }
}

fn final_shrink(
    sh: &Shared,
    op: &Op,
    l: &mut Local,
    cap: impl Fn() -> usize,
    put: impl Fn(u32, u32),
    remove: impl Fn(u32),
) {
    let floor = sh.base.max(64).next_power_of_two() as usize;
    for k in 0..sh.nkeys {
        remove(k);
    }
    // Incremental moves need further operations to finish.
    for i in 0..400u32 {
        if cap() <= floor {
            break;
        }
        put(i % sh.nkeys.max(1), op.v + i);
        remove(i % sh.nkeys.max(1));
    }
    let c = cap();
    if c > floor {
        fail_owned(
            "capacity",
            format!("an empty container without reservations keeps capacity {c} (minimum {})", sh.base),
        );
    }
    if (c as u64) < sh.base {
        fail_owned("capacity", format!("capacity {c} is below the minimum {}", sh.base));
    }
    l.count = 0;
}

/// A reservation can still be made to take effect.
fn final_grow<R>(
    sh: &Shared,
    op: &Op,
    l: &mut Local,
    cap: impl Fn() -> usize,
    reserve: impl Fn(usize) -> Option<R>,
    put: impl Fn(u32, u32),
    remove: impl Fn(u32),
) {
    for k in 0..sh.nkeys {
        remove(k);
    }
    let n = cap().max(64) * 2 + 1;
    let mut grown = false;
    // Incremental moves need further operations to finish.
    for i in 0..400u32 {
        let k = i % sh.nkeys.max(1);
        put(k, op.v + i);
        let Some(r) = reserve(n) else {
            fail_owned("capacity", format!("reserve({n}) is refused at rest"));
            break;
        };
        grown = cap() >= n;
        drop(r);
        remove(k);
        if grown {
            break;
        }
    }
    if !grown {
        fail_owned("capacity", format!("the container cannot grow any more to the reserved {n}"));
    }
    l.count = 0;
}

fn reserve_op(op: &Op, l: &mut Local, f: impl FnOnce(usize) -> Option<(ResvH, usize)>) {
    let n = match op.b {
        0 => op.a as usize,
        1 => usize::MAX,
        2 => usize::MAX / 2 + 1,
        _ => (usize::MAX / 2) - op.a as usize,
    };
    let from0 = simrt::now();
    match f(n) {
        Some((mut h, additional)) => {
            if additional != n || op.b != 0 || n == 0 {
                fail_owned("capacity", format!("reserve({n}) reports {additional}"));
            }
            let from = simrt::now();
            host(|| {
                let idx = notes().resv.len();
                match &mut h {
                    ResvH::Hm(_, i) | ResvH::Hs(_, i) | ResvH::Hi(_, i) => *i = idx,
                }
                notes().resv.push(Resv {
                    n: n as u64,
                    from0,
                    from,
                    to: u64::MAX,
                    to0: u64::MAX,
                });
                l.resv.push(h);
            });
        }
        None => {
            if n > 0 && op.b == 0 {
                fail_owned("capacity", format!("reserve({n}) is refused"));
            }
        }
    }
}

fn unreserve(l: &mut Local, _sh: &Shared) {
    if l.resv.is_empty() {
        return;
    }
    let h = l.resv.remove(0);
    let i = match &h {
        ResvH::Hm(_, i) | ResvH::Hs(_, i) | ResvH::Hi(_, i) => *i,
    };
    notes().resv[i].to = simrt::now();
    drop(h);
    notes().resv[i].to0 = simrt::now();
}

// ---------------------------------------------------------------------------------------------
// HashCache.

async fn hc_common(sh: &'static Shared, m: &'static Hc, op: &Op, l: &mut Local) -> bool {
    map_common!(sh, m, op, l)
}

async fn hc_op(sh: &'static Shared, m: &'static Hc, op: &Op, l: &mut Local) {
    if hc_common(sh, m, op, l).await {
        return;
    }
    match op.code {
        Code::Insert => {
            let (k, v) = (K::new(op.k), V::new(op.v));
            let (ki, vi) = (k.inst, v.inst);
            let h = maybe(op.k, ABSENT, op.v, "put");
            match sa!(op, m.put_sync(k, v), m.put_async(k, v)) {
                Ok(e) => {
                    sure(h, ABSENT, op.v);
                    evicted(e, op.k);
                    touched(sh, op.k, op.v);
                }
                Err((k, v)) => {
                    same_back(&k, ki, Some((&v, vi)));
                    sure(h, ANY, SAME);
                }
            }
        }
        Code::EntryOrInsert => {
            let h = maybe(op.k, ABSENT, op.v, "entry.or_put");
            cx().default_vid = op.v;
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            right_key(e.key(), op.k);
            let (ev, o) = match op.a % 4 {
                0 => e.or_put(V::new(op.v)),
                1 => e.or_put_with(|| {
                    callback(Cb::Closure);
                    V::new(op.v)
                }),
                2 => e.or_put_with_key(|k| {
                    callback(Cb::Closure);
                    right_key(k, op.k);
                    V::new(op.v)
                }),
                _ => e.or_default(),
            };
            let x = o.get().read();
            if x == op.v {
                sure(h, ABSENT, x);
                touched(sh, op.k, x);
            } else {
                sure(h, x, SAME);
            }
            let was = evicted(ev, op.k);
            if was && x != op.v {
                wrong(format!("or_put({}) evicted although the key was present", op.k));
            }
            hold(op).await;
        }
        Code::EntryModify => {
            let h = maybe(op.k, ABSENT, op.v + 1, "entry.and_modify.or_put");
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            let mut ran = false;
            let e = e.and_modify(|v| {
                amend(h, ANY, SAME);
                callback(Cb::Closure);
                let x = excl(v);
                let old = v.read();
                hold_sync(op);
                v.write(op.v);
                sure(h, old, op.v);
                drop(x);
                ran = true;
            });
            let (ev, o) = e.or_put(V::new(op.v + 1));
            let x = o.get().read();
            if ran {
                right_val(x, op.v, "and_modify");
            } else {
                right_val(x, op.v + 1, "or_put");
                sure(h, ABSENT, op.v + 1);
                touched(sh, op.k, op.v + 1);
            }
            evicted(ev, op.k);
            hold(op).await;
        }
        Code::EntryInsert => {
            let h = maybe(op.k, WILD, op.v, "entry.put_entry");
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            let pre = match &e {
                CEntry::Occupied(o) => o.get().read(),
                CEntry::Vacant(_) => ABSENT,
            };
            amend(h, pre, op.v);
            let (ev, o) = e.put_entry(V::new(op.v));
            sure(h, pre, op.v);
            if pre == ABSENT {
                touched(sh, op.k, op.v);
            }
            let was = evicted(ev, op.k);
            if was && pre != ABSENT {
                wrong(format!("put_entry({}) evicted although the key was present", op.k));
            }
            hold(op).await;
            right_val(o.get().read(), op.v, "put_entry");
        }
        Code::EntryRmw | Code::TryEntry | Code::Update => {
            let h = maybe(op.k, ANY, SAME, "entry");
            void(h);
            let e = if op.code == Code::TryEntry {
                match m.try_entry(K::new(op.k)) {
                    Some(e) => e,
                    None => return,
                }
            } else {
                sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)))
            };
            match e {
                CEntry::Occupied(o) => rmw_occupied!(op, o, h, put),
                CEntry::Vacant(va) => {
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                    if op.b & 1 != 0 || op.code == Code::Update {
                        right_key(&va.into_key(), op.k);
                    } else {
                        cx().eff[h].sure = false;
                        amend(h, ABSENT, op.v);
                        let (ev, o) = va.put_entry(V::new(op.v));
                        sure(h, ABSENT, op.v);
                        evicted(ev, op.k);
                        touched(sh, op.k, op.v);
                        hold(op).await;
                        right_val(o.get().read(), op.v, "value changed under an exclusive handle");
                    }
                }
            }
        }
        Code::EntryRemove => {
            let h = maybe(op.k, ANY, SAME, "entry.remove");
            void(h);
            match sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k))) {
                CEntry::Occupied(o) => {
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    sure(h, pre, ABSENT);
                    if op.a & 1 == 0 {
                        let (k, v) = o.remove_entry();
                        right_key(&k, op.k);
                        right_val(v.read(), pre, "remove_entry");
                    } else {
                        right_val(o.remove().read(), pre, "remove");
                    }
                }
                CEntry::Vacant(_) => sure(h, ABSENT, SAME),
            }
        }
        Code::EntryLook => {
            let h = maybe(op.k, ANY, SAME, "entry (look)");
            void(h);
            match sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k))) {
                CEntry::Occupied(o) => {
                    let e = excl(o.get());
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    right_val(o.get().read(), pre, "value changed under an exclusive handle");
                    drop(e);
                }
                CEntry::Vacant(va) => {
                    right_key(va.key(), op.k);
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                }
            }
        }
        Code::Get | Code::Upsert => {
            let h = maybe(op.k, ANY, SAME, "get");
            void(h);
            match look!(op, m, get_sync, get_async) {
                None => sure(h, ABSENT, SAME),
                Some(o) if op.a % 4 == 3 => {
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    sure(h, pre, ABSENT);
                    right_val(o.remove_entry().1.read(), pre, "remove_entry");
                }
                Some(o) => {
                    let x = o.get().read();
                    touched(sh, op.k, x);
                    rmw_occupied!(op, o, h, put);
                }
            }
        }
        Code::Replace => {
            let h = maybe(op.k, ANY, SAME, "replace");
            void(h);
            let k = K::new(op.k);
            match sa!(op, m.replace_sync(k), m.replace_async(k)) {
                CReplace::Replaced(o, old) => {
                    right_key(&old, op.k);
                    rmw_occupied!(op, o, h, put);
                }
                CReplace::NotReplaced(va) => {
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                    cx().eff[h].sure = false;
                    amend(h, ABSENT, op.v);
                    let (ev, _o) = va.put_entry(V::new(op.v));
                    sure(h, ABSENT, op.v);
                    evicted(ev, op.k);
                    touched(sh, op.k, op.v);
                }
            }
        }
        Code::FinalClone => {
            if *m != *m {
                fail_owned("copy", "a container differs from itself at rest".into());
            }
            let (min, max) = (m.capacity(), sh.max as usize);
            let c: Hc = HashCache::with_capacity_and_hasher(
                min,
                max,
                SimHash { mode: 0, salt: 3 },
            );
            if !l.keys.is_empty() {
                let _ = c.put_sync(K::new(sh.nkeys + 7), V::new(op.v + 1));
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
            }
        }
        Code::FinalTry => final_try(sh, |k| m.try_entry(K::new(k)).is_some()),
        Code::Ser => ser_op(sh, m, op, "scan saw", "not seen by scan"),
        Code::FinalSer => final_ser(sh, m, op),
        Code::FinalFrom => final_from::<Hc>(sh, op),
        Code::FinalUse => {
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let r = m.put_sync(K::new(k), V::new(op.v + k));
                cx().t0 = t0;
                match r {
                    Ok(e) => {
                        let h = seen(k, ABSENT, op.v + k, "final put");
                        cx().eff[h].t0 = t0;
                        evicted(e, k);
                    }
                    Err(_) => seen_from(t0, k, ANY, "final put refused"),
                }
            }
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let old = m.remove_sync(&Probe(k));
                let h = seen(k, old.map_or(ABSENT, |o| o.1.read()), ABSENT, "final remove");
                cx().eff[h].t0 = t0;
            }
            final_len(m.len(), m.is_empty(), &Local::default());
        }
        Code::FinalShrink => final_shrink(
            sh,
            op,
            l,
            || m.capacity(),
            |k, v| {
                let e = m.put_sync(K::new(k), V::new(v));
                drop(e);
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        _ => (),
    }
}

// ---------------------------------------------------------------------------------------------
// HashSet: the state of a key is the instance stored (+1).

async fn hs_op(sh: &'static Shared, m: &'static Hs, op: &Op, l: &mut Local) {
    match op.code {
        Code::Insert | Code::EntryOrInsert => {
            let k = K::new(op.k);
            let ki = k.inst;
            let h = maybe(op.k, ABSENT, ki + 1, "insert");
            match sa!(op, m.insert_sync(k), m.insert_async(k)) {
                Ok(()) => sure(h, ABSENT, ki + 1),
                Err(k) => {
                    same_back(&k, ki, None);
                    sure(h, ANY, SAME);
                }
            }
        }
        Code::Replace | Code::Upsert => {
            let k = K::new(op.k);
            let ki = k.inst;
            let h = maybe(op.k, WILD, ki + 1, "replace");
            match sa!(op, m.replace_sync(k), m.replace_async(k)) {
                Some(old) => {
                    right_key(&old, op.k);
                    sure(h, old.inst + 1, ki + 1);
                }
                None => sure(h, ABSENT, ki + 1),
            }
        }
        Code::Remove => {
            let h = maybe(op.k, ANY, ABSENT, "remove");
            match look!(op, m, remove_sync, remove_async) {
                Some(k) => {
                    right_key(&k, op.k);
                    sure(h, k.inst + 1, ABSENT);
                }
                None => sure(h, ABSENT, SAME),
            }
        }
        Code::RemoveIf => {
            let h = maybe(op.k, ANY, SAME, "remove_if");
            void(h);
            let mut ran = None;
            let f = || {
                callback(Cb::Closure);
                hold_sync(op);
                let yes = op.a % 2 == 1;
                ran = Some(yes);
                if yes {
                    amend(h, ANY, ABSENT);
                } else {
                    sure(h, ANY, SAME);
                }
                yes
            };
            let r = look!(op, m, remove_if_sync, remove_if_async, f);
            match (r, ran) {
                (Some(k), Some(true)) => {
                    right_key(&k, op.k);
                    sure(h, k.inst + 1, ABSENT);
                }
                (Some(_), _) => wrong(format!("remove_if({}) removed without consent", op.k)),
                (None, Some(true)) => {
                    wrong(format!("remove_if({}) approved but returned nothing", op.k))
                }
                (None, Some(false)) => (),
                (None, None) => sure(h, ABSENT, SAME),
            }
        }
        Code::Read | Code::Get | Code::Peek => {
            let h = maybe(op.k, ANY, SAME, "read");
            void(h);
            let f = |k: &K| {
                callback(Cb::Closure);
                right_key(k, op.k);
                hold_sync(op);
                k.touch();
                k.inst + 1
            };
            match look!(op, m, read_sync, read_async, f) {
                Some(i) => sure(h, i, SAME),
                None => sure(h, ABSENT, SAME),
            }
        }
        Code::Contains => {
            let h = maybe(op.k, ANY, SAME, "contains");
            void(h);
            let r = look!(op, m, contains_sync, contains_async);
            sure(h, if r { ANY } else { ABSENT }, SAME);
        }
        Code::Scan => {
            let mut vis = Visit::new(sh);
            let mut f = |k: &K| {
                callback(Cb::Closure);
                k.touch();
                hold_sync(op);
                seen(k.id, k.inst + 1, SAME, "scan saw");
                vis.mark(k.id);
                op.a == 0 || vis.n < op.a
            };
            let done = sa!(op, m.iter_sync(&mut f), m.iter_async(&mut f));
            if done {
                vis.all("not seen by scan");
            }
            if done != (op.a == 0 || vis.n < op.a) {
                wrong(format!("iter returned {done} after {} entries", vis.n));
            }
        }
        Code::Retain => {
            let mut vis = Visit::new(sh);
            let mut f = |k: &K| {
                callback(Cb::Closure);
                k.touch();
                hold_sync(op);
                vis.mark(k.id);
                if bit(op.m, k.id) {
                    let h = seen(k.id, k.inst + 1, ABSENT, "retain removed");
                    cx().eff[h].t1 = 0;
                    false
                } else {
                    seen(k.id, k.inst + 1, SAME, "retain kept");
                    true
                }
            };
            sa!(op, m.retain_sync(&mut f), m.retain_async(&mut f));
            vis.all("not seen by retain");
        }
        Code::IterMut => {
            let mut vis = Visit::new(sh);
            macro_rules! body {
                () => {
                    |e| {
                        callback(Cb::Closure);
                        e.touch();
                        let (id, inst) = (e.id, e.inst);
                        hold_sync(op);
                        vis.mark(id);
                        if bit(op.m, id) {
                            let h = seen(id, inst + 1, ABSENT, "iter_mut consumed");
                            let k = e.consume();
                            cx().eff[h].t1 = simrt::now();
                            same_back(&k, inst, None);
                        } else {
                            seen(id, inst + 1, SAME, "iter_mut saw");
                        }
                        op.a == 0 || vis.n < op.a
                    }
                };
            }
            let done = if op.asy {
                m.iter_mut_async(body!()).await
            } else {
                m.iter_mut_sync(body!())
            };
            if done {
                vis.all("not seen by iter_mut");
            }
        }
        Code::Clear => {
            let hs = clear_maybe(sh);
            sa!(op, m.clear_sync(), m.clear_async());
            clear_sure(hs);
        }
        Code::Reserve => reserve_op(op, l, |n| {
            m.reserve(n).map(|r| {
                (ResvH::Hs(r, 0), n)
            })
        }),
        Code::Unreserve => unreserve(l, sh),
        Code::Cap => cap_obs(|| {
            let c = m.capacity();
            let r = m.capacity_range();
            (c, *r.start(), *r.end())
        }),
        Code::Len => len_obs(sh, || (m.len(), m.is_empty())),
        Code::CloneCmp => {
            // The state of a key is its instance, which a clone does not share.
            let c = m.clone();
            let mut vis = Visit::new(sh);
            c.iter_sync(|k| {
                seen(k.id, ANY, SAME, "clone has");
                vis.mark(k.id);
                true
            });
            vis.all("not in clone");
            vis.once("a clone");
        }
        Code::FinalAll => {
            let mut vis = Visit::new(sh);
            m.iter_sync(|k| {
                k.touch();
                seen(k.id, k.inst + 1, SAME, "final scan");
                vis.mark(k.id);
                true
            });
            vis.all("missing in final scan");
            vis.once("the final scan");
            final_counts(&vis, l);
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let r = m.read_sync(&Probe(k), |key| {
                    right_key(key, k);
                    key.inst + 1
                });
                seen_from(t0, k, r.unwrap_or(ABSENT), "final read");
            }
        }
        Code::FinalLen => final_lens(op, l, || m.len(), || m.is_empty()),
        Code::FinalClone => {
            let c = m.clone();
            clone_len(c.len(), l);
            if c != *m || *m != c {
                fail_owned("copy", "a clone differs from its origin at rest".into());
            }
            if let Some(k) = l.keys.first().copied() {
                c.remove_sync(&Probe(k));
                if !m.contains_sync(&Probe(k)) {
                    fail_owned("copy", "changing the clone changed the origin".into());
                }
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
                let _ = c.insert_sync(K::new(sh.nkeys + 7));
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
            }
        }
        Code::Ser => ser_op(sh, m, op, "scan saw", "not seen by scan"),
        Code::FinalSer => final_ser(sh, m, op),
        Code::FinalFrom => final_from::<Hs>(sh, op),
        Code::FinalUse => {
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let key = K::new(k);
                let ki = key.inst + 1;
                let old = m.replace_sync(key);
                let h = seen(k, old.as_ref().map_or(ABSENT, |o| o.inst + 1), ki, "final replace");
                cx().eff[h].t0 = t0;
            }
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let old = m.remove_sync(&Probe(k));
                let h = seen(k, old.map_or(ABSENT, |o| o.inst + 1), ABSENT, "final remove");
                cx().eff[h].t0 = t0;
            }
            final_len(m.len(), m.is_empty(), &Local::default());
        }
        Code::FinalShrink => final_shrink(
            sh,
            op,
            l,
            || m.capacity(),
            |k, _| {
                let _ = m.insert_sync(K::new(k));
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        Code::FinalGrow => final_grow(
            sh,
            op,
            l,
            || m.capacity(),
            |n| m.reserve(n),
            |k, _| {
                let _ = m.insert_sync(K::new(k));
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        Code::Pause => hold(op).await,
        _ => (),
    }
}

// ---------------------------------------------------------------------------------------------
// Guards held across operations.

fn pin_open(l: &mut Local) {
    let g = Guard::new();
    host(|| {
        let guard = Box::new(g);
        l.pins.push(Pinned {
            held: Vec::new(),
            guard,
        });
    });
}

fn pin_guard(l: &mut Local, sel: u32) -> Option<(usize, &'static Guard)> {
    if l.pins.is_empty() {
        return None;
    }
    let i = sel as usize % l.pins.len();
    let g: *const Guard = &raw const *l.pins[i].guard;
    Some((i, unsafe { &*g }))
}

fn pin_hold(l: &mut Local, i: usize, k: Option<&'static K>, v: &'static V) {
    if let Some(k) = k {
        k.touch();
    }
    let vid = v.read();
    let h = Held {
        k,
        v,
        kinst: k.map_or(0, |k| k.inst),
        kid: k.map_or(0, |k| k.id),
        vinst: v.inst,
        vid,
    };
    host(|| l.pins[i].held.push(h));
}

fn pin_check(l: &Local) {
    for p in &l.pins {
        for h in &p.held {
            if let Some(k) = h.k {
                k.touch();
                if k.inst != h.kinst || k.id != h.kid {
                    fail_owned("stale-reference", format!("a guarded key reference to K{} now shows K{}", h.kid, k.id));
                }
            }
            let x = h.v.read();
            if x != h.vid || h.v.inst != h.vinst {
                fail_owned(
                    "stale-reference",
                    format!("a guarded reference to value {} (instance {}) now shows {} (instance {})", h.vid, h.vinst, x, h.v.inst),
                );
            }
        }
    }
    if l.pins.iter().any(|p| !p.held.is_empty()) {
        probe("guarded references re-checked");
    }
}

fn unpin(l: &mut Local) {
    if l.pins.is_empty() {
        return;
    }
    pin_check(l);
    let p = l.pins.remove(0);
    host(|| drop(p.held));
    let g = p.guard;
    let g = host(|| *g);
    drop(g);
}

// ---------------------------------------------------------------------------------------------
// HashIndex.

fn solo<R>(op: &Op, what: &'static str, f: impl FnOnce() -> R) -> R {
    if op.solo {
        probe("reads that ran alone");
        simrt::solo(what, 400_000, f)
    } else {
        f()
    }
}

async fn hi_op(sh: &'static Shared, m: &'static Hi, op: &Op, l: &mut Local) {
    match op.code {
        Code::Insert | Code::Upsert => {
            let (k, v) = (K::new(op.k), V::new(op.v));
            let (ki, vi) = (k.inst, v.inst);
            let h = maybe(op.k, ABSENT, op.v, "insert");
            match sa!(op, m.insert_sync(k, v), m.insert_async(k, v)) {
                Ok(()) => sure(h, ABSENT, op.v),
                Err((k, v)) => {
                    same_back(&k, ki, Some((&v, vi)));
                    sure(h, ANY, SAME);
                }
            }
        }
        Code::Remove => {
            let h = maybe(op.k, ANY, ABSENT, "remove");
            let r = look!(op, m, remove_sync, remove_async);
            if r {
                sure(h, ANY, ABSENT);
            } else {
                sure(h, ABSENT, SAME);
            }
        }
        Code::RemoveIf => {
            let h = maybe(op.k, ANY, SAME, "remove_if");
            void(h);
            let mut ran = None;
            let f = |v: &V| {
                callback(Cb::Closure);
                let old = v.read();
                hold_sync(op);
                let yes = match op.a % 3 {
                    0 => false,
                    1 => true,
                    _ => old % 2 == 0,
                };
                ran = Some((old, yes));
                if yes {
                    amend(h, old, ABSENT);
                } else {
                    sure(h, old, SAME);
                }
                yes
            };
            let r = look!(op, m, remove_if_sync, remove_if_async, f);
            match (r, ran) {
                (true, Some((old, true))) => sure(h, old, ABSENT),
                (true, _) => wrong(format!("remove_if({}) removed without consent", op.k)),
                (false, Some((_, true))) => {
                    wrong(format!("remove_if({}) approved but returned false", op.k))
                }
                (false, Some((_, false))) => (),
                (false, None) => sure(h, ABSENT, SAME),
            }
        }
        Code::EntryOrInsert => {
            let h = maybe(op.k, ABSENT, op.v, "entry.or_insert");
            cx().default_vid = op.v;
            let e = sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)));
            right_key(e.key(), op.k);
            let o = match op.a % 4 {
                0 => e.or_insert(V::new(op.v)),
                1 => e.or_insert_with(|| {
                    callback(Cb::Closure);
                    V::new(op.v)
                }),
                2 => e.or_insert_with_key(|k| {
                    callback(Cb::Closure);
                    right_key(k, op.k);
                    V::new(op.v)
                }),
                _ => e.or_default(),
            };
            let x = o.get().read();
            if x == op.v {
                sure(h, ABSENT, x);
            } else {
                sure(h, x, SAME);
            }
            hold(op).await;
        }
        Code::EntryRmw | Code::TryEntry | Code::Update | Code::EntryModify | Code::EntryInsert => {
            let what = if op.b & 1 != 0 { "entry" } else { "entry.update" };
            let h = maybe(op.k, ANY, SAME, what);
            void(h);
            let e = if op.code == Code::TryEntry {
                match m.try_entry(K::new(op.k)) {
                    Some(e) => e,
                    None => return,
                }
            } else {
                sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k)))
            };
            match e {
                IEntry::Occupied(mut o) => {
                    right_key(o.key(), op.k);
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    if op.b & 1 == 0 {
                        cx().eff[h].sure = false;
                        amend(h, pre, op.v);
                        o.update(V::new(op.v));
                        sure(h, pre, op.v);
                        right_val(o.get().read(), op.v, "update");
                        hold(op).await;
                    }
                }
                IEntry::Vacant(va) => {
                    sure(h, ABSENT, SAME);
                    hold(op).await;
                    if op.b & 2 != 0 || op.code == Code::Update {
                        right_key(&va.into_key(), op.k);
                    } else {
                        cx().eff[h].sure = false;
                        amend(h, ABSENT, op.v);
                        let o = va.insert_entry(V::new(op.v));
                        sure(h, ABSENT, op.v);
                        hold(op).await;
                        right_val(o.get().read(), op.v, "insert_entry");
                    }
                }
            }
        }
        Code::EntryRemove => {
            let h = maybe(op.k, ANY, SAME, "entry.remove");
            void(h);
            match sa!(op, m.entry_sync(K::new(op.k)), m.entry_async(K::new(op.k))) {
                IEntry::Occupied(o) => {
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    sure(h, pre, ABSENT);
                    o.remove_entry();
                }
                IEntry::Vacant(_) => sure(h, ABSENT, SAME),
            }
        }
        Code::EntryLook | Code::Get => {
            let h = maybe(op.k, ANY, SAME, "get");
            void(h);
            match look!(op, m, get_sync, get_async) {
                Some(mut o) => {
                    right_key(o.key(), op.k);
                    let pre = o.get().read();
                    sure(h, pre, SAME);
                    hold(op).await;
                    right_val(o.get().read(), pre, "value changed under an exclusive handle");
                    match op.a % 4 {
                        1 => {
                            cx().eff[h].what = "get.update";
                            cx().eff[h].sure = false;
                            amend(h, pre, op.v);
                            o.update(V::new(op.v));
                            sure(h, pre, op.v);
                        }
                        3 => {
                            sure(h, pre, ABSENT);
                            o.remove_entry();
                        }
                        _ => (),
                    }
                }
                None => sure(h, ABSENT, SAME),
            }
        }
        Code::Peek => {
            let h = maybe(op.k, ANY, SAME, "peek");
            void(h);
            let g = Guard::new();
            let r = if op.probe {
                solo(op, "HashIndex::peek", || m.peek(&Probe(op.k), &g))
            } else {
                let k = K::new(op.k);
                solo(op, "HashIndex::peek", || m.peek(&k, &g))
            };
            match r {
                Some(v) => {
                    let x = v.read();
                    sure(h, x, SAME);
                    cx().eff[h].t1 = simrt::now();
                    hold_sync(op);
                    right_val(v.read(), x, "a guarded value changed");
                }
                None => sure(h, ABSENT, SAME),
            }
        }
        Code::Read | Code::PeekEntry => {
            let h = maybe(op.k, ANY, SAME, "peek_with");
            void(h);
            let f = |k: &K, v: &V| {
                callback(Cb::Closure);
                right_key(k, op.k);
                let x = v.read();
                hold_sync(op);
                right_val(v.read(), x, "a guarded value changed");
                x
            };
            let r = by_key!(op, q, solo(op, "HashIndex::peek_with", || m.peek_with(q, f)));
            sure(h, r.unwrap_or(ABSENT), SAME);
        }
        Code::Contains => {
            let h = maybe(op.k, ANY, SAME, "contains");
            void(h);
            let r = by_key!(op, q, solo(op, "HashIndex::contains", || m.contains(q)));
            sure(h, if r { ANY } else { ABSENT }, SAME);
        }
        Code::Scan => {
            let mut vis = Visit::new(sh);
            let mut f = |k: &K, v: &V| {
                callback(Cb::Closure);
                k.touch();
                let x = v.read();
                hold_sync(op);
                seen(k.id, x, SAME, "scan saw");
                vis.mark(k.id);
                op.a == 0 || vis.n < op.a
            };
            let done = sa!(op, m.iter_sync(&mut f), m.iter_async(&mut f));
            if done {
                vis.all("not seen by scan");
            }
            if done != (op.a == 0 || vis.n < op.a) {
                wrong(format!("iter returned {done} after {} entries", vis.n));
            }
        }
        Code::GuardScan => {
            let g = Guard::new();
            let mut vis = Visit::new(sh);
            let run = || {
                let mut it = m.iter(&g);
                loop {
                    if op.a > 0 && vis.n >= op.a {
                        return false;
                    }
                    let Some((k, v)) = it.next() else {
                        return true;
                    };
                    k.touch();
                    seen(k.id, v.read(), SAME, "iterator saw");
                    vis.mark(k.id);
                    if !op.solo {
                        hold_sync(op);
                    }
                }
            };
            if solo(op, "HashIndex::iter", run) {
                vis.all("not seen by iterator");
            }
        }
        Code::Retain | Code::IterMut => {
            let mut vis = Visit::new(sh);
            let mut f = |k: &K, v: &V| {
                callback(Cb::Closure);
                k.touch();
                let pre = v.read();
                hold_sync(op);
                vis.mark(k.id);
                if bit(op.m, k.id) {
                    let h = seen(k.id, pre, ABSENT, "retain removed");
                    cx().eff[h].t1 = 0;
                    false
                } else {
                    seen(k.id, pre, SAME, "retain kept");
                    true
                }
            };
            sa!(op, m.retain_sync(&mut f), m.retain_async(&mut f));
            vis.all("not seen by retain");
        }
        Code::Clear => {
            let hs = clear_maybe(sh);
            sa!(op, m.clear_sync(), m.clear_async());
            clear_sure(hs);
        }
        Code::Any => {
            let mut f = |k: &K, v: &V| {
                callback(Cb::Closure);
                v.read();
                k.id == op.k
            };
            match sa!(op, m.any_sync(&mut f), m.any_async(&mut f)) {
                Some(o) => {
                    right_key(o.key(), op.k);
                    seen(op.k, o.get().read(), SAME, "any found");
                    hold(op).await;
                }
                None => {
                    seen(op.k, ABSENT, SAME, "any did not find");
                }
            }
        }
        Code::Walk | Code::WalkRemove => {
            let mut vis = Visit::new(sh);
            let mut cur = sa!(op, m.begin_sync(), m.begin_async());
            while let Some(o) = cur {
                let id = o.key().id;
                o.key().touch();
                vis.mark(id);
                let pre = o.get().read();
                let h = seen(id, pre, SAME, "walk saw");
                hold(op).await;
                right_val(o.get().read(), pre, "value changed under an exclusive handle");
                if op.a > 0 && vis.n >= op.a {
                    return;
                }
                cur = if op.code == Code::WalkRemove && bit(op.m, id) {
                    sure(h, pre, ABSENT);
                    cx().eff[h].t1 = 0;
                    sa!(op, o.remove_and_sync(), o.remove_and_async())
                } else {
                    sa!(op, o.next_sync(), o.next_async())
                };
            }
            vis.all("not seen by walk");
        }
        Code::Reserve => reserve_op(op, l, |n| {
            m.reserve(n).map(|r| {
                let a = r.additional_capacity();
                (ResvH::Hi(r, 0), a)
            })
        }),
        Code::Unreserve => unreserve(l, sh),
        Code::Cap => cap_obs(|| {
            let c = m.capacity();
            let r = m.capacity_range();
            (c, *r.start(), *r.end())
        }),
        Code::Len => len_obs(sh, || (m.len(), m.is_empty())),
        Code::CloneCmp => {
            let c = m.clone();
            let mut vis = Visit::new(sh);
            c.iter_sync(|k, v| {
                seen(k.id, v.read(), SAME, "index clone has");
                vis.mark(k.id);
                true
            });
            vis.all("not in index clone");
            vis.once("a clone");
        }
        Code::GuardOpen => pin_open(l),
        Code::GuardPeek => {
            if let Some((i, g)) = pin_guard(l, op.a) {
                let h = maybe(op.k, ANY, SAME, "peek");
                void(h);
                match m.peek(&Probe(op.k), g) {
                    Some(v) => {
                        sure(h, v.read(), SAME);
                        pin_hold(l, i, None, v);
                    }
                    None => sure(h, ABSENT, SAME),
                }
            }
        }
        Code::GuardAll => {
            if let Some((i, g)) = pin_guard(l, op.a) {
                let mut n = 0;
                for (k, v) in m.iter(g) {
                    pin_hold(l, i, Some(k), v);
                    n += 1;
                    if n > 40 {
                        break;
                    }
                }
            }
        }
        Code::GuardCheck => pin_check(l),
        Code::GuardClose => unpin(l),
        Code::FinalAll => {
            let mut vis = Visit::new(sh);
            m.iter_sync(|k, v| {
                k.touch();
                seen(k.id, v.read(), SAME, "final scan");
                vis.mark(k.id);
                true
            });
            vis.all("missing in final scan");
            vis.once("the final scan");
            let mut vis = Visit::new(sh);
            let g = Guard::new();
            for (k, v) in m.iter(&g) {
                k.touch();
                seen(k.id, v.read(), SAME, "final iterator");
                vis.mark(k.id);
            }
            vis.all("missing in final iterator");
            vis.once("the final iterator");
            final_counts(&vis, l);
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let r = m.peek_with(&Probe(k), |key, v| {
                    right_key(key, k);
                    v.read()
                });
                seen_from(t0, k, r.unwrap_or(ABSENT), "final peek");
                let r = m.get_sync(&Probe(k)).map(|o| o.get().read());
                seen_from(t0, k, r.unwrap_or(ABSENT), "final get");
            }
        }
        Code::FinalLen => final_lens(op, l, || m.len(), || m.is_empty()),
        Code::FinalClone => {
            let c = m.clone();
            clone_len(c.len(), l);
            if c != *m || *m != c {
                fail_owned("copy", "a clone differs from its origin at rest".into());
            }
            for k in 0..sh.nkeys {
                let a = m.peek_with(&Probe(k), |_, v| v.read());
                let b = c.peek_with(&Probe(k), |_, v| v.read());
                if a != b {
                    fail_owned("copy", format!("key {k}: {a:?} in the origin, {b:?} in the clone"));
                }
            }
            if let Some(k) = l.keys.first().copied() {
                if let Some(mut o) = c.get_sync(&Probe(k)) {
                    o.update(V::new(op.v));
                }
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different values are equal".into());
                }
                c.remove_sync(&Probe(k));
                if !m.contains(&Probe(k)) {
                    fail_owned("copy", "changing the clone changed the origin".into());
                }
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
                let _ = c.insert_sync(K::new(sh.nkeys + 7), V::new(op.v + 1));
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
            }
        }
        Code::FinalTry => final_try(sh, |k| m.try_entry(K::new(k)).is_some()),
        Code::Ser => ser_op(sh, m, op, "iterator saw", "not seen by iterator"),
        Code::FinalSer => final_ser(sh, m, op),
        Code::FinalFrom => final_from::<Hi>(sh, op),
        Code::FinalUse => {
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let r = m.insert_sync(K::new(k), V::new(op.v + k));
                let h = if r.is_ok() {
                    seen(k, ABSENT, op.v + k, "final insert")
                } else {
                    seen(k, ANY, SAME, "final insert refused")
                };
                cx().eff[h].t0 = t0;
            }
            final_len(m.len(), m.is_empty(), &Local { count: sh.nkeys as usize, ..Local::default() });
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                if !m.remove_sync(&Probe(k)) {
                    seen_from(t0, k, ABSENT, "final remove");
                }
                let h = seen(k, WILD, ABSENT, "final remove");
                cx().eff[h].t0 = t0;
                if m.contains(&Probe(k)) {
                    wrong(format!("key {k} is still there after its removal"));
                }
            }
            final_len(m.len(), m.is_empty(), &Local::default());
        }
        Code::FinalShrink => final_shrink(
            sh,
            op,
            l,
            || m.capacity(),
            |k, v| {
                let _ = m.insert_sync(K::new(k), V::new(v));
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        Code::FinalGrow => final_grow(
            sh,
            op,
            l,
            || m.capacity(),
            |n| m.reserve(n),
            |k, v| {
                let _ = m.insert_sync(K::new(k), V::new(v));
            },
            |k| {
                m.remove_sync(&Probe(k));
            },
        ),
        Code::Pause => hold(op).await,
        _ => (),
    }
}

// ---------------------------------------------------------------------------------------------
// TreeIndex.

fn bound(kind: u32, k: u32) -> Bound<Probe> {
    match kind % 3 {
        0 => Bound::Unbounded,
        1 => Bound::Included(Probe(k)),
        _ => Bound::Excluded(Probe(k)),
    }
}

/// The keys in the range as `lo..hi`.
fn span(sh: &Shared, op: &Op) -> (u32, u32) {
    let lo = match op.m % 3 {
        0 => 0,
        1 => op.k,
        _ => op.k + 1,
    };
    let hi = match op.m / 3 % 3 {
        0 => sh.nkeys,
        1 => (op.b + 1).min(sh.nkeys),
        _ => op.b.min(sh.nkeys),
    };
    (lo, hi.max(lo))
}

async fn ti_op(sh: &'static Shared, m: &'static Ti, op: &Op, l: &mut Local) {
    match op.code {
        Code::Insert | Code::Upsert | Code::EntryOrInsert => {
            let (k, v) = (K::new(op.k), V::new(op.v));
            let (ki, vi) = (k.inst, v.inst);
            let h = maybe(op.k, ABSENT, op.v, "insert");
            match sa!(op, m.insert_sync(k, v), m.insert_async(k, v)) {
                Ok(()) => sure(h, ABSENT, op.v),
                Err((k, v)) => {
                    same_back(&k, ki, Some((&v, vi)));
                    sure(h, ANY, SAME);
                }
            }
        }
        Code::Remove => {
            let h = maybe(op.k, ANY, ABSENT, "remove");
            if look!(op, m, remove_sync, remove_async) {
                sure(h, ANY, ABSENT);
            } else {
                sure(h, ABSENT, SAME);
            }
        }
        Code::RemoveIf => {
            let h = maybe(op.k, ANY, SAME, "remove_if");
            void(h);
            let mut last: Option<(u32, bool)> = None;
            let mut yes_val = 0;
            let f = |v: &V| {
                callback(Cb::Closure);
                let old = v.read();
                hold_sync(op);
                let yes = match op.a % 3 {
                    0 => false,
                    1 => true,
                    _ => old % 2 == 0,
                };
                last = Some((old, yes));
                if yes {
                    yes_val = old;
                    amend(h, old, ABSENT);
                }
                yes
            };
            let r = look!(op, m, remove_if_sync, remove_if_async, f);
            match (r, last) {
                (true, _) if yes_val == 0 => {
                    wrong(format!("remove_if({}) removed without consent", op.k))
                }
                (true, _) => sure(h, yes_val, ABSENT),
                (false, Some((old, false))) => sure(h, old, SAME),
                (false, _) => sure(h, ABSENT, SAME),
            }
        }
        Code::Peek | Code::Get => {
            let h = maybe(op.k, ANY, SAME, "peek");
            void(h);
            let g = Guard::new();
            let r = if op.probe {
                solo(op, "TreeIndex::peek", || m.peek(&Probe(op.k), &g))
            } else {
                let k = K::new(op.k);
                solo(op, "TreeIndex::peek", || m.peek(&k, &g))
            };
            match r {
                Some(v) => {
                    let x = v.read();
                    sure(h, x, SAME);
                    cx().eff[h].t1 = simrt::now();
                    hold_sync(op);
                    right_val(v.read(), x, "a guarded value changed");
                }
                None => sure(h, ABSENT, SAME),
            }
        }
        Code::PeekEntry => {
            let h = maybe(op.k, ANY, SAME, "peek_entry");
            void(h);
            let g = Guard::new();
            let r = solo(op, "TreeIndex::peek_entry", || m.peek_entry(&Probe(op.k), &g));
            match r {
                Some((k, v)) => {
                    right_key(k, op.k);
                    sure(h, v.read(), SAME);
                }
                None => sure(h, ABSENT, SAME),
            }
        }
        Code::Read => {
            let h = maybe(op.k, ANY, SAME, "peek_with");
            void(h);
            let f = |k: &K, v: &V| {
                callback(Cb::Closure);
                right_key(k, op.k);
                let x = v.read();
                hold_sync(op);
                right_val(v.read(), x, "a guarded value changed");
                x
            };
            let r = by_key!(op, q, solo(op, "TreeIndex::peek_with", || m.peek_with(q, f)));
            sure(h, r.unwrap_or(ABSENT), SAME);
        }
        Code::Contains => {
            let h = maybe(op.k, ANY, SAME, "contains");
            void(h);
            let r = by_key!(op, q, solo(op, "TreeIndex::contains", || m.contains(q)));
            sure(h, if r { ANY } else { ABSENT }, SAME);
        }
        Code::Scan | Code::GuardScan | Code::Range => {
            let g = Guard::new();
            let mut vis = Visit::new(sh);
            let full = op.code != Code::Range;
            let (lo, hi) = if full { (0, sh.nkeys) } else { span(sh, op) };
            let mut prev: Option<u32> = None;
            let mut step = |k: &K, v: &V, vis: &mut Visit| {
                k.touch();
                let x = v.read();
                if prev.is_some_and(|p| p >= k.id) {
                    fail_owned("order", format!("a scan yields key {} after key {}", k.id, prev.unwrap()));
                }
                prev = Some(k.id);
                if k.id < lo || k.id >= hi {
                    fail_owned("order", format!("a scan of {lo}..{hi} yields key {}", k.id));
                }
                seen(k.id, x, SAME, "tree scan saw");
                vis.mark(k.id);
                if !op.solo {
                    hold_sync(op);
                }
            };
            let what = "TreeIndex scan";
            let done = if full {
                let mut it = m.iter(&g);
                solo(op, what, || {
                    loop {
                        if op.a > 0 && vis.n >= op.a {
                            return false;
                        }
                        let Some((k, v)) = it.next() else {
                            return true;
                        };
                        step(k, v, &mut vis);
                    }
                })
            } else {
                let r = (bound((op.m % 3) as u32, op.k), bound((op.m / 3 % 3) as u32, op.b));
                let mut it = m.range::<Probe, _>(r, &g);
                solo(op, what, || {
                    loop {
                        if op.a > 0 && vis.n >= op.a {
                            return false;
                        }
                        let Some((k, v)) = it.next() else {
                            return true;
                        };
                        step(k, v, &mut vis);
                    }
                })
            };
            let upto = if done { hi } else { prev.unwrap_or(lo) };
            vis.missing("not seen by tree scan", lo, upto);
        }
        Code::RemoveRange | Code::Retain | Code::IterMut => {
            let (lo, hi) = span(sh, op);
            let mut hs = host(|| Vec::with_capacity(sh.nkeys as usize));
            for k in lo..hi {
                maybe(k, ANY, ABSENT, hist::MANY);
                hs.push(maybe(k, WILD, ABSENT, "remove_range"));
            }
            let r = (bound((op.m % 3) as u32, op.k), bound((op.m / 3 % 3) as u32, op.b));
            if op.asy {
                m.remove_range_async::<Probe, _>(r).await;
            } else {
                m.remove_range_sync::<Probe, _>(r);
            }
            clear_sure(hs);
        }
        Code::Clear => {
            let hs = clear_maybe(sh);
            m.clear();
            clear_sure(hs);
        }
        Code::Len => {
            let n = m.len();
            let _ = m.is_empty();
            if n > sh.nkeys as usize {
                wrong(format!("len() is {n} although only {} keys exist", sh.nkeys));
            }
        }
        Code::Depth => {
            let _ = m.depth();
        }
        Code::CloneCmp => {
            let c = m.clone();
            let mut vis = Visit::new(sh);
            let g = Guard::new();
            for (k, v) in c.iter(&g) {
                seen(k.id, v.read(), SAME, "clone's tree scan saw");
                vis.mark(k.id);
            }
            vis.all("not in clone by tree scan");
            vis.once("a clone");
        }
        Code::GuardOpen => pin_open(l),
        Code::GuardPeek => {
            if let Some((i, g)) = pin_guard(l, op.a) {
                let h = maybe(op.k, ANY, SAME, "peek_entry");
                void(h);
                match m.peek_entry(&Probe(op.k), g) {
                    Some((k, v)) => {
                        sure(h, v.read(), SAME);
                        pin_hold(l, i, Some(k), v);
                    }
                    None => sure(h, ABSENT, SAME),
                }
            }
        }
        Code::GuardAll => {
            if let Some((i, g)) = pin_guard(l, op.a) {
                let mut n = 0;
                for (k, v) in m.iter(g) {
                    pin_hold(l, i, Some(k), v);
                    n += 1;
                    if n > 40 {
                        break;
                    }
                }
            }
        }
        Code::GuardCheck => pin_check(l),
        Code::GuardClose => unpin(l),
        Code::FinalAll => {
            let mut vis = Visit::new(sh);
            let g = Guard::new();
            let mut prev: Option<u32> = None;
            for (k, v) in m.iter(&g) {
                k.touch();
                if prev.is_some_and(|p| p >= k.id) {
                    fail_owned("order", format!("the final scan yields key {} after key {}", k.id, prev.unwrap()));
                }
                prev = Some(k.id);
                seen(k.id, v.read(), SAME, "final scan");
                vis.mark(k.id);
            }
            vis.all("missing in final scan");
            final_counts(&vis, l);
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let r = m.peek_with(&Probe(k), |key, v| {
                    right_key(key, k);
                    v.read()
                });
                seen_from(t0, k, r.unwrap_or(ABSENT), "final peek");
            }
            // A range from every key sees the rest.
            for k in (0..sh.nkeys).step_by(1 + sh.nkeys as usize / 8) {
                let n = m.range::<Probe, _>((Bound::Included(Probe(k)), Bound::Unbounded), &g).count();
                let want = l.keys.iter().filter(|x| **x >= k).count();
                if n != want {
                    fail_owned("order", format!("a range from {k} at rest yields {n} of {want} entries"));
                }
            }
        }
        Code::FinalLen => final_lens(op, l, || m.len(), || m.is_empty()),
        Code::FinalClone => {
            let c = m.clone();
            clone_len(c.len(), l);
            if c != *m || *m != c {
                fail_owned("copy", "a clone differs from its origin at rest".into());
            }
            for k in 0..sh.nkeys {
                let a = m.peek_with(&Probe(k), |_, v| v.read());
                let b = c.peek_with(&Probe(k), |_, v| v.read());
                if a != b {
                    fail_owned("copy", format!("key {k}: {a:?} in the origin, {b:?} in the clone"));
                }
            }
            if let Some(k) = l.keys.first().copied() {
                c.remove_sync(&Probe(k));
                if !m.contains(&Probe(k)) {
                    fail_owned("copy", "changing the clone changed the origin".into());
                }
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different keys are equal".into());
                }
                let _ = c.insert_sync(K::new(k), V::new(op.v));
                if c == *m || *m == c {
                    fail_owned("copy", "containers with different values are equal".into());
                }
            }
        }
        Code::Ser => ser_op(sh, m, op, "tree scan saw", "not seen by tree scan"),
        Code::FinalSer => final_ser(sh, m, op),
        Code::FinalFrom => final_from::<Ti>(sh, op),
        Code::FinalUse => {
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                let r = m.insert_sync(K::new(k), V::new(op.v + k));
                let h = if r.is_ok() {
                    seen(k, ABSENT, op.v + k, "final insert")
                } else {
                    seen(k, ANY, SAME, "final insert refused")
                };
                cx().eff[h].t0 = t0;
            }
            final_len(m.len(), m.is_empty(), &Local { count: sh.nkeys as usize, ..Local::default() });
            for k in 0..sh.nkeys {
                let t0 = simrt::now();
                if !m.remove_sync(&Probe(k)) {
                    seen_from(t0, k, ABSENT, "final remove");
                }
                let h = seen(k, WILD, ABSENT, "final remove");
                cx().eff[h].t0 = t0;
                if m.contains(&Probe(k)) {
                    wrong(format!("key {k} is still there after its removal"));
                }
            }
            final_len(m.len(), m.is_empty(), &Local::default());
        }
        Code::Pause => hold(op).await,
        _ => (),
    }
}
