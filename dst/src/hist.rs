//! The recorded history and its check against a sequential map, key by key.

use simrt::host;

pub const ABSENT: u32 = 0;
/// Any present state.
pub const ANY: u32 = u32::MAX;
/// Any state.
pub const WILD: u32 = u32::MAX - 1;
/// The state stays as it is.
pub const SAME: u32 = u32::MAX - 2;

/// One atomic step on one key: `pre -> post` at some moment in `[t0, t1]`.
#[derive(Clone, Debug)]
pub struct KOp {
    pub key: u32,
    pub t0: u64,
    pub t1: u64,
    pub pre: u32,
    pub post: u32,
    /// Did it certainly take effect?
    pub must: bool,
    pub who: (u8, u16),
    pub what: &'static str,
}

/// A bulk removal that may remove what is inserted meanwhile, any number of times.
pub const MANY: &str = "bulk removal, entry inserted meanwhile";

/// What lock-free iterators of a hash index report: each report must be true of some moment of the
/// iteration, but two reports, or a report and a lookup, need not agree about an operation in
/// progress.
const REGULAR: [&str; 4] = ["iterator saw", "not seen by iterator", "index clone has", "not in index clone"];

/// Lock-free lookups of a hash index.
const LOOKUPS: [&str; 3] = ["peek", "peek_with", "contains"];

/// How lookups that miss an entry while it is being updated are treated.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Gap {
    /// As any other wrong result.
    Wrong,
    /// As a failure of its own kind.
    Apart,
    /// They say nothing.
    Ignored,
}

fn writes(o: &KOp) -> bool {
    o.post != ABSENT && o.post != SAME
}

/// Lookups, lock-free reports as well, that find nothing while the entry is being updated.
fn in_gap(group: &[KOp]) -> Vec<bool> {
    group
        .iter()
        .map(|o| {
            o.pre == ABSENT
                && o.post == SAME
                && (LOOKUPS.contains(&o.what) || REGULAR.contains(&o.what))
                && group.iter().any(|u| writes(u) && u.pre != ABSENT && u.t0 <= o.t1 && u.t1 >= o.t0)
        })
        .collect()
}

pub struct Hist {
    pub ops: Vec<KOp>,
}

static mut HIST: Hist = Hist { ops: Vec::new() };

#[allow(static_mut_refs)]
pub fn hist() -> &'static mut Hist {
    unsafe { &mut HIST }
}

pub fn reset() {
    hist().ops.clear();
}

static mut BAD_KEY: Option<u32> = None;

/// The part of the history to show with a failure.
pub fn render_failed() -> String {
    render(unsafe { BAD_KEY })
}

static mut GIVEUPS: u64 = 0;
/// Histories that were too hard to decide.
pub fn take_giveups() -> u64 {
    unsafe { std::mem::take(&mut *(&raw mut GIVEUPS)) }
}

fn st(s: u32) -> String {
    match s {
        ABSENT => "absent".into(),
        ANY => "present".into(),
        WILD => "*".into(),
        SAME => "same".into(),
        v => format!("v{v}"),
    }
}

pub fn render_op(o: &KOp) -> String {
    format!(
        "k{} [{},{}] client {} op {} {}: {} -> {}{}",
        o.key,
        o.t0,
        if o.t1 == u64::MAX { "end".into() } else { o.t1.to_string() },
        o.who.0,
        o.who.1,
        o.what,
        st(o.pre),
        st(o.post),
        if o.must { "" } else { " (may or may not have happened)" }
    )
}

/// The whole history, for replay files.
pub fn render(key: Option<u32>) -> String {
    host(|| {
        let mut v: Vec<&KOp> = hist()
            .ops
            .iter()
            .filter(|o| key.is_none_or(|k| k == o.key))
            .collect();
        v.sort_by_key(|o| (o.key, o.t0, o.t1));
        let mut s = String::new();
        for o in v.iter().take(400) {
            s.push_str(&render_op(o));
            s.push('\n');
        }
        s
    })
}

#[inline]
fn fits(state: u32, pre: u32) -> bool {
    match pre {
        WILD => true,
        ANY => state != ABSENT,
        _ => state == pre,
    }
}

#[inline]
fn apply(state: u32, post: u32) -> u32 {
    if post == SAME { state } else { post }
}

/// Is there an order of the operations that respects real time and the sequential map?
pub fn linearizable(ops: &[KOp], initial: u32) -> Result<(), String> {
    let mut v: Vec<&KOp> = ops.iter().collect();
    v.sort_by_key(|o| (o.t0, o.t1));
    // Fast path: strictly sequential histories.
    let n = v.len();
    if n == 0 {
        return Ok(());
    }
    let mut seq = true;
    let mut state = initial;
    for i in 0..n {
        if !v[i].must || (i + 1 < n && v[i + 1].t0 <= v[i].t1) {
            seq = false;
            break;
        }
        if !fits(state, v[i].pre) {
            return Err(format!(
                "{} cannot follow state {}",
                render_op(v[i]),
                st(state)
            ));
        }
        state = apply(state, v[i].post);
    }
    if seq {
        return Ok(());
    }
    // Drop operations that say nothing.
    v.retain(|o| !(o.pre == WILD && o.post == SAME));
    let n = v.len();
    assert!(n <= 1024, "history too long");
    let words = n.div_ceil(64);
    let mut search = Search {
        v,
        seen: std::collections::HashSet::new(),
        best: 0,
        best_state: initial,
        best_done: vec![0; words],
        budget: 2_000_000,
    };
    let mut done = vec![0u64; words];
    match search.go(&mut done, 0, initial) {
        Some(true) => Ok(()),
        None => {
            unsafe { GIVEUPS += 1 };
            Ok(())
        }
        Some(false) => {
            let rest: Vec<String> = (0..n)
                .filter(|i| search.best_done[i / 64] & (1 << (i % 64)) == 0)
                .take(6)
                .map(|i| render_op(search.v[i]))
                .collect();
            Err(format!(
                "no sequential order explains the results: after {} of {} steps the state is {}, unexplained: {}",
                search.best,
                n,
                st(search.best_state),
                rest.join("; ")
            ))
        }
    }
}

struct Search<'a> {
    v: Vec<&'a KOp>,
    seen: std::collections::HashSet<(Vec<u64>, u32)>,
    best: usize,
    best_state: u32,
    best_done: Vec<u64>,
    budget: u64,
}

impl Search<'_> {
    /// `None`: gave up.
    fn go(&mut self, done: &mut Vec<u64>, mut count: usize, state: u32) -> Option<bool> {
        let n = self.v.len();
        let mut taken: Vec<usize> = Vec::new();
        // Reads that fit now can be taken now; optional steps may simply never happen.
        let result = loop {
            if self.budget == 0 {
                break None;
            }
            self.budget -= 1;
            let mut limit = u64::MAX;
            let mut first = n;
            for i in 0..n {
                if done[i / 64] & (1 << (i % 64)) == 0 {
                    if first == n {
                        first = i;
                    }
                    let o = self.v[i];
                    if o.t0 > limit {
                        break;
                    }
                    if o.must && o.t1 < limit {
                        limit = o.t1;
                    }
                }
            }
            let mut mx = 0;
            let mut min_opt = u64::MAX;
            for i in 0..n {
                if done[i / 64] & (1 << (i % 64)) != 0 {
                    mx = mx.max(self.v[i].t0);
                }
            }
            for i in first..n {
                let o = self.v[i];
                if done[i / 64] & (1 << (i % 64)) == 0 && !o.must && o.t1 >= mx {
                    min_opt = min_opt.min(o.t1);
                }
            }
            let mut progressed = false;
            let mut cands: Vec<usize> = Vec::new();
            let mut pending_must = false;
            for i in first..n {
                if done[i / 64] & (1 << (i % 64)) != 0 {
                    continue;
                }
                let o = self.v[i];
                if o.must {
                    pending_must = true;
                }
                if o.t0 > limit {
                    if !pending_must {
                        continue;
                    }
                    break;
                }
                if !o.must && o.t1 < mx {
                    // Too late for this one: it never happened.
                    continue;
                }
                if o.post == SAME && o.t0 <= min_opt {
                    if fits(state, o.pre) {
                        done[i / 64] |= 1 << (i % 64);
                        taken.push(i);
                        count += 1;
                        progressed = true;
                    }
                } else if fits(state, o.pre) {
                    cands.push(i);
                }
            }
            if progressed {
                continue;
            }
            if count > self.best || self.best == 0 {
                self.best = count;
                self.best_state = state;
                self.best_done.clone_from(done);
            }
            if !pending_must {
                break Some(true);
            }
            if !self.seen.insert((done.clone(), state)) {
                break Some(false);
            }
            let mut r = Some(false);
            for i in cands {
                let o = self.v[i];
                done[i / 64] |= 1 << (i % 64);
                let x = self.go(done, count + 1, apply(state, o.post));
                done[i / 64] &= !(1 << (i % 64));
                if x != Some(false) {
                    r = x;
                    break;
                }
            }
            break r;
        };
        for i in taken {
            done[i / 64] &= !(1 << (i % 64));
        }
        result
    }
}

/// As `linearizable`, but only the order that the memory model makes visible counts: `before`
/// tells whether one moment happens before another.
pub fn linearizable_hb(ops: &[KOp], initial: u32, before: impl Fn(u64, u64) -> bool) -> Result<(), String> {
    let mut v: Vec<&KOp> = ops.iter().filter(|o| !(o.pre == WILD && o.post == SAME)).collect();
    v.sort_by_key(|o| (o.t0, o.t1));
    let n = v.len();
    if n > 128 {
        unsafe { GIVEUPS += 1 };
        return Ok(());
    }
    let mut preds = vec![0u128; n];
    for j in 0..n {
        for i in 0..n {
            if i != j && v[i].t1 < v[j].t0 && before(v[i].t1, v[j].t0) {
                preds[j] |= 1 << i;
            }
        }
    }
    let must: u128 = (0..n).filter(|i| v[*i].must).fold(0, |a, i| a | 1 << i);
    struct S<'a> {
        v: Vec<&'a KOp>,
        preds: Vec<u128>,
        must: u128,
        seen: std::collections::HashSet<(u128, u32)>,
        budget: u64,
        best: u128,
        best_state: u32,
    }
    impl S<'_> {
        /// `gone`: taken, or skipped because a successor was taken.
        fn go(&mut self, mut gone: u128, state: u32) -> Option<bool> {
            let n = self.v.len();
            loop {
                let mut progressed = false;
                for i in 0..n {
                    if gone >> i & 1 == 0
                        && self.must >> i & 1 == 1
                        && self.v[i].post == SAME
                        && self.preds[i] & !gone == 0
                        && fits(state, self.v[i].pre)
                    {
                        gone |= 1 << i;
                        progressed = true;
                    }
                }
                if !progressed {
                    break;
                }
            }
            if gone.count_ones() > self.best.count_ones() {
                self.best = gone;
                self.best_state = state;
            }
            if self.must & !gone == 0 {
                return Some(true);
            }
            if !self.seen.insert((gone, state)) {
                return Some(false);
            }
            if self.budget == 0 {
                return None;
            }
            self.budget -= 1;
            for i in 0..n {
                if gone >> i & 1 == 1
                    || self.preds[i] & self.must & !gone != 0
                    || !fits(state, self.v[i].pre)
                {
                    continue;
                }
                // Steps that may not have happened and come before this one never happened.
                let g = gone | 1 << i | self.preds[i];
                let r = self.go(g, apply(state, self.v[i].post));
                if r != Some(false) {
                    return r;
                }
            }
            Some(false)
        }
    }
    let mut s = S {
        v,
        preds,
        must,
        seen: std::collections::HashSet::new(),
        budget: 300_000,
        best: 0,
        best_state: initial,
    };
    match s.go(0, initial) {
        Some(true) => Ok(()),
        None => {
            unsafe { GIVEUPS += 1 };
            Ok(())
        }
        Some(false) => {
            let rest: Vec<String> = (0..n)
                .filter(|i| s.best >> i & 1 == 0)
                .take(6)
                .map(|i| render_op(s.v[i]))
                .collect();
            Err(format!(
                "no sequential order explains the results even if only the happens-before order counts: after {} of {} steps the state is {}, unexplained: {}",
                s.best.count_ones(),
                n,
                st(s.best_state),
                rest.join("; ")
            ))
        }
    }
}

/// Spells out what some operations are allowed to do on one key.
fn prepare(group: &mut Vec<KOp>) {
    let n = group.len();
    for i in 0..n {
        if group[i].what == MANY {
            let m = group[i].clone();
            let inserts = group[..n]
                .iter()
                .filter(|o| {
                    o.t0 <= m.t1 && o.t1 >= m.t0 && o.post != ABSENT && o.post != SAME && matches!(o.pre, ABSENT | ANY | WILD)
                })
                .count();
            // One copy is there, and the removal itself is listed as well.
            for _ in 1..inserts.min(8) {
                group.push(m.clone());
            }
        }
    }
    // A range removal takes whole subtrees out of a tree index, and their leaves out of the list of
    // leaves, but not at the same moment: scans that overlap it may see what point operations see
    // at any other moment of the removal.
    let ranges: Vec<(u64, u64)> =
        group.iter().filter(|o| o.what == "remove_range").map(|o| (o.t0, o.t1)).collect();
    if ranges.is_empty() {
        return;
    }
    let tree = |o: &KOp| o.what.ends_with("tree scan saw") || o.what.ends_with("by tree scan");
    if simrt::weak::stamps().is_empty() {
        for o in group.iter_mut().filter(|o| tree(o)) {
            let (t0, t1) = (o.t0, o.t1);
            for (a, b) in ranges.iter().filter(|(a, b)| *a <= t1 && *b >= t0) {
                o.t0 = o.t0.min(*a);
                o.t1 = o.t1.max(*b);
            }
        }
    } else {
        // Moments of another thread say nothing about what this one can see.
        use simrt::weak::happens_before as hb;
        group.retain(|o| !tree(o) || ranges.iter().all(|(a, b)| hb(*b, o.t0) || hb(o.t1, *a)));
    }
}

fn decide(group: &[KOp], regular: impl Fn(&KOp) -> bool) -> Result<(), String> {
    if group.iter().any(&regular) {
        let rest: Vec<KOp> = group.iter().filter(|o| !regular(o)).cloned().collect();
        decide_all(&rest)
    } else {
        decide_all(group)
    }
}

fn decide_all(group: &[KOp]) -> Result<(), String> {
    match linearizable(group, ABSENT) {
        // Real time is not visible to the threads unless something synchronises them.
        Err(_) if !simrt::weak::stamps().is_empty() => {
            linearizable_hb(group, ABSENT, simrt::weak::happens_before)
        }
        r => r,
    }
}

/// Checks the whole history; returns the first failing key.
pub fn check(gap: impl Fn(u32) -> Gap, weak_index: bool) -> Option<(u32, &'static str, String)> {
    let ops = &hist().ops;
    let regular = |o: &KOp| REGULAR.contains(&o.what) || (weak_index && LOOKUPS.contains(&o.what));
    let mut idx: Vec<usize> = (0..ops.len()).collect();
    idx.sort_by_key(|i| ops[*i].key);
    let mut i = 0;
    while i < idx.len() {
        let key = ops[idx[i]].key;
        let mut j = i;
        while j < idx.len() && ops[idx[j]].key == key {
            j += 1;
        }
        let mut group: Vec<KOp> = idx[i..j].iter().map(|x| ops[*x].clone()).collect();
        prepare(&mut group);
        let mode = gap(key);
        let holes = if mode == Gap::Wrong { Vec::new() } else { in_gap(&group) };
        let mut kind = "history";
        let mut r = Ok(());
        let hole = holes.iter().any(|x| *x);
        if hole {
            let mut it = holes.iter();
            let mut rest = group.clone();
            rest.retain(|_| !it.next().unwrap());
            r = decide(&rest, regular);
        }
        if r.is_ok() && (!hole || mode == Gap::Apart) {
            r = decide(&group, regular);
            if hole {
                kind = "update-gap";
            }
        }
        if r.is_ok() && group.iter().any(|o| regular(o)) {
            kind = "history";
            // An entry that is updated need not survive the iteration.
            let holes = in_gap(&group);
            let plain: Vec<KOp> = group
                .iter()
                .filter(|o| !regular(o) && (o.post != SAME || !o.must))
                .cloned()
                .collect();
            for (o, hole) in group.iter().zip(&holes) {
                if regular(o) && !*hole {
                    let mut g = plain.clone();
                    g.push(o.clone());
                    r = decide_all(&g);
                    if r.is_err() {
                        break;
                    }
                }
            }
        }
        if let Err(e) = r {
            unsafe { BAD_KEY = Some(key) };
            return Some((key, kind, e));
        }
        i = j;
    }
    None
}

#[cfg(test)]
mod tests {
    use super::*;
    fn op(t0: u64, t1: u64, pre: u32, post: u32, must: bool) -> KOp {
        KOp { key: 1, t0, t1, pre, post, must, who: (0, 0), what: "t" }
    }
    #[test]
    fn basics() {
        assert!(linearizable(&[op(1, 2, ABSENT, 5, true), op(3, 4, 5, SAME, true)], ABSENT).is_ok());
        assert!(linearizable(&[op(1, 2, ABSENT, 5, true), op(3, 4, ABSENT, SAME, true)], ABSENT).is_err());
        // An aborted step cannot happen late.
        assert!(linearizable(
            &[op(1, 2, ABSENT, 5, true), op(3, 4, ANY, ABSENT, false), op(5, 6, 5, SAME, true), op(7, 8, ABSENT, SAME, true)],
            ABSENT
        ).is_err());
        // Taking the weak read early must not rule the aborted step out.
        assert!(linearizable(
            &[op(1, 2, ABSENT, 5, true), op(3, 4, 5, 6, false), op(5, 6, ANY, SAME, true), op(7, 8, 6, SAME, true)],
            ABSENT
        ).is_ok());
        // Concurrent read may see either.
        assert!(linearizable(&[op(1, 5, ABSENT, 5, true), op(3, 4, ABSENT, SAME, true)], ABSENT).is_ok());
        // Two successful inserts without a removal.
        assert!(linearizable(&[op(1, 5, ABSENT, 5, true), op(3, 4, ABSENT, 6, true)], ABSENT).is_err());
        // A cancelled removal explains it.
        assert!(linearizable(
            &[op(1, 5, ABSENT, 5, true), op(3, 4, ABSENT, 6, true), op(2, 9, ANY, ABSENT, false)],
            ABSENT
        ).is_ok());
        // but not if it started later.
        assert!(linearizable(
            &[op(1, 5, ABSENT, 5, true), op(3, 4, ABSENT, 6, true), op(7, 9, ANY, ABSENT, false)],
            ABSENT
        ).is_err());
        // Maybe followed by sequential must.
        assert!(linearizable(
            &[op(1, 2, ABSENT, 5, true), op(3, 4, ANY, ABSENT, false), op(5, 6, 5, SAME, true)],
            ABSENT
        ).is_ok());
        assert!(linearizable(
            &[op(1, 2, ABSENT, 5, true), op(3, 4, ANY, ABSENT, false), op(5, 6, ABSENT, SAME, true)],
            ABSENT
        ).is_ok());
        assert!(linearizable(
            &[op(1, 2, ABSENT, 5, true), op(3, 4, ANY, ABSENT, false), op(5, 6, ABSENT, SAME, true), op(7, 8, 5, SAME, true)],
            ABSENT
        ).is_err());
        // Stale read inversion.
        assert!(linearizable(
            &[op(1, 10, ABSENT, 5, true), op(2, 3, 5, SAME, true), op(4, 5, ABSENT, SAME, true)],
            ABSENT
        ).is_err());
    }
}
