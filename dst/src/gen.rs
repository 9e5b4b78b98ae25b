//! From a seed to a plan.

use simrt::Strategy;
use simrt::rng::Rng;

use crate::plan::Code::{self, *};
use crate::plan::{Fault, Kind, Op, Plan};
use crate::vals::SMALL_EXE;

type Mix = Vec<(Code, u32)>;

struct G {
    r: Rng,
    p: Plan,
    next_v: u32,
    hot: Vec<u32>,
    hot_pct: u64,
    asy_pct: u64,
    hold_pct: u64,
    hold_max: u64,
    fault: FaultMode,
    fault_pct: u64,
    solo_pct: u64,
    bulk_limit_pct: u64,
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum FaultMode {
    None,
    Cancel,
    PanicOrAlloc,
}

const HASHES: [Kind; 4] = [Kind::Hm, Kind::Hs, Kind::Hi, Kind::Hc];
const ALL: [Kind; 5] = [Kind::Hm, Kind::Hs, Kind::Hi, Kind::Hc, Kind::Ti];

pub const PROPS: &[&str] = &[
    "H01", "H02", "H03", "H04", "H05", "H06", "H07", "H08", "C01", "T01", "T02", "T03", "R01",
    "R02", "A01", "A02", "F01", "L01", "V01", "M01", "S01",
];

fn points(k: Kind) -> Mix {
    match k {
        Kind::Hm => vec![
            (Insert, 5), (Upsert, 3), (Update, 3), (Read, 4), (Contains, 2), (Remove, 5),
            (RemoveIf, 3), (EntryOrInsert, 3), (EntryModify, 2), (EntryInsert, 2), (EntryRmw, 3),
            (EntryRemove, 2), (EntryLook, 1), (TryEntry, 1), (Get, 2), (Replace, 2), (Any, 1),
        ],
        Kind::Hs => vec![
            (Insert, 5), (Replace, 3), (Remove, 5), (RemoveIf, 3), (Read, 4), (Contains, 3),
        ],
        Kind::Hi => vec![
            (Insert, 5), (Remove, 5), (RemoveIf, 3), (EntryOrInsert, 3), (EntryRmw, 3),
            (EntryRemove, 2), (Get, 3), (TryEntry, 1), (Peek, 5), (Read, 5), (Contains, 4), (Any, 1),
        ],
        Kind::Hc => vec![
            (Insert, 6), (EntryOrInsert, 3), (EntryModify, 2), (EntryInsert, 2), (EntryRmw, 3),
            (EntryRemove, 2), (EntryLook, 1), (Get, 4), (Read, 4), (Contains, 2), (Remove, 4),
            (RemoveIf, 3), (Replace, 2), (TryEntry, 1),
        ],
        Kind::Ti => vec![
            (Insert, 8), (Remove, 7), (RemoveIf, 4), (Peek, 4), (PeekEntry, 2), (Read, 4),
            (Contains, 3),
        ],
    }
}

fn writes(k: Kind) -> Mix {
    match k {
        Kind::Hm => vec![
            (Insert, 6), (Upsert, 3), (Update, 2), (Remove, 6), (RemoveIf, 2), (EntryOrInsert, 2),
            (EntryRmw, 2), (EntryRemove, 2), (Replace, 1),
        ],
        Kind::Hs => vec![(Insert, 6), (Replace, 2), (Remove, 6), (RemoveIf, 2)],
        Kind::Hi => vec![
            (Insert, 6), (Remove, 6), (RemoveIf, 2), (EntryRmw, 3), (EntryRemove, 2), (EntryOrInsert, 2),
        ],
        Kind::Hc => vec![
            (Insert, 6), (Remove, 5), (RemoveIf, 2), (EntryRmw, 2), (EntryRemove, 2), (EntryOrInsert, 2), (Get, 1),
        ],
        Kind::Ti => vec![(Insert, 7), (Remove, 6), (RemoveIf, 3)],
    }
}

fn reads(k: Kind) -> Mix {
    match k {
        Kind::Hm => vec![(Read, 4), (Contains, 2), (Get, 1), (EntryLook, 1)],
        Kind::Hs => vec![(Read, 4), (Contains, 2)],
        Kind::Hi => vec![(Peek, 4), (Read, 4), (Contains, 2), (Get, 1)],
        Kind::Hc => vec![(Read, 4), (Contains, 2), (Get, 2)],
        Kind::Ti => vec![(Peek, 3), (PeekEntry, 2), (Read, 3), (Contains, 2)],
    }
}

fn bulk(k: Kind) -> Mix {
    match k {
        Kind::Hm => vec![(Scan, 4), (IterMut, 3), (Retain, 3), (Clear, 1), (Walk, 2), (WalkRemove, 2), (Any, 1)],
        Kind::Hs => vec![(Scan, 4), (IterMut, 3), (Retain, 3), (Clear, 1)],
        Kind::Hi => vec![
            (Scan, 3), (Retain, 3), (Clear, 1), (Walk, 2), (WalkRemove, 2), (GuardScan, 6), (Any, 1),
        ],
        Kind::Hc => vec![(Scan, 4), (IterMut, 3), (Retain, 3), (Clear, 1)],
        Kind::Ti => vec![(Scan, 4), (Range, 4)],
    }
}

fn add(a: Mix, b: Mix, times: u32) -> Mix {
    let mut a = a;
    for (c, w) in b {
        a.push((c, w * times));
    }
    a
}

impl G {
    fn new(prop: &str, seed: u64, exe: u8) -> G {
        let mut r = Rng::new(seed ^ 0x9E37_79B9);
        let _ = r.next();
        let t = Plan::parse("").unwrap().0;
        let mut p = Plan {
            prop: prop.to_string(),
            seed,
            exe,
            ..t
        };
        p.salt = r.below(1 << 20);
        G {
            r,
            p,
            next_v: 1,
            hot: Vec::new(),
            hot_pct: 70,
            asy_pct: 0,
            hold_pct: 20,
            hold_max: 3,
            fault: FaultMode::None,
            fault_pct: 0,
            solo_pct: 0,
            bulk_limit_pct: 15,
        }
    }

    /// Small trees only in the executable for them.
    fn kind(&mut self, of: &[Kind]) {
        self.p.kind = *self.r.pick(of);
        if self.p.exe == SMALL_EXE {
            self.p.kind = Kind::Ti;
        }
    }

    fn schedule(&mut self) {
        let r = &mut self.r;
        let span = 60 << r.below(8);
        self.p.strat = match r.below(20) {
            0..7 => Strategy::Random { den: *r.pick(&[2, 3, 4, 6, 10, 20, 40, 80]) },
            7..11 => Strategy::Pct { depth: 1 + r.below(4) as u32, span },
            11..15 => Strategy::Few { n: 1 + r.below(4) as u32, span },
            _ => Strategy::Writes { den_w: *r.pick(&[2, 3, 5, 10]), den_r: *r.pick(&[8, 20, 60, 200]) },
        };
        if r.chance(3, 10) {
            self.p.stall_den = 1 + r.below(6);
            self.p.stall_len = 30 << r.below(8);
        }
        if r.chance(3, 10) {
            self.p.weak_cas_den = *r.pick(&[4, 10, 40]);
        }
        if r.chance(3, 10) {
            self.p.spurious_den = *r.pick(&[2, 5, 20]);
        }
        self.p.cadence = *r.pick(&[0, 1, 1, 2, 4, 16]);
        self.p.reuse = r.chance(3, 10);
        self.p.drop_points = r.chance(1, 4);
    }

    /// Weak memory in some of the runs.
    fn weak(&mut self, pct: u64) {
        if self.r.chance(pct, 100) {
            self.p.weak = 1 + self.r.below(3).min(1) as u8;
            self.p.stale_den = *self.r.pick(&[2, 3, 6, 15]);
        }
    }

    fn asynchronous(&mut self) {
        match self.r.below(10) {
            0..5 => self.asy_pct = 0,
            5..7 => self.asy_pct = 50,
            7..9 => self.asy_pct = 100,
            _ => {
                self.asy_pct = 100;
                self.p.workers = 1 + self.r.below(3) as u8;
            }
        }
    }

    fn v(&mut self) -> u32 {
        let v = self.next_v;
        self.next_v += self.p.nkeys.max(2) + 4 + self.r.below(2) as u32;
        v
    }

    fn key(&mut self) -> u32 {
        if self.r.chance(self.hot_pct, 100) && !self.hot.is_empty() {
            *self.r.pick(&self.hot.clone())
        } else {
            self.r.below(u64::from(self.p.nkeys.max(1))) as u32
        }
    }

    fn pre(&mut self, code: Code, k: u32) {
        let mut o = Op::new(code, k);
        o.v = self.v();
        self.p.prefill.push(o);
    }

    fn pre_resv(&mut self, n: u32) {
        let mut o = Op::new(Reserve, 0);
        o.a = n;
        self.p.prefill.push(o);
    }

    fn hash_shape(&mut self, resizing: bool) {
        let kind = self.p.kind;
        if kind == Kind::Hi && self.r.chance(1, 5) {
            self.recycling_shape();
            return;
        }
        let resv = kind != Kind::Hc;
        let style = if resizing {
            *self.r.pick(&[2, 3, 3, 3, 4, 4, 5, 7, 7, 8])
        } else {
            *self.r.pick(&[0, 1, 1, 1, 1, 2, 3, 3, 4, 5, 5, 6, 7, 8])
        };
        let r = &mut self.r;
        self.p.max = 1 << r.range(6, 10);
        self.p.hash = *r.pick(&[0, 0, 0, 5]);
        match style {
            0 => {
                self.p.nkeys = r.range(1, 6) as u32;
                self.p.cap = if r.chance(1, 3) { 64 } else { 0 };
                self.p.hash = *r.pick(&[0, 1, 2, 3, 4, 5, 6]);
            }
            1 => {
                self.p.nkeys = r.range(1, 8) as u32;
                self.p.cap = *r.pick(&[0, 0, 64, 128]);
                self.p.hash = *r.pick(&[0, 1, 2, 3, 4, 5, 6]);
                for k in 0..self.p.nkeys {
                    if self.r.chance(1, 2) {
                        self.pre(Insert, k);
                    }
                }
            }
            2 => {
                // About to grow.
                let n;
                if r.chance(1, 2) {
                    self.p.hash = *r.pick(&[1, 2, 3]);
                    n = r.range(22, 34) as u32;
                } else {
                    n = r.range(38, 58) as u32;
                }
                self.p.nkeys = n + r.range(4, 20) as u32;
                for k in 0..n {
                    self.pre(Insert, k);
                }
            }
            3 | 8 => {
                // A shrink is in progress; an eighth of it or more may still be to do.
                let n = if style == 3 { r.range(3, 40) } else { r.range(1, 9) } as u32;
                self.p.nkeys = n + r.range(1, 6) as u32;
                self.p.hash = *r.pick(&[0, 0, 0, 4, 5, 2, 3, 1]);
                if resv {
                    let big = *r.pick(&[100, 200, 500, 1000, 2000, 4000]);
                    self.pre_resv(big);
                    for k in 0..n {
                        self.pre(Insert, k);
                    }
                    let o = Op::new(Unreserve, 0);
                    self.p.prefill.push(o);
                } else {
                    self.p.max = 4096;
                    for k in 0..self.p.nkeys + 200 {
                        self.pre(Insert, k % (self.p.nkeys + 200));
                    }
                    let base = self.p.nkeys;
                    self.p.nkeys += 200;
                    for k in base..self.p.nkeys {
                        self.pre(Remove, k);
                    }
                    self.hot = (0..base.min(6)).collect();
                }
            }
            4 => {
                // A growth is in progress.
                let n = r.range(50, 75) as u32;
                self.p.nkeys = n + r.range(2, 12) as u32;
                for k in 0..n {
                    self.pre(Insert, k);
                }
            }
            5 => {
                // Overflowing bucket.
                self.p.hash = *r.pick(&[1, 2, 6]);
                let n = r.range(28, 46) as u32;
                self.p.nkeys = n + r.range(1, 8) as u32;
                if kind != Kind::Hc && r.chance(1, 2) {
                    self.p.cap = 256;
                }
                for k in 0..n {
                    self.pre(Insert, k);
                }
            }
            6 => {
                self.p.cap = 1 << r.range(7, 10);
                self.p.max = self.p.max.max(self.p.cap);
                self.p.nkeys = r.range(2, 30) as u32;
                for k in 0..self.p.nkeys {
                    if self.r.chance(2, 3) {
                        self.pre(Insert, k);
                    }
                }
            }
            _ => {
                // Was large, was emptied.
                let n = r.range(60, 160) as u32;
                let left = r.range(1, 12) as u32;
                self.p.max = 1024;
                self.p.nkeys = n;
                for k in 0..n {
                    self.pre(Insert, k);
                }
                for k in left..n {
                    self.pre(Remove, k);
                }
                self.hot = (0..left).collect();
            }
        }
        if self.p.kind == Kind::Hc && self.p.cap > self.p.max {
            self.p.max = self.p.cap;
        }
        self.hots();
    }

    /// A full bucket with slots of removed entries that can be used again.
    fn recycling_shape(&mut self) {
        self.p.cap = *self.r.pick(&[0, 64, 64, 256]);
        self.p.hash = *self.r.pick(&[1, 2, 6, 6, 6]);
        let n = self.r.range(29, 46) as u32;
        self.p.nkeys = n + self.r.range(1, 6) as u32;
        for k in 0..n {
            self.pre(Insert, k);
        }
        let mut gone = Vec::new();
        let den = *self.r.pick(&[2, 3, 8]);
        for k in 0..n {
            if self.r.chance(1, den) {
                self.pre(Remove, k);
                gone.push(k);
            }
        }
        for _ in 0..self.r.below(14) {
            let k = self.r.below(u64::from(n)) as u32;
            self.pre(Peek, k);
        }
        self.hot.clear();
        for _ in 0..1 + self.r.below(4) {
            let k = if gone.is_empty() || self.r.chance(1, 3) {
                self.r.below(u64::from(self.p.nkeys)) as u32
            } else {
                *self.r.pick(&gone)
            };
            self.hot.push(k);
        }
        self.hot_pct = *self.r.pick(&[50, 80, 95]);
    }

    fn hots(&mut self) {
        let n = u64::from(self.p.nkeys.max(1));
        let h = 1 + self.r.below(4);
        if self.hot.is_empty() || self.r.chance(1, 3) {
            self.hot.clear();
            if self.r.chance(1, 2) {
                // Neighbours.
                let s = self.r.below(n);
                for i in 0..h {
                    self.hot.push(((s + i) % n) as u32);
                }
            } else {
                for _ in 0..h {
                    let k = self.r.below(n) as u32;
                    self.hot.push(k);
                }
            }
            if self.r.chance(1, 3) {
                // The end, where new keys go.
                self.hot.push(n as u32 - 1);
            }
        }
        self.hot_pct = *self.r.pick(&[40, 70, 90, 97]);
    }

    /// Trees of more than two levels.
    fn deep_tree(&mut self, dense: bool) {
        let small = self.p.exe == SMALL_EXE;
        if dense {
            // Full leaves under full nodes, with room for other keys everywhere.
            let n = if small { self.r.range(30, 240) } else { self.r.range(200, 420) } as u32;
            self.p.nkeys = 2 * n;
            let up = self.r.chance(1, 2);
            for i in 0..n {
                let k = if up { i } else { n - 1 - i };
                self.pre(Insert, 2 * k);
            }
            // A run of keys is hot: it takes several leaves to their limit and beyond.
            let len = if small { self.r.range(3, 16) } else { self.r.range(8, 40) } as u32;
            let a = self.r.below(u64::from(n - len)) as u32;
            self.hot = (2 * a..2 * (a + len)).collect();
            if self.r.chance(1, 2) {
                let b = self.r.below(u64::from(n - len)) as u32;
                self.hot.extend(2 * b..2 * (b + len));
            }
            // The leaves there are filled up, or nearly.
            let fill = self.r.below(4);
            for k in self.hot.clone() {
                if k % 2 == 1 && self.r.below(4) < fill {
                    self.pre(Insert, k);
                }
            }
            self.hot_pct = 85;
        } else {
            // Inserting right behind the first few keys, in descending order, splits a leaf
            // each time: most leaves have a single key.
            let (low, n) = if small {
                (2 + self.r.below(2) as u32, self.r.range(4, 90) as u32)
            } else {
                (12, *self.r.pick(&[20, 26, 40, 150, 170, 184, 190, 196, 202, 230, 380]) + self.r.below(16) as u32)
            };
            let room = self.r.range(2, 12) as u32;
            self.p.nkeys = low + room + n;
            for k in 0..low {
                self.pre(Insert, k);
            }
            for i in 0..n {
                self.pre(Insert, self.p.nkeys - 1 - i);
            }
            self.hot = (low - 2..low + room).rev().collect();
            let far = self.r.below(3);
            for _ in 0..far {
                // A whole node somewhere may be about to become empty.
                let a = low + room + self.r.below(u64::from(n)) as u32;
                let len = self.r.range(1, 16) as u32;
                let keys: Vec<u32> = (a..(a + len).min(self.p.nkeys)).collect();
                for k in &keys {
                    if self.r.chance(2, 3) {
                        self.pre(Remove, *k);
                    }
                }
                self.hot.extend(keys);
            }
            self.hot_pct = *self.r.pick(&[60, 85, 95]);
        }
    }

    /// A tree in which one of the next insertions splits a node and not just a leaf.
    fn about_to_split(&mut self) {
        // The numbers of keys, inserted in order, at which that happens.
        let (small, up) = (self.p.exe == SMALL_EXE, self.r.chance(1, 2));
        let at: &[u64] = match (small, up) {
            (false, true) => &[196, 196, 365],
            (false, false) => &[196, 196, 391],
            (true, true) => &[16, 16, 25, 34, 52, 52, 61, 79, 133, 160],
            (true, false) => &[16, 16, 31, 46, 76, 76, 91, 151],
        };
        let n = *self.r.pick(at) - self.r.below(3).min(1) * self.r.below(4);
        let extra = self.r.range(2, 6);
        self.p.nkeys = (n + extra) as u32;
        let last = self.p.nkeys - 1;
        let nth = |i: u64| if up { i as u32 } else { last - i as u32 };
        for i in 0..n {
            self.pre(Insert, nth(i));
        }
        self.hot = (n..n + extra).map(nth).collect();
        for _ in 0..self.r.range(1, 4) {
            let back = self.r.below(n.min(if small { 12 } else { 40 }));
            self.hot.push(nth(n - 1 - back));
        }
        self.hot_pct = *self.r.pick(&[90, 97]);
    }

    fn tree_shape(&mut self) {
        if self.r.chance(1, 6) {
            self.about_to_split();
            return;
        }
        let style = *self.r.pick(&[0, 1, 2, 2, 2, 3, 3, 4, 4, 5, 6, 6, 7, 8, 9, 9, 9]);
        if style >= 8 {
            self.deep_tree(style == 8);
            return;
        }
        let small = self.p.exe == SMALL_EXE;
        let r = &mut self.r;
        let (n, extra) = match style {
            0 => (0, r.range(1, 5)),
            1 if small => (r.range(1, 4), r.range(1, 4)),
            2 if small => (r.range(3, 9), r.range(1, 6)),
            3 if small => (r.range(8, 30), r.range(1, 10)),
            4 if small => (r.range(16, 50), r.range(1, 12)),
            5 if small => (r.range(40, 130), r.range(1, 16)),
            6 if small => (r.range(8, 130), r.range(1, 4)),
            7 if small => (r.range(6, 100), r.range(1, 6)),
            // Around the first split.
            2 => (r.range(12, 17), r.range(1, 6)),
            3 => (r.range(18, 60), r.range(1, 10)),
            // Around the split of a node of leaves.
            4 => (r.range(95, 125), r.range(1, 16)),
            5 => (r.range(180, 230), r.range(1, 16)),
            6 => (r.range(30, 130), r.range(1, 4)),
            1 => (r.range(1, 12), r.range(1, 4)),
            _ => (r.range(14, 40), r.range(1, 6)),
        };
        let total = n + extra;
        self.p.nkeys = total as u32;
        let order = r.below(4);
        let skip = r.below(total.max(1));
        let mut keys: Vec<u32> = match order {
            0 => (0..n as u32).collect(),
            1 => (0..n as u32).rev().collect(),
            2 => (0..total as u32).filter(|k| u64::from(*k) != skip).take(n as usize).collect(),
            _ => {
                let mut v: Vec<u32> = (0..total as u32).collect();
                for i in (1..v.len()).rev() {
                    v.swap(i, self.r.idx(i + 1));
                }
                v.truncate(n as usize);
                v
            }
        };
        if order == 2 && n > 3 {
            // Leave a gap in the middle.
            keys.retain(|k| u64::from(*k).abs_diff(skip) > 2);
        }
        let mut gap = Vec::new();
        for k in &keys {
            self.pre(Insert, *k);
        }
        match style {
            6 => {
                // Mostly emptied again.
                let keep = self.r.range(1, 8);
                let den = keys.len() as u64 / keep + 1;
                for k in keys.clone() {
                    if self.r.below(den) != 0 {
                        self.pre(Remove, k);
                    } else {
                        gap.push(k);
                    }
                }
                self.hot = gap.clone();
                self.hot.truncate(4);
            }
            7 => {
                // A run of keys removed: whole leaves are about to become empty.
                let a = self.r.below(n) as u32;
                let b = a + if small { self.r.range(2, 14) } else { self.r.range(6, 16) } as u32;
                for k in a..b.min(n as u32) {
                    if keys.contains(&k) {
                        self.pre(Remove, k);
                    }
                }
                self.hot = (a.saturating_sub(2)..(b + 3).min(total as u32)).collect();
            }
            _ => (),
        }
        if style == 7 && self.r.chance(3, 4) {
            self.hot_pct = 85;
        } else if style == 6 && self.r.chance(3, 4) {
            self.hot_pct = 80;
        } else {
            self.hots();
            if style == 2 || style == 4 {
                // The keys not there yet, to force the split.
                for k in 0..total as u32 {
                    if !keys.contains(&k) && self.hot.len() < 8 {
                        self.hot.push(k);
                    }
                }
            }
        }
    }

    fn shape(&mut self, resizing: bool) {
        if self.p.kind == Kind::Ti {
            self.tree_shape();
        } else {
            self.hash_shape(resizing);
        }
    }

    fn op(&mut self, code: Code) -> Op {
        let k = self.key();
        let v = self.v();
        let r = &mut self.r;
        let mut o = Op::new(code, k);
        o.v = v;
        o.a = r.below(60) as u32;
        o.b = r.below(60) as u32;
        o.m = match r.below(5) {
            0 => u64::MAX,
            1 => 0,
            2 => r.next() & r.next() & r.next(),
            3 => r.next() | r.next(),
            _ => r.next(),
        };
        o.probe = r.chance(1, 2);
        o.asy = r.chance(self.asy_pct, 100);
        if r.chance(self.hold_pct, 100) {
            o.hold = 1 + r.below(self.hold_max) as u32;
        }
        if r.chance(self.solo_pct, 100) {
            o.solo = true;
        }
        match code {
            Scan | IterMut | GuardScan | Walk | WalkRemove | Range => {
                let lim = if r.chance(self.bulk_limit_pct, 100) { 1 + r.below(6) as u32 } else { 0 };
                let tree = self.p.kind == Kind::Ti;
                o.a = lim;
                if tree && code == Range {
                    self.span(&mut o);
                }
            }
            RemoveRange => self.span(&mut o),
            Reserve => {
                o.b = 0;
                let r = &mut self.r;
                o.a = match r.below(8) {
                    0 => 0,
                    1 => r.range(1, 64) as u32,
                    2..5 => r.range(65, 300) as u32,
                    5 | 6 => r.range(300, 3000) as u32,
                    _ => {
                        o.b = r.range(1, 3) as u32;
                        r.below(100) as u32
                    }
                };
            }
            _ => (),
        }
        let r = &mut self.r;
        if r.chance(self.fault_pct, 100) {
            match self.fault {
                FaultMode::None => (),
                FaultMode::Cancel => {
                    if o.asy {
                        o.fault = Fault::Cancel(1 + r.below(3) as u32);
                    }
                }
                FaultMode::PanicOrAlloc => {
                    o.fault = if r.chance(3, 5) {
                        let sh = r.below(6);
                        Fault::Panic(1 + r.below(1 << sh) as u32)
                    } else {
                        Fault::Alloc(1 + r.below(4) as u32)
                    };
                }
            }
        }
        o
    }

    fn span(&mut self, o: &mut Op) {
        let n = u64::from(self.p.nkeys);
        let r = &mut self.r;
        let a = r.below(n) as u32;
        let len = match r.below(4) {
            0 => r.below(4),
            1 => r.below(20),
            2 => r.below(n + 1),
            _ => n,
        } as u32;
        if r.chance(1, 25) {
            o.k = a;
            o.b = a.saturating_sub(r.below(3) as u32);
        } else {
            o.k = a;
            o.b = (a + len).min(self.p.nkeys);
        }
        o.m = match r.below(6) {
            0 => 0,
            _ => r.below(9),
        };
    }

    /// Enables a random part of the operations.
    fn swarm(&mut self, m: Mix) -> Mix {
        let keep = *self.r.pick(&[30, 50, 70, 100]);
        let mut out: Mix = m.iter().filter(|_| self.r.chance(keep, 100)).copied().collect();
        if out.len() < 2 {
            out = m;
        }
        out
    }

    fn pick(&mut self, m: &Mix) -> Code {
        let w: Vec<u32> = m.iter().map(|x| x.1).collect();
        m[self.r.weighted(&w)].0
    }

    fn migrating_ok(&self, c: Code) -> bool {
        // Nothing that blocks the thread.
        !matches!(c, CloneCmp | Ser | GuardOpen | GuardPeek | GuardAll | GuardCheck | GuardClose)
            && !(self.p.kind == Kind::Ti && c == Clear)
    }

    fn clients(&mut self, mixes: &[Mix], n: u64, max_ops: u64) {
        let mut sw: Vec<Mix> = Vec::new();
        for m in mixes {
            let s = self.swarm(m.clone());
            sw.push(s);
        }
        for i in 0..n {
            let mix = sw[i as usize % sw.len()].clone();
            let count = 1 + self.r.below(max_ops);
            let mut ops = Vec::new();
            for _ in 0..count {
                let c = self.pick(&mix);
                if self.p.workers > 0 && !self.migrating_ok(c) {
                    continue;
                }
                let mut o = self.op(c);
                if self.p.workers > 0 {
                    o.asy = true;
                }
                ops.push(o);
            }
            self.p.clients.push(ops);
        }
    }

    fn finals(&mut self, codes: &[Code]) {
        let mut all = codes.to_vec();
        if matches!(self.p.kind, Kind::Hm | Kind::Hi | Kind::Hc) && self.r.chance(1, 2) {
            all.insert(0, FinalTry);
        }
        self.finals_only(&all);
    }

    fn finals_only(&mut self, codes: &[Code]) {
        for c in codes {
            let mut o = Op::new(*c, 0);
            o.v = self.next_v;
            self.next_v += 2 * self.p.nkeys + 500;
            self.p.finals.push(o);
        }
    }

    fn n_clients(&mut self) -> u64 {
        *self.r.pick(&[2, 2, 2, 3, 3, 4])
    }
}

pub fn plan(prop: &str, seed: u64, exe: u8) -> Plan {
    let mut g = G::new(prop, seed, exe);
    g.schedule();
    g.p.lin = true;
    let n = g.n_clients();
    match prop {
        "H01" | "H02" | "H03" | "H04" | "T01" => {
            g.p.kind = match prop {
                "H01" => Kind::Hm,
                "H02" => Kind::Hs,
                "H03" => Kind::Hi,
                "H04" => Kind::Hc,
                _ => Kind::Ti,
            };
            let k = g.p.kind;
            g.weak(10);
            g.asynchronous();
            g.shape(false);
            if prop == "H04" && g.r.chance(1, 3) {
                // Evictions.
                g.p.prefill.clear();
                g.p.cap = 64;
                g.p.max = 64;
                g.p.hash = *g.r.pick(&[0, 1, 2, 3]);
                g.p.nkeys = g.r.range(34, 90) as u32;
                for k in 0..g.p.nkeys - 3 {
                    g.pre(Insert, k);
                }
                g.hot.clear();
                g.hots();
            }
            let all = points(k);
            let churn = g.r.chance(1, 3);
            let mixes = if g.r.chance(1, 2) {
                vec![all]
            } else {
                vec![writes(k), if churn { add(writes(k), reads(k), 1) } else { reads(k) }]
            };
            let len = *g.r.pick(&[3, 5, 8, 12]);
            g.clients(&mixes, n, len);
            g.finals(&[FinalAll]);
        }
        "H05" => {
            g.p.kind = *g.r.pick(&HASHES);
            let k = g.p.kind;
            g.asynchronous();
            let rs = g.r.chance(2, 3);
            g.shape(rs);
            g.bulk_limit_pct = 10;
            g.hot_pct = g.hot_pct.min(50);
            let both = g.r.chance(1, 2);
            let mut w = writes(k);
            if k != Kind::Hc {
                w.push((Reserve, 2));
                w.push((Unreserve, 2));
            }
            let mixes = if both { vec![add(bulk(k), w, 1)] } else { vec![bulk(k), w] };
            let len = *g.r.pick(&[2, 3, 5, 10]);
            g.clients(&mixes, n, len);
            g.finals(&[FinalAll]);
        }
        "H06" => {
            g.p.kind = *g.r.pick(&HASHES);
            let k = g.p.kind;
            g.weak(10);
            g.asynchronous();
            g.shape(true);
            g.hot_pct = g.hot_pct.min(60);
            let mut m = add(writes(k), reads(k), 1);
            if k != Kind::Hc {
                m.push((Reserve, 4));
                m.push((Unreserve, 4));
            }
            m.push((Retain, 1));
            m.push((Clear, 1));
            let len = *g.r.pick(&[4, 8, 16, 24]);
            g.clients(&[m], n, len);
            let fin: &[Code] = *g.r.pick::<&[Code]>(&[&[FinalAll], &[FinalAll, FinalUse]]);
            g.finals(fin);
        }
        "H07" => {
            g.kind(&[Kind::Hm, Kind::Hm, Kind::Hc]);
            let k = g.p.kind;
            g.p.excl = true;
            g.asynchronous();
            g.hold_pct = 60;
            g.shape(false);
            g.hot_pct = g.hot_pct.max(70);
            let m: Mix = match k {
                Kind::Hm => vec![
                    (Update, 4), (EntryRmw, 5), (EntryModify, 3), (Get, 4), (Read, 4), (RemoveIf, 2),
                    (TryEntry, 3), (Scan, 2), (IterMut, 2), (Retain, 2), (Walk, 2), (Any, 1), (Insert, 2),
                    (Remove, 2), (Upsert, 2), (Replace, 1), (EntryLook, 2), (EntryInsert, 1),
                ],
                _ => vec![
                    (EntryRmw, 5), (EntryModify, 3), (Get, 4), (Read, 4), (RemoveIf, 2), (TryEntry, 3),
                    (Scan, 2), (IterMut, 2), (Retain, 2), (Insert, 3), (Remove, 2), (Replace, 1), (EntryLook, 2),
                ],
            };
            let len = *g.r.pick(&[3, 5, 8]);
            g.clients(&[m], n, len);
            g.finals(&[FinalAll]);
        }
        "H08" => {
            g.kind(&[Kind::Hm, Kind::Hs, Kind::Hi]);
            let k = g.p.kind;
            g.p.lin = false;
            g.asynchronous();
            g.shape(true);
            let mut m = writes(k);
            m.extend([(Reserve, 14), (Unreserve, 9), (Cap, 14), (Clear, 3), (Retain, 2), (Len, 1)]);
            let len = *g.r.pick(&[4, 8, 12]);
            g.clients(&[m], n, len);
            for c in &mut g.p.clients {
                let o = Op::new(Cap, 0);
                c.push(o);
            }
            let fin: &[Code] = *g.r.pick::<&[Code]>(&[&[Cap, FinalShrink, Cap], &[Cap, FinalGrow, FinalShrink, Cap], &[Cap]]);
            g.finals(fin);
        }
        "C01" => {
            g.p.kind = Kind::Hc;
            g.asynchronous();
            g.p.drop_points = false;
            if g.r.chance(2, 3) {
                // One bucket, fixed size.
                g.p.cap = 64;
                g.p.max = 64;
                g.p.hash = 2;
                g.p.lru = true;
                let n = g.r.range(28, 34) as u32;
                g.p.nkeys = n + g.r.range(2, 12) as u32;
                for k in 0..n {
                    g.pre(Insert, k);
                }
                for _ in 0..g.r.below(20) {
                    let k = g.r.below(u64::from(n)) as u32;
                    let c = *g.r.pick(&[Get, Get, Get, Read, EntryRemove, Insert]);
                    let mut o = Op::new(c, k);
                    o.v = g.v();
                    o.a = 2;
                    g.p.prefill.push(o);
                }
                if g.r.chance(1, 3) {
                    // A few keys come in by other ways, then most others are used.
                    let tot = u64::from(g.p.nkeys);
                    for _ in 0..1 + g.r.below(4) {
                        let k = g.r.below(tot) as u32;
                        if g.r.chance(1, 2) {
                            g.pre(Remove, k);
                        }
                        let c = *g.r.pick(&[EntryOrInsert, EntryInsert, EntryRmw, Replace, EntryModify, EntryLook, TryEntry, Read]);
                        let mut o = Op::new(c, k);
                        o.v = g.v();
                        o.a = g.r.below(60) as u32;
                        o.b = g.r.below(60) as u32;
                        o.m = g.r.next();
                        o.probe = g.r.chance(1, 2);
                        g.p.prefill.push(o);
                    }
                    let len = n - g.r.below(4) as u32;
                    let a = g.r.below(u64::from(n)) as u32;
                    for i in 0..len {
                        if !g.r.chance(1, 25) {
                            g.pre(Get, (a + i) % n);
                        }
                    }
                }
                if g.r.chance(1, 2) {
                    // Emptied and filled again.
                    for _ in 0..1 + g.r.below(3) {
                        let keep = g.r.below(5);
                        for k in 0..n {
                            if g.r.below(u64::from(n)) >= keep {
                                g.pre(Remove, k);
                            }
                        }
                        for _ in 0..g.r.below(6) {
                            let k = g.r.below(u64::from(n)) as u32;
                            let c = *g.r.pick(&[Get, Insert, Insert, Remove]);
                            g.pre(c, k);
                        }
                        if g.r.chance(2, 3) {
                            let a = g.r.below(u64::from(n)) as u32;
                            let m = g.r.below(u64::from(n) + 1) as u32;
                            for i in 0..m {
                                g.pre(Insert, (a + i) % n);
                            }
                        }
                    }
                }
                g.hots();
                g.hot_pct = *g.r.pick(&[0, 20, 50]);
                let m: Mix = vec![
                    (Insert, 10), (Get, 8), (Read, 2), (Remove, 2), (EntryOrInsert, 3), (EntryInsert, 3),
                    (EntryRmw, 3), (Replace, 2), (Len, 1), (RemoveIf, 1), (TryEntry, 1), (EntryModify, 1), (Retain, 1),
                ];
                let len = *g.r.pick(&[4, 8, 16]);
                g.clients(&[m], n as u64 % 3 + 1, len);
            } else {
                g.p.max = 1 << g.r.range(6, 8);
                g.p.cap = *g.r.pick(&[0, 64]);
                g.p.hash = *g.r.pick(&[0, 0, 1, 2, 3, 5]);
                g.p.nkeys = (g.p.max + g.r.range(0, 90)) as u32;
                let n0 = g.r.below(u64::from(g.p.nkeys)) as u32;
                for k in 0..n0 {
                    g.pre(Insert, k);
                }
                if g.r.chance(1, 3) {
                    for k in 4..n0 {
                        g.pre(Remove, k);
                    }
                }
                g.hot_pct = 20;
                g.hots();
                g.hot_pct = g.hot_pct.min(40);
                let m: Mix = vec![(Insert, 10), (Len, 5), (Get, 2), (Remove, 3), (EntryOrInsert, 3), (Cap, 2), (Retain, 1)];
                let len = *g.r.pick(&[8, 16, 30]);
                g.clients(&[m], n, len);
            }
            let fin: &[Code] = *g.r.pick::<&[Code]>(&[&[FinalAll, FinalLen], &[FinalLen, FinalAll]]);
            g.finals(fin);
        }
        "T02" => {
            g.p.kind = Kind::Ti;
            g.asynchronous();
            g.tree_shape();
            g.bulk_limit_pct = 15;
            let m = if g.r.chance(1, 2) {
                vec![vec![(Scan, 3), (Range, 4)], add(writes(Kind::Ti), vec![(RemoveRange, 3), (Clear, 1)], 1)]
            } else {
                vec![add(vec![(Scan, 5), (Range, 6), (RemoveRange, 1)], writes(Kind::Ti), 1)]
            };
            let len = *g.r.pick(&[2, 4, 8, 14]);
            g.clients(&m, n, len);
            g.finals(&[FinalAll]);
        }
        "T03" => {
            g.p.kind = Kind::Ti;
            g.asynchronous();
            g.tree_shape();
            let m = if g.r.chance(1, 2) {
                vec![vec![(RemoveRange, 8), (Clear, 1)], add(writes(Kind::Ti), reads(Kind::Ti), 1)]
            } else {
                vec![add(vec![(RemoveRange, 8), (Clear, 1), (Scan, 1)], writes(Kind::Ti), 1)]
            };
            let len = *g.r.pick(&[2, 4, 8]);
            g.clients(&m, n, len);
            g.finals(&[FinalAll]);
        }
        "R01" => {
            g.kind(&ALL);
            let k = g.p.kind;
            g.p.lin = false;
            g.p.drops = true;
            g.asynchronous();
            let rs = g.r.chance(1, 2);
            g.shape(rs);
            if k == Kind::Hc && g.r.chance(1, 2) {
                g.p.max = 64;
                g.p.cap = 0;
            }
            let mut m = add(points(k), writes(k), 1);
            m.extend(bulk(k));
            m.extend([(Clear, 2), (Retain, 2), (CloneCmp, 1)]);
            if k == Kind::Ti {
                m.push((RemoveRange, 4));
            } else if k != Kind::Hc {
                m.extend([(Reserve, 3), (Unreserve, 3)]);
            }
            if k == Kind::Hc {
                m.retain(|x| x.0 != CloneCmp);
            }
            let len = *g.r.pick(&[3, 8, 14]);
            g.clients(&[m], n, len);
        }
        "R02" => {
            g.kind(&[Kind::Hi, Kind::Ti]);
            let k = g.p.kind;
            g.p.lin = false;
            g.p.workers = 0;
            g.p.cadence = *g.r.pick(&[0, 0, 1, 2]);
            let rs = g.r.chance(2, 3);
            g.shape(rs);
            let gm: Mix = vec![
                (GuardOpen, 4), (GuardPeek, 8), (GuardAll, 4), (GuardCheck, 8), (GuardClose, 3), (Remove, 2), (Insert, 2),
            ];
            let mut w = writes(k);
            if k == Kind::Hi {
                w.extend([(Retain, 2), (Clear, 1), (Reserve, 4), (Unreserve, 4), (GuardScan, 2), (Peek, 4), (EntryRmw, 4)]);
            } else {
                w.extend([(RemoveRange, 3), (Clear, 1), (Scan, 2), (Peek, 4)]);
            }
            let len = *g.r.pick(&[6, 12, 20]);
            g.clients(&[gm, w], n, len);
            for (i, c) in g.p.clients.iter_mut().enumerate() {
                if i % 2 == 0 {
                    c.insert(0, Op::new(GuardOpen, 0));
                    c.push(Op::new(GuardCheck, 0));
                }
            }
        }
        "A01" => {
            g.kind(&ALL);
            let k = g.p.kind;
            g.p.drops = true;
            g.asy_pct = 90;
            g.p.workers = if g.r.chance(1, 3) { 1 + g.r.below(3) as u8 } else { 0 };
            let rs = g.r.chance(3, 4);
            g.shape(rs);
            g.hot_pct = g.hot_pct.max(60);
            g.fault = FaultMode::Cancel;
            g.fault_pct = *g.r.pick(&[20, 50, 80]);
            g.hold_pct = 40;
            let mut m = add(points(k), writes(k), 1);
            m.extend(bulk(k));
            m.extend([(Retain, 2)]);
            if k == Kind::Ti {
                m.push((RemoveRange, 3));
            } else if k != Kind::Hc {
                m.extend([(Reserve, 3), (Unreserve, 3)]);
            }
            let len = *g.r.pick(&[3, 6, 10]);
            let n = n + 1;
            g.clients(&[m], n, len);
            g.finals(&[FinalAll, FinalUse]);
        }
        "A02" => {
            g.kind(&ALL);
            let k = g.p.kind;
            g.p.lin = false;
            match g.r.below(4) {
                0 => g.asy_pct = 0,
                1 => g.asy_pct = 50,
                2 => g.asy_pct = 100,
                _ => {
                    g.asy_pct = 100;
                    g.p.workers = 1 + g.r.below(3) as u8;
                }
            }
            g.hold_pct = 60;
            let rs = g.r.chance(1, 2);
            g.shape(rs);
            g.hot_pct = g.hot_pct.max(70);
            g.fault = FaultMode::Cancel;
            g.fault_pct = *g.r.pick(&[0, 20, 40]);
            g.p.fair_after = *g.r.pick(&[3_000, 30_000, 100_000]);
            let mut m = points(k);
            m.extend(bulk(k));
            if k == Kind::Ti {
                m.push((RemoveRange, 3));
            } else if k != Kind::Hc {
                m.extend([(Reserve, 2), (Unreserve, 2)]);
            }
            let len = *g.r.pick(&[4, 8, 12]);
            let n = n + 1;
            g.clients(&[m], n, len);
            g.finals(&[]);
        }
        "F01" => {
            g.kind(&ALL);
            let k = g.p.kind;
            g.p.drops = true;
            g.asynchronous();
            let rs = g.r.chance(1, 2);
            g.shape(rs);
            g.fault = FaultMode::PanicOrAlloc;
            g.fault_pct = *g.r.pick(&[20, 50]);
            let mut m = add(points(k), writes(k), 1);
            m.extend(bulk(k));
            m.push((Retain, 2));
            m.push((Ser, 1));
            if k != Kind::Hc {
                m.push((CloneCmp, 2));
            }
            if k == Kind::Ti {
                m.push((RemoveRange, 3));
            } else if k != Kind::Hc {
                m.extend([(Reserve, 3), (Unreserve, 3)]);
            }
            let len = *g.r.pick(&[3, 6, 10]);
            g.clients(&[m], n, len);
            let fin: &[Code] = match (k, g.r.below(2)) {
                (Kind::Ti, _) | (_, 0) => &[FinalAll, FinalLen, FinalUse],
                (Kind::Hc, _) => &[FinalAll, FinalLen, FinalShrink],
                _ => &[FinalAll, FinalLen, FinalShrink, FinalGrow, FinalShrink],
            };
            g.finals(fin);
        }
        "L01" => {
            g.kind(&[Kind::Hi, Kind::Ti]);
            let k = g.p.kind;
            let rs = g.r.chance(2, 3);
            g.shape(rs);
            g.solo_pct = 80;
            let rd: Mix = if k == Kind::Hi {
                vec![(Peek, 3), (Read, 3), (Contains, 2), (GuardScan, 3)]
            } else {
                vec![(Peek, 3), (PeekEntry, 2), (Read, 2), (Contains, 2), (Scan, 2), (Range, 2)]
            };
            let mut w = writes(k);
            if k == Kind::Hi {
                w.extend([(Reserve, 3), (Unreserve, 3), (Retain, 1), (Clear, 1)]);
            } else {
                w.extend([(RemoveRange, 2)]);
            }
            g.hold_pct = 40;
            let len = *g.r.pick(&[4, 8, 12]);
            g.clients(&[w, rd], n, len);
            g.finals(&[FinalAll]);
        }
        "V01" => {
            g.kind(&[Kind::Hm, Kind::Hs, Kind::Hi, Kind::Hi, Kind::Hc, Kind::Ti, Kind::Ti]);
            let k = g.p.kind;
            g.weak(100);
            g.p.reuse = false;
            g.asynchronous();
            let rs = g.r.chance(1, 2);
            g.shape(rs);
            let mut m = add(points(k), writes(k), 1);
            m.extend(bulk(k));
            if k == Kind::Ti {
                m.push((RemoveRange, 2));
            } else if k != Kind::Hc {
                m.extend([(Reserve, 3), (Unreserve, 3)]);
            }
            let len = *g.r.pick(&[3, 6, 10]);
            g.clients(&[m], n, len);
            g.finals(&[FinalAll]);
        }
        "M01" => {
            g.kind(&ALL);
            let k = g.p.kind;
            g.asynchronous();
            let rs = g.r.chance(1, 2);
            g.shape(rs);
            let mut m = add(points(k), writes(k), 1);
            m.extend([(Len, 2), (Retain, 1), (Clear, 1)]);
            if k != Kind::Hc {
                m.push((CloneCmp, 4));
            }
            if k == Kind::Ti {
                m.extend([(RemoveRange, 2), (Depth, 1)]);
            } else if k != Kind::Hc {
                m.extend([(Reserve, 3), (Unreserve, 3)]);
            }
            let len = *g.r.pick(&[3, 6, 10]);
            g.clients(&[m], n, len);
            let fin: &[Code] = *g.r.pick::<&[Code]>(&[
                &[FinalAll, FinalLen, FinalClone, FinalAll, FinalFrom],
                &[FinalLen, FinalAll, FinalClone, FinalAll, FinalFrom],
                &[FinalClone, FinalAll, FinalLen],
            ]);
            g.finals(fin);
        }
        "S01" => {
            g.kind(&ALL);
            let k = g.p.kind;
            g.p.drops = true;
            g.asynchronous();
            let rs = g.r.chance(1, 2);
            g.shape(rs);
            let mut w = add(writes(k), reads(k), 1);
            w.extend(match k {
                Kind::Ti => vec![(RemoveRange, 1), (Clear, 1)],
                Kind::Hc => vec![(Retain, 1), (Clear, 1)],
                _ => vec![(Retain, 1), (Clear, 1), (Reserve, 3), (Unreserve, 3)],
            });
            let mixes = if g.r.chance(1, 2) {
                vec![vec![(Ser, 1), (Ser, 1)], w]
            } else {
                w.push((Ser, 12));
                vec![w]
            };
            let len = *g.r.pick(&[2, 4, 8, 14]);
            g.clients(&mixes, n, len);
            let fin: &[Code] = *g.r.pick::<&[Code]>(&[&[FinalAll, FinalLen, FinalSer, FinalAll], &[FinalSer, FinalAll]]);
            g.finals(fin);
        }
        _ => panic!("unknown property {prop}"),
    }
    // The container may have been filled by either kind of call.
    let pct = *g.r.pick(&[0, 0, 50, 100]);
    for i in 0..g.p.prefill.len() {
        g.p.prefill[i].asy = g.r.chance(pct, 100);
    }
    g.p
}

/// Number of runs of the quick check.
pub fn quick_runs(_prop: &str) -> u64 {
    1_000_000
}

/// How many of eight processes have small trees.
pub fn tree_share(prop: &str) -> u64 {
    match prop {
        "T01" | "T02" | "T03" => 3,
        "R01" | "R02" | "A01" | "A02" | "F01" | "L01" | "V01" | "M01" | "S01" => 1,
        _ => 0,
    }
}
