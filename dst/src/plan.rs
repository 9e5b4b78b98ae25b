//! A plan: everything a simulated run does, as data. A seed expands to a plan; a replay file is a
//! plan plus the recorded schedule.

use simrt::{Cfg, Strategy, Trace, weak};

macro_rules! codes {
    ($($n:ident),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        #[repr(u8)]
        pub enum Code { $($n),* }
        pub const CODES: &[(Code, &str)] = &[$((Code::$n, stringify!($n))),*];
    };
}

codes! {
    // Point operations.
    Insert, Upsert, Update, Read, Contains, Remove, RemoveIf,
    EntryOrInsert, EntryModify, EntryInsert, EntryRmw, EntryRemove, EntryLook, TryEntry,
    Get, Replace, Peek, PeekEntry,
    // Bulk operations.
    Scan, IterMut, Retain, Clear, Any, Walk, WalkRemove, GuardScan, Range, RemoveRange,
    // Capacity.
    Reserve, Unreserve, Cap, Len,
    // Whole container.
    CloneCmp, CloneIso,
    // Guards held across operations.
    GuardOpen, GuardPeek, GuardAll, GuardCheck, GuardClose,
    // Nothing.
    Pause,
    // Quiescent checks.
    FinalAll, FinalLen, FinalClone, FinalShrink, FinalGrow, FinalUse, FinalTry,
    // Depth of the tree.
    Depth,
    // A container built from an iterator.
    FinalFrom,
    // Serialization.
    Ser, FinalSer,
}

impl Code {
    pub fn name(self) -> &'static str {
        CODES[self as usize].1
    }
    pub fn parse(s: &str) -> Option<Code> {
        CODES.iter().find(|c| c.1 == s).map(|c| c.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Hm,
    Hs,
    Hi,
    Hc,
    Ti,
}
pub const KINDS: &[(Kind, &str)] = &[
    (Kind::Hm, "HashMap"),
    (Kind::Hs, "HashSet"),
    (Kind::Hi, "HashIndex"),
    (Kind::Hc, "HashCache"),
    (Kind::Ti, "TreeIndex"),
];

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    None,
    /// The future is dropped when it is pending for the nth time.
    Cancel(u32),
    /// The nth piece of user code panics.
    Panic(u32),
    /// The nth allocation fails.
    Alloc(u32),
}

#[derive(Clone, Debug)]
pub struct Op {
    pub code: Code,
    pub k: u32,
    /// First of the value identifiers this operation may use.
    pub v: u32,
    pub a: u32,
    pub b: u32,
    pub m: u64,
    /// Scheduling points or suspensions while holding something.
    pub hold: u32,
    pub asy: bool,
    pub probe: bool,
    pub solo: bool,
    pub fault: Fault,
}

impl Op {
    pub fn new(code: Code, k: u32) -> Op {
        Op {
            code,
            k,
            v: 0,
            a: 0,
            b: 0,
            m: 0,
            hold: 0,
            asy: false,
            probe: false,
            solo: false,
            fault: Fault::None,
        }
    }
    fn text(&self) -> String {
        let (f, n) = match self.fault {
            Fault::None => ("-", 0),
            Fault::Cancel(n) => ("cancel", n),
            Fault::Panic(n) => ("panic", n),
            Fault::Alloc(n) => ("alloc", n),
        };
        format!(
            "{} k={} v={} a={} b={} m={:x} hold={} {}{}{} fault={} {}",
            self.code.name(),
            self.k,
            self.v,
            self.a,
            self.b,
            self.m,
            self.hold,
            if self.asy { "async" } else { "sync" },
            if self.probe { "+probe" } else { "" },
            if self.solo { "+solo" } else { "" },
            f,
            n
        )
    }
    fn parse(w: &[&str]) -> Option<Op> {
        let get = |i: usize, p: &str| -> Option<u32> { w.get(i)?.strip_prefix(p)?.parse().ok() };
        let mut o = Op::new(Code::parse(w.first()?)?, get(1, "k=")?);
        o.v = get(2, "v=")?;
        o.a = get(3, "a=")?;
        o.b = get(4, "b=")?;
        o.m = u64::from_str_radix(w.get(5)?.strip_prefix("m=")?, 16).ok()?;
        o.hold = get(6, "hold=")?;
        let fl = w.get(7)?;
        o.asy = fl.starts_with("async");
        o.probe = fl.contains("+probe");
        o.solo = fl.contains("+solo");
        let n: u32 = w.get(9)?.parse().ok()?;
        o.fault = match w.get(8)?.strip_prefix("fault=")? {
            "cancel" => Fault::Cancel(n),
            "panic" => Fault::Panic(n),
            "alloc" => Fault::Alloc(n),
            _ => Fault::None,
        };
        Some(o)
    }
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub kind: Kind,
    pub cap: u64,
    pub max: u64,
    pub hash: u8,
    pub salt: u64,
    pub nkeys: u32,
    pub cadence: u8,
    pub reuse: bool,
    /// Keys and values have no `Drop`.
    pub exe: u8,
    /// 0: off, 1: happens-before, 2: stale loads as well.
    pub weak: u8,
    pub stale_den: u64,
    pub strat: Strategy,
    pub stall_den: u64,
    pub stall_len: u64,
    pub weak_cas_den: u64,
    pub spurious_den: u64,
    pub fair_after: u64,
    /// Worker threads of the migrating executor (0: every task has its own thread).
    pub workers: u8,
    pub drop_points: bool,
    /// Check exclusive access.
    pub excl: bool,
    /// Check drops and leaks.
    pub drops: bool,
    /// Check results against the sequential map.
    pub lin: bool,
    /// Check the eviction order.
    pub lru: bool,
    /// Sequential set-up, executed without preemption.
    pub prefill: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    /// Sequential epilogue.
    pub finals: Vec<Op>,
}

impl Plan {
    pub fn cfg(&self) -> Cfg {
        let mut c = Cfg::new(self.seed);
        c.strategy = self.strat.clone();
        c.stall_den = self.stall_den;
        c.stall_len = self.stall_len;
        c.weak_cas_den = self.weak_cas_den;
        c.stale_den = self.stale_den;
        c.weak = match self.weak {
            0 => weak::Mode::Off,
            1 => weak::Mode::Hb,
            _ => weak::Mode::Stale,
        };
        c.spurious_den = self.spurious_den;
        c.reuse_memory = self.reuse && self.weak == 0;
        c.cadence = self.cadence;
        c.fair_after = self.fair_after;
        c
    }

    pub fn text(&self) -> String {
        let mut s = String::new();
        let strat = match &self.strat {
            Strategy::Random { den } => format!("random {den}"),
            Strategy::Pct { depth, span } => format!("pct {depth} {span}"),
            Strategy::Writes { den_w, den_r } => format!("writes {den_w} {den_r}"),
            Strategy::Few { n, span } => format!("few {n} {span}"),
        };
        let kind = KINDS.iter().find(|k| k.0 == self.kind).unwrap().1;
        s += &format!(
            "prop {}\nseed {}\nkind {}\ncap {}\nmax {}\nhash {}\nsalt {}\nnkeys {}\ncadence {}\nreuse {}\nweak {}\nstale_den {}\nstrat {}\nstall_den {}\nstall_len {}\nweak_cas_den {}\nspurious_den {}\nfair_after {}\nworkers {}\ndrop_points {}\nexcl {}\ndrops {}\nlin {}\nlru {}\nexe {}\nclients {}\n",
            self.prop, self.seed, kind, self.cap, self.max, self.hash, self.salt, self.nkeys,
            self.cadence, self.reuse as u8, self.weak, self.stale_den, strat, self.stall_den,
            self.stall_len, self.weak_cas_den, self.spurious_den, self.fair_after, self.workers,
            self.drop_points as u8, self.excl as u8, self.drops as u8, self.lin as u8,
            self.lru as u8, self.exe, self.clients.len()
        );
        for o in &self.prefill {
            s += &format!("P {}\n", o.text());
        }
        for (i, c) in self.clients.iter().enumerate() {
            for o in c {
                s += &format!("C {} {}\n", i + 1, o.text());
            }
        }
        for o in &self.finals {
            s += &format!("F {}\n", o.text());
        }
        s
    }

    pub fn parse(text: &str) -> Option<(Plan, Trace)> {
        let mut p = Plan {
            prop: String::new(),
            seed: 0,
            kind: Kind::Hm,
            cap: 0,
            max: 0,
            hash: 0,
            salt: 0,
            nkeys: 0,
            cadence: 4,
            reuse: false,
            exe: crate::vals::EXE,
            weak: 0,
            stale_den: 0,
            strat: Strategy::Random { den: 10 },
            stall_den: 0,
            stall_len: 0,
            weak_cas_den: 0,
            spurious_den: 0,
            fair_after: 300_000,
            workers: 0,
            drop_points: false,
            excl: false,
            drops: false,
            lin: true,
            lru: false,
            prefill: Vec::new(),
            clients: Vec::new(),
            finals: Vec::new(),
        };
        let mut t = Trace::default();
        for l in text.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            if w.is_empty() || w[0].starts_with('#') {
                continue;
            }
            let n = |i: usize| -> u64 { w.get(i).and_then(|x| x.parse().ok()).unwrap_or(0) };
            match w[0] {
                "prop" => p.prop = (*w.get(1)?).to_string(),
                "seed" => p.seed = n(1),
                "kind" => p.kind = KINDS.iter().find(|k| Some(&k.1) == w.get(1))?.0,
                "cap" => p.cap = n(1),
                "max" => p.max = n(1),
                "hash" => p.hash = n(1) as u8,
                "salt" => p.salt = n(1),
                "nkeys" => p.nkeys = n(1) as u32,
                "cadence" => p.cadence = n(1) as u8,
                "exe" => p.exe = n(1) as u8,
                "reuse" => p.reuse = n(1) != 0,
                "weak" => p.weak = n(1) as u8,
                "stale_den" => p.stale_den = n(1),
                "strat" => {
                    p.strat = match *w.get(1)? {
                        "random" => Strategy::Random { den: n(2) },
                        "pct" => Strategy::Pct { depth: n(2) as u32, span: n(3) },
                        "writes" => Strategy::Writes { den_w: n(2), den_r: n(3) },
                        _ => Strategy::Few { n: n(2) as u32, span: n(3) },
                    }
                }
                "stall_den" => p.stall_den = n(1),
                "stall_len" => p.stall_len = n(1),
                "weak_cas_den" => p.weak_cas_den = n(1),
                "spurious_den" => p.spurious_den = n(1),
                "fair_after" => p.fair_after = n(1),
                "workers" => p.workers = n(1) as u8,
                "drop_points" => p.drop_points = n(1) != 0,
                "excl" => p.excl = n(1) != 0,
                "drops" => p.drops = n(1) != 0,
                "lin" => p.lin = n(1) != 0,
                "lru" => p.lru = n(1) != 0,
                "clients" => p.clients = vec![Vec::new(); n(1) as usize],
                "P" => p.prefill.push(Op::parse(&w[1..])?),
                "F" => p.finals.push(Op::parse(&w[1..])?),
                "C" => {
                    let i = n(1) as usize;
                    p.clients.get_mut(i.checked_sub(1)?)?.push(Op::parse(&w[2..])?);
                }
                "SW" => t.switches.push((n(1) as u32, n(2), n(3) as u32, n(4))),
                "CH" => t.choices.push((n(1) as u32, n(2) as u32, n(3) as u32, n(4) as u32)),
                _ => (),
            }
        }
        Some((p, t))
    }
}
