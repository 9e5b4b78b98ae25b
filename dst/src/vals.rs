//! Instrumented keys and values: identity, liveness, exclusivity, race detection, injected panics.

use std::cmp::Ordering;
use std::hash::{BuildHasher, Hash, Hasher};

use simrt::weak::RaceCell;
use simrt::{SimFault, fail_owned};

pub const KEY: u8 = b'K';
pub const VAL: u8 = b'V';

pub struct Inst {
    pub kind: u8,
    pub alive: bool,
    pub key: u32,
    pub race: RaceCell,
    /// Who has exclusive access (client + 1).
    pub writer: u8,
    pub readers: u8,
    pub born: (u8, u16),
}

pub struct Reg {
    pub insts: Vec<Inst>,
    pub drop_points: bool,
    pub checks_excl: bool,
}

static mut REG: Reg = Reg {
    insts: Vec::new(),
    drop_points: false,
    checks_excl: false,
};

#[allow(static_mut_refs)]
pub fn reg() -> &'static mut Reg {
    unsafe { &mut REG }
}

pub fn reset(drop_points: bool, checks_excl: bool) {
    let r = reg();
    r.insts.clear();
    r.drop_points = drop_points;
    r.checks_excl = checks_excl;
}

/// Keys and values have no `Drop` in this executable.
pub const POD: bool = !std::mem::needs_drop::<(K, V)>();

/// The executables: the plain one, that with keys and values without `Drop`, and that with the
/// leaves and nodes of a `TreeIndex` limited to four entries.
pub const PLAIN_EXE: u8 = 0;
pub const POD_EXE: u8 = 1;
pub const SMALL_EXE: u8 = 2;
pub const EXE: u8 = if cfg!(scc_sim_small) {
    SMALL_EXE
} else if POD {
    POD_EXE
} else {
    PLAIN_EXE
};

/// Instances still alive.
pub fn leaked() -> Vec<u32> {
    if POD {
        return Vec::new();
    }
    reg()
        .insts
        .iter()
        .enumerate()
        .filter(|(_, i)| i.alive)
        .map(|(n, _)| n as u32)
        .collect()
}

fn register(kind: u8, key: u32) -> u32 {
    simrt::host(|| {
        let r = reg();
        let born = crate::exec::whoami();
        r.insts.push(Inst {
            kind,
            alive: true,
            key,
            race: RaceCell::new(),
            writer: 0,
            readers: 0,
            born,
        });
        r.insts.len() as u32 - 1
    })
}

#[inline]
fn mix(a: u32, b: u32, salt: u64) -> u64 {
    (u64::from(a) << 32 | u64::from(b)).wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ salt
}

/// What the user code hooks are asked for.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Cb {
    Eq,
    Hash,
    Ord,
    Clone,
    Closure,
}

/// Runs at the start of every piece of user code that is allowed to panic.
#[inline]
pub fn callback(_cb: Cb) {
    if crate::exec::take_panic() {
        simrt::note("panic");
        std::panic::panic_any(SimFault("panic in user code"));
    }
}

fn who(inst: u32, kind: u8) -> String {
    match reg().insts.get(inst as usize) {
        Some(i) if i.kind == kind => format!(
            "{}#{} (of {}, created by client {} op {})",
            kind as char, inst, i.key, i.born.0, i.born.1
        ),
        _ => format!("{}#{} (unknown)", kind as char, inst),
    }
}

#[cold]
fn bad(kind: &str, what: String) -> ! {
    fail_owned(kind, what)
}

#[inline]
fn check(kind: u8, inst: u32, sum_ok: bool) -> &'static mut Inst {
    let r = reg();
    match r.insts.get_mut(inst as usize) {
        Some(i) if i.kind == kind && sum_ok => {
            if !i.alive {
                bad(
                    "use-after-drop",
                    format!("{} is used after it was dropped", who(inst, kind)),
                );
            }
            i
        }
        Some(i) if i.kind == kind && !i.alive => bad(
            "use-after-drop",
            format!("{} is used after it was dropped", who(inst, kind)),
        ),
        _ => bad(
            "garbage",
            format!(
                "a {} that was never constructed or is torn: {}",
                if kind == KEY { "key" } else { "value" },
                who(inst, kind)
            ),
        ),
    }
}

#[inline]
fn race_read(kind: u8, inst: u32, i: &mut Inst) {
    if !i.race.read() {
        bad(
            "data-race",
            format!(
                "{} is read without a happens-before edge from its last write",
                who(inst, kind)
            ),
        );
    }
}

#[inline]
fn race_write(kind: u8, inst: u32, i: &mut Inst, what: &str) {
    if !i.race.write() {
        bad(
            "data-race",
            format!(
                "{} is {what} without a happens-before edge from an earlier access",
                who(inst, kind)
            ),
        );
    }
}

#[allow(dead_code)]
fn on_drop(kind: u8, inst: u32, sum_ok: bool) {
    let r = reg();
    match r.insts.get_mut(inst as usize) {
        Some(i) if i.kind == kind && i.alive && sum_ok => {
            if i.writer != 0 && i.writer as usize != crate::exec::cur_client() + 1 {
                bad(
                    "exclusion",
                    format!("{} is dropped while another caller has exclusive access", who(inst, kind)),
                );
            }
            race_write(kind, inst, i, "dropped");
            i.alive = false;
        }
        Some(i) if i.kind == kind && !i.alive => {
            bad("double-drop", format!("{} is dropped twice", who(inst, kind)))
        }
        _ => bad(
            "garbage",
            format!("something that is not a valid {} is dropped: {}", kind as char, who(inst, kind)),
        ),
    }
    if r.drop_points && simrt::sched::active() {
        simrt::point();
    }
}

// ---------------------------------------------------------------------------------------------

pub struct K {
    pub id: u32,
    pub inst: u32,
    chk: u64,
}

const KSALT: u64 = 0x6B65_7921;
const VSALT: u64 = 0x7661_6C21;
#[allow(dead_code)]
const DEAD: u64 = 0xDEAD_DEAD_DEAD_DEAD;

impl K {
    pub fn new(id: u32) -> K {
        let inst = register(KEY, id);
        K {
            id,
            inst,
            chk: mix(id, inst, KSALT),
        }
    }
    #[inline]
    pub fn touch(&self) {
        let i = check(KEY, self.inst, self.chk == mix(self.id, self.inst, KSALT));
        race_read(KEY, self.inst, i);
    }
    #[allow(dead_code)]
    /// `Drop::drop`, where keys are to be dropped.
    pub fn dropped(&mut self) {
        on_drop(KEY, self.inst, self.chk == mix(self.id, self.inst, KSALT));
        self.chk = DEAD;
    }
}

impl Clone for K {
    fn clone(&self) -> K {
        self.touch();
        callback(Cb::Clone);
        K::new(self.id)
    }
}

impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        self.touch();
        o.touch();
        callback(Cb::Eq);
        self.id == o.id
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> Ordering {
        self.touch();
        o.touch();
        callback(Cb::Ord);
        self.id.cmp(&o.id)
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, state: &mut H) {
        self.touch();
        callback(Cb::Hash);
        state.write_u32(self.id);
    }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "K{}", self.id)
    }
}

/// A borrowed form of a key.
pub struct Probe(pub u32);

impl Hash for Probe {
    fn hash<H: Hasher>(&self, state: &mut H) {
        callback(Cb::Hash);
        state.write_u32(self.0);
    }
}
impl scc::Equivalent<K> for Probe {
    fn equivalent(&self, key: &K) -> bool {
        key.touch();
        callback(Cb::Eq);
        self.0 == key.id
    }
}
impl scc::Comparable<K> for Probe {
    fn compare(&self, key: &K) -> Ordering {
        key.touch();
        callback(Cb::Ord);
        self.0.cmp(&key.id)
    }
}

// ---------------------------------------------------------------------------------------------

pub struct V {
    pub vid: u32,
    pub inst: u32,
    chk: u64,
}

impl V {
    pub fn new(vid: u32) -> V {
        let inst = register(VAL, vid);
        V {
            vid,
            inst,
            chk: mix(vid, inst, VSALT),
        }
    }
    /// Reads the value, verifying that it is intact.
    #[inline]
    pub fn read(&self) -> u32 {
        let i = check(VAL, self.inst, self.chk == mix(self.vid, self.inst, VSALT));
        race_read(VAL, self.inst, i);
        self.vid
    }
    /// Replaces the value in two steps with a scheduling point in between.
    pub fn write(&mut self, vid: u32) {
        let i = check(VAL, self.inst, self.chk == mix(self.vid, self.inst, VSALT));
        race_write(VAL, self.inst, i, "written");
        self.vid = vid;
        simrt::point();
        unsafe {
            // Not to be reordered around the scheduling point.
            std::ptr::write_volatile(&raw mut self.chk, mix(vid, self.inst, VSALT));
        }
    }
    #[allow(dead_code)]
    /// `Drop::drop`, where values are to be dropped.
    pub fn dropped(&mut self) {
        on_drop(VAL, self.inst, self.chk == mix(self.vid, self.inst, VSALT));
        self.chk = DEAD;
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        let vid = self.read();
        callback(Cb::Clone);
        V::new(vid)
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        let r = self.read() == o.read();
        callback(Cb::Eq);
        r
    }
}
impl Eq for V {}
impl Default for V {
    fn default() -> V {
        V::new(crate::exec::next_default())
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "V{}", self.vid)
    }
}

/// Marks exclusive access to a value for as long as it lives.
pub struct Excl(u32, u8);
/// Marks shared access to a value.
pub struct Shrd(u32);

pub fn excl(v: &V) -> Excl {
    if !reg().checks_excl {
        return Excl(u32::MAX, 0);
    }
    let me = crate::exec::cur_client() as u8 + 1;
    let i = &mut reg().insts[v.inst as usize];
    if i.writer != 0 || i.readers != 0 {
        bad(
            "exclusion",
            format!(
                "client {} gets exclusive access to {} while {}",
                me - 1,
                who(v.inst, VAL),
                if i.writer != 0 {
                    format!("client {} has exclusive access", i.writer - 1)
                } else {
                    format!("{} readers have shared access", i.readers)
                }
            ),
        );
    }
    i.writer = me;
    Excl(v.inst, me)
}

pub fn shrd(v: &V) -> Shrd {
    if !reg().checks_excl {
        return Shrd(u32::MAX);
    }
    let i = &mut reg().insts[v.inst as usize];
    if i.writer != 0 {
        bad(
            "exclusion",
            format!(
                "client {} reads {} while client {} has exclusive access",
                crate::exec::cur_client(),
                who(v.inst, VAL),
                i.writer - 1
            ),
        );
    }
    i.readers += 1;
    Shrd(v.inst)
}

impl Drop for Excl {
    fn drop(&mut self) {
        if self.0 != u32::MAX {
            reg().insts[self.0 as usize].writer = 0;
        }
    }
}
impl Drop for Shrd {
    fn drop(&mut self) {
        if self.0 != u32::MAX {
            reg().insts[self.0 as usize].readers -= 1;
        }
    }
}

// ---------------------------------------------------------------------------------------------

/// A deterministic hasher that can be made hostile.
#[derive(Clone, Default, Debug)]
pub struct SimHash {
    pub mode: u8,
    pub salt: u64,
}
pub struct SimHasher {
    cfg: SimHash,
    id: u32,
}
impl BuildHasher for SimHash {
    type Hasher = SimHasher;
    fn build_hasher(&self) -> SimHasher {
        SimHasher {
            cfg: self.clone(),
            id: 0,
        }
    }
}
impl Hasher for SimHasher {
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.id = self.id.wrapping_mul(257).wrapping_add(u32::from(*x) + 1);
        }
    }
    fn write_u32(&mut self, i: u32) {
        self.id = i;
    }
    fn finish(&self) -> u64 {
        let id = u64::from(self.id);
        let mut m = id.wrapping_add(self.cfg.salt).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        m ^= m >> 29;
        m = m.wrapping_mul(0xBF58_476D_1CE4_E5B9);
        m ^= m >> 32;
        match self.cfg.mode {
            // Well distributed.
            0 => m,
            // Everything collides.
            1 => self.cfg.salt,
            // One bucket at any size, distinct partial hashes.
            2 => (self.cfg.salt << 56) | (m & 0xFF_FFFF),
            // One bucket at any size, partial hashes that can be mistaken for epochs.
            6 => (self.cfg.salt << 56) | (m & 0xF),
            // Three buckets.
            3 => ((id % 3) << 62) | (self.cfg.salt & 0xFF),
            // Neighbouring keys in neighbouring buckets, same partial hash.
            4 => (id.wrapping_add(self.cfg.salt) << 57) | 7,
            // Half in one bucket, half spread.
            _ => {
                if id % 2 == 0 {
                    m & 0x00FF_FFFF_FFFF_FFFF
                } else {
                    m
                }
            }
        }
    }
}
