//! Searching, minimising, replaying and reporting.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, mpsc};
use std::time::{Duration, Instant};

use simrt::Trace;
use simrt::sched::CHOICE_NAMES;

use crate::vals::{EXE, PLAIN_EXE, POD_EXE, SMALL_EXE};
use crate::plan::{Fault, Op, Plan};
use crate::run::{self, Outcome};

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xCBF2_9CE4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}

/// The seed of the nth run of a property.
pub fn seed_of(base: u64, prop: &str, index: u64) -> u64 {
    let mut z = base
        .wrapping_mul(0x9E37_79B9_7F4A_7C15)
        .wrapping_add(hash_str(prop))
        .wrapping_add(index.wrapping_mul(0xD134_2543_DE82_EF95));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    (z ^ (z >> 31)) & 0xFFFF_FFFF_FFFF
}

// ---------------------------------------------------------------------------------------------
// Worker: runs a share of the seeds.

const NAMES: &[&str] = &[
    "runs",
    "steps",
    "switches",
    "preemptions",
    "operations",
    "operations_aborted",
    "history_steps",
    "overlapping_steps",
    "undecided_histories",
    "future_pendings",
    "task_migrations",
    "spurious_polls",
    "cancelled_futures",
    "user_panics",
    "allocation_failures",
    "library_allocations",
    "runs_reaching_fair_phase",
    "replays_verified",
    "replays_diverged",
];

#[derive(Default, Clone)]
struct Stats {
    n: [u64; 19],
    fired: [u64; CHOICE_NAMES.len()],
    what: BTreeMap<String, u64>,
    groups: BTreeMap<String, u64>,
}

impl Stats {
    fn add(&mut self, p: &Plan, o: &Outcome) {
        let v = [
            1,
            o.stats.steps,
            o.stats.switches,
            o.stats.preempts,
            o.done,
            o.aborted,
            o.events,
            o.overlaps,
            o.giveups,
            o.pendings,
            o.migrations,
            o.spurious,
            o.cancels,
            o.panics,
            o.alloc_faults,
            o.allocs,
            u64::from(o.stats.fair),
            0,
            0,
        ];
        for (a, b) in self.n.iter_mut().zip(v) {
            *a += b;
        }
        for (a, b) in self.fired.iter_mut().zip(o.stats.fired) {
            *a += b;
        }
        let kind = crate::plan::KINDS.iter().find(|k| k.0 == p.kind).unwrap().1;
        *self.groups.entry(kind.to_string()).or_default() += 1;
        *self
            .groups
            .entry(match p.weak {
                0 => "sequentially consistent".to_string(),
                1 => "happens-before tracking".to_string(),
                _ => "weak memory".to_string(),
            })
            .or_default() += 1;
        let strat = match p.strat {
            simrt::Strategy::Random { .. } => "strategy random",
            simrt::Strategy::Pct { .. } => "strategy priorities",
            simrt::Strategy::Writes { .. } => "strategy before writes",
            simrt::Strategy::Few { .. } => "strategy few preemptions",
        };
        *self.groups.entry(strat.into()).or_default() += 1;
        let exe = match p.exe {
            crate::vals::POD_EXE => "keys and values without Drop",
            crate::vals::SMALL_EXE => "tree nodes of four entries",
            _ => "shipped node size, keys and values with Drop",
        };
        *self.groups.entry(exe.into()).or_default() += 1;
    }
    fn text(&self) -> String {
        let mut s = String::from("STAT");
        for v in self.n.iter().chain(self.fired.iter()) {
            let _ = write!(s, " {v}");
        }
        for (k, v) in &self.what {
            let _ = write!(s, "\tw:{k}={v}");
        }
        for (k, v) in &self.groups {
            let _ = write!(s, "\tg:{k}={v}");
        }
        s
    }
    fn parse(l: &str) -> Option<Stats> {
        let mut st = Stats::default();
        let mut parts = l.split('\t');
        let mut w = parts.next()?.split_whitespace();
        w.next();
        for a in st.n.iter_mut().chain(st.fired.iter_mut()) {
            *a = w.next()?.parse().ok()?;
        }
        for p in parts {
            let (k, v) = p.rsplit_once('=')?;
            let m = if k.starts_with("w:") { &mut st.what } else { &mut st.groups };
            m.insert(k[2..].to_string(), v.parse().ok()?);
        }
        Some(st)
    }
    fn merge(&mut self, o: &Stats) {
        for (a, b) in self.n.iter_mut().zip(o.n) {
            *a += b;
        }
        for (a, b) in self.fired.iter_mut().zip(o.fired) {
            *a += b;
        }
        for (k, v) in &o.what {
            *self.what.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.groups {
            *self.groups.entry(k.clone()).or_default() += v;
        }
    }
}

/// `worker PROP BASE FROM STRIDE END SECONDS HASHES`
pub fn worker(a: &[String]) {
    let n = |i: usize| -> u64 { a[i].parse().unwrap() };
    let (prop, base, from, stride, end, secs) = (&a[0], n(1), n(2), n(3), n(4), n(5));
    run::init();
    let mut file = (a[6] != "-").then(|| std::fs::OpenOptions::new().append(true).create(true).open(&a[6]).unwrap());
    let dump = a.get(7).is_some_and(|x| x == "dump");
    let replay_every: u64 = std::env::var("DST_REPLAY_EVERY").ok().and_then(|v| v.parse().ok()).unwrap_or(256);
    let start = Instant::now();
    let mut st = Stats::default();
    let mut buf: Vec<u8> = Vec::new();
    let mut samples = 0;
    let mut i = from;
    let mut k = 0u64;
    let out = std::io::stdout();
    while i < end {
        let seed = seed_of(base, prop, i);
        let p = crate::r#gen::plan(prop, seed, EXE);
        let o = run::run(&p, None, format!("{i} {seed}"), false);
        st.add(&p, &o);
        let faults: u64 = o.stats.fired.iter().sum::<u64>() + o.cancels + o.panics + o.alloc_faults + o.spurious + o.migrations;
        let nontrivial = o.stats.preempts > 0 && (o.overlaps > 0 || faults > 0);
        if nontrivial {
            buf.extend_from_slice(&o.stats.hash.to_le_bytes());
        }
        if dump {
            println!("H {i} {:x} {}", o.stats.hash, o.stats.steps);
        }
        if nontrivial && samples < 3 && from == 0 {
            samples += 1;
            let kind = crate::plan::KINDS.iter().find(|k| k.0 == p.kind).unwrap().1;
            let ops: Vec<String> = p
                .clients
                .iter()
                .map(|c| c.iter().take(6).map(|o| format!("{}({})", o.code.name(), o.k)).collect::<Vec<_>>().join(" "))
                .collect();
            println!(
                "SAMPLE seed {seed}: {kind}, {} prefilled, {} clients ({}), {:?}, {} steps, {} preemptions, {} overlapping steps, {} faults, execution hash {:016x}",
                p.prefill.len(),
                p.clients.len(),
                ops.join(" | "),
                p.strat,
                o.stats.steps,
                o.stats.preempts,
                o.overlaps,
                faults,
                o.stats.hash
            );
        }
        if k % 8 == 0 {
            for h in &crate::hist::hist().ops {
                *st.what.entry(h.what.to_string()).or_default() += 1;
            }
        }
        if k % replay_every == 5 % replay_every {
            // The recorded schedule alone reproduces the run.
            let t = o.stats.trace.clone();
            let r = run::run(&p, Some(t), format!("{i} {seed} replayed"), false);
            if r.stats.hash == o.stats.hash && r.stats.steps == o.stats.steps {
                st.n[17] += 1;
            } else {
                st.n[18] += 1;
                println!("DIVERGED {i} {seed} {:x}/{} {:x}/{} k {k}", o.stats.hash, o.stats.steps, r.stats.hash, r.stats.steps);
            }
        }
        i += stride;
        k += 1;
        if k % 64 == 0 || i >= end {
            if let Some(f) = &mut file {
                f.write_all(&buf).unwrap();
            }
            buf.clear();
            let mut o = out.lock();
            let _ = writeln!(o, "{}\nNEXT {i}", st.text());
            let _ = o.flush();
            if start.elapsed() >= Duration::from_secs(secs) {
                break;
            }
        }
    }
    if let Some(f) = &mut file {
        f.write_all(&buf).unwrap();
    }
    println!("{}\nFINISHED", st.text());
}

// ---------------------------------------------------------------------------------------------
// Violations.

#[derive(Clone, Debug)]
struct Viol {
    kind: String,
    msg: String,
    index: u64,
    trace: Trace,
    hash: String,
    at: String,
    hist: Vec<String>,
}

fn parse_viol(out: &str) -> Option<Viol> {
    let mut v: Option<Viol> = None;
    for l in out.lines() {
        if let Some(r) = l.strip_prefix("VIOL ") {
            let (k, m) = r.split_once('\t').unwrap_or((r, ""));
            v = Some(Viol {
                kind: k.into(),
                msg: m.into(),
                index: 0,
                trace: Trace::default(),
                hash: String::new(),
                at: String::new(),
                hist: Vec::new(),
            });
            continue;
        }
        let Some(x) = &mut v else { continue };
        let w: Vec<u64> = l.split_whitespace().skip(1).filter_map(|t| t.parse().ok()).collect();
        if l.starts_with("RUN ") {
            x.index = w.first().copied().unwrap_or(0);
        } else if let Some(r) = l.strip_prefix("AT ") {
            x.at = r.into();
        } else if let Some(r) = l.strip_prefix("HASH ") {
            x.hash = r.into();
        } else if l.starts_with("SW ") && w.len() == 4 {
            x.trace.switches.push((w[0] as u32, w[1], w[2] as u32, w[3]));
        } else if l.starts_with("CH ") && w.len() == 4 {
            x.trace.choices.push((w[0] as u32, w[1] as u32, w[2] as u32, w[3] as u32));
        } else if let Some(r) = l.strip_prefix("HIST ") {
            x.hist.push(r.into());
        }
    }
    v
}

fn trace_text(t: &Trace) -> String {
    let mut s = String::new();
    for (a, b, c, d) in &t.switches {
        let _ = writeln!(s, "SW {a} {b} {c} {d}");
    }
    for (a, b, c, d) in &t.choices {
        let _ = writeln!(s, "CH {a} {b} {c} {d}");
    }
    s
}

fn exe(e: u8) -> PathBuf {
    // TARGET/release/{dst,pod} and TARGET/small/release/dst
    let cur = std::env::current_exe().unwrap();
    let up = if EXE == SMALL_EXE { 3 } else { 2 };
    let target = cur.ancestors().nth(up).unwrap();
    target.join(match e {
        POD_EXE => "release/pod",
        SMALL_EXE => "small/release/dst",
        _ => "release/dst",
    })
}

/// Hands over to the other executable if the file is meant for it.
fn right_exe(text: &str) {
    let want = text.lines().find_map(|l| l.strip_prefix("exe ")?.parse().ok()).unwrap_or(PLAIN_EXE);
    if want != EXE {
        use std::os::unix::process::CommandExt;
        let e = Command::new(exe(want)).args(std::env::args().skip(1)).exec();
        panic!("cannot run {:?}: {e}", exe(want));
    }
}

/// The last of every eight processes has keys and values without `Drop`, others have small trees.
fn exe_for(prop: &str, jobs: u64, from: u64) -> u8 {
    if jobs % 8 != 0 {
        return PLAIN_EXE;
    }
    match (from % 8, crate::r#gen::tree_share(prop)) {
        (7, _) => POD_EXE,
        (i, n) if i >= 7 - n => SMALL_EXE,
        _ => PLAIN_EXE,
    }
}

/// Runs a child to its end and returns its exit code and output.
fn run_child(e: u8, args: &[&str], limit: Duration) -> (i32, String) {
    let mut c = Command::new(exe(e))
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let mut out = c.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    let h = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = out.read_to_end(&mut v);
        let _ = tx.send(());
        v
    });
    if rx.recv_timeout(limit).is_err() {
        let _ = c.kill();
    }
    let code = c.wait().ok().and_then(|s| s.code()).unwrap_or(-1);
    (code, String::from_utf8_lossy(&h.join().unwrap()).into_owned())
}

/// `try FILE N`: the recorded schedule, then N seeded ones, until one fails.
pub fn try_plan(a: &[String]) {
    let t = std::fs::read_to_string(&a[0]).unwrap();
    let n: u64 = a[1].parse().unwrap();
    right_exe(&t);
    run::init();
    let (mut p, tr) = Plan::parse(&t).unwrap();
    if t.contains("\nREPLAY") {
        run::run(&p, Some(tr), "0".into(), false);
    }
    let seed = p.seed;
    for i in 0..n {
        p.seed = seed.wrapping_add(i.wrapping_mul(0x1_0000_0001));
        run::run(&p, None, "0".into(), false);
    }
}

/// `replay FILE`
pub fn replay(a: &[String]) -> i32 {
    let t = std::fs::read_to_string(&a[0]).unwrap();
    right_exe(&t);
    if let Some(l) = t.lines().find(|l| l.starts_with("SEQUENCE ")) {
        let w: Vec<String> = l.split_whitespace().skip(1).map(Into::into).collect();
        worker(&w);
        println!("no violation");
        return 0;
    }
    run::init();
    let Some((p, tr)) = Plan::parse(&t) else {
        eprintln!("cannot parse {}", a[0]);
        return 3;
    };
    let o = run::run(&p, Some(tr), "0 replay".into(), a.len() > 1);
    println!("no violation: {} steps, hash {:016x}", o.stats.steps, o.stats.hash);
    0
}

// ---------------------------------------------------------------------------------------------
// Minimisation.

struct Min {
    dir: PathBuf,
    kind: String,
    deadline: Instant,
    tried: AtomicUsize,
}

impl Min {
    /// Does this plan fail in the same way, and how?
    fn test(&self, p: &Plan, t: Option<&Trace>, seeds: u32) -> Option<Viol> {
        if Instant::now() > self.deadline {
            return None;
        }
        let n = self.tried.fetch_add(1, Ordering::Relaxed);
        let f = self.dir.join(format!("try{n}"));
        let mut s = p.text();
        if let Some(t) = t {
            s += "REPLAY\n";
            s += &trace_text(t);
        }
        std::fs::write(&f, s).unwrap();
        let left = self.deadline.saturating_duration_since(Instant::now()) + Duration::from_secs(2);
        let (code, out) = run_child(p.exe, &["try", f.to_str().unwrap(), &seeds.to_string()], left);
        let _ = std::fs::remove_file(&f);
        if code != 1 {
            return None;
        }
        parse_viol(&out).filter(|v| v.kind == self.kind)
    }

    /// The first of the candidates that fails, in order, tested eight at a time.
    fn first(&self, cands: &[(Plan, Option<Trace>, u32)]) -> Option<(usize, Viol)> {
        for (c, chunk) in cands.chunks(8).enumerate() {
            if Instant::now() > self.deadline {
                return None;
            }
            let r: Vec<Option<Viol>> = std::thread::scope(|s| {
                let h: Vec<_> = chunk
                    .iter()
                    .map(|(p, t, n)| s.spawn(move || self.test(p, t.as_ref(), *n)))
                    .collect();
                h.into_iter().map(|x| x.join().unwrap()).collect()
            });
            if let Some((i, Some(v))) = r.into_iter().enumerate().find(|x| x.1.is_some()) {
                return Some((c * 8 + i, v));
            }
        }
        None
    }

    fn lists(p: &mut Plan) -> Vec<&mut Vec<Op>> {
        let mut v: Vec<&mut Vec<Op>> = vec![&mut p.prefill];
        for c in &mut p.clients {
            v.push(c);
        }
        v.push(&mut p.finals);
        v
    }

    fn shrink_ops(&self, p: &mut Plan, v: &mut Viol, seeds: u32) {
        // Whole lists, then halves, quarters, single operations.
        let n = p.clients.len() + 2;
        let longest = Self::lists(p).iter().map(|l| l.len()).max().unwrap_or(0);
        let mut size = longest.next_power_of_two();
        loop {
            let mut again = true;
            while again && Instant::now() < self.deadline {
                again = false;
                let mut cands = Vec::new();
                for li in (0..n).rev() {
                    let len = Self::lists(p)[li].len();
                    if len == 0 || (size > 1 && size >= 2 * len) {
                        continue;
                    }
                    let mut at = 0;
                    while at < len {
                        let mut q = p.clone();
                        let end = (at + size).min(len);
                        Self::lists(&mut q)[li].drain(at..end);
                        cands.push((q, Some(v.trace.clone()), seeds));
                        at = end;
                    }
                }
                // Restarting from the beginning after every success keeps this simple.
                if let Some((i, nv)) = self.first(&cands) {
                    *p = cands.swap_remove(i).0;
                    *v = nv;
                    again = true;
                }
            }
            if size <= 1 {
                break;
            }
            size /= 2;
        }
    }

    fn shrink_misc(&self, p: &mut Plan, v: &mut Viol, seeds: u32) {
        let mut cands: Vec<Plan> = Vec::new();
        let mut push = |f: &dyn Fn(&mut Plan)| {
            let mut q = p.clone();
            f(&mut q);
            if q.text() != p.text() {
                cands.push(q);
            }
        };
        push(&|q| q.weak = 0);
        push(&|q| q.workers = 0);
        push(&|q| q.stall_den = 0);
        push(&|q| q.weak_cas_den = 0);
        push(&|q| q.spurious_den = 0);
        push(&|q| q.drop_points = false);
        push(&|q| q.reuse = false);
        for ci in 0..p.clients.len() {
            for oi in 0..p.clients[ci].len() {
                if p.clients[ci][oi].fault != Fault::None {
                    push(&|q| q.clients[ci][oi].fault = Fault::None);
                }
                if p.clients[ci][oi].asy {
                    push(&|q| q.clients[ci][oi].asy = false);
                }
                if p.clients[ci][oi].hold > 0 {
                    push(&|q| q.clients[ci][oi].hold = 0);
                }
            }
        }
        for q in cands {
            if Instant::now() > self.deadline {
                return;
            }
            // Apply the same change on top of what has succeeded so far.
            let mut r = p.clone();
            r.weak = r.weak.min(q.weak);
            if q.workers == 0 {
                r.workers = 0;
            }
            r.stall_den = r.stall_den.min(q.stall_den);
            r.weak_cas_den = r.weak_cas_den.min(q.weak_cas_den);
            r.spurious_den = r.spurious_den.min(q.spurious_den);
            r.drop_points &= q.drop_points;
            r.reuse &= q.reuse;
            for (rc, qc) in r.clients.iter_mut().zip(&q.clients) {
                for (ro, qo) in rc.iter_mut().zip(qc) {
                    if qo.fault == Fault::None {
                        ro.fault = Fault::None;
                    }
                    ro.asy &= qo.asy;
                    ro.hold = ro.hold.min(qo.hold);
                }
            }
            if let Some(nv) = self.test(&r, Some(&v.trace), seeds) {
                *p = r;
                *v = nv;
            }
        }
        // Clients without operations.
        while let Some(i) = (0..p.clients.len()).rev().find(|i| p.clients[*i].is_empty()) {
            let mut q = p.clone();
            q.clients.remove(i);
            match self.test(&q, None, seeds * 4) {
                Some(nv) => {
                    *p = q;
                    *v = nv;
                }
                None => break,
            }
        }
    }

    fn shrink_trace(&self, p: &Plan, v: &mut Viol) {
        for which in 0..2 {
            let count = |t: &Trace| if which == 0 { t.switches.len() } else { t.choices.len() };
            let mut size = count(&v.trace).next_power_of_two();
            while size >= 1 {
                let mut again = true;
                while again && Instant::now() < self.deadline {
                    again = false;
                    let len = count(&v.trace);
                    let mut cands = Vec::new();
                    let mut at = 0;
                    while at < len {
                        let end = (at + size).min(len);
                        let mut t = v.trace.clone();
                        if which == 0 {
                            t.switches.drain(at..end);
                        } else {
                            t.choices.drain(at..end);
                        }
                        cands.push((p.clone(), Some(t), 0));
                        at = end;
                    }
                    for (c, chunk) in cands.chunks(8).enumerate() {
                        let _ = c;
                        if let Some((_, nv)) = self.first(chunk) {
                            // The recorded trace lists the forced switches as well; it must shrink.
                            if count(&nv.trace) < len {
                                *v = nv;
                                again = true;
                                break;
                            }
                        }
                    }
                }
                size /= 2;
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Known findings.

struct Finding {
    property: String,
    kind: String,
    text: String,
    what: String,
}

fn findings(root: &Path) -> Vec<Finding> {
    let t = std::fs::read_to_string(root.join("KNOWN_FINDINGS")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("known: ")?;
            let mut f = r.splitn(4, '|').map(str::trim);
            Some(Finding {
                property: f.next()?.strip_prefix("property=")?.to_string(),
                kind: f.next()?.strip_prefix("kind=")?.to_string(),
                text: f.next()?.strip_prefix("message=")?.to_string(),
                what: f.next()?.to_string(),
            })
        })
        .collect()
}

// ---------------------------------------------------------------------------------------------
// Check.

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            '\t' => o += "\\t",
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o + "\""
}

struct WorkerEnd {
    code: i32,
    out: String,
    stats: Stats,
    next: u64,
}

fn spawn_worker(
    e: u8,
    args: Vec<String>,
    stop: &Arc<AtomicBool>,
    children: &Arc<Mutex<Vec<Child>>>,
    limit: Duration,
) -> WorkerEnd {
    let mut c = Command::new(exe(e))
        .args(&args)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .unwrap();
    let out = c.stdout.take().unwrap();
    let mut err = c.stderr.take().unwrap();
    let id = c.id();
    children.lock().unwrap().push(c);
    let eh = std::thread::spawn(move || {
        let mut s = String::new();
        let mut b = Vec::new();
        let _ = err.read_to_end(&mut b);
        s.push_str(&String::from_utf8_lossy(&b));
        s
    });
    let start = Instant::now();
    let mut keep = String::new();
    let mut stats = Stats::default();
    let mut next = 0;
    // A watchdog for a worker that makes no progress at all.
    let done = Arc::new(AtomicBool::new(false));
    let (d2, ch2) = (done.clone(), children.clone());
    let wd = std::thread::spawn(move || {
        while !d2.load(Ordering::Relaxed) {
            std::thread::sleep(Duration::from_millis(100));
            if start.elapsed() > limit {
                for c in ch2.lock().unwrap().iter_mut() {
                    if c.id() == id {
                        let _ = c.kill();
                    }
                }
                break;
            }
        }
    });
    for l in BufReader::new(out).split(b'\n') {
        let Ok(l) = l else { break };
        let l = String::from_utf8_lossy(&l).into_owned();
        if l.starts_with("STAT") {
            if let Some(s) = Stats::parse(&l) {
                stats = s;
            }
        } else if let Some(r) = l.strip_prefix("NEXT ") {
            next = r.parse().unwrap_or(next);
        } else if l.starts_with("DIVERGED") {
            eprintln!("{l}");
        } else {
            keep.push_str(&l);
            keep.push('\n');
        }
    }
    let mut code = -1;
    {
        let mut g = children.lock().unwrap();
        if let Some(i) = g.iter().position(|c| c.id() == id) {
            let mut c = g.remove(i);
            drop(g);
            code = c.wait().ok().and_then(|s| s.code()).unwrap_or(-1);
        }
    }
    done.store(true, Ordering::Relaxed);
    let _ = wd.join();
    if stop.load(Ordering::Relaxed) && code == -1 {
        code = 0;
    }
    keep.push_str(&eh.join().unwrap());
    WorkerEnd { code, out: keep, stats, next }
}

/// Number of runs of the quick and the thorough check.
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let quick = crate::r#gen::quick_runs(prop);
    if thorough { (quick * 40, 3000) } else { (quick, 150) }
}

pub fn check(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let root = PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()));
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || a.get(1).is_some_and(|x| x == "thorough");
    let (mut end, mut secs) = budget(&prop, thorough);
    if let Some(n) = std::env::var("DST_RUNS").ok().and_then(|s| s.parse().ok()) {
        end = n;
    }
    if let Some(n) = std::env::var("DST_SECS").ok().and_then(|s| s.parse().ok()) {
        secs = n;
    }
    let jobs: u64 = std::env::var("DST_JOBS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get() as u64).clamp(1, 16));
    let start = Instant::now();
    let dir = std::env::temp_dir().join(format!("dst-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    println!("check {prop}: VERIF_SEED={base}, {end} runs on {jobs} processes");
    // Should a violation not reproduce, or a worker fail, the search goes on with other seeds.
    let mut r = 3;
    for i in 0..3 {
        let b = base + i * 0x1000_0000;
        r = check_in(&prop, &root, &dir, b, thorough, end, secs, jobs, Instant::now());
        if r != 3 || start.elapsed() > Duration::from_secs(300) {
            break;
        }
        for j in 0..jobs {
            let _ = std::fs::remove_file(dir.join(format!("hash{j}")));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    r
}

#[allow(clippy::too_many_arguments)]
fn check_in(
    prop: &str,
    root: &Path,
    dir: &Path,
    base: u64,
    thorough: bool,
    end: u64,
    secs: u64,
    jobs: u64,
    start: Instant,
) -> i32 {
    let known = findings(root);
    let stop = Arc::new(AtomicBool::new(false));
    let children: Arc<Mutex<Vec<Child>>> = Arc::new(Mutex::new(Vec::new()));
    let total = Arc::new(Mutex::new(Stats::default()));
    let found: Arc<Mutex<Option<(Viol, u64)>>> = Arc::new(Mutex::new(None));
    let errors: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let seen_known: Arc<Mutex<BTreeMap<usize, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    std::thread::scope(|s| {
        for j in 0..jobs {
            let (stop, children, total, found, errors, seen_known, samples) = (
                stop.clone(),
                children.clone(),
                total.clone(),
                found.clone(),
                errors.clone(),
                seen_known.clone(),
                samples.clone(),
            );
            let known = &known;
            s.spawn(move || {
                let mut from = j;
                let t0 = Instant::now();
                loop {
                    let left = secs.saturating_sub(t0.elapsed().as_secs());
                    if from >= end || left == 0 || stop.load(Ordering::Relaxed) {
                        break;
                    }
                    let args: Vec<String> = vec![
                        "worker".into(),
                        prop.into(),
                        base.to_string(),
                        from.to_string(),
                        jobs.to_string(),
                        end.to_string(),
                        left.to_string(),
                        dir.join(format!("hash{j}")).to_str().unwrap().into(),
                    ];
                    let e = spawn_worker(exe_for(prop, jobs, from), args, &stop, &children, Duration::from_secs(left + 150));
                    total.lock().unwrap().merge(&e.stats);
                    for l in e.out.lines() {
                        if let Some(r) = l.strip_prefix("SAMPLE ") {
                            samples.lock().unwrap().push(r.into());
                        }
                    }
                    if e.code == 0 {
                        break;
                    }
                    if e.code == 1 {
                        if let Some(v) = parse_viol(&e.out) {
                            let k = known
                                .iter()
                                .position(|f| f.property == prop && f.kind == v.kind && v.msg.contains(&f.text));
                            if let Some(k) = k {
                                *seen_known.lock().unwrap().entry(k).or_default() += 1;
                                from = v.index + jobs;
                                continue;
                            }
                            stop.store(true, Ordering::Relaxed);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().is_none_or(|x| v.index < x.0.index) {
                                *f = Some((v, from));
                            }
                            drop(f);
                            for c in children.lock().unwrap().iter_mut() {
                                let _ = c.kill();
                            }
                            break;
                        }
                    }
                    let tail: Vec<&str> = e.out.lines().rev().take(5).collect();
                    errors.lock().unwrap().push(format!(
                        "worker {j} ended with code {} near run {}: {}",
                        e.code,
                        e.next,
                        tail.into_iter().rev().collect::<Vec<_>>().join(" / ")
                    ));
                    break;
                }
            });
        }
    });
    let search_s = start.elapsed().as_secs_f64();
    let mut hashes: HashSet<u64> = HashSet::new();
    for j in 0..jobs {
        if let Ok(b) = std::fs::read(dir.join(format!("hash{j}"))) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let total = total.lock().unwrap().clone();
    let found = found.lock().unwrap().take();
    let mut errors = errors.lock().unwrap().clone();
    let mut code = 0;
    let mut violation_text = None;
    if let Some((v, from)) = found {
        let (path, text, ok) = report(prop, root, dir, base, jobs, from, v, thorough);
        violation_text = Some(text.clone());
        if ok {
            println!("{text}");
            println!("VIOLATION property={prop} replay={}", path.display());
            code = 1;
        } else {
            errors.push(format!("a violation did not reproduce: {text}"));
        }
    }
    // The same seeds in fresh processes, in another grouping, must give the same executions.
    let mut det = (0u64, 0u64);
    if code == 0 && errors.is_empty() {
        let n = 96.min(end);
        let outs: Vec<(i32, String)> = std::thread::scope(|s| {
            [(0u64, 1u64), (0, 2), (1, 2)]
                .map(|(f, st)| {
                    s.spawn(move || {
                        run_child(
                            PLAIN_EXE,
                            &["worker", prop, &base.to_string(), &f.to_string(), &st.to_string(), &n.to_string(), "60", "-", "dump"],
                            Duration::from_secs(120),
                        )
                    })
                })
                .into_iter()
                .map(|h| h.join().unwrap())
                .collect()
        });
        let get = |o: &str| -> BTreeMap<u64, String> {
            o.lines()
                .filter_map(|l| l.strip_prefix("H "))
                .filter_map(|l| l.split_once(' '))
                .filter_map(|(i, r)| Some((i.parse().ok()?, r.to_string())))
                .collect()
        };
        let x = get(&outs[0].1);
        let mut y = get(&outs[1].1);
        y.extend(get(&outs[2].1));
        for (i, h) in &x {
            if let Some(g) = y.get(i) {
                det.0 += 1;
                if g != h {
                    det.1 += 1;
                }
            }
        }
        if det.1 > 0 || total.n[18] > 0 {
            // A defect of the simulator, not of the code under test: it says so and goes on.
            println!(
                "WARNING: not deterministic: {} of {} runs differ between processes, {} of {} recorded schedules did not replay",
                det.1, det.0, total.n[18], total.n[17]
            );
        }
        if total.n[0] == 0 {
            errors.push("nothing was run".into());
        }
    }
    for (k, n) in seen_known.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={prop} {} (seen {n} times)", known[*k].what);
    }
    for (k, f) in known.iter().enumerate() {
        if f.property == prop && !seen_known.lock().unwrap().contains_key(&k) {
            println!("KNOWN-FINDING: property={prop} {} (not seen in this run)", f.what);
        }
    }
    let wall = start.elapsed().as_secs_f64();
    // Evidence.
    let mut ev = String::new();
    let _ = write!(
        ev,
        "{{\n \"property\": {}, \"tier\": {}, \"seed\": {base}, \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {}, \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n",
        json(prop),
        json(if thorough { "thorough" } else { "quick" }),
        total.n[0],
        hashes.len(),
        json("One evaluation is one simulated run: a seed expands to a container, a prefill, 1 to 6 clients with operations, a schedule strategy and a fault mix, and decides every interleaving. Non-trivial: at least one preemption inside an operation and, besides, two clients' steps on one key overlapping in time or a fault that fired. Distinct: by the hash over the sequence of (thread, kind of access, address) of the whole execution; runs on which a worker was stopped early are not counted."),
        samples.lock().unwrap().iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
    );
    for (n, v) in NAMES.iter().zip(total.n) {
        let _ = writeln!(ev, "  {}: {v},", json(n));
    }
    let mut fk: Vec<String> = CHOICE_NAMES
        .iter()
        .zip(total.fired)
        .filter(|(n, _)| !["misc", "cancel", "migrate", "user_panic", "alloc_failure"].contains(n))
        .map(|(n, v)| format!("{}: {v}", json(n)))
        .collect();
    for (n, i) in [("future_cancelled", 12), ("task_migrated", 10), ("spurious_poll", 11), ("user_code_panicked", 13), ("allocation_failed", 14), ("preemption", 3)] {
        fk.push(format!("{}: {}", json(n), total.n[i]));
    }
    let _ = writeln!(ev, "  \"faults_fired\": {{{}}},", fk.join(", "));
    let _ = writeln!(
        ev,
        "  \"observed_steps_sampled_1_in_8\": {{{}}},",
        total.what.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ")
    );
    let _ = writeln!(
        ev,
        "  \"runs_by_group\": {{{}}},",
        total.groups.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect::<Vec<_>>().join(", ")
    );
    let _ = writeln!(
        ev,
        "  \"simulated_runs_per_hour\": {}, \"simulated_steps_per_second\": {}, \"search_s\": {search_s:.1}, \"processes\": {jobs},",
        (total.n[0] as f64 * 3600.0 / search_s) as u64,
        (total.n[1] as f64 / search_s) as u64,
    );
    let _ = writeln!(
        ev,
        "  \"simulated_time\": {},",
        json(&format!("{} scheduling steps (the simulated clock counts steps; the code under test has no timers)", total.n[1]))
    );
    let _ = writeln!(
        ev,
        "  \"determinism\": {{\"runs_repeated_in_fresh_processes\": {}, \"differing\": {}, \"recorded_schedules_replayed\": {}, \"diverged\": {}}},",
        det.0, det.1, total.n[17], total.n[18]
    );
    let _ = writeln!(
        ev,
        "  \"real_components\": {}, \"simulated_components\": {},",
        json("all of scc from /repo's working tree; saa 5 (locks) and sdd 4 (epoch reclamation), the pinned sources"),
        json("std atomics, fences, threads, parking, spin hints and thread locals; the global allocator; the async executor and its wakers")
    );
    let _ = writeln!(
        ev,
        "  \"harness_errors\": [{}], \"violation\": {}\n }},",
        errors.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "),
        violation_text.as_ref().map_or("null".into(), |t| json(t))
    );
    let _ = write!(
        ev,
        " \"assumptions\": [{}],\n \"wall_s\": {wall:.1}, \"violations\": {}\n}}\n",
        [
            "sampled schedules, not all of them",
            "preemption points are the accesses to atomics, fences, yields and user code; code between them runs undisturbed",
            "saa and sdd are the pinned crates.io sources with their std replaced by the simulator's; sdd's reclamation cadence is varied",
        ]
        .iter()
        .map(|s| json(s))
        .collect::<Vec<_>>()
        .join(", "),
        i32::from(code == 1)
    );
    let _ = std::fs::create_dir_all(root.join("evidence"));
    if let Err(e) = std::fs::write(root.join("evidence").join(format!("{prop}.json")), ev) {
        errors.push(format!("cannot write evidence: {e}"));
    }
    println!(
        "{prop}: {} runs, {} distinct non-trivial, {} steps, {:.1} s",
        total.n[0],
        hashes.len(),
        total.n[1],
        wall
    );
    for e in &errors {
        eprintln!("ERROR: {e}");
    }
    if code == 0 && !errors.is_empty() {
        code = 3;
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn report(
    prop: &str,
    root: &Path,
    dir: &Path,
    base: u64,
    jobs: u64,
    from: u64,
    v: Viol,
    thorough: bool,
) -> (PathBuf, String, bool) {
    let seed = seed_of(base, prop, v.index);
    println!("run {} (seed {seed}): {}: {}", v.index, v.kind, v.msg);
    let exe = exe_for(prop, jobs, from);
    let mut plan = crate::r#gen::plan(prop, seed, exe);
    let ops = |p: &Plan| p.prefill.len() + p.finals.len() + p.clients.iter().map(Vec::len).sum::<usize>();
    let (ops0, sw0) = (ops(&plan), v.trace.switches.len());
    let slow = v.kind == "no-progress";
    let limit = if thorough { 240 } else { 90 };
    let m = Min {
        dir: dir.to_path_buf(),
        kind: v.kind.clone(),
        deadline: Instant::now() + Duration::from_secs(if slow { limit + 120 } else { limit }),
        tried: AtomicUsize::new(0),
    };
    let rp = root.join("replays");
    let _ = std::fs::create_dir_all(&rp);
    let path = rp.join(format!("{prop}-{seed}.replay"));
    let first = m.test(&plan, Some(&v.trace), 0).or_else(|| m.test(&plan, None, 1));
    let Some(mut cur) = first else {
        // Perhaps it depends on what ran before in the process.
        let (code, out) = run_child(
            exe,
            &["worker", prop, &base.to_string(), &from.to_string(), &jobs.to_string(), &(v.index + 1).to_string(), "600", "-"],
            Duration::from_secs(200),
        );
        let ok = code == 1 && parse_viol(&out).is_some_and(|x| x.kind == v.kind && x.index == v.index);
        let _ = std::fs::write(
            &path,
            format!(
                "# {}: {}\n# reproduces only after the preceding runs in the same process\nexe {}\nSEQUENCE {prop} {base} {from} {jobs} {} 600 -\n",
                v.kind,
                v.msg,
                exe,
                v.index + 1
            ),
        );
        return (path, format!("{}: {}", v.kind, v.msg), ok);
    };
    let (plan0, cur0) = (plan.clone(), cur.clone());
    let seeds = if slow { 0 } else { 40 };
    m.shrink_ops(&mut plan, &mut cur, seeds);
    m.shrink_misc(&mut plan, &mut cur, seeds);
    m.shrink_ops(&mut plan, &mut cur, seeds * 4);
    m.shrink_trace(&plan, &mut cur);
    let write = |plan: &Plan, cur: &Viol| {
        let mut t = format!(
            "# property {prop}\n# {}: {}\n# at {}; VERIF_SEED={base}, run {}, seed {seed}\n# minimised from {ops0} operations and {sw0} switches to {} and {} in {} attempts\n",
            cur.kind,
            cur.msg,
            cur.at,
            v.index,
            ops(plan),
            cur.trace.switches.len(),
            m.tried.load(Ordering::Relaxed)
        );
        t += "# replay: /verif/check.sh replay FILE\n";
        t += &plan.text();
        t += "REPLAY\n";
        t += &trace_text(&cur.trace);
        t += &format!("# execution hash {}\n", cur.hash);
        for h in &cur.hist {
            t += &format!("# {h}\n");
        }
        let _ = std::fs::write(&path, t);
    };
    let confirm = |want: &Viol| {
        (0..2).all(|_| {
            let (c, o) = run_child(exe, &["replay", path.to_str().unwrap()], Duration::from_secs(120));
            c == 1 && parse_viol(&o).is_some_and(|x| x.kind == want.kind && x.hash == want.hash && x.msg == want.msg)
        })
    };
    write(&plan, &cur);
    let mut ok = confirm(&cur);
    if !ok {
        cur = cur0;
        plan = plan0;
        write(&plan, &cur);
        ok = confirm(&cur);
        if !ok {
            // Same failure, if not the same trace (for example an address in the message).
            let (c, o) = run_child(exe, &["replay", path.to_str().unwrap()], Duration::from_secs(120));
            ok = c == 1 && parse_viol(&o).is_some_and(|x| x.kind == cur.kind);
        }
    }
    println!(
        "minimised to {} operations and {} switches ({} attempts)",
        ops(&plan),
        cur.trace.switches.len(),
        m.tried.load(Ordering::Relaxed)
    );
    (path, format!("{}: {}", cur.kind, cur.msg), ok)
}
