//! Executes a plan against the real library and checks every step against the models.
use crate::alloc;
use crate::enc::{civil, join};
use crate::env::{self, Env, OpenRec, SimBackend, ENV};
use crate::kernel;
use crate::mirror;
use crate::model::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::threads::{Msg, Worker};
use crate::world::*;
use ruplicity::backend::local::LocalBackend;
use ruplicity::backend::Backend;
use ruplicity::collections::Collections;
use ruplicity::manifest::Manifest;
use ruplicity::signatures::{Chain, EntryType};
use ruplicity::timefmt::{PrettyDisplay, TimeDisplay};
use ruplicity::{Backup, ManifestRef, Snapshot, SnapshotEntries, SnapshotsIter};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc as Rc, Mutex};
use time::Timespec;

#[derive(Clone, Debug)]
pub struct Violation {
    pub classes: Vec<&'static str>,
    pub msg: String,
    pub step: usize,
}

#[derive(Default)]
pub struct Outcome {
    pub violation: Option<Violation>,
    pub other: BTreeMap<String, u64>,
    pub hash: u64,
    pub shape: u64,
    pub fired: BTreeMap<String, u64>,
    pub stats: BTreeMap<&'static str, u64>,
    pub sim_seconds: u64,
    pub trace: Vec<String>,
}

/// Which findings count for which property.
pub fn relevant(prop: &str, class: &str) -> bool {
    let l: &[&str] = match prop {
        "C01" => &["perm"],
        "C02" => &["walk"],
        "C03" => &["entries", "spurious", "avail"],
        "C04" => &["misattr", "entries"],
        "C05" => &["manifest", "lookup", "man-spurious"],
        "C06" => &["faulted"],
        "C07" => &["man-faulted", "man-eintr"],
        "C08" => &["retry", "changed"],
        "C09" => &["memory"],
        "C10" => &["held", "changed"],
        "C11" => &["opens", "view-changed", "changed"],
        "C12" => &["list", "raw", "wrote"],
        "C13" => &["time", "render"],
        "C14" => &["history", "avail"],
        "C15" => &["stamp"],
        "C16" => &["iter"],
        "C19" => &["kind"],
        "C20" => &["leak"],
        "C21" => &["sink"],
        "C17" => &["send", "entries", "misattr", "spurious", "avail", "manifest", "lookup", "man-spurious", "held", "changed", "opens", "view-changed", "faulted", "man-faulted", "man-eintr", "retry", "iter", "walk"],
        "C18" => &["status"],
        _ => &[],
    };
    matches!(class, "panic" | "hang" | "abort") || l.contains(&class)
}

#[derive(Clone, Copy)]
enum Bk {
    Sim(&'static Backup<SimBackend>),
    Local(&'static Backup<LocalBackend>),
}
impl Bk {
    fn iter(self) -> SnapshotsIter<'static> {
        match self {
            Bk::Sim(b) => b.snapshots().unwrap().into_iter(),
            Bk::Local(b) => b.snapshots().unwrap().into_iter(),
        }
    }
    fn collections(self) -> &'static Collections {
        match self {
            Bk::Sim(b) => b.snapshots().unwrap().as_collections(),
            Bk::Local(b) => b.snapshots().unwrap().as_collections(),
        }
    }
    fn nth(self, n: usize) -> Option<Snapshot<'static>> {
        self.iter().nth(n)
    }
    unsafe fn free(self) {
        match self {
            Bk::Sim(b) => drop(Box::from_raw(b as *const _ as *mut Backup<SimBackend>)),
            Bk::Local(b) => drop(Box::from_raw(b as *const _ as *mut Backup<LocalBackend>)),
        }
    }
}

struct Handle {
    b: Bk,
    /// the storage it was opened on
    store: u8,
    view: View,
    fp: String,
    /// (chain, position) of every snapshot, if the view is clear
    at: Vec<Option<(usize, usize)>>,
    keys: Vec<Key>,
    done_e: BTreeMap<usize, Vec<Row>>,
    done_m: BTreeMap<usize, ManRow>,
    failed: bool,
    /// every time a signature file was opened, by name
    seen: BTreeMap<Vec<u8>, Vec<OpenRec>>,
    /// signature files that have gone into a result
    settled: BTreeSet<Vec<u8>>,
    /// chains read completely and without any trouble
    clean: BTreeSet<usize>,
    /// results first obtained from such a chain: their owner names are final
    named: BTreeSet<usize>,
    /// manifests that came out wrong because of a fault
    wrong_m: BTreeSet<usize>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct ManRow {
    host: Vec<u8>,
    dir: Vec<u8>,
    vols: Vec<(Vec<u8>, Option<usize>, Vec<u8>, Option<usize>, String, Vec<u8>)>,
}

enum Held {
    Entries { e: &'static SnapshotEntries<'static>, rows: Vec<Row>, it: Option<(ruplicity::signatures::SnapshotEntries<'static>, usize)> },
    Man { m: ManifestRef<'static>, row: ManRow },
    Iter { it: SnapshotsIter<'static>, h: u8, pos: usize },
    Time { d: PrettyDisplay, t: i64, zone: Option<usize> },
}

static PANIC: Mutex<Option<(String, String)>> = Mutex::new(None);

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map_or(String::new(), |l| format!("{}:{}", l.file(), l.line()));
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if !kernel::ACTIVE.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("panic at {}: {}", loc, msg);
        }
        *PANIC.lock().unwrap_or_else(|p| p.into_inner()) = Some((loc, msg));
    }));
}

fn rows_of(e: &SnapshotEntries) -> Vec<Row> {
    e.as_signature().map(|f| row_of(&f)).collect()
}

fn row_of(f: &ruplicity::signatures::Entry) -> Row {
    let t = match f.entry_type() {
        EntryType::File => b'0',
        EntryType::Dir => b'5',
        EntryType::HardLink => b'1',
        EntryType::SymLink => b'2',
        EntryType::Fifo => b'6',
        EntryType::Unknown(b) => b,
    };
    let path = f.path_bytes().to_vec();
    if let Some(p) = f.path() {
        // the two views of the path have to agree
        if p.as_os_str().as_bytes() != &path[..] {
            return Row { path: b"<path() and path_bytes() differ>".to_vec(), t, mtime: 0, mode: None, uid: None, gid: None, uname: None, gname: None, link: None, hint: None };
        }
    }
    Row {
        path,
        t,
        mtime: f.mtime().sec,
        mode: f.mode(),
        uid: f.userid(),
        gid: f.groupid(),
        uname: f.username().map(|s| s.to_string()),
        gname: f.groupname().map(|s| s.to_string()),
        link: f.linked_path().map(|p| p.as_os_str().as_bytes().to_vec()),
        hint: f.size_hint(),
    }
}

fn man_of(m: &Manifest) -> ManRow {
    let n = m.last_volume_index();
    let mut vols = vec![];
    for i in 1..=n {
        match m.volume(i) {
            Some(v) => {
                let sp = v.start_path().map(|p| p.as_os_str().as_bytes().to_vec());
                if sp.as_deref() != Some(v.start_path_bytes()) {
                    vols.push((b"<start_path() and start_path_bytes() differ>".to_vec(), None, vec![], None, String::new(), vec![]));
                    continue;
                }
                let ep = v.end_path().map(|p| p.as_os_str().as_bytes().to_vec());
                if ep.as_deref() != Some(v.end_path_bytes()) {
                    vols.push((b"<end_path() and end_path_bytes() differ>".to_vec(), None, vec![], None, String::new(), vec![]));
                    continue;
                }
                vols.push((v.start_path_bytes().to_vec(), v.start_block(), v.end_path_bytes().to_vec(), v.end_block(), v.hash_type().to_string(), v.hash().to_vec()))
            }
            None => vols.push((b"<no volume>".to_vec(), None, vec![], None, String::new(), vec![])),
        }
    }
    if m.volume(0).is_some() || m.volume(n + 1).is_some() {
        vols.push((b"<volume outside 1..=n>".to_vec(), None, vec![], None, String::new(), vec![]));
    }
    ManRow { host: m.hostname().as_bytes().to_vec(), dir: m.local_dir().map_or(vec![], |p| p.as_os_str().as_bytes().to_vec()), vols }
}

fn man_truth(t: &ManTruth, n: usize) -> ManRow {
    let w = |p: &Path| if p.is_empty() { b".".to_vec() } else { join(p) };
    ManRow {
        host: t.host.clone(),
        dir: t.dir.clone(),
        vols: t.vols[..n].iter().map(|v| (w(&v.start), v.start_block, w(&v.end), v.end_block, v.htype.to_string(), v.hash.clone())).collect(),
    }
}

fn kind_of(errno: i32) -> std::io::ErrorKind {
    std::io::Error::from_raw_os_error(errno).kind()
}

fn ts(t: Timespec) -> i64 {
    if t.nsec == 0 {
        t.sec
    } else {
        i64::MIN
    }
}

/// Everything the names say about a backup, as the library reports it.
fn fingerprint(b: Bk) -> String {
    let mut s = String::new();
    for sn in b.iter() {
        let set = sn.as_backup_set();
        s.push_str(&format!("{} {} {} {} | ", ts(sn.time()), sn.is_full(), sn.is_incremental(), sn.num_volumes()));
        s.push_str(&format!(
            "{} {} c{} p{} z{} e{} m={} f{} i{} n{}:",
            ts(set.start_time()), ts(set.end_time()), set.is_complete(), set.is_partial(), set.is_compressed(), set.is_encrypted(), set.manifest_path(), set.is_full(), set.is_incremental(), set.num_volumes()
        ));
        for i in 0..40 {
            if let Some(p) = set.volume_path(i) {
                s.push_str(&format!(" {}={}", i, p));
            }
        }
        s.push('\n');
    }
    let c = b.collections();
    for ch in c.backup_chains() {
        s.push_str(&format!("chain {} {} {}\n", ts(ch.start_time()), ts(ch.end_time()), ch.inc_sets().count()));
    }
    for sc in c.signature_chains() {
        s.push_str(&format!("sigs {} {}:", ts(sc.start_time()), ts(sc.end_time())));
        for f in std::iter::once(sc.full_signature()).chain(sc.inc_signatures()) {
            s.push_str(&format!(" {}@{} {} {}", f.file_name, ts(f.time), f.compressed, f.encrypted));
        }
        s.push('\n');
    }
    s.push_str(&format!("total {}\n", c.num_snapshots()));
    s
}

enum Hs {
    Good,
    Cut(usize),
    Bad,
    Tainted,
    /// not there or unreadable by nature: only an error will do
    Never,
}

pub struct Exec<'p> {
    plan: &'p Plan,
    pub out: Outcome,
    step: usize,
    handles: BTreeMap<u8, Handle>,
    freed: Vec<Bk>,
    slots: BTreeMap<u8, Held>,
    clock: i64,
    zone: usize,
    hist: BTreeMap<(u8, Key), (Vec<(Vec<u8>, u64)>, Option<Vec<Row>>, Option<(u64, ManRow)>)>,
    /// the directories of the storages, if they are real ones
    scratch: Option<Vec<std::path::PathBuf>>,
    tracing: bool,
    stop: bool,
    /// the storage that writers and new backups use
    store: u8,
    /// where the plan goes on
    next: usize,
    threads: Vec<Worker>,
    /// the thread each backup is used in; 0 is the executor's own
    on: BTreeMap<u8, usize>,
    /// and each held result
    slot_on: BTreeMap<u8, usize>,
    /// the thread of the current step
    cur: usize,
    /// threads in the middle of a call
    flight: Vec<usize>,
    overlaps: u64,
}

type Called<T> = Result<T, ()>;

/// Each execution has a thread of its own, so that what the standard library keeps per thread (the
/// keys of hash maps) starts afresh and comes from the plan's seed.
pub fn run(plan: &Plan, scratch: Option<&str>, tracing: bool) -> Outcome {
    let (p2, s2) = (plan.clone(), scratch.map(|s| s.to_string()));
    let t = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        kernel::set_entropy(p2.cfg.seed);
        run_here(&p2, s2.as_deref(), tracing)
    });
    match t.expect("harness: thread").join() {
        Ok(o) => o,
        Err(_) => {
            eprintln!("harness error: the executor panicked");
            std::process::exit(3);
        }
    }
}

fn run_here(plan: &Plan, scratch: Option<&str>, tracing: bool) -> Outcome {
    let mut e = Exec {
        plan,
        out: Outcome { hash: 0xcbf29ce484222325, ..Outcome::default() },
        step: 0,
        handles: BTreeMap::new(),
        freed: vec![],
        slots: BTreeMap::new(),
        clock: plan.cfg.clock,
        zone: plan.cfg.zone as usize % ZONES.len(),
        hist: BTreeMap::new(),
        scratch: None,
        tracing,
        stop: false,
        store: 0,
        next: 0,
        threads: vec![],
        on: BTreeMap::new(),
        slot_on: BTreeMap::new(),
        cur: 0,
        flight: vec![],
        overlaps: 0,
    };
    kernel::reset();
    match scratch {
        Some(s) if plan.cfg.local => {
            let mut d = vec![mirror::prepare(s, plan.cfg.base)];
            if plan.steps.iter().any(|s| matches!(s, Step::Storage(_))) {
                d.push(mirror::prepare(&format!("{}/second", s), plan.cfg.base));
            }
            kernel::set_scratch(&d);
            e.scratch = Some(d);
        }
        _ => kernel::set_scratch(&[]),
    }
    let mut w = World::new(&plan.cfg);
    w.now = plan.cfg.clock;
    env::set_cur(0);
    *ENV.lock().unwrap_or_else(|p| p.into_inner()) = Some(Env::new(w));
    e.set_zone(e.zone);
    kernel::set_clock(Some(e.clock));
    kernel::steady(true, 0);
    if plan.cfg.prop == "C17" && plan.steps.iter().any(|s| matches!(s, Step::On { .. })) {
        e.sendable();
    }
    while e.next < plan.steps.len() && !e.stop {
        e.go();
    }
    if !e.stop {
        e.step = plan.steps.len();
        e.end();
    }
    e.threads.clear();
    // drop what is held before what it came from
    let slots = std::mem::take(&mut e.slots);
    let r = catch_unwind(AssertUnwindSafe(|| {
        for (_, s) in slots {
            if let Held::Entries { e, it, .. } = s {
                drop(it);
                unsafe { drop(Box::from_raw(e as *const _ as *mut SnapshotEntries<'static>)) };
            }
        }
    }));
    if r.is_ok() {
        for (_, h) in std::mem::take(&mut e.handles) {
            unsafe { h.b.free() }
        }
        for b in std::mem::take(&mut e.freed) {
            unsafe { b.free() }
        }
    }
    kernel::reset();
    kernel::set_clock(None);
    let mut env = ENV.lock().unwrap_or_else(|p| p.into_inner()).take().unwrap();
    e.out.shape = mix(e.out.shape ^ env.shape);
    for w in env.worlds() {
        for (k, v) in [
            ("backup runs", w.stat_runs),
            ("writer crashes", w.stat_crash),
            ("files lost in a crash", w.stat_lost),
            ("files torn in a crash", w.stat_torn),
            ("resumed runs", w.stat_resume),
            ("prunes", w.stat_prune),
            ("cleanups", w.stat_clean),
        ] {
            *e.out.stats.entry(k).or_insert(0) += v;
        }
    }
    let sleeps = kernel::SLEEPS.load(std::sync::atomic::Ordering::Relaxed);
    if sleeps > 0 {
        *e.out.stats.entry("sleeps skipped").or_insert(0) += sleeps as u64;
    }
    for (k, v) in env.fired {
        *e.out.fired.entry(k).or_insert(0) += v;
    }
    e.out.sim_seconds += (env.world.now - plan.cfg.clock).max(0) as u64;
    if e.scratch.is_some() {
        mirror::clear(scratch.unwrap());
    }
    e.out
}

impl<'p> Exec<'p> {
    fn note(&mut self, s: &str) {
        let mut h = self.out.hash;
        for b in s.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        self.out.hash = h;
        if self.tracing {
            self.out.trace.push(s.to_string());
        }
    }

    fn stat(&mut self, k: &'static str) {
        let l = k.len() as u64 ^ (k.as_bytes()[k.len() / 2] as u64) << 8 ^ (k.as_bytes()[k.len() - 1] as u64) << 16;
        self.out.shape = mix(self.out.shape ^ l);
        *self.out.stats.entry(k).or_insert(0) += 1;
    }

    fn bad(&mut self, classes: &[&'static str], msg: String) {
        let p = &self.plan.cfg.prop;
        if classes.iter().any(|c| relevant(p, c)) {
            if self.out.violation.is_none() {
                self.out.violation = Some(Violation { classes: classes.to_vec(), msg: msg.clone(), step: self.step });
            }
            self.stop = true;
        } else {
            *self.out.other.entry(classes.join("+")).or_insert(0) += 1;
        }
        self.note(&format!("!! {:?} {}", classes, msg));
    }

    fn set_zone(&mut self, z: usize) {
        self.zone = z % ZONES.len();
        std::env::set_var("TZ", ZONES[self.zone].tz);
        extern "C" {
            fn tzset();
        }
        unsafe { tzset() };
    }

    /// The next step of the plan.
    fn go(&mut self) {
        let i = self.next;
        let s = &self.plan.steps[i];
        self.next += 1;
        self.step = i;
        let kind = format!("{:?}", std::mem::discriminant(s));
        for b in kind.bytes() {
            self.out.shape = (self.out.shape ^ b as u64).wrapping_mul(0x100000001b3);
        }
        kernel::steady(false, if let Step::Tick(t) = s { *t as i64 } else { 1 });
        let k = self.thread_of(s);
        let was = (std::mem::replace(&mut self.cur, k), env::set_cur(k));
        let store = self.store_of(s);
        env::with(|e| e.face(store));
        let line = self.step(s);
        self.cur = was.0;
        env::set_cur(was.1);
        self.note(&format!("{} {}", i, line));
    }

    fn store_of(&self, s: &Step) -> u8 {
        match s {
            Step::Open { .. } => self.store,
            s => s.handle().and_then(|h| self.handles.get(&h)).map_or(self.store, |h| h.store),
        }
    }

    fn thread_of(&self, s: &Step) -> usize {
        match s {
            Step::On { .. } => 0,
            Step::IterStep { slot } | Step::Recheck { slot } | Step::Drop { slot } | Step::TimePrint { slot } => self.slot_on.get(slot).cloned().unwrap_or(0),
            s => s.handle().and_then(|h| self.on.get(&h).cloned()).unwrap_or(0),
        }
    }

    /// One of the program's threads has stopped in the middle of a call.
    fn overlap(&mut self) {
        let s = match self.plan.steps.get(self.next) {
            Some(s) if !self.stop => s,
            _ => return,
        };
        let k = self.thread_of(s);
        let other = k != 0 && !self.flight.contains(&k);
        let may = match s {
            // a slot that is to be used again belongs to the same thread then
            Step::Entries { hold, .. } | Step::Manifest { hold, .. } => other && hold.map_or(true, |s| self.slot_on.get(&s).map_or(true, |t| *t == k)),
            Step::Open { .. } | Step::Walk { .. } | Step::Chain { .. } | Step::Recheck { .. } | Step::IterStep { .. } | Step::Render { .. } => other,
            Step::Write(_) => true,
            _ => false,
        };
        if may {
            self.overlaps += 1;
            env::with(|e| e.fire(if matches!(s, Step::Write(_)) { "the writer went on in the middle of a read" } else { "call of another thread in the middle of a read" }));
            let step = self.step;
            self.go();
            self.step = step;
        }
    }

    /// Makes a call in the thread of the current step.
    fn elsewhere<T>(&mut self, f: impl FnOnce() -> T) -> std::thread::Result<T> {
        let k = self.cur;
        while self.threads.len() < k {
            let n = self.threads.len() + 1;
            self.threads.push(Worker::new(n, mix(self.plan.cfg.seed ^ (n as u64) << 40), self.scratch.clone().unwrap_or_default()));
        }
        let mut out: Option<std::thread::Result<T>> = None;
        let at = &mut out as *mut Option<std::thread::Result<T>>;
        unsafe { self.threads[k - 1].give(Box::new(move || *at = Some(catch_unwind(AssertUnwindSafe(f))))) };
        self.flight.push(k);
        self.stat("calls in other threads");
        let mut let_go = vec![];
        loop {
            if self.threads[k - 1].ended() {
                break;
            }
            match self.threads[k - 1].hear(self.flight.len() > 1) {
                Some(Msg::Done) => break,
                Some(Msg::Paused) => {
                    if self.threads[k - 1].stops() {
                        kernel::ACTIVE.store(false, std::sync::atomic::Ordering::Relaxed);
                        self.overlap();
                        crate::alarm(crate::PATIENCE);
                        kernel::ACTIVE.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                    if self.threads[k - 1].stops() {
                        self.threads[k - 1].resume();
                    }
                }
                None => {
                    // it waits for something that a call under way has: let those go on
                    for o in self.flight[..self.flight.len() - 1].to_vec() {
                        self.threads[o - 1].release();
                        let_go.push(o);
                    }
                }
            }
        }
        self.flight.pop();
        // nothing goes on while it is this thread's turn
        for o in let_go {
            self.threads[o - 1].finish();
        }
        out.expect("harness: no result")
    }

    /// Whether a backup can be handed from thread to thread.
    fn sendable(&mut self) {
        macro_rules! has {
            ($t:ty, $m:ident) => {{
                #[allow(dead_code)]
                trait No {
                    const HAS: bool = false;
                }
                impl<T: ?Sized> No for T {}
                struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
                #[allow(dead_code)]
                impl<T: ?Sized + $m> Probe<T> {
                    const HAS: bool = true;
                }
                <Probe<$t>>::HAS
            }};
        }
        let l = [("Backup<LocalBackend>", has!(Backup<LocalBackend>, Send)), ("Backup<SimBackend>", has!(Backup<SimBackend>, Send))];
        for (n, ok) in l {
            if !ok {
                self.bad(&["send"], format!("{} cannot be handed to another thread", n));
            }
        }
    }

    /// Runs code of the library under the simulated environment.
    fn call<T>(&mut self, io: &Io, what: &str, f: impl FnOnce() -> T) -> Called<T> {
        if let Some(s) = &self.dir() {
            env::with(|e| mirror::sync(&mut e.world, s));
        }
        env::with(|e| e.start_op(io));
        let (mark, overlaps) = (alloc::mark(), self.overlaps);
        crate::alarm(crate::PATIENCE);
        let before = kernel::ACTIVE.swap(true, std::sync::atomic::Ordering::Relaxed);
        let f = move || {
            let n = env::open_now();
            let r = f();
            let most = env::open_most() - n;
            (r, env::open_now() - n, most)
        };
        let r = if self.cur == 0 { catch_unwind(AssertUnwindSafe(f)) } else { self.elsewhere(f) };
        kernel::ACTIVE.store(before, std::sync::atomic::Ordering::Relaxed);
        crate::alarm(crate::OVERALL);
        // what other calls in between needed is not counted
        let peak = if self.overlaps == overlaps { alloc::peak_since(mark) } else { 0 };
        let (bytes, hung, names) = env::with(|e| (e.bytes, e.hung, e.world.files.keys().map(|k| k.len() as u64).sum::<u64>()));
        match r {
            Err(_) => {
                let (loc, msg) = PANIC.lock().unwrap_or_else(|p| p.into_inner()).take().unwrap_or_default();
                if loc.starts_with("src/") || msg.starts_with("harness:") {
                    eprintln!("harness error: panic at {}: {}", loc, msg);
                    std::process::exit(3);
                }
                self.bad(&["panic"], format!("{} panicked at {}: {}", what, loc, msg));
                // whatever state that left is not to be used further
                self.stop = true;
                Err(())
            }
            Ok((v, left, most)) => {
                if left > 0 {
                    self.bad(&["leak"], format!("{} has left {} of the files or listings it opened open", what, left));
                } else if most > 8 {
                    self.bad(&["leak"], format!("{} had {} files open at once", what, most));
                }
                if hung {
                    self.bad(&["hang"], format!("{} keeps reading for ever", what));
                    self.stop = true;
                    return Err(());
                }
                if peak as u64 > (48 << 20) + 64 * (bytes + names) {
                    self.bad(&["memory"], format!("{} needed {} bytes of memory for {} bytes read", what, peak, bytes));
                    if self.stop {
                        return Err(());
                    }
                }
                Ok(v)
            }
        }
    }

    /// The directory of the storage the call is about.
    fn dir(&self) -> Option<std::path::PathBuf> {
        let store = env::with(|e| e.store);
        self.scratch.as_ref().map(|s| s[store as usize].clone())
    }

    fn open_backend(&self) -> std::io::Result<Bk> {
        Ok(match &self.dir() {
            Some(s) => Bk::Local(Box::leak(Box::new(Backup::new(LocalBackend::new(s))?))),
            None => Bk::Sim(Box::leak(Box::new(Backup::new(SimBackend)?))),
        })
    }

    fn do_open(&mut self, io: &Io) -> Option<Handle> {
        let me: *const Exec = self;
        let r = self.call(io, "Backup::new", || {
            let r = unsafe { &*me }.open_backend();
            r.map(|b| (b, fingerprint(b)))
        });
        let (lf, nopens, listed) = env::with(|e| (e.list_fault, e.opens.len(), e.listed.clone()));
        let sf = env::with(|e| e.stat_fault);
        let r = match r {
            Ok(r) => r,
            Err(()) => return None,
        };
        if nopens > 0 {
            self.bad(&["opens"], format!("opening and walking the backup opened {} files", nopens));
        }
        match r {
            Err(e) => {
                self.note(&format!("open -> {:?}", e.kind()));
                if !lf && !sf {
                    self.bad(&["list", "spurious"], format!("opening the backup failed without cause: {}", e));
                } else {
                    self.stat("opens refused");
                    self.listing_kind(e.kind(), io, "opening the backup");
                }
                None
            }
            Ok((b, fp)) => {
                self.stat("opens");
                if lf {
                    self.bad(&["list"], "the listing failed but the backup was opened".to_string());
                    self.freed.push(b);
                    return None;
                }
                let names: BTreeSet<Vec<u8>> = listed.unwrap_or_default().into_iter().collect();
                let v = view(&names);
                let keys: Vec<Key> = b.iter().map(|s| (s.is_full(), ts(s.as_backup_set().start_time()), ts(s.as_backup_set().end_time()))).collect();
                let mut at = vec![];
                for k in &keys {
                    let mut f = None;
                    for (ci, c) in v.chains.iter().enumerate() {
                        for (si, s) in c.iter().enumerate() {
                            if s.key() == *k {
                                f = Some((ci, si));
                            }
                        }
                    }
                    at.push(f);
                }
                self.note(&format!("open -> {}", fp));
                let h = Handle { b, store: env::with(|e| e.store), view: v, fp, at, keys, done_e: BTreeMap::new(), done_m: BTreeMap::new(), failed: false, seen: BTreeMap::new(), settled: BTreeSet::new(), clean: BTreeSet::new(), named: BTreeSet::new(), wrong_m: BTreeSet::new() };
                if !h.view.hazy {
                    self.check_walk(&h);
                } else {
                    self.stat("hazy views");
                }
                Some(h)
            }
        }
    }

    /// A listing failed: is it with the error of the storage?
    fn listing_kind(&mut self, kind: std::io::ErrorKind, io: &Io, what: &str) {
        let codes: Vec<i32> = io.faults.iter().filter_map(|f| match f.k { Fk::List(e) | Fk::ListMid(_, e) | Fk::Stat(e) => Some(e), _ => None }).collect();
        self.stat("error kinds checked");
        if !codes.iter().any(|c| kind_of(*c) == kind) {
            self.bad(&["kind"], format!("{} failed as {:?} where the storage gave {:?}", what, kind, codes.iter().map(|c| kind_of(*c)).collect::<Vec<_>>()));
        }
    }

    /// A read failed: does the kind of the error (none if it is not an error of the storage's) say
    /// what the storage said?
    fn kind(&mut self, what: &str, kind: Option<std::io::ErrorKind>, opens: &[OpenRec], absent: bool) {
        let good = |r: &OpenRec| match &r.file {
            Some(f) => {
                let gpg = match &f.truth {
                    Truth::Sig(t) => t.gpg,
                    Truth::Man(t) => t.gpg,
                    _ => true,
                };
                !gpg && !f.dir && f.state() == State::Intact && r.eof_at.is_none() && !r.flipped
            }
            None => false,
        };
        let bad: Vec<&OpenRec> = opens.iter().filter(|r| !r.errs.is_empty() || !good(r)).collect();
        if bad.len() == 1 && !absent && !bad[0].errs.is_empty() {
            let r = bad[0];
            if !(r.refused || good(r)) {
                return;
            }
            // nothing but the storage can be the cause
            self.stat("error kinds checked");
            if !r.errs.iter().any(|e| Some(kind_of(*e)) == kind) {
                let m = format!("{} failed as {:?} where the storage gave {:?} for {}", what, kind, r.errs.iter().map(|e| kind_of(*e)).collect::<Vec<_>>(), show(&r.name));
                self.bad(&["kind"], m);
            }
        } else if bad.iter().all(|r| r.errs.is_empty()) {
            if absent && bad.is_empty() {
                self.stat("error kinds checked");
                if kind != Some(std::io::ErrorKind::NotFound) {
                    self.bad(&["kind"], format!("{} failed as {:?} although what is wrong is that a file is missing", what, kind));
                }
            } else if !absent {
                self.stat("error kinds checked");
                if matches!(kind, Some(std::io::ErrorKind::NotFound) | Some(std::io::ErrorKind::PermissionDenied)) {
                    self.bad(&["kind"], format!("{} failed as {:?} although the storage refused nothing", what, kind));
                }
            }
        }
    }

    /// One timestamp, by itself and in the names of otherwise empty storages.
    fn stamp(&mut self, t: &str) {
        let low = t.to_ascii_lowercase();
        let means = stamp_means(&low);
        self.stat("timestamps read");
        let zone = ZONES[self.zone].tz;
        if let Ok(got) = self.call(&Io::default(), "reading a timestamp", || ruplicity::timefmt::parse_time_str(&low)) {
            let want = match means {
                St::At(t) => Some(Some((t, 0))),
                St::No => Some(None),
                St::Odd => None,
            };
            let got = got.map(|t| (t.sec, t.nsec));
            if let Some(w) = want {
                if got != w {
                    self.bad(&["stamp"], format!("timestamp {:?} read as {:?} instead of {:?} (zone {}, clock {})", low, got, w, zone, self.clock));
                }
            }
        }
        if t.contains('.') {
            return;
        }
        const REF: &str = "20150617T182545Z";
        let forms: [fn(&str) -> String; 6] = [
            |t| format!("duplicity-full.{}.manifest", t),
            |t| format!("duplicity-full.{}.vol1.difftar.gz", t),
            |t| format!("duplicity-full-signatures.{}.sigtar.gz", t),
            |t| format!("duplicity-inc.20150617T182545Z.to.{}.manifest", t),
            |t| format!("duplicity-inc.20150617T182545Z.to.{}.vol3.difftar.gpg", t),
            |t| format!("duplicity-new-signatures.20150617T182545Z.to.{}.sigtar", t),
        ];
        let pick = low.bytes().fold(0usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize));
        for i in [pick % 3, 3 + pick / 3 % 3] {
            let form = forms[i];
            let times = |ex: &mut Self, t: &str| {
                let mut names = vec![form(t)];
                if i >= 3 {
                    names.push(format!("duplicity-full.{}.manifest", REF));
                    names.push(format!("duplicity-full-signatures.{}.sigtar.gz", REF));
                }
                ex.call(&Io::default(), "opening names", move || {
                    let c = ruplicity::collections::Collections::from_filenames(&names);
                    match i {
                        0 | 1 => c.backup_chains().next().map(|c| ts(c.full_set().end_time())),
                        2 => c.signature_chains().next().map(|c| ts(c.full_signature().time)),
                        3 | 4 => c.backup_chains().next().and_then(|c| c.inc_sets().next()).map(|s| ts(s.end_time())),
                        _ => c.signature_chains().next().and_then(|c| c.inc_signatures().next()).map(|s| s.time.sec),
                    }
                })
                .unwrap_or(None)
            };
            let got = times(self, t);
            let msg = match (got, means) {
                (Some(g), St::At(w)) if g != w => Some(format!("has the time {} instead of {}", g, w)),
                (Some(g), St::No) => Some(format!("is taken for a backup file of {}", g)),
                // (other reasons not to take the name are other properties')
                (None, St::At(w)) if i < 3 && times(self, REF).is_some() => Some(format!("is not taken for a backup file of {}", w)),
                _ => None,
            };
            if let Some(m) = msg {
                self.bad(&["stamp"], format!("the name {:?} {} (zone {}, clock {})", form(t), m, zone, self.clock));
            }
        }
    }

    fn check_walk(&mut self, h: &Handle) {
        let mut want: Vec<&MSet> = vec![];
        for c in &h.view.chains {
            want.extend(c.iter());
        }
        let mut msg = None;
        {
            let got: Vec<Snapshot> = h.b.iter().collect();
            if got.len() != want.len() {
                msg = Some(format!("{} snapshots reported, {} stored: got {:?}, want {:?}", got.len(), want.len(), h.keys, want.iter().map(|s| s.key()).collect::<Vec<_>>()));
            } else {
                for (g, w) in got.iter().zip(&want) {
                    let s = g.as_backup_set();
                    let mut d: Vec<String> = vec![];
                    let mut c = |n: &str, a: String, b: String| {
                        if a != b {
                            d.push(format!("{} is {} instead of {}", n, a, b));
                        }
                    };
                    c("time", ts(g.time()).to_string(), w.end.to_string());
                    c("is_full", g.is_full().to_string(), w.full.to_string());
                    c("is_incremental", g.is_incremental().to_string(), (!w.full).to_string());
                    c("set.is_full", s.is_full().to_string(), w.full.to_string());
                    c("set.is_incremental", s.is_incremental().to_string(), (!w.full).to_string());
                    c("start", ts(s.start_time()).to_string(), w.start.to_string());
                    c("end", ts(s.end_time()).to_string(), w.end.to_string());
                    c("num_volumes", g.num_volumes().to_string(), w.vols.len().to_string());
                    c("set.num_volumes", s.num_volumes().to_string(), w.vols.len().to_string());
                    c("manifest", s.manifest_path().to_string(), w.manifest.clone().unwrap_or_default());
                    c("complete", s.is_complete().to_string(), w.manifest.is_some().to_string());
                    c("compressed", s.is_compressed().to_string(), w.gz.to_string());
                    c("encrypted", s.is_encrypted().to_string(), w.gpg.to_string());
                    c("partial", s.is_partial().to_string(), w.part.to_string());
                    let top = w.vols.keys().last().cloned().unwrap_or(0);
                    let mut probe: BTreeSet<usize> = (0..(top.min(300) + 3)).collect();
                    probe.extend(w.vols.keys());
                    probe.insert(usize::MAX);
                    for n in probe {
                        c(&format!("volume {}", n), format!("{:?}", s.volume_path(n)), format!("{:?}", w.vols.get(&n).map(|x| x.as_str())));
                    }
                    if !d.is_empty() {
                        msg = Some(format!("snapshot {:?}: {}", w.key(), d.join("; ")));
                        break;
                    }
                }
            }
            if msg.is_none() {
                let ch: Vec<_> = h.b.collections().backup_chains().collect();
                if ch.len() != h.view.chains.len() {
                    msg = Some(format!("{} chains instead of {}", ch.len(), h.view.chains.len()));
                } else {
                    for (a, b) in ch.iter().zip(&h.view.chains) {
                        let times: Vec<i64> = std::iter::once(ts(a.full_set().end_time())).chain(a.inc_sets().map(|s| ts(s.end_time()))).collect();
                        let want: Vec<i64> = b.iter().map(|s| s.end).collect();
                        if times != want || ts(a.start_time()) != b[0].end || ts(a.end_time()) != b.last().unwrap().end {
                            msg = Some(format!("chain {:?} ({}..{}) instead of {:?}", times, ts(a.start_time()), ts(a.end_time()), want));
                        }
                    }
                }
                let files = |s: &ruplicity::collections::SignatureChain| -> Vec<(i64, String, bool, bool)> { std::iter::once(s.full_signature()).chain(s.inc_signatures()).map(|f| (ts(f.time), f.file_name.clone(), f.compressed, f.encrypted)).collect() };
                let got: Vec<_> = h.b.collections().signature_chains().map(|s| (ts(s.start_time()), ts(s.end_time()), files(s))).collect();
                let want: Vec<_> = h.view.sigchains.iter().map(|c| {
                    let f: Vec<_> = c.iter().map(|(t, n)| match crate::model::parse_name(n.as_bytes()) {
                        crate::model::P::Clear(i) => (*t, n.clone(), i.gz, i.gpg),
                        _ => unreachable!(),
                    }).collect();
                    (c[0].0, c.last().unwrap().0, f)
                }).collect();
                if msg.is_none() && got != want {
                    let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
                    msg = Some(format!("signature chain {} is {:?} instead of {:?}", i, got.get(i), want.get(i)));
                }
                let n: usize = h.view.chains.iter().map(|c| c.len()).sum();
                if h.b.collections().num_snapshots() != n {
                    msg = Some(format!("num_snapshots {} instead of {}", h.b.collections().num_snapshots(), n));
                }
            }
        }
        // whatever the chains are, every time is one that the writer put into a name
        let known = &h.view.times;
        let odd = h.b.iter().map(|s| ts(s.as_backup_set().start_time())).chain(h.b.iter().map(|s| ts(s.time()))).find(|t| !known.contains(t));
        if let Some(t) = odd {
            self.bad(&["stamp"], format!("a snapshot has the time {}, which no name has: {:?}", t, known));
        }
        if let Some(m) = msg {
            // a snapshot seen before has vanished although its files are still there
            let mut cl = vec!["walk"];
            if want.iter().any(|s| self.hist.contains_key(&(h.store, s.key())) && !h.keys.contains(&s.key())) {
                cl.push("history");
            }
            self.bad(&cl, m);
        }
    }

    fn status(&self, r: &OpenRec) -> Hs {
        let f = match &r.file {
            None => return Hs::Never,
            Some(f) => f,
        };
        let t = match &f.truth {
            Truth::Sig(t) => t,
            _ => return Hs::Tainted,
        };
        if t.gpg {
            return Hs::Never;
        }
        if f.dir {
            return Hs::Bad;
        }
        let st = f.state();
        if r.flipped && !t.gz {
            return Hs::Tainted;
        }
        if st == State::Altered {
            if t.gz {
                // only damage that checksums cover: still the same archive inside, or an error
                return if self.tainted_gz(f, t) { Hs::Tainted } else { Hs::Bad };
            }
            return Hs::Tainted;
        }
        if r.hard {
            return Hs::Bad;
        }
        let cut = match (st, r.eof_at) {
            (State::Cut(n), None) => Some(n),
            (State::Cut(n), Some(m)) => Some(n.min(m)),
            (_, Some(m)) => Some(m),
            _ => None,
        };
        match cut {
            Some(n) if !t.gz => Hs::Cut(n),
            Some(_) => Hs::Bad,
            None if r.flipped || r.eintr => Hs::Bad,
            None => Hs::Good,
        }
    }

    fn tainted_gz(&self, f: &SFile, t: &SigTruth) -> bool {
        // a well-formed gzip file with other contents cannot be told from a good one
        match crate::enc::gunzip(&f.data) {
            Some(d) => d != *t.tar,
            None => false,
        }
    }

    /// The result a fault-free reader of the undamaged storage would get.
    fn reference(&mut self, key: Key) -> Option<Vec<Row>> {
        let (keep, io, opens, nopen_state) = env::with(|e| {
            let keep = e.world.files.clone();
            for f in e.world.files.values_mut() {
                f.data = f.full.clone();
            }
            (keep, e.io.clone(), e.opens.clone(), (e.list_fault, e.listed.clone(), e.hung, e.bytes))
        });
        env::with(|e| e.start_op(&Io::default()));
        let r = catch_unwind(AssertUnwindSafe(|| {
            let b = Backup::new(SimBackend).ok()?;
            let x = b.snapshots().ok()?.into_iter().find(|s| (s.is_full(), ts(s.as_backup_set().start_time()), ts(s.as_backup_set().end_time())) == key).and_then(|s| s.entries().ok().map(|e| rows_of(&e)));
            x
        }));
        env::with(|e| {
            e.world.files = keep;
            e.io = io;
            e.opens = opens;
            e.list_fault = nopen_state.0;
            e.listed = nopen_state.1;
            e.hung = nopen_state.2;
            e.bytes = nopen_state.3;
        });
        r.ok().flatten()
    }

    fn do_entries(&mut self, hid: u8, snap: u16, hold: Option<u8>, io: &Io, audit: bool) -> Option<Vec<Row>> {
        let mut h = self.handles.remove(&hid)?;
        let r = self.entries_on(&mut h, snap, hold, io, audit);
        self.handles.insert(hid, h);
        r
    }

    fn entries_on(&mut self, h: &mut Handle, snap: u16, hold: Option<u8>, io: &Io, _audit: bool) -> Option<Vec<Row>> {
        if h.keys.is_empty() {
            return None;
        }
        let idx = snap as usize % h.keys.len();
        let b = h.b;
        let held_now = self.slots.values().filter(|s| matches!(s, Held::Entries { .. } | Held::Man { .. } | Held::Iter { .. })).count();
        let r = self.call(io, "entries()", || {
            let s = b.nth(idx).expect("a snapshot that was there has gone");
            s.entries().map(|e| {
                let rows = rows_of(&e);
                // entries do not depend on the snapshot value they came from, only on the backup
                let e: SnapshotEntries<'static> = unsafe { std::mem::transmute(e) };
                (rows, e)
            })
        });
        let r = match r {
            Ok(r) => r,
            Err(()) => return None,
        };
        let opens: Vec<OpenRec> = env::with(|e| e.opens.clone());
        let key = h.keys[idx];
        self.note(&format!(
            "entries {:?} -> {} opens {:?}",
            key,
            match &r {
                Ok((rows, _)) => format!("{} rows {:x}", rows.len(), hash_rows(rows)),
                Err(e) => format!("error {:?}", e.kind()),
            },
            opens.iter().map(|o| show(&o.name)).collect::<Vec<_>>()
        ));
        let ok = r.is_ok();
        self.stat(if ok { "entries read" } else { "entries refused" });
        // has an earlier attempt met a fault?
        let trouble = h.failed || h.seen.values().flatten().any(|r| r.hard || r.flipped || r.eof_at.is_some());
        let ctx = |classes: &mut Vec<&'static str>, _h: &Handle| {
            if trouble {
                classes.push("retry");
            }
            if held_now > 0 {
                classes.push("held");
            }
        };

        // what was opened
        let prior = h.done_e.get(&idx).cloned();
        if prior.is_some() && !opens.is_empty() {
            self.bad(&["opens"], format!("entries of {:?} were read again from {:?}", key, show(&opens[0].name)));
        }
        let mut seen = BTreeSet::new();
        for o in &opens {
            if !seen.insert(o.name.clone()) {
                self.bad(&["opens"], format!("{} opened twice for one result", show(&o.name)));
                break;
            }
        }
        let pos = h.at[idx];
        if !h.view.hazy {
            if let Some((ci, _)) = pos {
                let own = &h.view.sigs[ci];
                if let Some(o) = opens.iter().find(|o| !std::str::from_utf8(&o.name).map_or(false, |n| own.contains(n))) {
                    self.bad(&["opens"], format!("entries of {:?} opened {}, which is not a signature of its chain", key, show(&o.name)));
                }
                if h.clean.contains(&ci) && !opens.is_empty() && prior.is_none() {
                    self.bad(&["opens"], format!("{} opened again after the chain had been read", show(&opens[0].name)));
                } else if let Some(o) = opens.iter().find(|o| h.settled.contains(&o.name)) {
                    self.bad(&["opens"], format!("{} opened again although it had been read for an earlier result", show(&o.name)));
                }
            }
        }

        // stability
        if let Some(p) = &prior {
            match &r {
                Err(e) => {
                    self.bad(&["changed"], format!("entries of {:?}, read before, now fail: {}", key, e));
                }
                Ok((rows, _)) => {
                    let names = h.named.contains(&idx);
                    if strip(rows, names) != strip(p, names) {
                        self.bad(&["changed"], format!("entries of {:?} changed since they were first read", key));
                    }
                }
            }
        }

        // correctness
        if !h.view.hazy && !self.stop {
            if let Some((ci, k)) = pos {
                let chain = h.view.chains[ci].clone();
                // what is known about each signature file: how it fared each time it was opened
                let mut cands: Vec<Option<Vec<OpenRec>>> = vec![];
                let mut sts: Vec<Option<Hs>> = vec![];
                for s in &chain {
                    let n = match &s.sig {
                        None => {
                            cands.push(None);
                            sts.push(None);
                            continue;
                        }
                        Some(n) => n.as_bytes(),
                    };
                    let now = opens.iter().find(|o| o.name == n);
                    let before = h.seen.get(n).cloned().unwrap_or_default();
                    // not reached: what would have been found?
                    let would = || {
                        let f = env::with(|e| e.world.files.get(n).cloned());
                        OpenRec { name: n.to_vec(), file: f, hard: false, eof_at: None, flipped: false, eintr: false, read: 0, errs: vec![], refused: false }
                    };
                    let good = before.iter().find(|r| matches!(self.status(r), Hs::Good));
                    let st = match (now, good) {
                        (Some(r), _) => self.status(r),
                        (None, Some(_)) => Hs::Good,
                        (None, None) if ok && !before.is_empty() => self.status(before.last().unwrap()),
                        (None, None) => self.status(&would()),
                    };
                    sts.push(Some(st));
                    let mut all = before;
                    all.extend(now.cloned());
                    if all.is_empty() {
                        all.push(would());
                    }
                    cands.push(Some(all));
                }
                for o in &opens {
                    h.seen.entry(o.name.clone()).or_default().push(o.clone());
                }
                // a result may rest on any of the times a file was opened
                let any = |i: usize, f: &dyn Fn(&Hs) -> bool| cands[i].as_ref().map_or(false, |c| c.iter().any(|r| f(&self.status(r))));
                let all = |i: usize, f: &dyn Fn(&Hs) -> bool| cands[i].as_ref().map_or(true, |c| c.iter().all(|r| f(&self.status(r))));
                let need = &sts[..=k];
                let (never, badn, cut, taint) = if ok {
                    (
                        (0..=k).any(|i| all(i, &|s| matches!(s, Hs::Never))),
                        (0..=k).any(|i| all(i, &|s| matches!(s, Hs::Bad | Hs::Never))),
                        (0..=k).any(|i| any(i, &|s| matches!(s, Hs::Cut(_)))),
                        (0..=k).any(|i| any(i, &|s| matches!(s, Hs::Tainted))),
                    )
                } else {
                    (
                        need.iter().any(|s| matches!(s, None | Some(Hs::Never))),
                        need.iter().any(|s| matches!(s, Some(Hs::Bad))),
                        need.iter().any(|s| matches!(s, Some(Hs::Cut(_)))),
                        need.iter().any(|s| matches!(s, Some(Hs::Tainted))),
                    )
                };
                let later = sts[k + 1..].iter().any(|s| !matches!(s, Some(Hs::Good)));
                let names_ok = !(0..chain.len()).any(|i| any(i, &|s| matches!(s, Hs::Tainted)));
                if let Err(e) = &r {
                    let absent = chain[..=k].iter().any(|s| s.sig.is_none());
                    self.kind("entries()", Some(e.kind()), &opens, absent);
                }
                match &r {
                    Err(e) => {
                        if !(never || badn || cut || taint) {
                            let mut c = vec!["spurious"];
                            ctx(&mut c, h);
                            if later {
                                c.push("avail");
                            }
                            if self.hist.contains_key(&(h.store, key)) {
                                c.push("history");
                            }
                            self.bad(&c, format!("entries of {:?} fail although all its signatures are intact and were readable: {}", key, e));
                        } else if never {
                            self.stat("entries rightly refused: signature missing or encrypted");
                        } else {
                            self.stat("entries rightly refused: fault or damage");
                        }
                    }
                    Ok((rows, _)) => {
                        if never {
                            self.bad(&["misattr"], format!("entries of {:?} given ({} rows) although a signature it needs is missing or encrypted", key, rows.len()));
                        } else if taint {
                            self.stat("entries of undetectably altered signatures");
                        } else {
                            // per file: the archives it may have held and how many entries were seen
                            let mut opts: Vec<Vec<(Rc<SigTruth>, usize)>> = vec![];
                            for (i, c) in cands.iter().enumerate() {
                                let mut o: Vec<(Rc<SigTruth>, usize)> = vec![];
                                for r in c.iter().flatten() {
                                    let t = match r.file.as_ref().map(|f| &f.truth) {
                                        Some(Truth::Sig(t)) => t.clone(),
                                        _ => continue,
                                    };
                                    let range = match self.status(r) {
                                        Hs::Cut(n) if i <= k => {
                                            let lo = t.bounds.iter().filter(|b| b.end <= n).count();
                                            let hi = t.bounds.iter().filter(|b| b.data_end <= n).count();
                                            lo..=hi
                                        }
                                        _ => t.ents.len()..=t.ents.len(),
                                    };
                                    for n in range {
                                        if !o.iter().any(|(x, m)| Rc::ptr_eq(x, &t) && *m == n) {
                                            o.push((t.clone(), n));
                                        }
                                    }
                                }
                                if o.is_empty() {
                                    break;
                                }
                                opts.push(o);
                            }
                            // names may also come from increments that were tried again later
                            let extra: Vec<Rc<SigTruth>> = h.view.sigs[ci]
                                .iter()
                                .flat_map(|n| h.seen.get(n.as_bytes()).into_iter().flatten())
                                .filter_map(|r| match r.file.as_ref().map(|f| &f.truth) {
                                    Some(Truth::Sig(t)) => Some(t.clone()),
                                    _ => None,
                                })
                                .collect();
                            let mut diff;
                            let mut best: Option<Expect>;
                            let mut idxs = vec![0usize; opts.len()];
                            loop {
                                let pick: Vec<(Rc<SigTruth>, usize)> = opts.iter().zip(&idxs).map(|(o, i)| o[*i].clone()).collect();
                                let truths: Vec<Rc<SigTruth>> = pick.iter().map(|p| p.0.clone()).collect();
                                let counts: Vec<usize> = pick.iter().map(|p| p.1).collect();
                                let mut ex = Expect::build(&truths, &counts, k + 1);
                                ex.names_from(&extra);
                                diff = ex.diff(rows, names_ok);
                                best = Some(ex);
                                if diff.is_none() {
                                    break;
                                }
                                let mut j = 0;
                                while j < idxs.len() {
                                    idxs[j] += 1;
                                    if idxs[j] < opts[j].len() {
                                        break;
                                    }
                                    idxs[j] = 0;
                                    j += 1;
                                }
                                if j == idxs.len() {
                                    break;
                                }
                            }
                            if let Some(d) = diff {
                                let mut c: Vec<&'static str> = vec![];
                                let rf = if self.stop { None } else { self.reference(key) };
                                let same = rf.as_ref().map_or(false, |x| strip(x, false) == strip(rows, false));
                                if cut || badn {
                                    if !same {
                                        c.push("faulted");
                                        if trouble {
                                            c.push("retry");
                                        }
                                    } else {
                                        c.push("entries");
                                    }
                                } else {
                                    c.push("entries");
                                    if !same {
                                        ctx(&mut c, h);
                                        if self.hist.contains_key(&(h.store, key)) {
                                            c.push("history");
                                        }
                                        if opens.iter().any(|o| o.eintr || o.hard || o.flipped || o.eof_at.is_some()) {
                                            c.push("faulted");
                                        }
                                    }
                                }
                                let ex = best.unwrap();
                                if !ex.paths_equal(rows) && !cut && !badn {
                                    c.push("misattr");
                                } else if self.is_other(h, ci, k, rows) {
                                    c.push("misattr");
                                }
                                self.bad(&c, format!("wrong entries of {:?}: {}", key, d));
                            } else if cut {
                                self.stat("leading part of a cut signature");
                            } else if opens.iter().any(|o| o.hard || o.eintr) {
                                self.stat("entries right in spite of faults");
                            }
                        }
                        for (s, st) in chain[..=k].iter().zip(&sts) {
                            if let (Some(n), Some(Hs::Good)) = (&s.sig, st) {
                                h.settled.insert(n.clone().into_bytes());
                            }
                        }
                        let whole = h.view.sigs[ci].iter().all(|n| h.seen.get(n.as_bytes()).map_or(false, |v| matches!(self.status(v.last().unwrap()), Hs::Good)));
                        if whole && chain.iter().all(|s| s.sig.is_some()) {
                            h.clean.insert(ci);
                            if prior.is_none() {
                                h.named.insert(idx);
                            }
                        }
                    }
                }
            }
        }
        if !ok {
            h.failed = true;
        }
        match r {
            Ok((rows, e)) => {
                h.done_e.entry(idx).or_insert_with(|| rows.clone());
                if let Some(s) = hold {
                    let e: &'static SnapshotEntries<'static> = Box::leak(Box::new(e));
                    self.put_slot(s, Held::Entries { e, rows: rows.clone(), it: None });
                    self.stat("results held");
                }
                Some(rows)
            }
            Err(_) => None,
        }
    }

    /// Is this the listing of another snapshot?
    fn is_other(&self, h: &Handle, ci: usize, k: usize, rows: &[Row]) -> bool {
        for (cj, c) in h.view.chains.iter().enumerate() {
            let mut truths = vec![];
            for (j, s) in c.iter().enumerate() {
                let f = s.sig.as_ref().and_then(|n| env::with(|e| e.world.files.get(n.as_bytes()).cloned()));
                match f.map(|f| f.truth) {
                    Some(Truth::Sig(t)) => truths.push(t),
                    _ => break,
                }
                if (cj, j) != (ci, k) && !rows.is_empty() {
                    let counts: Vec<usize> = truths.iter().map(|t: &Rc<SigTruth>| t.ents.len()).collect();
                    if Expect::build(&truths, &counts, j + 1).diff(rows, false).is_none() {
                        return true;
                    }
                }
            }
        }
        false
    }

    fn do_manifest(&mut self, hid: u8, snap: u16, hold: Option<u8>, io: &Io) -> Option<ManRow> {
        let mut h = self.handles.remove(&hid)?;
        let r = self.manifest_on(&mut h, snap, hold, io);
        self.handles.insert(hid, h);
        r
    }

    fn manifest_on(&mut self, h: &mut Handle, snap: u16, hold: Option<u8>, io: &Io) -> Option<ManRow> {
        if h.keys.is_empty() {
            return None;
        }
        let idx = snap as usize % h.keys.len();
        let b = h.b;
        let key = h.keys[idx];
        let held_now = self.slots.values().filter(|s| matches!(s, Held::Entries { .. } | Held::Man { .. } | Held::Iter { .. })).count();
        let r = self.call(io, "manifest()", || {
            let s = b.nth(idx).expect("a snapshot that was there has gone");
            s.manifest().map(|m| (man_of(&m), m)).map_err(|e| {
                let kind = if let ruplicity::manifest::ParseError::Io(e) = &e { Some(e.kind()) } else { None };
                (format!("{} {:?}", e, e), kind)
            })
        });
        let (r, kind) = match r {
            Ok(Err((e, k))) => (Ok(Err(e)), k),
            Ok(Ok(x)) => (Ok(Ok(x)), None),
            Err(()) => (Err(()), None),
        };
        let r = match r {
            Ok(r) => r,
            Err(()) => return None,
        };
        let opens: Vec<OpenRec> = env::with(|e| e.opens.clone());
        self.note(&format!("manifest {:?} -> {:?} opens {}", key, r.as_ref().map(|x| &x.0), opens.len()));
        let ok = r.is_ok();
        self.stat(if ok { "manifests read" } else { "manifests refused" });
        let prior = h.done_m.get(&idx).cloned();
        if prior.is_some() && !opens.is_empty() {
            self.bad(&["opens"], format!("the manifest of {:?} was read again", key));
        }
        if opens.len() > 1 {
            self.bad(&["opens"], format!("{} files opened for one manifest", opens.len()));
        }
        if let Some(p) = &prior {
            match &r {
                Err(e) => self.bad(&["changed"], format!("the manifest of {:?}, read before, now fails: {}", key, e)),
                Ok((m, _)) => {
                    if m != p {
                        self.bad(&["changed"], format!("the manifest of {:?} changed since it was first read", key));
                    }
                    if h.wrong_m.contains(&idx) {
                        self.bad(&["retry"], format!("the wrong manifest of {:?} that a failed read gave is remembered", key));
                    }
                }
            }
        }
        let set = h.at[idx].map(|(c, k)| h.view.chains[c][k].clone());
        if !h.view.hazy && !self.stop && prior.is_none() {
            if let Some(set) = set {
                let name = set.manifest.clone().unwrap_or_default();
                if let Some(o) = opens.iter().find(|o| o.name != name.as_bytes() && !(name.is_empty() && o.name.is_empty())) {
                    self.bad(&["opens"], format!("the manifest of {:?} was read from {}", key, show(&o.name)));
                }
                let rec = opens.first().cloned();
                if r.is_err() {
                    self.kind("manifest()", kind, &opens, name.is_empty());
                }
                let truth = rec.as_ref().and_then(|r| r.file.clone()).and_then(|f| match f.truth.clone() {
                    Truth::Man(t) => Some((t, f)),
                    _ => None,
                });
                let mut ctx: Vec<&'static str> = vec![];
                if h.failed {
                    ctx.push("retry");
                }
                if held_now > 0 {
                    ctx.push("held");
                }
                if self.hist.get(&(h.store, key)).map_or(false, |x| x.2.is_some()) {
                    ctx.push("history");
                }
                match (&r, truth) {
                    (Ok((m, _)), None) => {
                        if rec.as_ref().map_or(true, |r| r.file.is_none()) {
                            self.bad(&["man-faulted", "manifest"], format!("a manifest of {:?} was given ({} volumes) although there is none", key, m.vols.len()));
                        }
                    }
                    (Err(_), None) => self.stat("manifests rightly refused: none stored"),
                    (_, Some((t, f))) => {
                        let rec = rec.unwrap();
                        let st = f.state();
                        let cut = match (st, rec.eof_at) {
                            (State::Cut(n), Some(m)) => Some(n.min(m)),
                            (State::Cut(n), None) => Some(n),
                            (_, m) => m,
                        };
                        let text = if st == State::Altered && !rec.flipped && rec.eof_at.is_none() { f.text() } else { Text::Odd };
                        let tainted = st == State::Altered && text != Text::Crlf || rec.flipped;
                        match &r {
                            Err(e) => {
                                if !(rec.hard || cut.is_some() || tainted || t.gpg) {
                                    let mut c = vec![if rec.eintr { "man-eintr" } else { "man-spurious" }];
                                    c.extend(ctx);
                                    self.bad(&c, format!("the manifest of {:?} is intact and readable but fails: {}", key, e));
                                } else {
                                    self.stat("manifests rightly refused: fault or damage");
                                }
                            }
                            Ok((m, _)) => {
                                if t.gpg {
                                    self.bad(&["man-faulted"], format!("an encrypted manifest of {:?} was read as {:?}", key, m));
                                } else if text == Text::Broken {
                                    h.wrong_m.insert(idx);
                                    self.bad(&["man-faulted"], format!("the manifest of {:?}, of which whole lines are missing, doubled or misplaced, was read as {:?}", key, m));
                                } else if tainted {
                                    self.stat("manifests altered undetectably");
                                } else if let Some(n) = cut {
                                    let max = t.ends.iter().filter(|e| **e <= n).count();
                                    let want = man_truth(&t, m.vols.len().min(max));
                                    if *m != want || n < t.head {
                                        h.wrong_m.insert(idx);
                                        self.bad(&["man-faulted"], format!("manifest of {:?} cut at byte {} read as {:?}, a leading part would be {:?}", key, n, m, want));
                                    } else {
                                        self.stat("leading part of a cut manifest");
                                    }
                                } else {
                                    let want = man_truth(&t, t.vols.len());
                                    if *m != want {
                                        let mut c = vec!["manifest"];
                                        h.wrong_m.insert(idx);
                                        if rec.hard {
                                            c.push("man-faulted");
                                        }
                                        if rec.eintr {
                                            c.push("man-eintr");
                                        }
                                        c.extend(ctx);
                                        self.bad(&c, format!("manifest of {:?} read as {:?} instead of {:?}", key, m, want));
                                    }
                                }
                            }
                        }
                        if let (Ok((_, m)), false, None, false) = (&r, tainted, cut, t.gpg) {
                            if !self.stop {
                                let m: &Manifest = m;
                                let q = self.queries(&t);
                                let res = self.call(&Io::default(), "volume lookup", || q.iter().map(|(p, _, _)| (m.first_volume_of_path(p), m.last_volume_of_path(p))).collect::<Vec<_>>());
                                if let Ok(res) = res {
                                    for ((p, a, b), (x, y)) in q.iter().zip(res) {
                                        if x != *a || y != *b {
                                            self.bad(&["lookup"], format!("{} is in volumes {:?}..{:?} of {:?} but reported in {:?}..{:?}; volumes: {}", show(p), a, b, key, x, y, t.vols.iter().map(|v| format!("[{} {:?} .. {} {:?}]", show(&join(&v.start)), v.start_block, show(&join(&v.end)), v.end_block)).collect::<Vec<_>>().join(" ")));
                                            break;
                                        }
                                    }
                                    self.stat("manifest lookups checked");
                                }
                            }
                        }
                    }
                }
            }
        }
        if !ok {
            h.failed = true;
        }
        match r {
            Ok((row, m)) => {
                h.done_m.entry(idx).or_insert_with(|| row.clone());
                if let Some(s) = hold {
                    self.put_slot(s, Held::Man { m, row: row.clone() });
                    self.stat("results held");
                }
                Some(row)
            }
            Err(_) => None,
        }
    }

    fn queries(&self, t: &ManTruth) -> Vec<(Vec<u8>, Option<usize>, Option<usize>)> {
        // the cost is questions times volumes: of very many, an evenly spread part is asked
        let afford = (300_000 / t.vols.len().max(1)).max(40);
        let stride = t.where_.len() / afford + 1;
        let first = t.vols.len() % stride;
        let mut q = vec![];
        for (i, (p, a, b)) in t.where_.iter().enumerate() {
            if i % stride != first && i + 1 != t.where_.len() {
                continue;
            }
            q.push((join(p), Some(*a), Some(*b)));
            if p.is_empty() {
                q.push((b".".to_vec(), Some(*a), Some(*b)));
            }
        }
        let outside = |p: &Path| !t.vols.iter().any(|v| v.start <= *p && *p <= v.end);
        let mut cand: Vec<Path> = vec![vec![]];
        let stride = t.vols.len() * 10 / afford + 1;
        let first = t.vols.len() % stride;
        for v in t.vols.iter().skip(first).step_by(stride) {
            for p in [&v.start, &v.end] {
                if p.is_empty() {
                    continue;
                }
                let mut a = p.clone();
                a.last_mut().unwrap().push(0x01);
                cand.push(a);
                let mut a = p.clone();
                a.last_mut().unwrap().push(0x7e);
                cand.push(a);
                let mut a = p.clone();
                a.push(b"zz".to_vec());
                cand.push(a);
                let mut a = p.clone();
                a.pop();
                cand.push(a);
                let mut a = p.clone();
                a.last_mut().unwrap().pop();
                if !a.last().unwrap().is_empty() {
                    cand.push(a);
                }
            }
        }
        for p in cand {
            // "." and ".." are never components of a stored path, and "." means the root
            if outside(&p) && !p.iter().any(|c| c == b"." || c == b"..") {
                q.push((join(&p), None, None));
                if p.is_empty() {
                    q.push((b".".to_vec(), None, None));
                }
            }
        }
        q
    }

    /// A signature chain loaded directly, without a backup around it.
    fn sig_chain(&mut self, hid: u8, chain: u16, moves: &[Move], io: &Io) {
        let (b, hazy) = match self.handles.get(&hid) {
            Some(h) => (h.b, h.view.hazy),
            None => return,
        };
        let n = b.collections().signature_chains().count();
        if n == 0 {
            return;
        }
        let sc = b.collections().signature_chains().nth(chain as usize % n).unwrap();
        let files: Vec<Vec<u8>> = std::iter::once(sc.full_signature()).chain(sc.inc_signatures()).map(|f| f.file_name.as_bytes().to_vec()).collect();
        let scratch = self.dir();
        let r = self.call(io, "Chain::from_sigchain", || match &scratch {
            Some(s) => Chain::from_sigchain(sc, &LocalBackend::new(s)),
            None => Chain::from_sigchain(sc, &SimBackend),
        });
        let r = match r {
            Ok(r) => r,
            Err(()) => return,
        };
        let opens: Vec<OpenRec> = env::with(|e| e.opens.clone());
        self.note(&format!("chain of {} -> {} opens {}", files.len(), r.as_ref().map(|c| c.snapshots().count()).map_err(|e| e.kind()).map_or_else(|e| format!("{:?}", e), |n| n.to_string()), opens.len()));
        if let Some(o) = opens.iter().find(|o| !files.contains(&o.name)) {
            self.bad(&["opens"], format!("loading a signature chain opened {}, which is not one of its files", show(&o.name)));
        }
        let c = match r {
            Err(e) => {
                self.stat("signature chains refused");
                self.kind("Chain::from_sigchain", Some(e.kind()), &opens, false);
                let cause = files.iter().any(|f| {
                    let now = opens.iter().find(|o| o.name == *f).cloned().unwrap_or_else(|| OpenRec { name: f.clone(), file: env::with(|e| e.world.files.get(f).cloned()), hard: false, eof_at: None, flipped: false, eintr: false, read: 0, errs: vec![], refused: false });
                    !matches!(self.status(&now), Hs::Good)
                });
                if !cause && !hazy {
                    self.bad(&["spurious"], format!("a signature chain fails to load although all its files are intact and were readable: {}", e));
                }
                return;
            }
            Ok(c) => c,
        };
        self.stat("signature chains loaded");
        let all = self.call(&Io::default(), "reading a signature chain", || c.snapshots().map(|s| s.files().map(|f| row_of(&f)).collect::<Vec<Row>>()).collect::<Vec<_>>());
        let all = match all {
            Ok(a) => a,
            Err(()) => return,
        };
        if env::with(|e| e.opens.len()) > 0 {
            self.bad(&["opens"], "a loaded signature chain opened a file".to_string());
        }
        if !hazy {
            self.chain_rows(&files, &opens, &all);
        }
        if self.stop {
            return;
        }
        // its snapshots, printed
        let k = chain as usize / 7 % all.len().max(1);
        let r = self.call(&Io::default(), "printing a snapshot of a signature chain", || {
            use std::fmt::Write;
            let sn = c.snapshots().nth(k)?;
            let (mut a, mut b) = (String::new(), String::new());
            let fine = write!(a, "{}", sn).is_ok() && write!(b, "{}", sn.files().into_display()).is_ok();
            Some((fine, a, b))
        });
        match r {
            Err(()) => return,
            Ok(None) => {}
            Ok(Some((fine, x, y))) => {
                self.stat("chain snapshots printed");
                if x != y {
                    self.bad(&["render"], format!("a snapshot is printed as {:?}, its files as {:?}", x, y));
                }
                self.check_listing(&x, fine, &all[k]);
            }
        }
        if self.stop {
            return;
        }
        // the iterators, stepped in the order the plan says
        let me = &c;
        let n = all.len();
        let r = self.call(&Io::default(), "stepping through a signature chain", || {
            let mut its = [Some(me.snapshots()), Some(me.snapshots()), Some(me.snapshots())];
            let mut pos = [0usize; 3];
            let same = |s: Option<ruplicity::signatures::Snapshot>, k: usize| -> bool {
                match s {
                    None => k >= n,
                    Some(s) => k < n && s.files().map(|f| row_of(&f)).eq(all[k].iter().cloned()),
                }
            };
            for m in moves {
                let bad = match *m {
                    Move::Start(i) => {
                        let i = i as usize % 3;
                        its[i] = Some(me.snapshots());
                        pos[i] = 0;
                        false
                    }
                    Move::Next(i) => {
                        let i = i as usize % 3;
                        let k = pos[i];
                        pos[i] = (k + 1).min(n);
                        !same(its[i].as_mut().unwrap().next(), k)
                    }
                    Move::Nth(i, by) => {
                        let i = i as usize % 3;
                        let by = if by > 100_000 { usize::MAX - (u32::MAX - by) as usize } else { by as usize };
                        let k = pos[i].saturating_add(by);
                        pos[i] = k.saturating_add(1).min(n);
                        !same(its[i].as_mut().unwrap().nth(by), k)
                    }
                    Move::Len(i) => {
                        let i = i as usize % 3;
                        let it = its[i].as_ref().unwrap();
                        let (lo, hi) = it.size_hint();
                        it.len() != n - pos[i] || lo != n - pos[i] || hi != Some(n - pos[i])
                    }
                    Move::Via(i, how) => {
                        let i = i as usize % 3;
                        let mut it = its[i].replace(me.snapshots()).unwrap();
                        let left = n - pos[i];
                        let k = std::mem::replace(&mut pos[i], 0);
                        match how % 6 {
                            0 => it.enumerate().last().map(|x| x.0 + 1).unwrap_or(0) != left,
                            1 => !same(it.skip(1).next(), k.saturating_add(1)),
                            2 => {
                                let v: Vec<_> = it.step_by(2).collect();
                                v.len() != (left + 1) / 2 || v.into_iter().enumerate().any(|(j, s)| !same(Some(s), k + 2 * j))
                            }
                            3 => it.count() != left,
                            4 => !same(it.last(), if left == 0 { n } else { n - 1 }),
                            _ => {
                                // taking some by reference leaves the rest
                                let a = it.by_ref().take(2).count();
                                a != left.min(2) || it.len() != left - a || !same(it.next(), k + a)
                            }
                        }
                    }
                };
                if bad {
                    return Some(*m);
                }
            }
            None
        });
        if let Ok(Some(m)) = r {
            self.bad(&["iter"], format!("an iterator over the {} snapshots of a signature chain is wrong at {:?} of {:?}", n, m, moves));
        }
        self.stat("chain iterators stepped");
    }

    fn iterate(&mut self, hid: u8, what: u8, at: u16, moves: &[Move]) {
        let b = match self.handles.get(&hid) {
            Some(h) => h.b,
            None => return,
        };
        let set = |s: &ruplicity::collections::BackupSet| format!("{} {} {}", s.manifest_path(), ts(s.start_time()), ts(s.end_time()));
        let sig = |s: &ruplicity::collections::SignatureFile| s.file_name.clone();
        let c = b.collections();
        let at = at as usize;
        let (name, r): (&str, Called<Result<usize, String>>) = match what % 7 {
            0 => ("the snapshots of a backup", self.call(&Io::default(), "iterating", || step_through(|| b.iter(), |_| None, |s| format!("{} {}", set(s.as_backup_set()), ts(s.time())), moves))),
            1 => ("the backup chains", self.call(&Io::default(), "iterating", || step_through(|| c.backup_chains(), |_| None, |x| set(x.full_set()), moves))),
            2 => ("the signature chains", self.call(&Io::default(), "iterating", || step_through(|| c.signature_chains(), |_| None, |x| sig(x.full_signature()), moves))),
            3 => match c.backup_chains().cycle().nth(at % 6) {
                Some(x) => ("the increments of a chain", self.call(&Io::default(), "iterating", || step_through(|| x.inc_sets(), |_| None, |s| set(s), moves))),
                None => return,
            },
            4 => match c.signature_chains().collect::<Vec<_>>().get(at % 3) {
                Some(x) => ("the incremental signatures of a chain", self.call(&Io::default(), "iterating", || step_through(|| x.inc_signatures(), |_| None, |s| sig(s), moves))),
                None => return,
            },
            5 => {
                let slot = 99;
                if self.do_entries(hid, at as u16, Some(slot), &Io::default(), false).is_none() || self.stop {
                    return;
                }
                let e = match self.slots.get(&slot) {
                    Some(Held::Entries { e, .. }) => *e,
                    _ => return,
                };
                let r = self.call(&Io::default(), "iterating", || step_through(|| e.as_signature(), |i| Some(i.clone()), |f| format!("{:?}", row_of(&f)), moves));
                self.drop_slot(slot);
                ("the entries of a snapshot", r)
            }
            _ => match self.dir() {
                Some(d) => ("the names a backend lists", self.call(&Io::default(), "iterating", || step_through(|| LocalBackend::new(&d).file_names().unwrap().into_iter(), |_| None, |n| format!("{:?}", n), moves))),
                None => return,
            },
        };
        self.stat("other iterators stepped");
        match r {
            Ok(Err(m)) => self.bad(&["iter"], format!("an iterator over {} is wrong: {}", name, m)),
            Ok(Ok(n)) => self.note(&format!("iterated over {} of {}", n, name)),
            Err(()) => {}
        }
    }

    /// Prints into an output that fails.
    fn sink(&mut self, hid: u8, what: u8, at: u16, room: &[u32], again: bool) {
        let b = match self.handles.get(&hid) {
            Some(h) => h.b,
            None => return,
        };
        let c = b.collections();
        let n = at as usize;
        let nth = |k: usize, len: usize| if len == 0 { None } else { Some(k % len) };
        let (name, x): (&str, Box<dyn std::fmt::Display>) = match what % 9 {
            0 => ("the status", Box::new(c)),
            1 => match nth(n, c.backup_chains().count()) {
                Some(k) => ("a chain", Box::new(c.backup_chains().nth(k).unwrap())),
                None => return,
            },
            2 => match nth(n, b.iter().count()) {
                Some(k) => ("a set", Box::new(c.backup_chains().flat_map(|c| Some(c.full_set()).into_iter().chain(c.inc_sets())).nth(k).unwrap())),
                None => return,
            },
            3 => match nth(n, c.signature_chains().count()) {
                Some(k) => ("a signature chain", Box::new(c.signature_chains().nth(k).unwrap())),
                None => return,
            },
            4 | 5 | 6 => {
                let slot = 98;
                if self.do_entries(hid, at, Some(slot), &Io::default(), false).is_none() || self.stop {
                    return;
                }
                let e = match self.slots.get(&slot) {
                    Some(Held::Entries { e, .. }) => *e,
                    _ => return,
                };
                let r: (&str, Box<dyn std::fmt::Display>) = match what % 9 {
                    4 => ("a listing", Box::new(e)),
                    5 => ("a listing", Box::new(e.as_signature().into_display())),
                    _ => match nth(n, e.as_signature().count()) {
                        Some(k) => ("an entry", Box::new(e.as_signature().nth(k).unwrap())),
                        None => {
                            self.drop_slot(slot);
                            return;
                        }
                    },
                };
                r
            }
            k => {
                let t = time::Timespec::new(self.clock + n as i64 * 40_000 - 1_000_000_000, 0);
                ("a time", if k == 7 { Box::new(t.into_local_display()) } else { Box::new(t.into_utc_display()) })
            }
        };
        let r = self.call(&Io::default(), "printing", || {
            use std::fmt::Write;
            let mut out = Out { room: usize::MAX, text: String::new(), late: String::new(), failed: false, again: false };
            if write!(out, "{}", x).is_err() {
                return Err("it fails although the output works".to_string());
            }
            let full = out.text;
            for n in room {
                let room = *n as usize % (full.len() + 2);
                let mut out = Out { room, text: String::new(), late: String::new(), failed: false, again };
                let r = write!(out, "{}", x);
                if room >= full.len() {
                    if r.is_err() || out.failed || out.text != full {
                        return Err(format!("it gives another text ({:?}) the second time, instead of {:?}", out.text, full));
                    }
                    continue;
                }
                if !full.starts_with(&out.text) {
                    return Err(format!("an output with room for {} bytes got {:?}, which is not how {:?} begins", room, out.text, full));
                }
                if !out.failed {
                    return Err(format!("an output with room for {} bytes got only {:?} of {:?}", room, out.text, full));
                }
                if r.is_ok() {
                    return Err(format!("the output failed after {} bytes of {:?} and no error is reported", room, full));
                }
                if !out.late.is_empty() {
                    return Err(format!("the output failed after {} bytes of {:?}, and then {:?} is written", room, full, out.late));
                }
            }
            Ok(full.len())
        });
        drop(x);
        self.drop_slot(98);
        if !env::with(|e| e.opens.is_empty()) {
            self.bad(&["sink"], format!("printing {} opened files", name));
        }
        self.stat("printed into failing outputs");
        match r {
            Ok(Err(m)) => self.bad(&["sink"], format!("printing {} is wrong: {}", name, m)),
            Ok(Ok(n)) => self.note(&format!("printed {}: {} bytes", name, n)),
            Err(()) => {}
        }
    }

    /// Opens, reads and closes a backup over and over: nothing may pile up.
    fn cycle(&mut self, io: &Io) {
        let dir = self.dir();
        let mut live = [0usize; 5];
        for l in live.iter_mut() {
            let r = self.call(io, "opening, reading and closing a backup", || match &dir {
                Some(d) => turnover(|| LocalBackend::new(d)),
                None => turnover(|| SimBackend),
            });
            if r.is_err() || self.stop {
                return;
            }
            env::with(|e| e.start_op(&Io::default()));
            *l = alloc::live();
        }
        self.stat("cycles");
        if live[1..].windows(2).all(|w| w[0] < w[1]) {
            self.bad(&["leak"], format!("memory grows each time a backup is opened, read and closed: {:?}", live.iter().map(|l| l.wrapping_sub(live[0]) as i64).collect::<Vec<_>>()));
            return;
        }
        // the same on one that stays open
        let me: *const Exec = self;
        let b = match self.call(&Io::default(), "Backup::new", || unsafe { &*me }.open_backend()) {
            Ok(Ok(b)) => b,
            _ => return,
        };
        let mut live = [0usize; 8];
        let mut did: Vec<Vec<Vec<u8>>> = (0..live.len()).map(|_| Vec::with_capacity(64)).collect();
        for i in 0..live.len() {
            let r = self.call(io, "reading from an open backup", || {
                for s in b.iter() {
                    let _ = look(&s);
                }
            });
            if r.is_err() || self.stop {
                return;
            }
            let names: Vec<Vec<u8>> = env::with(|e| e.opens.iter().map(|o| o.name.clone()).collect());
            env::with(|e| e.start_op(&Io::default()));
            let kept: usize = did[..i].iter().flatten().map(|n| n.capacity()).sum();
            did[i].extend(names);
            let kept2: usize = did[i].iter().map(|n| n.capacity()).sum();
            let caps: usize = did.iter().map(|d| d.capacity()).sum::<usize>() * std::mem::size_of::<Vec<u8>>();
            live[i] = alloc::live() - kept - kept2 - caps;
        }
        unsafe { b.free() };
        let last = live.len() - 4;
        if did[last..].windows(2).all(|w| w[0] == w[1]) && live[last..].windows(2).all(|w| w[0] < w[1]) {
            self.bad(&["leak"], format!("memory grows each time an open backup is read: {:?}", live.iter().map(|l| l.wrapping_sub(live[0]) as i64).collect::<Vec<_>>()));
        }
    }

    /// Compares all the snapshots of a chain that was loaded with what the files hold.
    fn chain_rows(&mut self, files: &[Vec<u8>], opens: &[OpenRec], all: &[Vec<Row>]) {
        let mut truths: Vec<Rc<SigTruth>> = vec![];
        let mut ranges: Vec<std::ops::RangeInclusive<usize>> = vec![];
        let mut fault = false;
        for (i, f) in files.iter().enumerate() {
            let o = match opens.iter().find(|o| o.name == *f) {
                Some(o) => o,
                None => {
                    self.bad(&["entries"], format!("a signature chain was loaded without reading {}", show(f)));
                    return;
                }
            };
            fault |= o.hard || o.eintr || o.eof_at.is_some() || o.flipped;
            let st = self.status(o);
            match (&st, o.file.as_ref().map(|f| &f.truth)) {
                (Hs::Tainted, _) => return,
                (Hs::Good, Some(Truth::Sig(t))) => {
                    truths.push(t.clone());
                    ranges.push(t.ents.len()..=t.ents.len());
                }
                (Hs::Cut(n), Some(Truth::Sig(t))) => {
                    let lo = t.bounds.iter().filter(|b| b.end <= *n).count();
                    let hi = t.bounds.iter().filter(|b| b.data_end <= *n).count();
                    truths.push(t.clone());
                    ranges.push(lo..=hi);
                }
                (Hs::Never, _) => {
                    self.bad(&["misattr"], format!("a signature chain was loaded although its file {} is missing or encrypted", i));
                    return;
                }
                // a fault can pass unnoticed if what was read is right all the same
                (_, Some(Truth::Sig(t))) => {
                    truths.push(t.clone());
                    ranges.push(t.ents.len()..=t.ents.len());
                }
                _ => return,
            }
        }
        if all.len() != files.len() {
            self.bad(&["entries", "misattr"], format!("a chain of {} signature files has {} snapshots", files.len(), all.len()));
            return;
        }
        let mut counts: Vec<usize> = ranges.iter().map(|r| *r.start()).collect();
        let mut last;
        loop {
            last = None;
            for (k, rows) in all.iter().enumerate() {
                if k > 12 && k + 12 < all.len() && k % 37 != 0 {
                    continue;
                }
                let ex = Expect::build(&truths, &counts, k + 1);
                if let Some(d) = ex.diff(rows, true) {
                    last = Some(format!("snapshot {} of a directly loaded chain of {}: {}", k, all.len(), d));
                    break;
                }
            }
            if last.is_none() {
                break;
            }
            let mut j = 0;
            while j < counts.len() {
                if counts[j] < *ranges[j].end() {
                    counts[j] += 1;
                    break;
                }
                counts[j] = *ranges[j].start();
                j += 1;
            }
            if j == counts.len() {
                break;
            }
        }
        if let Some(d) = last {
            let mut c = vec![if fault || ranges.iter().any(|r| r.start() != r.end()) { "faulted" } else { "entries" }];
            if fault {
                c.push("retry");
            }
            self.bad(&c, d);
        }
    }

    fn put_slot(&mut self, s: u8, v: Held) {
        self.drop_slot(s);
        self.slots.insert(s, v);
        self.slot_on.insert(s, self.cur);
    }

    fn drop_slot(&mut self, s: u8) {
        if let Some(h) = self.slots.remove(&s) {
            let k = self.slot_on.remove(&s).unwrap_or(0);
            let was = (std::mem::replace(&mut self.cur, k), env::set_cur(k));
            let r = self.call(&Io::default(), "dropping a result", || {
                if let Held::Entries { e, it, .. } = h {
                    drop(it);
                    unsafe { drop(Box::from_raw(e as *const _ as *mut SnapshotEntries<'static>)) };
                }
            });
            let _ = r;
            self.cur = was.0;
            env::set_cur(was.1);
        }
    }

    fn recheck(&mut self, s: u8) {
        let mut held = match self.slots.remove(&s) {
            Some(h) => h,
            None => return,
        };
        match &mut held {
            Held::Entries { e, rows, it } => {
                let e2: &'static SnapshotEntries<'static> = e;
                if let Ok(r) = self.call(&Io::default(), "using held entries", || rows_of(e2)) {
                    if r != *rows {
                        self.bad(&["held", "changed"], "held entries changed".to_string());
                    }
                }
                // an iteration that stays under way between the calls
                let (mut i, mut pos) = match it.take() {
                    Some(x) => x,
                    None => (e2.as_signature(), 0),
                };
                if let Ok((i2, got)) = self.call(&Io::default(), "continuing an iteration", move || {
                    let got: Vec<Row> = i.by_ref().take(3).map(|f| row_of(&f)).collect();
                    (i, got)
                }) {
                    if got[..] != rows[pos.min(rows.len())..(pos + 3).min(rows.len())] {
                        self.bad(&["held", "changed"], "an iteration under way gives other entries".to_string());
                    }
                    pos += got.len();
                    *it = if got.len() < 3 { None } else { Some((i2, pos)) };
                }
            }
            Held::Man { m, row } => {
                let m: &Manifest = m;
                if let Ok(r) = self.call(&Io::default(), "using a held manifest", || man_of(m)) {
                    if r != *row {
                        self.bad(&["held", "changed"], "a held manifest changed".to_string());
                    }
                }
            }
            Held::Iter { it, h, pos } => {
                let keys = self.handles.get(h).map(|h| h.keys.clone());
                if let Ok(n) = self.call(&Io::default(), "advancing an iterator", || it.next().map(|s| (s.is_full(), ts(s.as_backup_set().start_time()), ts(s.as_backup_set().end_time())))) {
                    if let Some(keys) = keys {
                        if n != keys.get(*pos).cloned() && *pos <= keys.len() {
                            self.bad(&["held", "walk"], format!("snapshot iterator gives {:?} at position {} instead of {:?}", n, pos, keys.get(*pos)));
                        }
                    }
                    *pos += 1;
                }
                let o = env::with(|e| e.opens.len());
                if o > 0 {
                    self.bad(&["opens"], "advancing a snapshot iterator opened a file".to_string());
                }
            }
            Held::Time { .. } => {}
        }
        self.slots.insert(s, held);
    }

    fn audit(&mut self, hid: u8) {
        let h = match self.do_open(&Io::default()) {
            Some(h) => h,
            None => return,
        };
        let n = h.keys.len();
        let hid = 200 + hid % 8;
        if let Some(old) = self.handles.insert(hid, h) {
            self.freed.push(old.b);
        }
        let mut pick: Vec<usize> = (0..n).collect();
        if n > 12 {
            // always the first, the last and those around an index that needs a second byte
            let mut r = Rng::new(self.plan.cfg.seed ^ self.step as u64);
            r.shuffle(&mut pick);
            pick.truncate(7);
            pick.extend([0, n - 1, n - 2, 126, 254, 255, 256, 257]);
            pick.retain(|i| *i < n);
            pick.sort();
            pick.dedup();
            let k = r.below(pick.len() as u64) as usize;
            pick.rotate_left(k);
        }
        for i in pick {
            let rows = self.do_entries(hid, i as u16, None, &Io::default(), true);
            if self.stop {
                return;
            }
            let man = self.do_manifest(hid, i as u16, None, &Io::default());
            if self.stop {
                return;
            }
            let (key, vers, mver) = {
                let h = &self.handles[&hid];
                if h.view.hazy {
                    continue;
                }
                let (c, k) = match h.at[i] {
                    Some(x) => x,
                    None => continue,
                };
                let ch = &h.view.chains[c];
                let vers: Option<Vec<(Vec<u8>, u64)>> = ch[..=k].iter().map(|s| s.sig.as_ref().and_then(|n| env::with(|e| e.world.files.get(n.as_bytes()).map(|f| (n.as_bytes().to_vec(), f.ver))))).collect();
                let mver = ch[k].manifest.as_ref().and_then(|n| env::with(|e| e.world.files.get(n.as_bytes()).map(|f| f.ver)));
                (h.keys[i], vers, mver)
            };
            let store = self.handles[&hid].store;
            let rec = self.hist.get(&(store, key)).cloned();
            if let Some((v0, r0, m0)) = rec {
                if Some(&v0) == vers.as_ref() {
                    if let Some(r0) = &r0 {
                        match &rows {
                            None => self.bad(&["history"], format!("entries of {:?} could be read before but not any more", key)),
                            Some(r) if strip(r, false) != strip(r0, false) => self.bad(&["history"], format!("entries of {:?} are not what they were", key)),
                            _ => self.stat("earlier snapshots found unchanged"),
                        }
                    }
                }
                if let (Some((mv, m0)), Some(v)) = (&m0, mver) {
                    if *mv == v && man.as_ref() != Some(m0) {
                        self.bad(&["history"], format!("manifest of {:?} is not what it was", key));
                    }
                }
            }
            if self.stop {
                return;
            }
            let intact = vers.is_some();
            self.hist.insert((store, key), (vers.unwrap_or_default(), if intact { rows } else { None }, mver.and_then(|v| man.map(|m| (v, m)))));
        }
    }

    fn render(&mut self, hid: u8, snap: u16) {
        let wrong = |e: &Exec| e.out.other.iter().filter(|(k, _)| k.split('+').any(|c| c == "entries")).map(|x| *x.1).sum::<u64>();
        let before = wrong(self);
        let rows = match self.do_entries(hid, snap, None, &Io::default(), false) {
            Some(r) => r,
            None => return,
        };
        if self.stop {
            return;
        }
        if wrong(self) > before {
            // what is printed is what the entries say
            self.bad(&["render"], "the entries to be printed are not those of the snapshot".to_string());
            return;
        }
        let h = &self.handles[&hid];
        let idx = snap as usize % h.keys.len();
        let b = h.b;
        let r = self.call(&Io::default(), "printing entries", || {
            use std::fmt::Write;
            let sn = b.nth(idx)?;
            let e = sn.entries().ok()?;
            let mut s = String::new();
            let r = write!(s, "{}", e);
            Some((s, r.is_ok()))
        });
        let (text, fine) = match r {
            Ok(Some(t)) => t,
            _ => return,
        };
        self.note(&format!("render {}", text));
        self.stat("listings printed");
        self.check_listing(&text, fine, &rows);
    }

    /// A printed listing against the entries it shows.
    fn check_listing(&mut self, text: &str, fine: bool, rows: &[Row]) {
        let odd = |s: &str| s.chars().any(|c| c.is_control() || c == '\u{2028}');
        if rows.iter().any(|r| r.mtime < -62_000_000_000 || r.mtime > 250_000_000_000_000) {
            return;
        }
        if rows.iter().any(|r| std::str::from_utf8(&r.path).map_or(false, |s| odd(s)) || r.uname.as_deref().map_or(false, odd) || r.gname.as_deref().map_or(false, odd)) {
            return;
        }
        if !fine {
            self.bad(&["render"], "printing the listing failed".to_string());
            return;
        }
        let lines: Vec<&str> = text.lines().collect();
        if lines.len() != rows.len() {
            self.bad(&["render"], format!("{} lines printed for {} entries", lines.len(), rows.len()));
            return;
        }
        for (l, r) in lines.iter().zip(rows) {
            let t = match r.t {
                b'0' | 0 | b'1' => '-',
                b'5' => 'd',
                b'2' => 'l',
                b'6' => 'p',
                _ => '?',
            };
            let path = if r.path.is_empty() { ".".to_string() } else { String::from_utf8(r.path.clone()).unwrap_or("?".into()) };
            let cands: Vec<String> = render_time(r.mtime, Some(&ZONES[self.zone]), self.clock, &ZONES[self.zone])
                .into_iter()
                .map(|tm| {
                    squeeze(&format!(
                        "{}{} {} {} {} {} {}",
                        t,
                        r.mode.map_or("?".into(), render_mode),
                        r.uname.as_deref().unwrap_or("?"),
                        r.gname.as_deref().unwrap_or("?"),
                        r.hint.map_or("?".to_string(), |h| h.1.to_string()),
                        tm,
                        path
                    ))
                })
                .collect();
            if !cands.contains(&squeeze(l)) {
                self.bad(&["render"], format!("printed {:?}, expected {:?} (clock {}, zone {})", squeeze(l), cands, self.clock, ZONES[self.zone].tz));
                return;
            }
        }
    }

    /// The status of the whole backup, as printed, against the chains and sets there are.
    fn render_all(&mut self, hid: u8) {
        let (b, hazy, fp) = match self.handles.get(&hid) {
            Some(h) => (h.b, h.view.hazy, h.fp.clone()),
            None => return,
        };
        struct Block {
            text: String,
            sets: Vec<(bool, i64, usize)>,
            alone: Vec<String>,
        }
        let r = self.call(&Io::default(), "printing the backup", || {
            let c = b.collections();
            let blocks: Vec<Block> = c
                .backup_chains()
                .map(|c| {
                    let all: Vec<&ruplicity::collections::BackupSet> = std::iter::once(c.full_set()).chain(c.inc_sets()).collect();
                    Block { text: format!("{}", c), sets: all.iter().map(|s| (s.is_full(), ts(s.end_time()), s.num_volumes())).collect(), alone: all.iter().map(|s| format!("{}", s)).collect() }
                })
                .collect();
            let sigs: Vec<(String, Vec<(i64, String)>)> = c.signature_chains().map(|s| (format!("{}", s), std::iter::once(s.full_signature()).chain(s.inc_signatures()).map(|f| (ts(f.time), f.file_name.clone())).collect())).collect();
            (format!("{}", c), blocks, sigs, fingerprint(b))
        });
        let (all, mut blocks, sigs, after) = match r {
            Ok(x) => x,
            Err(()) => return,
        };
        self.note(&format!("printed {}", all));
        self.stat("backups printed");
        if env::with(|e| e.opens.len()) > 0 {
            self.bad(&["opens", "status"], "printing the status opened files".to_string());
        }
        if fp != after {
            self.bad(&["view-changed", "status"], "printing changed the backup".to_string());
        }
        let chains = &self.handles[&hid].view.chains;
        if !hazy && blocks.len() == chains.len() {
            for (b, c) in blocks.iter_mut().zip(chains) {
                b.sets = c.iter().map(|s| (s.full, s.end, s.vols.len())).collect();
            }
        }
        let z = &ZONES[self.zone];
        let clock = self.clock;
        let time = |t: i64| render_time(t, Some(z), clock, z).iter().map(|c| squeeze(c)).collect::<Vec<_>>();
        // a line, what it must contain, and how it must end; the wording is not looked at
        let fits = |line: &str, kind: &str, times: &[i64], n: Option<usize>| -> Result<(), bool> {
            let l = squeeze(line);
            for t in times {
                let whole = |c: &str| l.match_indices(c).any(|(i, _)| !l[..i].ends_with(char::is_alphanumeric) && !l[i + c.len()..].starts_with(char::is_alphanumeric));
                if !time(*t).iter().any(|c| whole(c)) {
                    return Err(true);
                }
            }
            if !l.starts_with(kind) || n.map_or(false, |n| l.split(' ').last() != Some(&n.to_string())) {
                return Err(false);
            }
            Ok(())
        };
        let mut wrong: Option<(bool, String)> = None;
        let mut see = |r: Result<(), bool>, line: &str, want: String| {
            if let (Err(t), None) = (r, &wrong) {
                wrong = Some((t, format!("{:?} is printed, expected {}", line, want)));
            }
        };
        for b in &blocks {
            let (first, last) = (b.sets[0].1, b.sets[b.sets.len() - 1].1);
            let total: usize = b.sets.iter().map(|s| s.2).sum();
            let lines: Vec<&str> = b.text.lines().collect();
            if lines.len() != b.sets.len() + 5 {
                see(Err(false), &b.text, format!("a row for each of {} sets below five lines", b.sets.len()));
                continue;
            }
            for (i, l) in lines.iter().enumerate() {
                match i {
                    0 => see(fits(l, "", &[first], None), l, format!("{:?}", time(first))),
                    1 => see(fits(l, "", &[last], None), l, format!("{:?}", time(last))),
                    2 => see(fits(l, "", &[], Some(b.sets.len())), l, format!("{} sets", b.sets.len())),
                    3 => see(fits(l, "", &[], Some(total)), l, format!("{} volumes", total)),
                    4 => (),
                    _ => {
                        let (f, t, n) = b.sets[i - 5];
                        see(fits(l, if f { "Full" } else { "Inc" }, &[t], Some(n)), l, format!("{} {:?} {}", if f { "Full" } else { "Incremental" }, time(t), n));
                        see(if squeeze(l) == squeeze(&b.alone[i - 5]) { Ok(()) } else { Err(false) }, l, format!("{:?}, as the set alone is printed", b.alone[i - 5]));
                    }
                }
            }
        }
        let joined: String = blocks.iter().map(|b| b.text.as_str()).collect();
        see(if joined == all { Ok(()) } else { Err(false) }, &all, format!("the chains one after another: {:?}", joined));
        for (text, files) in &sigs {
            let lines: Vec<&str> = text.lines().collect();
            if hazy {
                continue;
            }
            let (first, last) = (files[0].0, files[files.len() - 1].0);
            see(fits(lines.first().unwrap_or(&""), "", &[first, last], None), text, format!("{:?} and {:?}", time(first), time(last)));
            let names: Vec<&str> = lines.iter().skip(1).map(|l| l.trim()).collect();
            see(if names == files.iter().map(|f| f.1.as_str()).collect::<Vec<_>>() { Ok(()) } else { Err(false) }, text, format!("{:?}", files));
        }
        if let Some((t, msg)) = wrong {
            let c: &[&'static str] = if t { &["status", "render"] } else { &["status"] };
            self.bad(c, format!("{} (clock {}, zone {})", msg, clock, z.tz));
        }
    }

    fn permute(&mut self, n: u8, seed: u64) {
        let mut r = Rng::new(seed);
        let mut base: Option<(String, u64)> = None;
        for i in 0..=n {
            let io = if i == 0 { Io::default() } else { Io { order: r.next() | 1, dup: if r.chance(1, 2) { r.below(6) as u8 } else { 0 }, ..Io::default() } };
            let me: *const Exec = self;
            let res = self.call(&io, "Backup::new", || {
                let b = unsafe { &*me }.open_backend().ok()?;
                let mut f = fingerprint(b);
                f.push_str(&format!("{}", b.collections()));
                unsafe { b.free() };
                // the same names straight into the collections
                Some(f)
            });
            let f = match res {
                Ok(Some(f)) => f,
                _ => return,
            };
            self.stat("listing orders compared");
            let listed = env::with(|e| e.listed.clone()).unwrap_or_default();
            let g = {
                let names: Vec<std::ffi::OsString> = listed.into_iter().map(std::os::unix::ffi::OsStringExt::from_vec).collect();
                match self.call(&Io::default(), "Collections::from_filenames", || format!("{}", Collections::from_filenames(&names))) {
                    Ok(s) => s,
                    Err(()) => return,
                }
            };
            if !f.ends_with(&g) {
                self.bad(&["perm"], format!("the backup and Collections::from_filenames disagree about the same names: {:?} / {:?}", f, g));
                return;
            }
            match &base {
                None => base = Some((f, io.order)),
                Some((b, _)) => {
                    if *b != f {
                        let d = b.lines().zip(f.lines()).find(|(x, y)| x != y);
                        self.bad(&["perm"], format!("with listing order {} the backup looks different: {:?}", io.order, d));
                        return;
                    }
                }
            }
        }
    }

    fn raw_list(&mut self, io: &Io) {
        let s = match self.dir() {
            Some(s) => s,
            None => return,
        };
        let r = self.call(io, "file_names()", || LocalBackend::new(&s).file_names().map(|i| i.into_iter().map(|n| n.as_bytes().to_vec()).collect::<Vec<_>>()));
        let (lf, sf) = env::with(|e| (e.list_fault, e.stat_fault));
        let mut want: Vec<Vec<u8>> = env::with(|e| e.world.files.keys().cloned().collect());
        want.sort();
        match r {
            Err(()) => {}
            Ok(Err(e)) => {
                if sf {
                    self.stat("listings refused");
                } else if !lf {
                    self.bad(&["raw", "list"], format!("listing failed without cause: {}", e));
                } else {
                    self.stat("listings refused");
                    let codes: Vec<i32> = io.faults.iter().filter_map(|f| match f.k { Fk::List(e) | Fk::ListMid(_, e) => Some(e), _ => None }).collect();
                    if !e.raw_os_error().map_or(false, |x| codes.contains(&x)) {
                        self.bad(&["raw"], format!("listing failed with {:?} instead of the system's {:?}", e, codes));
                    }
                }
            }
            Ok(Ok(mut got)) => {
                self.note(&format!("listed {}", got.len()));
                if lf {
                    self.bad(&["raw", "list"], format!("the system failed during the listing but {} of {} names were given without an error", got.len(), want.len()));
                    return;
                }
                got.sort();
                if got != want {
                    let d: Vec<String> = want.iter().filter(|n| !got.contains(n)).map(|n| format!("-{}", show(n))).chain(got.iter().filter(|n| !want.contains(n)).map(|n| format!("+{}", show(n)))).collect();
                    self.bad(&["raw", "list"], format!("listing differs from the directory: {:?} ({} names for {})", d, got.len(), want.len()));
                }
                self.stat("raw listings");
            }
        }
    }

    fn raw_read(&mut self, file: u16, io: &Io) {
        let s = match self.dir() {
            Some(s) => s,
            None => return,
        };
        let name = if file % 13 == 12 { b"no such file".to_vec() } else {
            match env::with(|e| e.world.pick(file)) {
                Some(n) => n,
                None => return,
            }
        };
        let f = env::with(|e| e.world.files.get(&name).cloned());
        if f.as_ref().map_or(false, |f| f.dir) {
            return;
        }
        let p = std::path::PathBuf::from(std::ffi::OsStr::from_bytes(&name));
        let r = self.call(io, "open_file()", || -> (Option<i32>, Vec<u8>, Option<i32>) {
            let mut v = Vec::new();
            match LocalBackend::new(&s).open_file(&p) {
                Err(e) => (Some(e.raw_os_error().unwrap_or(-1)), v, None),
                Ok(mut f) => {
                    let e = f.read_to_end(&mut v).err().map(|e| e.raw_os_error().unwrap_or(-1));
                    (None, v, e)
                }
            }
        });
        let (oe, data, re) = match r {
            Ok(x) => x,
            Err(()) => return,
        };
        let opens = env::with(|e| e.opens.clone());
        self.note(&format!("raw read {} -> {:?} {} {:?}", show(&name), oe, data.len(), re));
        self.stat("raw reads");
        if opens.len() != 1 || opens[0].name != name {
            self.bad(&["raw"], format!("open_file({}) opened {:?}", show(&name), opens.iter().map(|o| show(&o.name)).collect::<Vec<_>>()));
            return;
        }
        let o = &opens[0];
        // what was really there when it was opened
        let want_open = io.faults.iter().find_map(|f| match f.k { Fk::Open(e) if f.nth == 0 => Some(e), _ => None }).or(if o.file.is_none() { Some(libc::ENOENT) } else { None });
        // a backend that reads the file when it is opened reports then what reading it reports
        let (oe, re) = if oe.is_some() && want_open.is_none() && o.hard { (None, oe) } else { (oe, re) };
        if oe != want_open {
            self.bad(&["raw"], format!("open_file({}) gives error {:?} where the system gave {:?}", show(&name), oe, want_open));
            return;
        }
        if oe.is_some() {
            return;
        }
        let full = o.file.as_ref().unwrap().data.clone();
        let flips: Vec<Fault> = io.faults.iter().filter(|f| matches!(f.k, Fk::Flip(..))).cloned().collect();
        if !flips.is_empty() {
            return;
        }
        let upto = o.eof_at.unwrap_or(full.len());
        let want_err = if o.hard { io.faults.iter().find_map(|f| match f.k { Fk::Read { errno, .. } => Some(errno), _ => None }) } else { None };
        if re.is_some() != o.hard || (o.hard && !io.faults.iter().any(|f| matches!(f.k, Fk::Read { errno, .. } if Some(errno) == re))) {
            self.bad(&["raw"], format!("reading {} ends with {:?} where the system gave {:?}", show(&name), re, want_err));
            return;
        }
        if re.is_none() && data[..] != full[..upto] {
            self.bad(&["raw"], format!("reading {} gives {} bytes, not the {} stored", show(&name), data.len(), upto));
        }
        if re.is_some() && !full.starts_with(&data) {
            self.bad(&["raw"], format!("reading {} gives other bytes than stored before the error", show(&name)));
        }
    }

    fn step(&mut self, s: &Step) -> String {
        match s {
            Step::Mutate(ops) => env::with(|e| {
                for o in ops {
                    e.world.mutate(o);
                }
                format!("tree of {}", e.world.tree.len())
            }),
            Step::Tick(n) => env::with(|e| {
                for w in e.worlds() {
                    w.now += *n as i64;
                }
                String::new()
            }),
            Step::Storage(k) => {
                self.store = *k % 2;
                "storage".into()
            }
            Step::Conf(c) => env::with(|e| {
                e.world.cfg.set(c);
                "settings".into()
            }),
            Step::Begin { run, cap, quirk } => env::with(|e| {
                e.world.begin(*run, *cap, *quirk);
                format!("begin {:?}", run)
            }),
            Step::Write(n) => env::with(|e| {
                for _ in 0..*n {
                    if !e.world.micro() {
                        break;
                    }
                }
                format!("wrote, {} files", e.world.files.len())
            }),
            Step::Finish => env::with(|e| {
                e.world.finish();
                format!("finished, {} files", e.world.files.len())
            }),
            Step::Crash { lose, torn } => env::with(|e| {
                if e.world.busy() {
                    e.fire("writer crash");
                }
                e.world.crash(*lose, *torn);
                format!("crash, {} files", e.world.files.len())
            }),
            Step::Cleanup(n) => env::with(|e| {
                e.world.cleanup(*n);
                format!("cleanup, {} files", e.world.files.len())
            }),
            Step::Prune { keep, seed } => env::with(|e| {
                e.world.prune(*keep, *seed);
                format!("prune, {} files", e.world.files.len())
            }),
            Step::Junk(n, c) => env::with(|e| {
                e.world.junk(n, c);
                e.fire("foreign file");
                String::new()
            }),
            Step::Harm { file, how } => env::with(|e| {
                let r = e.world.harm(*file, how);
                if let Some(k) = r {
                    e.fire(&format!("stored {}", k));
                }
                format!("harm {:?}", r)
            }),
            Step::Open { h, io } => {
                if let Some(n) = self.do_open(io) {
                    if let Some(old) = self.handles.insert(*h, n) {
                        self.freed.push(old.b);
                    }
                    // an iterator of the old backup must not be compared with the new one
                    let h = *h;
                    self.slots.retain(|_, s| !matches!(s, Held::Iter { h: x, .. } if *x == h));
                }
                "open".into()
            }
            Step::Walk { h } => {
                if let Some(hd) = self.handles.get(h) {
                    let b = hd.b;
                    let fp = hd.fp.clone();
                    if let Ok(now) = self.call(&Io::default(), "walking the snapshots", || fingerprint(b)) {
                        if env::with(|e| e.opens.len()) > 0 {
                            self.bad(&["opens"], "walking the snapshots opened a file".to_string());
                        }
                        if now != fp {
                            self.bad(&["view-changed", "held"], format!("the snapshots of an open backup changed from {:?} to {:?}", fp, now));
                        }
                        self.stat("walks");
                    }
                }
                "walk".into()
            }
            Step::Iter { h, slot } => {
                if let Some(hd) = self.handles.get(h) {
                    let it = hd.b.iter();
                    self.put_slot(*slot, Held::Iter { it, h: *h, pos: 0 });
                }
                "iter".into()
            }
            Step::IterStep { slot } | Step::Recheck { slot } => {
                self.recheck(*slot);
                "recheck".into()
            }
            Step::Entries { h, snap, hold, io } => {
                self.do_entries(*h, *snap, *hold, io, false);
                "entries".into()
            }
            Step::Manifest { h, snap, hold, io } => {
                self.do_manifest(*h, *snap, *hold, io);
                "manifest".into()
            }
            Step::Drop { slot } => {
                self.drop_slot(*slot);
                "drop".into()
            }
            Step::Render { h, snap } => {
                self.render(*h, *snap);
                "render".into()
            }
            Step::RenderAll { h } => {
                self.render_all(*h);
                "render all".into()
            }
            Step::Audit { h } => {
                self.audit(*h);
                "audit".into()
            }
            Step::Close { h } => {
                if let Some(x) = self.handles.remove(h) {
                    self.freed.push(x.b);
                }
                "close".into()
            }
            Step::Permute { n, seed } => {
                self.permute(*n, *seed);
                "permute".into()
            }
            Step::Clock(t) => {
                self.out.sim_seconds += (t - self.clock).unsigned_abs().min(1 << 33);
                self.clock = *t;
                kernel::set_clock(Some(*t));
                env::with(|e| e.fire("clock jump"));
                "clock".into()
            }
            Step::Zone(z) => {
                self.set_zone(*z as usize);
                env::with(|e| e.fire("zone change"));
                "zone".into()
            }
            Step::Time { t, slot, local } => {
                let (t, local) = (*t, *local);
                if let Ok(d) = self.call(&Io::default(), "converting a time", || {
                    let s = Timespec::new(t, 0);
                    if local { s.into_local_display() } else { s.into_utc_display() }
                }) {
                    let z = if local { Some(self.zone) } else { None };
                    self.put_slot(*slot, Held::Time { d, t, zone: z });
                }
                "time".into()
            }
            Step::Stamps(l) => {
                for b in l {
                    self.stamp(&String::from_utf8_lossy(&b.0));
                }
                "stamps".into()
            }
            Step::TimePrint { slot } => {
                if let Some(Held::Time { d, t, zone }) = self.slots.get(slot) {
                    let (d, t, zone) = (*d, *t, *zone);
                    if let Ok(s) = self.call(&Io::default(), "printing a time", || format!("{}", d)) {
                        self.note(&format!("time {} {:?} -> {}", t, zone, s));
                        self.stat("times printed");
                        if (-60_000_000_000..250_000_000_000).contains(&t) {
                            let cands = render_time(t, zone.map(|z| &ZONES[z]), self.clock, &ZONES[self.zone]);
                            let yr = |t: i64, z: &Zone| civil((t + z.offset(t)).div_euclid(86400)).0;
                            let z0 = &ZONES[self.zone];
                            if zone == Some(self.zone) && yr(self.clock, z0) != yr(self.clock, &ZONES[0]) && [yr(self.clock, z0), yr(self.clock, &ZONES[0])].contains(&yr(t, z0)) {
                                self.stat("times printed while it is another year in the zone");
                            }
                            if !cands.contains(&s) {
                                self.bad(&["time"], format!("time {} in zone {:?} at clock {} printed as {:?}, expected one of {:?}", t, zone.map(|z| ZONES[z].tz), self.clock, s, cands));
                            }
                        }
                    }
                }
                "print".into()
            }
            Step::On { h, k } => {
                let (was, now) = (self.on.get(h).cloned().unwrap_or(0), *k as usize % 4);
                // nothing that borrows from it can be held at that moment
                let slots: Vec<u8> = self.slots.keys().cloned().filter(|s| self.slot_on.get(s).cloned().unwrap_or(0) == was).collect();
                for s in slots {
                    self.drop_slot(s);
                }
                self.on.insert(*h, now);
                if was != now && self.handles.contains_key(h) {
                    env::with(|e| e.fire("handed to another thread"));
                }
                "on".into()
            }
            Step::RawList { io } => {
                self.raw_list(io);
                "raw list".into()
            }
            Step::Chain { h, chain, moves, io } => {
                self.sig_chain(*h, *chain, moves, io);
                "chain".into()
            }
            Step::Iterate { h, what, at, moves } => {
                self.iterate(*h, *what, *at, moves);
                "iterate".into()
            }
            Step::Sink { h, what, at, room, again } => {
                self.sink(*h, *what, *at, room, *again);
                "sink".into()
            }
            Step::Cycle { io } => {
                self.cycle(io);
                "cycle".into()
            }
            Step::RawRead { file, io } => {
                self.raw_read(*file, io);
                "raw read".into()
            }
        }
    }

    fn end(&mut self) {
        let keys: Vec<u8> = self.slots.keys().cloned().collect();
        for k in keys {
            self.recheck(k);
            if self.stop {
                return;
            }
        }
        for (i, s) in self.scratch.clone().into_iter().flatten().enumerate() {
            let r = env::with(|e| {
                e.face(i as u8);
                mirror::sync(&mut e.world, &s);
                e.writes.first().cloned().map(|w| format!("the reader tried to: {}", w)).or_else(|| mirror::check(&e.world, &s))
            });
            if let Some(m) = r {
                self.bad(&["wrote"], m);
            }
        }
    }
}

/// Reads all there is of a snapshot, keeping nothing.
fn look(s: &Snapshot) -> usize {
    use std::fmt::Write;
    struct Nowhere(usize);
    impl Write for Nowhere {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            self.0 += s.len();
            Ok(())
        }
    }
    let mut n = Nowhere(0);
    match s.entries() {
        Ok(e) => {
            n.0 += e.as_signature().map(|f| f.path_bytes().len()).sum::<usize>();
            let _ = write!(n, "{}", e);
        }
        Err(e) => {
            let _ = write!(n, "{}", e);
        }
    }
    match s.manifest() {
        Ok(m) => n.0 += m.first_volume_of_path(b"home").unwrap_or(0) + m.last_volume_index(),
        Err(e) => {
            let _ = write!(n, "{}", e);
        }
    }
    n.0
}

fn turnover<B: Backend>(mk: impl Fn() -> B) -> usize {
    let b = match Backup::new(mk()) {
        Ok(b) => b,
        Err(_) => return 0,
    };
    let mut n = 0;
    for s in b.snapshots().unwrap() {
        n += look(&s);
    }
    for c in b.snapshots().unwrap().as_collections().signature_chains() {
        if let Ok(c) = Chain::from_sigchain(c, &mk()) {
            n += c.snapshots().map(|s| s.files().count()).sum::<usize>();
        }
    }
    let inner = b.into_inner();
    n + inner.file_names().map_or(0, |i| i.into_iter().count())
}

/// Steps through iterators that give the same things, in the order of the plan; how many things
/// there are, or what went wrong.
/// An output that has room for so many bytes, fails then, and may work again.
struct Out {
    room: usize,
    text: String,
    late: String,
    failed: bool,
    again: bool,
}

impl std::fmt::Write for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.failed {
            self.late.push_str(s);
            return if self.again { Ok(()) } else { Err(std::fmt::Error) };
        }
        if self.text.len() + s.len() <= self.room {
            self.text.push_str(s);
            return Ok(());
        }
        let mut n = self.room - self.text.len();
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        self.text.push_str(&s[..n]);
        self.failed = true;
        Err(std::fmt::Error)
    }
}

fn step_through<I: Iterator>(mk: impl Fn() -> I, dup: impl Fn(&I) -> Option<I>, key: impl Fn(I::Item) -> String, moves: &[Move]) -> Result<usize, String> {
    let mut want = vec![];
    let mut it = mk();
    while let Some(x) = it.next() {
        want.push(key(x));
        if want.len() > 1_000_000 {
            return Err("it does not end".into());
        }
    }
    let n = want.len();
    let mut its = [Some(mk()), Some(mk()), Some(mk())];
    let mut pos = [0usize; 3];
    let same = |s: Option<I::Item>, k: usize| s.map(|x| key(x)).as_ref() == want.get(k);
    for m in moves {
        let bad = match *m {
            Move::Start(i) => {
                its[i as usize % 3] = Some(mk());
                pos[i as usize % 3] = 0;
                false
            }
            Move::Next(i) => {
                let i = i as usize % 3;
                let k = pos[i];
                pos[i] = (k + 1).min(n);
                !same(its[i].as_mut().unwrap().next(), k)
            }
            Move::Nth(i, by) => {
                let i = i as usize % 3;
                // what has no shortcut would go on for ages
                let by = by.min(100_000) as usize;
                let k = pos[i] + by;
                pos[i] = (k + 1).min(n);
                !same(its[i].as_mut().unwrap().nth(by), k)
            }
            Move::Len(i) => {
                let i = i as usize % 3;
                let (lo, hi) = its[i].as_ref().unwrap().size_hint();
                lo > n - pos[i] || hi.map_or(false, |h| h < n - pos[i])
            }
            Move::Via(i, how) => {
                let i = i as usize % 3;
                let mut it = its[i].replace(mk()).unwrap();
                let k = std::mem::replace(&mut pos[i], 0);
                let left = n - k;
                match how % 8 {
                    0 => it.enumerate().last().map(|x| x.0 + 1).unwrap_or(0) != left,
                    1 => !same(it.skip(1).next(), k + 1),
                    2 => {
                        let v: Vec<_> = it.step_by(2).collect();
                        v.len() != (left + 1) / 2 || v.into_iter().enumerate().any(|(j, s)| !same(Some(s), k + 2 * j))
                    }
                    3 => it.count() != left,
                    4 => !same(it.last(), if left == 0 { n } else { n - 1 }),
                    5 => {
                        let a = it.by_ref().take(2).count();
                        a != left.min(2) || !same(it.next(), k + a)
                    }
                    6 => !it.map(|x| key(x)).eq(want[k..].iter().cloned()),
                    _ => match dup(&it) {
                        // the copy goes on from the same place, by itself
                        Some(mut two) => {
                            let a = same(two.next(), k) && same(two.next(), k + 1) && same(it.next(), k);
                            !a || two.count() != left.saturating_sub(2) || it.count() != left.saturating_sub(1)
                        }
                        None => false,
                    },
                }
            }
        };
        if bad {
            return Err(format!("{:?} of {:?}, {} in all", m, moves, n));
        }
    }
    Ok(n)
}

fn strip(rows: &[Row], names: bool) -> Vec<Row> {
    rows.iter()
        .map(|r| {
            let mut r = r.clone();
            if !names {
                r.uname = None;
                r.gname = None;
            }
            r
        })
        .collect()
}

fn hash_rows(r: &[Row]) -> u64 {
    let mut h = 7u64;
    for b in format!("{:?}", r).bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    h
}
