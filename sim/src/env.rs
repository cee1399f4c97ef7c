//! The simulated environment of the reader: I/O faults of the current operation, the record of what
//! it did, the simulated clock, and the accounting of memory and reads.
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::*;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path as FsPath;
use std::sync::{Arc as Rc, Mutex};

#[derive(Clone, Debug)]
pub struct OpenRec {
    pub name: Vec<u8>,
    pub file: Option<SFile>,
    /// a fault that may legitimately turn the operation into an error
    pub hard: bool,
    /// the stream was made to end early at this position
    pub eof_at: Option<usize>,
    pub flipped: bool,
    pub eintr: bool,
    pub read: u64,
    /// the errors the storage gave
    pub errs: Vec<i32>,
    /// it could not even be opened
    pub refused: bool,
}

pub struct Stream {
    rec: usize,
    data: Rc<Vec<u8>>,
    pos: usize,
    faults: Vec<Fk>,
    chunk: u8,
    rng: Rng,
    calls: u64,
    after_eof: u64,
    dead: Option<i32>,
    eintr_flip: bool,
}

pub struct Env {
    pub world: World,
    /// the storage that the call above is not about
    other: Option<World>,
    pub store: u8,
    pub io: Io,
    pub opens: Vec<OpenRec>,
    nopen: usize,
    nstat: usize,
    pub stat_fault: bool,
    pub list_fault: bool,
    pub listed: Option<Vec<Vec<u8>>>,
    pub fired: BTreeMap<String, u64>,
    pub hung: bool,
    pub bytes: u64,
    pub writes: Vec<String>,
    pub shape: u64,
    /// the thread the call above belongs to, and the calls of the others
    owner: usize,
    parked: BTreeMap<usize, Op>,
}

pub static ENV: Mutex<Option<Env>> = Mutex::new(None);

thread_local! {
    /// files and listings that are open in this thread, and the most there were
    static LIVE: Cell<(i64, i64)> = Cell::new((0, 0));
    /// the simulated thread whose call is made or looked at by this one
    static CUR: Cell<usize> = Cell::new(0);
}

/// A file or listing was opened (1) or closed (-1) by the library.
pub fn opened(n: i64) {
    let _ = LIVE.try_with(|l| {
        let (now, top) = l.get();
        l.set((now + n, top.max(now + n)));
    });
}
/// How many are open; the most is counted from now on.
pub fn open_now() -> i64 {
    LIVE.with(|l| {
        let now = l.get().0;
        l.set((now, now));
        now
    })
}
pub fn open_most() -> i64 {
    LIVE.with(|l| l.get().1)
}

impl Drop for Stream {
    fn drop(&mut self) {
        opened(-1);
    }
}

/// Whose call it is from now on; returns whose it was.
pub fn set_cur(k: usize) -> usize {
    CUR.with(|c| c.replace(k))
}

pub fn with<T>(f: impl FnOnce(&mut Env) -> T) -> T {
    let mut g = ENV.lock().unwrap_or_else(|p| p.into_inner());
    let e = g.as_mut().expect("no environment");
    e.turn(CUR.with(|c| c.get()));
    f(e)
}

/// What belongs to one call.
#[derive(Default)]
struct Op {
    store: u8,
    io: Io,
    opens: Vec<OpenRec>,
    nopen: usize,
    nstat: usize,
    stat_fault: bool,
    list_fault: bool,
    listed: Option<Vec<Vec<u8>>>,
    hung: bool,
    bytes: u64,
}

pub enum Decision {
    Err(i32),
    Data(Vec<u8>),
}

impl Env {
    pub fn new(world: World) -> Env {
        let mut o = world.cfg.clone();
        o.host = B(b"other host".to_vec());
        o.dir = B(b"/other".to_vec());
        let mut other = World::new(&o);
        other.alt = true;
        other.now = world.now;
        Env { world, other: Some(other), store: 0, io: Io::default(), opens: vec![], nopen: 0, nstat: 0, stat_fault: false, list_fault: false, listed: None, fired: BTreeMap::new(), hung: false, bytes: 0, writes: vec![], shape: 1, owner: 0, parked: BTreeMap::new() }
    }

    fn turn(&mut self, k: usize) {
        if k == self.owner {
            return;
        }
        let mut o = self.parked.remove(&k).unwrap_or_default();
        std::mem::swap(&mut o.io, &mut self.io);
        std::mem::swap(&mut o.opens, &mut self.opens);
        std::mem::swap(&mut o.nopen, &mut self.nopen);
        std::mem::swap(&mut o.nstat, &mut self.nstat);
        std::mem::swap(&mut o.stat_fault, &mut self.stat_fault);
        std::mem::swap(&mut o.list_fault, &mut self.list_fault);
        std::mem::swap(&mut o.listed, &mut self.listed);
        std::mem::swap(&mut o.hung, &mut self.hung);
        std::mem::swap(&mut o.bytes, &mut self.bytes);
        let store = o.store;
        o.store = self.store;
        self.face(store);
        self.parked.insert(self.owner, o);
        self.owner = k;
    }

    /// Turns to one of the two storages.
    pub fn face(&mut self, store: u8) {
        if store != self.store {
            std::mem::swap(&mut self.world, self.other.as_mut().unwrap());
            self.store = store;
        }
    }

    /// Both storages.
    pub fn worlds(&mut self) -> [&mut World; 2] {
        [&mut self.world, self.other.as_mut().unwrap()]
    }

    pub fn start_op(&mut self, io: &Io) {
        self.io = io.clone();
        self.opens.clear();
        self.nopen = 0;
        self.nstat = 0;
        self.stat_fault = false;
        self.list_fault = false;
        self.listed = None;
        self.hung = false;
        self.bytes = 0;
    }

    pub fn fire(&mut self, k: &str) {
        self.shape = mix(self.shape ^ k.len() as u64 ^ (k.as_bytes()[k.len() / 2] as u64) << 8);
        *self.fired.entry(k.to_string()).or_insert(0) += 1;
    }

    /// The names in the order the storage gives them, or the error at which position.
    pub fn list(&mut self, local: bool) -> Result<(Vec<Vec<u8>>, Option<(usize, i32)>), i32> {
        let mut names: Vec<Vec<u8>> = self.world.files.keys().cloned().collect();
        let faults = self.io.faults.clone();
        let mut mid = None;
        for f in &faults {
            match &f.k {
                Fk::List(e) => {
                    self.fire("listing error");
                    self.list_fault = true;
                    return Err(*e);
                }
                Fk::ListMid(at, e) if local => {
                    mid = Some((*at as usize * (names.len() + 1) / 65536, *e));
                }
                Fk::ListStale(s) if !local => {
                    let mut r = Rng::new(*s as u64);
                    let before = names.len();
                    names.retain(|_| !r.chance(1, 8));
                    if names.len() != before {
                        self.fire("stale listing");
                    }
                }
                _ => {}
            }
        }
        if self.io.order != 0 {
            let mut r = Rng::new(self.io.order);
            r.shuffle(&mut names);
            self.fire("listing reordered");
            if !local {
                for _ in 0..self.io.dup {
                    if names.is_empty() {
                        break;
                    }
                    let n = r.pick(&names).clone();
                    let at = r.below(names.len() as u64 + 1) as usize;
                    names.insert(at, n);
                    self.fire("name listed twice");
                }
            }
        }
        self.listed = Some(names.clone());
        Ok((names, mid))
    }

    /// Decides a question about a file's attributes.
    pub fn stat(&mut self) -> Option<i32> {
        let nth = self.nstat;
        self.nstat += 1;
        let e = self.io.faults.iter().find_map(|f| match f.k {
            Fk::Stat(e) if f.nth as usize % 16 == nth % 16 => Some(e),
            _ => None,
        });
        if e.is_some() {
            self.fire("stat error");
            self.stat_fault = true;
        }
        e
    }

    /// Decides an open.
    pub fn open(&mut self, name: &[u8]) -> Result<Stream, i32> {
        let nth = self.nopen;
        self.nopen += 1;
        let faults: Vec<Fk> = self.io.faults.iter().filter(|f| f.nth as usize == nth).map(|f| f.k.clone()).collect();
        for f in &faults {
            if let Fk::World(n) = f {
                self.fire("writer ran between two opens");
                for _ in 0..*n {
                    self.world.micro();
                }
            }
            if let Fk::Vanish = f {
                if self.world.files.contains_key(name) {
                    self.fire("file deleted before open");
                    self.world.remove(name);
                }
            }
        }
        let file = self.world.files.get(name).cloned();
        let mut rec = OpenRec { name: name.to_vec(), file: file.clone(), hard: false, eof_at: None, flipped: false, eintr: false, read: 0, errs: vec![], refused: false };
        for f in &faults {
            if let Fk::Open(e) = f {
                rec.hard = true;
                rec.errs.push(*e);
                rec.refused = true;
                self.opens.push(rec);
                self.fire("open error");
                return Err(*e);
            }
        }
        let file = match file {
            Some(f) => f,
            None => {
                rec.errs.push(libc::ENOENT);
                rec.refused = true;
                self.opens.push(rec);
                return Err(libc::ENOENT);
            }
        };
        if self.opens.len() > 5000 {
            self.hung = true;
        }
        rec.hard = false;
        self.opens.push(rec);
        let seed = mix(self.io.order ^ (nth as u64) << 32 ^ self.io.chunk as u64 ^ file.data.len() as u64);
        opened(1);
        Ok(Stream {
            rec: self.opens.len() - 1,
            data: file.data,
            pos: 0,
            faults,
            chunk: self.io.chunk,
            rng: Rng::new(seed),
            calls: 0,
            after_eof: 0,
            dead: None,
            eintr_flip: false,
        })
    }

    /// Whether another call is to be made before this read.
    pub fn pauses(&mut self, s: &mut Stream) -> bool {
        let total = s.data.len();
        match s.faults.iter().position(|f| matches!(f, Fk::Yield(p) if p.at(total) <= s.pos)) {
            Some(i) => {
                s.faults.remove(i);
                true
            }
            None => false,
        }
    }

    /// Decides one read of at most `len` bytes.
    pub fn read(&mut self, s: &mut Stream, len: usize) -> Decision {
        s.calls += 1;
        // the record may belong to an earlier operation (a stream kept open); then it is gone
        let ri = s.rec;
        if let Some(e) = s.dead {
            return Decision::Err(e);
        }
        let total = s.data.len();
        let mut limit = total;
        let just = std::mem::replace(&mut s.eintr_flip, false);
        for i in 0..s.faults.len() {
            match s.faults[i].clone() {
                Fk::Eof(p) => limit = limit.min(p.at(total)),
                Fk::Eintr(n) => {
                    // never twice in a row: an interrupted call is retried by its caller
                    if s.calls % (n.max(1) as u64) == 0 && !just {
                        s.eintr_flip = true;
                        s.calls -= 1;
                        self.fire("EINTR");
                        if let Some(r) = self.opens.get_mut(ri) {
                            r.eintr = true;
                            r.errs.push(libc::EINTR);
                        }
                        return Decision::Err(libc::EINTR);
                    }
                }
                _ => {}
            }
        }
        let mut n = len.min(limit.saturating_sub(s.pos));
        match s.chunk {
            0 => {}
            255 => n = n.min(1 + s.rng.below(700) as usize),
            c => n = n.min(c as usize * if total > 20000 { 64 } else { 1 }),
        }
        for i in 0..s.faults.len() {
            if let Fk::Read { at, errno, sticky } = s.faults[i].clone() {
                let a = at.at(total);
                if a >= s.pos && a < s.pos + n.max(1) && a <= limit {
                    if a > s.pos {
                        n = a - s.pos;
                    } else {
                        self.fire("read error");
                        if let Some(r) = self.opens.get_mut(ri) {
                            r.hard = true;
                            r.errs.push(errno);
                        }
                        if sticky {
                            s.dead = Some(errno);
                        } else {
                            s.faults.remove(i);
                        }
                        return Decision::Err(errno);
                    }
                }
            }
        }
        if n < len && n > 0 && s.pos + n < limit {
            self.fire("short read");
        }
        let mut out = s.data[s.pos..s.pos + n].to_vec();
        for i in 0..s.faults.len() {
            if let Fk::Flip(p, bit) = s.faults[i] {
                if total > 0 {
                    let a = p.at(total).min(total - 1);
                    if a >= s.pos && a < s.pos + n {
                        out[a - s.pos] ^= 1 << (bit % 8);
                        self.fire("bit flipped in transit");
                        if let Some(r) = self.opens.get_mut(ri) {
                            r.flipped = true;
                        }
                    }
                }
            }
        }
        s.pos += n;
        if n == 0 && len > 0 {
            s.after_eof += 1;
            if limit < total {
                if s.after_eof == 1 {
                    self.fire("early end of stream");
                }
                if let Some(r) = self.opens.get_mut(ri) {
                    r.eof_at = Some(limit);
                }
            }
            if s.after_eof > 20_000 {
                self.hung = true;
            }
        }
        if s.calls > 40 * (total as u64 + 20_000) {
            self.hung = true;
        }
        if self.hung {
            // break out of an endless loop; the operation is reported as hung
            s.dead = Some(libc::EIO);
        }
        self.bytes += n as u64;
        if let Some(r) = self.opens.get_mut(ri) {
            r.read += n as u64;
        }
        Decision::Data(out)
    }
}

pub struct SimBackend;

impl ruplicity::Backend for SimBackend {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = SimStream;

    fn file_names(&self) -> io::Result<Vec<OsString>> {
        with(|e| e.list(false))
            .map(|(v, _)| v.into_iter().map(OsString::from_vec).collect())
            .map_err(io::Error::from_raw_os_error)
    }

    fn open_file(&self, name: &FsPath) -> io::Result<SimStream> {
        with(|e| e.open(name.as_os_str().as_bytes())).map(SimStream).map_err(io::Error::from_raw_os_error)
    }
}

pub struct SimStream(Stream);

impl io::Read for SimStream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        while with(|e| e.pauses(&mut self.0)) {
            crate::threads::pause();
        }
        match with(|e| e.read(&mut self.0, buf.len())) {
            Decision::Err(e) => Err(io::Error::from_raw_os_error(e)),
            Decision::Data(d) => {
                buf[..d.len()].copy_from_slice(&d);
                Ok(d.len())
            }
        }
    }
}
