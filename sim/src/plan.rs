//! A plan is one fully resolved execution: configuration plus a list of steps.  It is what a seed
//! expands to, what is minimised, and what a replay file contains.
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Bytes, written in JSON as a string with %XX for everything that is not plain.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct B(pub Vec<u8>);

impl Serialize for B {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut o = String::new();
        for &b in &self.0 {
            if (b.is_ascii_graphic() || b == b' ') && b != b'%' {
                o.push(b as char);
            } else {
                o.push_str(&format!("%{:02x}", b));
            }
        }
        s.serialize_str(&o)
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let s = String::deserialize(d)?;
        let b = s.as_bytes();
        let mut o = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'%' && i + 2 < b.len() {
                o.push(u8::from_str_radix(&s[i + 1..i + 3], 16).map_err(serde::de::Error::custom)?);
                i += 3;
            } else {
                o.push(b[i]);
                i += 1;
            }
        }
        Ok(B(o))
    }
}

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Pos {
    /// fraction of the length, in 1/65536
    Frac(u16),
    /// bytes from the start
    Start(u32),
    /// bytes from the end
    End(u32),
    /// fraction of the length, rounded down to a tar block
    Blk(u16),
}
impl Pos {
    pub fn at(self, len: usize) -> usize {
        match self {
            Pos::Frac(f) => (len as u64 * f as u64 / 65536) as usize,
            Pos::Start(n) => (n as usize).min(len),
            Pos::End(n) => len.saturating_sub(n as usize),
            Pos::Blk(f) => (len as u64 * f as u64 / 65536) as usize / 512 * 512,
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    /// signatures are compressed
    pub gz: bool,
    /// everything is "encrypted" (opaque bytes, .gpg names)
    pub gpg: bool,
    /// uploads appear atomically
    pub atomic: bool,
    /// archive-directory style: `.part` files that grow, then are replaced by the final file
    pub part: bool,
    /// 0 as duplicity writes names, 1 lower case, 2 upper case
    pub case: u8,
    /// 0 GNU, 1 ustar, 2 PAX where the tar crate can read it, 3 PAX
    pub tarfmt: u8,
    /// readers use LocalBackend over a scratch directory
    pub local: bool,
    pub clock: i64,
    pub zone: u8,
    pub host: B,
    pub dir: B,
    /// the most chunks a file is divided into, and how many blocks each has
    #[serde(default = "twelve")]
    pub chunks: u16,
    #[serde(default = "one")]
    pub blocks: u32,
    /// which hash the volumes have
    #[serde(default)]
    pub hash: u8,
    /// names end in .z and .g instead of .gz and .gpg
    #[serde(default)]
    pub short: bool,
    /// (local) some of the directory's entries are symbolic links to the files
    #[serde(default)]
    pub links: bool,
    /// (local) how the directory is named and given to the backend
    #[serde(default)]
    pub base: u8,
}

/// What may differ from run to run of one backup.
#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Conf {
    pub gz: bool,
    pub gpg: bool,
    pub part: bool,
    pub case: u8,
    pub tarfmt: u8,
    pub short: bool,
    pub hash: u8,
    pub host: B,
    pub dir: B,
}

fn twelve() -> u16 {
    12
}
fn one() -> u32 {
    1
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Node {
    /// tar type byte: 0 file, 5 dir, 2 link, 6 fifo, 3 char device
    pub t: u8,
    #[serde(default)]
    pub size: u64,
    #[serde(default)]
    pub seed: u32,
    pub mode: u32,
    pub mtime: u64,
    pub uid: u32,
    pub gid: u32,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub link: Option<B>,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum TreeOp {
    Put { path: B, node: Node },
    Del { path: B },
}

#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Run {
    Full,
    Inc,
    /// continue the interrupted run with the same times
    Resume,
    /// an increment of an older chain: a machine that has not noticed the newer full backup
    Older(u8),
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Harm {
    Remove,
    Cut(Pos),
    Flip(Pos, u8),
    Zero(Pos),
    /// replace n bytes by seeded noise
    Noise(Pos, u16, u32),
    /// remove n bytes
    Excise(Pos, u16),
    /// duplicate n bytes
    Repeat(Pos, u16),
    /// overwrite with another stored file
    Swap(u16),
    Append(B),
    /// replace the first occurrence of a token by another (text files)
    Token(B, B),
    /// swap two lines / drop a line / duplicate a line
    Lines(u8, u16, u16),
    /// line ends become CR LF
    Crlf,
    /// rewrite a tar header field with a recomputed checksum: (entry, field, seed)
    Header(u16, u8, u32),
    /// overwrite the signature header (magic, block length, sum length) of an entry
    SigHead(u16, u32, u32, u32),
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Fk {
    /// listing fails at once
    List(i32),
    /// (local) the directory stream fails at this position
    ListMid(u16, i32),
    /// (local) asking for a file's attributes fails; `nth` counts these calls
    Stat(i32),
    /// listing misses some just written names (seed)
    ListStale(u8),
    Open(i32),
    /// the read that reaches this position fails; sticky: all later reads too
    Read { at: Pos, errno: i32, sticky: bool },
    /// every n-th read is interrupted first
    Eintr(u8),
    /// stream ends early
    Eof(Pos),
    Flip(Pos, u8),
    /// the running backup makes n storage operations just before this open
    World(u8),
    /// the file is deleted just before this open
    Vanish,
    /// when the stream gets here, another thread makes the call that is the next step of the plan
    Yield(Pos),
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Fault {
    /// which open of the operation (0 = first); ignored for listing faults
    pub nth: u8,
    pub k: Fk,
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq, Default)]
pub struct Io {
    /// seed of the listing order; 0 = sorted
    #[serde(default)]
    pub order: u64,
    /// number of repeated names in the listing
    #[serde(default)]
    pub dup: u8,
    /// 0 = as asked; 1..=250: at most n bytes per read; 255: seeded random
    #[serde(default)]
    pub chunk: u8,
    #[serde(default)]
    pub faults: Vec<Fault>,
}

/// One use of one of the iterators over a chain's snapshots.
#[derive(Clone, Copy, Serialize, Deserialize, Debug, PartialEq)]
pub enum Move {
    Start(u8),
    Next(u8),
    Nth(u8, u32),
    Len(u8),
    /// a plain adaptor on top: 0 enumerate, 1 skip, 2 step_by, 3 count, 4 last, 5 zip
    Via(u8, u8),
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub enum Step {
    // --- the source and the writer
    Mutate(Vec<TreeOp>),
    Tick(u32),
    Begin { run: Run, cap: u32, quirk: u8 },
    Write(u16),
    Finish,
    Crash { lose: u8, torn: Pos },
    Cleanup(u32),
    Prune { keep: u8, seed: u32 },
    /// an unrelated file appears
    Junk(B, B),
    Harm { file: u16, how: Harm },
    /// the later runs are made with other settings
    Conf(Conf),
    /// what follows is about the other of the two storages
    Storage(u8),
    // --- the readers
    Open { h: u8, io: Io },
    Walk { h: u8 },
    Iter { h: u8, slot: u8 },
    IterStep { slot: u8 },
    Entries { h: u8, snap: u16, hold: Option<u8>, io: Io },
    Manifest { h: u8, snap: u16, hold: Option<u8>, io: Io },
    Recheck { slot: u8 },
    /// advance a held iteration over the entries of a held result
    Drop { slot: u8 },
    Render { h: u8, snap: u16 },
    RenderAll { h: u8 },
    /// everything, fault free
    Audit { h: u8 },
    Close { h: u8 },
    /// compare the view under n seeded orders
    Permute { n: u8, seed: u64 },
    // --- clock
    Clock(i64),
    Zone(u8),
    Time { t: i64, slot: u8, local: bool },
    TimePrint { slot: u8 },
    /// timestamps as they may stand in file names
    Stamps(Vec<B>),
    /// from now on what is opened as `h` is used in this thread
    On { h: u8, k: u8 },
    // --- raw backend
    RawList { io: Io },
    RawRead { file: u16, io: Io },
    /// a signature chain is loaded directly and its snapshots stepped through by several iterators
    Chain { h: u8, chain: u16, moves: Vec<Move>, io: Io },
    /// one of the other iterators, stepped through
    Iterate { h: u8, what: u8, at: u16, moves: Vec<Move> },
    /// everything is opened, read and closed again, over and over, under the same faults
    Cycle { io: Io },
    /// something is printed into an output that has room for so much only, and may work again later
    Sink { h: u8, what: u8, at: u16, room: Vec<u32>, again: bool },
}

impl Cfg {
    pub fn conf(&self) -> Conf {
        Conf { gz: self.gz, gpg: self.gpg, part: self.part, case: self.case, tarfmt: self.tarfmt, short: self.short, hash: self.hash, host: self.host.clone(), dir: self.dir.clone() }
    }

    pub fn set(&mut self, c: &Conf) {
        let c = c.clone();
        self.gz = c.gz;
        self.gpg = c.gpg;
        self.part = c.part;
        self.case = c.case;
        self.tarfmt = c.tarfmt;
        self.short = c.short;
        self.hash = c.hash;
        self.host = c.host;
        self.dir = c.dir;
    }
}

impl Step {
    /// The backup a step is about.
    pub fn handle(&self) -> Option<u8> {
        match self {
            Step::Open { h, .. } | Step::Walk { h } | Step::Iter { h, .. } | Step::Entries { h, .. } | Step::Manifest { h, .. } | Step::Render { h, .. } | Step::RenderAll { h } | Step::Audit { h } | Step::Close { h } | Step::Chain { h, .. } | Step::Iterate { h, .. } | Step::Sink { h, .. } | Step::On { h, .. } => Some(*h),
            _ => None,
        }
    }
}

#[derive(Clone, Serialize, Deserialize, Debug, PartialEq)]
pub struct Plan {
    pub cfg: Cfg,
    pub steps: Vec<Step>,
}
