//! The simulated source tree, backup writer and storage.
use crate::enc::*;
use crate::plan::*;
use crate::rng::{mix, Rng};
use std::collections::{BTreeMap, VecDeque};
use std::sync::Arc as Rc;

pub type Path = Vec<Vec<u8>>;
pub type Tree = BTreeMap<Path, Node>;

#[derive(Debug)]
pub struct SigTruth {
    pub ents: Vec<SigEnt>,
    pub bounds: Vec<Bound>,
    pub tar: Rc<Vec<u8>>,
    pub gz: bool,
    pub gpg: bool,
    /// the source tree at that moment
    pub tree: Rc<Tree>,
    pub start: i64,
    pub end: i64,
}

#[derive(Debug)]
pub struct ManTruth {
    pub host: Vec<u8>,
    pub dir: Vec<u8>,
    pub vols: Vec<VolT>,
    pub head: usize,
    pub ends: Vec<usize>,
    /// path -> first and last volume holding part of it
    pub where_: Vec<(Path, usize, usize)>,
    pub gpg: bool,
}

#[derive(Clone, Debug)]
pub enum Truth {
    Sig(Rc<SigTruth>),
    Man(Rc<ManTruth>),
    Other,
}

#[derive(Clone, Debug)]
pub struct SFile {
    pub data: Rc<Vec<u8>>,
    pub full: Rc<Vec<u8>>,
    pub truth: Truth,
    pub ver: u64,
    pub dir: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum State {
    Intact,
    Cut(usize),
    Altered,
}

/// What is left of a manifest after changes to whole lines.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Text {
    /// only its line ends are others
    Crlf,
    /// whole lines are missing, doubled or misplaced: it is no manifest any more
    Broken,
    Odd,
}

pub fn crlf(d: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(d.len() + 64);
    for b in d {
        if *b == b'\n' {
            o.push(b'\r');
        }
        o.push(*b);
    }
    o
}

impl SFile {
    /// For a changed manifest.
    pub fn text(&self) -> Text {
        if self.data[..] == crlf(&self.full)[..] {
            return Text::Crlf;
        }
        let had: std::collections::HashSet<&[u8]> = self.full.split_inclusive(|b| *b == b'\n').collect();
        let mut want = 0;
        let mut vol = 0u64;
        for l in self.data.split_inclusive(|b| *b == b'\n') {
            if !had.contains(l) || l.last() != Some(&b'\n') || l.len() < 2 {
                return Text::Odd;
            }
        }
        for l in self.data.split_inclusive(|b| *b == b'\n') {
            let l = String::from_utf8_lossy(l);
            let mut w = l.split_ascii_whitespace();
            let kw = w.next().unwrap_or("").to_string();
            let order = ["Hostname", "Localdir", "Volume", "StartingPath", "EndingPath", "Hash"];
            if kw != order[want] {
                return Text::Broken;
            }
            if want == 2 {
                vol += 1;
                if w.next() != Some(&format!("{}:", vol)) {
                    return Text::Broken;
                }
            }
            want = if want == 5 { 2 } else { want + 1 };
        }
        if want != 2 {
            return Text::Broken;
        }
        Text::Odd
    }

    pub fn state(&self) -> State {
        if Rc::ptr_eq(&self.data, &self.full) || self.data == self.full {
            State::Intact
        } else if self.data.len() < self.full.len() && self.full[..self.data.len()] == self.data[..] {
            State::Cut(self.data.len())
        } else {
            State::Altered
        }
    }
}

enum Micro {
    /// grow to this length (creating the file if needed)
    Grow(Vec<u8>, usize),
    Delete(Vec<u8>),
    Rename(Vec<u8>, Vec<u8>),
}

struct Job {
    full: bool,
    start: i64,
    end: i64,
    tree: Rc<Tree>,
    proto: BTreeMap<Vec<u8>, (Rc<Vec<u8>>, Truth)>,
    steps: VecDeque<Micro>,
    touched: Vec<Vec<u8>>,
    cap: u32,
    quirk: u8,
}

#[derive(Clone)]
struct SetW {
    end: i64,
    tree: Rc<Tree>,
}

pub struct World {
    pub cfg: Cfg,
    pub tree: Tree,
    pub now: i64,
    pub files: BTreeMap<Vec<u8>, SFile>,
    ver: u64,
    /// finished runs as the writer remembers them, by chain
    chains: Vec<(i64, Vec<SetW>)>,
    job: Option<Job>,
    stopped: Option<(bool, i64, i64, Rc<Tree>)>,
    /// the settings of the last run, which a resumed one keeps
    last_conf: Option<crate::plan::Conf>,
    runs: u64,
    pub stat_runs: u64,
    pub stat_crash: u64,
    pub stat_lost: u64,
    pub stat_torn: u64,
    pub stat_resume: u64,
    pub stat_prune: u64,
    pub stat_clean: u64,
    /// names whose on-disk mirror is out of date
    pub dirty: Vec<Vec<u8>>,
    /// another machine's: its users have other names
    pub alt: bool,
}

pub fn split(p: &B) -> Path {
    if p.0.is_empty() {
        return vec![];
    }
    p.0.split(|b| *b == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect()
}

impl World {
    pub fn new(cfg: &Cfg) -> World {
        let mut tree = Tree::new();
        tree.insert(vec![], Node { t: b'5', size: 0, seed: 0, mode: 0o755, mtime: (cfg.clock.max(1000) - 500) as u64, uid: 0, gid: 0, link: None });
        World {
            cfg: cfg.clone(),
            tree,
            now: cfg.clock,
            files: BTreeMap::new(),
            ver: 0,
            chains: vec![],
            job: None,
            stopped: None,
            last_conf: None,
            runs: 0,
            stat_runs: 0,
            stat_crash: 0,
            stat_lost: 0,
            stat_torn: 0,
            stat_resume: 0,
            stat_prune: 0,
            stat_clean: 0,
            dirty: vec![],
            alt: false,
        }
    }

    pub fn mutate(&mut self, op: &TreeOp) {
        match op {
            TreeOp::Put { path, node } => {
                let p = split(path);
                if p.iter().any(|c| c == b"." || c == b"..") {
                    return;
                }
                let mut node = node.clone();
                if p.is_empty() {
                    node.t = b'5';
                    node.link = None;
                    node.size = 0;
                }
                // parents become directories
                for i in 0..p.len() {
                    let par = p[..i].to_vec();
                    let is_dir = self.tree.get(&par).map_or(false, |n| n.t == b'5');
                    if !is_dir {
                        let mut d = node.clone();
                        d.t = b'5';
                        d.size = 0;
                        d.link = None;
                        d.mode = 0o755;
                        self.tree.insert(par, d);
                    }
                }
                if node.t != b'5' {
                    self.remove_below(&p);
                }
                self.tree.insert(p, node);
            }
            TreeOp::Del { path } => {
                let p = split(path);
                if !p.is_empty() {
                    self.remove_below(&p);
                    self.tree.remove(&p);
                }
            }
        }
    }

    fn remove_below(&mut self, p: &Path) {
        let kill: Vec<Path> = self.tree.range(p.clone()..).take_while(|(k, _)| k.starts_with(p)).map(|(k, _)| k.clone()).filter(|k| k != p).collect();
        for k in kill {
            self.tree.remove(&k);
        }
    }

    fn cased(&self, s: String) -> Vec<u8> {
        match self.cfg.case {
            1 => s.to_ascii_lowercase(),
            2 => s.to_ascii_uppercase(),
            _ => s,
        }
        .into_bytes()
    }

    fn base(full: bool, start: i64, end: i64, sig: bool) -> String {
        match (full, sig) {
            (true, false) => format!("duplicity-full.{}", stamp(end)),
            (true, true) => format!("duplicity-full-signatures.{}", stamp(end)),
            (false, false) => format!("duplicity-inc.{}.to.{}", stamp(start), stamp(end)),
            (false, true) => format!("duplicity-new-signatures.{}.to.{}", stamp(start), stamp(end)),
        }
    }

    fn user(&self, id: u32, group: bool) -> String {
        let renames = self.cfg.seed & 3 == 3;
        if id == 0 {
            return "root".into();
        }
        if id % 7 == 3 {
            return String::new();
        }
        let e = if renames { self.runs / 2 } else { 0 };
        // names of directory services: not ASCII, or longer than the field of the header
        let stem = match (id % 7, group) {
            (5, false) => "bj\u{f6}rn",
            (5, true) => "\u{43b}\u{44e}\u{434}\u{438}",
            (6, false) => "example-department\\a.rather.long.name",
            (6, true) => "domain users of the whole company",
            (_, false) if self.alt => "own",
            (_, false) => "usr",
            (_, true) => "grp",
        };
        if e > 0 {
            format!("{}{}r{}", stem, id, e)
        } else {
            format!("{}{}", stem, id)
        }
    }

    fn node_truth(&self, p: &[Vec<u8>], n: &Node) -> NodeT {
        let reg = n.t == b'0';
        // only PAX has room for longer names than the header's field
        let nl = p.iter().any(|c| c.contains(&b'\n')) || n.link.as_ref().map_or(false, |l| l.0.contains(&b'\n'));
        let fit = |mut s: String| {
            if self.cfg.tarfmt != 2 || nl {
                let mut k = s.len().min(32);
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                s.truncate(k);
            }
            s
        };
        NodeT {
            t: n.t,
            size: if reg { n.size } else { 0 },
            blk: block_len(n.size),
            mode: n.mode,
            mtime: n.mtime,
            uid: n.uid,
            gid: n.gid,
            uname: fit(self.user(n.uid, false)),
            gname: fit(self.user(n.gid, true)),
            link: if matches!(n.t, b'1' | b'2') { n.link.as_ref().map(|b| b.0.clone()) } else { None },
            seed: n.seed,
        }
    }

    pub fn busy(&self) -> bool {
        self.job.is_some()
    }

    pub fn begin(&mut self, run: Run, cap: u32, quirk: u8) {
        if self.job.is_some() {
            return;
        }
        let now = self.cfg.conf();
        if run == Run::Resume && self.stopped.is_some() {
            if let Some(c) = self.last_conf.clone() {
                self.cfg.set(&c);
            }
        }
        self.last_conf = Some(self.cfg.conf());
        self.begin_run(run, cap, quirk);
        self.cfg.set(&now);
    }

    fn begin_run(&mut self, run: Run, cap: u32, quirk: u8) {
        self.now += 1;
        self.runs += 1;
        let (full, start, end, parent) = match run {
            Run::Resume if self.stopped.is_some() => {
                let (f, s, e, p) = self.stopped.clone().unwrap();
                self.stat_resume += 1;
                (f, s, e, p)
            }
            Run::Inc if self.chains.last().map_or(false, |c| !c.1.is_empty()) => {
                let last = self.chains.last().unwrap().1.last().unwrap().clone();
                (false, last.end, self.now, last.tree)
            }
            Run::Older(k) if self.chains.len() > 1 => {
                let c = &self.chains[self.chains.len() - 2 - k as usize % (self.chains.len() - 1)];
                let last = c.1.last().unwrap().clone();
                (false, last.end, self.now, last.tree)
            }
            Run::Older(_) if self.chains.len() == 1 => {
                let last = self.chains[0].1.last().unwrap().clone();
                (false, last.end, self.now, last.tree)
            }
            _ => (true, self.now, self.now, Rc::new(Tree::new())),
        };
        self.stopped = None;
        self.stat_runs += 1;
        let tree = Rc::new(self.tree.clone());
        // the differences, in path order
        let mut ents: Vec<SigEnt> = Vec::new();
        for (p, n) in tree.iter() {
            if parent.get(p) != Some(n) {
                ents.push(SigEnt { path: p.clone(), node: Some(self.node_truth(p, n)) });
            }
        }
        for p in parent.keys() {
            if !tree.contains_key(p) {
                ents.push(SigEnt { path: p.clone(), node: None });
            }
        }
        ents.sort_by(|a, b| a.path.cmp(&b.path));

        // volumes: units are chunks of a file; every entry has at least one
        let unit = 65536u64;
        let mul = self.cfg.blocks.max(1) as usize;
        let cap = cap.max(1) as u64;
        let mut vols: Vec<VolT> = vec![];
        let mut wh: Vec<(Path, usize, usize)> = vec![];
        let mut used = 0u64;
        let mut open: Option<VolT> = None;
        for e in &ents {
            let chunks = match &e.node {
                Some(n) if n.t == b'0' => 1 + (n.size / unit).min(self.cfg.chunks as u64),
                _ => 1,
            };
            let mut first = 0;
            for c in 0..chunks {
                if used >= cap {
                    let mut v = open.take().unwrap();
                    if c > 0 {
                        v.end_block = Some((c as usize - 1) * mul);
                    }
                    vols.push(v);
                    used = 0;
                }
                if open.is_none() {
                    let sb = if c > 0 && quirk & 1 == 0 { Some(c as usize * mul) } else { None };
                    open = Some(VolT { start: e.path.clone(), start_block: sb, end: e.path.clone(), end_block: None, htype: "SHA1", hash: vec![] });
                }
                let v = open.as_mut().unwrap();
                v.end = e.path.clone();
                // duplicity also gives the block when a many-block file happens to end here
                v.end_block = if quirk & 2 != 0 && chunks > 1 { Some(c as usize * mul) } else { None };
                if c == 0 {
                    first = vols.len() + 1;
                }
                used += 1;
            }
            wh.push((e.path.clone(), first, vols.len() + 1));
        }
        if let Some(v) = open {
            vols.push(v);
        }
        let mut r = Rng::new(mix(self.cfg.seed ^ end as u64) ^ ents.len() as u64);
        for v in vols.iter_mut() {
            let (t, n) = [("SHA1", 20), ("MD5", 16), ("SHA256", 32), ("SHA512", 64)][self.cfg.hash as usize % 4];
            v.htype = t;
            v.hash = (0..n).map(|_| r.next() as u8).collect();
        }
        let (text, head, ends) = manifest_text(&self.cfg.host.0, &self.cfg.dir.0, &vols);
        let man = Truth::Man(Rc::new(ManTruth { host: self.cfg.host.0.clone(), dir: self.cfg.dir.0.clone(), vols: vols.clone(), head, ends: ends.clone(), where_: wh, gpg: self.cfg.gpg }));
        let (tar, bounds) = sig_tar(&ents, self.cfg.tarfmt);
        let tar = Rc::new(tar);
        let gz_ = self.cfg.gz && !self.cfg.gpg;
        let mk = |gz: bool, gpg: bool| {
            Truth::Sig(Rc::new(SigTruth { ents: ents.clone(), bounds: bounds.clone(), tar: tar.clone(), gz, gpg, tree: tree.clone(), start, end }))
        };
        let (zx, gx) = if self.cfg.short { (".z", ".g") } else { (".gz", ".gpg") };
        let ext = if self.cfg.gpg { gx } else if self.cfg.gz { zx } else { "" };
        let level = [6, 0, 1, 9][(self.cfg.seed >> 8) as usize % 4];
        let sig_bytes = if self.cfg.gpg {
            gpg(&tar, self.cfg.seed ^ end as u64)
        } else if gz_ {
            gz(&tar, level)
        } else {
            tar.to_vec()
        };
        let man_bytes = if self.cfg.gpg { gpg(&text, self.cfg.seed ^ end as u64 ^ 5) } else { text.clone() };

        let dbase = World::base(full, start, end, false);
        let sbase = World::base(full, start, end, true);
        let vname = |w: &World, i: usize| w.cased(format!("{}.vol{}.difftar{}", dbase, i + 1, ext));
        let mname = self.cased(format!("{}.manifest{}", dbase, if self.cfg.gpg { gx } else { "" }));
        let sname = self.cased(format!("{}.sigtar{}", sbase, ext));
        let mpart = self.cased(format!("{}.manifest.part", dbase));
        let spart = self.cased(format!("{}.sigtar.part", sbase));
        let mut proto: BTreeMap<Vec<u8>, (Rc<Vec<u8>>, Truth)> = BTreeMap::new();
        let mut steps = VecDeque::new();
        let part = self.cfg.part && !self.cfg.gpg;
        proto.insert(mname.clone(), (Rc::new(man_bytes), man.clone()));
        proto.insert(sname.clone(), (Rc::new(sig_bytes), mk(gz_, self.cfg.gpg)));
        if part {
            proto.insert(mpart.clone(), (Rc::new(text.clone()), man.clone()));
            proto.insert(spart.clone(), (tar.clone(), mk(false, false)));
            steps.push_back(Micro::Grow(spart.clone(), 0));
            steps.push_back(Micro::Grow(mpart.clone(), head));
        }
        let grow = |steps: &mut VecDeque<Micro>, r: &mut Rng, name: &[u8], len: usize, atomic: bool| {
            if !atomic {
                steps.push_back(Micro::Grow(name.to_vec(), 0));
                let mut cuts: Vec<usize> = (0..r.below(4)).map(|_| r.below(len as u64 + 1) as usize).collect();
                cuts.sort();
                for c in cuts {
                    steps.push_back(Micro::Grow(name.to_vec(), c));
                }
            }
            steps.push_back(Micro::Grow(name.to_vec(), len));
        };
        for i in 0..vols.len() {
            let n = vname(self, i);
            let body: Vec<u8> = (0..20 + r.below(60)).map(|_| r.next() as u8).collect();
            let len = body.len();
            proto.insert(n.clone(), (Rc::new(body), Truth::Other));
            grow(&mut steps, &mut r, &n, len, self.cfg.atomic);
            if part {
                let upto = tar.len() * (i + 1) / vols.len();
                let at = if r.chance(1, 2) { upto / 512 * 512 } else { upto };
                steps.push_back(Micro::Grow(spart.clone(), at));
                if !self.cfg.atomic {
                    let a = if i == 0 { head } else { ends[i - 1] };
                    steps.push_back(Micro::Grow(mpart.clone(), a + r.below((ends[i] - a) as u64) as usize));
                }
                steps.push_back(Micro::Grow(mpart.clone(), ends[i]));
            }
        }
        let slen = proto[&sname].0.len();
        grow(&mut steps, &mut r, &sname, slen, self.cfg.atomic);
        if part {
            steps.push_back(Micro::Delete(spart));
            if r.chance(1, 2) {
                steps.push_back(Micro::Rename(mpart, mname));
            } else {
                // a storage that cannot rename
                let mlen = proto[&mname].0.len();
                grow(&mut steps, &mut r, &mname, mlen, self.cfg.atomic);
                steps.push_back(Micro::Delete(mpart));
            }
        } else {
            let mlen = proto[&mname].0.len();
            grow(&mut steps, &mut r, &mname, mlen, self.cfg.atomic);
        }
        self.job = Some(Job { full, start, end, tree, proto, steps, touched: vec![], cap: cap as u32, quirk });
        let _ = (self.job.as_ref().unwrap().cap, self.job.as_ref().unwrap().quirk);
        // the parent tree is needed again if this run has to be resumed
        self.stopped = Some((full, start, end, parent));
    }

    /// One storage operation of the running backup.
    pub fn micro(&mut self) -> bool {
        let mut job = match self.job.take() {
            Some(j) => j,
            None => return false,
        };
        if let Some(m) = job.steps.pop_front() {
            match m {
                Micro::Grow(name, len) => {
                    let (full, truth) = job.proto[&name].clone();
                    let data = if len >= full.len() { full.clone() } else { Rc::new(full[..len].to_vec()) };
                    if job.touched.last() != Some(&name) {
                        job.touched.push(name.clone());
                    }
                    self.put(name, data, full, truth);
                }
                Micro::Delete(name) => self.remove(&name),
                Micro::Rename(a, b) => {
                    if let Some(f) = self.files.remove(&a) {
                        self.dirty.push(a);
                        let (full, truth) = job.proto[&b].clone();
                        self.put(b, f.data, full, truth);
                    }
                }
            }
        }
        if job.steps.is_empty() {
            let set = SetW { end: job.end, tree: job.tree.clone() };
            if job.full {
                self.chains.push((job.end, vec![set]));
            } else if let Some(c) = self.chains.iter_mut().find(|c| c.1.last().map_or(false, |s| s.end == job.start)) {
                c.1.push(set);
            }
            self.stopped = None;
            false
        } else {
            self.job = Some(job);
            true
        }
    }

    pub fn finish(&mut self) {
        while self.job.is_some() {
            self.micro();
        }
    }

    fn put(&mut self, name: Vec<u8>, data: Rc<Vec<u8>>, full: Rc<Vec<u8>>, truth: Truth) {
        self.ver += 1;
        self.dirty.push(name.clone());
        self.files.insert(name, SFile { data, full, truth, ver: self.ver, dir: false });
    }

    pub fn remove(&mut self, name: &[u8]) {
        if self.files.remove(name).is_some() {
            self.dirty.push(name.to_vec());
        }
    }

    pub fn set_data(&mut self, name: &[u8], data: Vec<u8>) {
        self.ver += 1;
        let v = self.ver;
        if let Some(f) = self.files.get_mut(name) {
            f.data = Rc::new(data);
            f.ver = v;
            self.dirty.push(name.to_vec());
        }
    }

    /// The machine stops: the run ends, unsynced files may be lost and the open one torn.
    pub fn crash(&mut self, lose: u8, torn: Pos) {
        let job = match self.job.take() {
            Some(j) => j,
            None => return,
        };
        self.stat_crash += 1;
        if !self.cfg.atomic {
            if let Some(last) = job.touched.last() {
                if let Some(f) = self.files.get(last) {
                    if f.state() != State::Intact && !f.data.is_empty() {
                        let n = torn.at(f.data.len());
                        let d = f.data[..n].to_vec();
                        self.set_data(last, d);
                        self.stat_torn += 1;
                    }
                }
            }
        }
        for name in job.touched.iter().rev().take(lose as usize) {
            if self.files.contains_key(name) {
                self.remove(name);
                self.stat_lost += 1;
            }
        }
    }

    fn set_key(name: &[u8]) -> Option<(i64, i64, bool)> {
        crate::model::parse_name(name).clear().map(|i| (i.start, i.end, i.full))
    }

    /// Removes the files of runs that never finished; `n` bounds the deletions (a crash in between).
    pub fn cleanup(&mut self, n: u32) {
        if self.job.is_some() {
            return;
        }
        let ok: Vec<(i64, i64, bool)> = self.chains.iter().flat_map(|c| {
            let mut prev = c.0;
            c.1.iter().enumerate().map(move |(i, s)| { let k = (if i == 0 { s.end } else { prev }, s.end, i == 0); prev = s.end; k }).collect::<Vec<_>>()
        }).collect();
        let kill: Vec<Vec<u8>> = self.files.keys().filter(|k| World::set_key(k).map_or(false, |s| !ok.contains(&s))).cloned().collect();
        let mut done = 0;
        for k in kill {
            if done >= n {
                break;
            }
            self.remove(&k);
            done += 1;
        }
        if done > 0 {
            self.stat_clean += 1;
        }
        if done < n {
            self.stopped = None;
        }
    }

    /// Removes all chains but the newest `keep`; the seed may stop it half way.
    pub fn prune(&mut self, keep: u8, seed: u32) {
        if self.job.is_some() || self.chains.len() <= keep.max(1) as usize {
            return;
        }
        let n = self.chains.len() - keep.max(1) as usize;
        let mut kill: Vec<Vec<u8>> = vec![];
        for c in &self.chains[..n] {
            // the sets of the chain, tries that were given up among them
            for k in self.files.keys() {
                if let Some((s, e, full)) = World::set_key(k) {
                    if if full { s == c.0 } else { c.1.iter().any(|x| x.end == s || x.end == e) } {
                        kill.push(k.clone());
                    }
                }
            }
        }
        let mut r = Rng::new(seed as u64);
        if r.chance(1, 2) {
            r.shuffle(&mut kill);
        }
        let stop = if r.chance(1, 2) { kill.len() } else { r.below(kill.len() as u64 + 1) as usize };
        for k in &kill[..stop] {
            self.remove(k);
        }
        if stop > 0 {
            self.stat_prune += 1;
        }
        self.chains.drain(..n);
    }

    pub fn junk(&mut self, name: &B, content: &B) {
        if name.0.is_empty() || self.cfg.local && name.0.contains(&b'/') || name.0.contains(&0) || name.0.len() > 250 || name.0 == b"." || name.0 == b".." {
            return;
        }
        // many files of another program
        let crowd = std::str::from_utf8(&content.0).ok().and_then(|s| s.strip_prefix("<crowd ")?.strip_suffix('>')?.parse::<u32>().ok());
        if let Some(n) = crowd.filter(|n| *n <= 100_000) {
            for i in 0..n {
                let n = [&name.0[..name.0.len().min(200)], format!(".{}", i).as_bytes()].concat();
                if !self.files.contains_key(&n) {
                    let d = Rc::new(vec![]);
                    self.put(n, d.clone(), d, Truth::Other);
                }
            }
            return;
        }
        if self.files.contains_key(&name.0) {
            return;
        }
        let mut d = Rc::new(content.0.clone());
        let dir = content.0 == b"<dir>";
        // a file too big to be written down in a plan
        let big = std::str::from_utf8(&content.0).ok().and_then(|s| s.strip_prefix("<big ")?.strip_suffix('>')?.parse::<u32>().ok());
        if let Some(n) = big.filter(|n| *n <= 1 << 28) {
            d = Rc::new((0..n).map(|i| (i.wrapping_mul(2_654_435_761) >> 24) as u8).collect());
        }
        self.put(name.0.clone(), d.clone(), d, Truth::Other);
        if dir {
            let f = self.files.get_mut(&name.0).unwrap();
            f.dir = true;
        }
    }

    pub fn pick(&self, n: u16) -> Option<Vec<u8>> {
        if self.files.is_empty() {
            return None;
        }
        self.files.keys().nth(n as usize % self.files.len()).cloned()
    }

    /// Damages a stored file.  Returns what it did.
    pub fn harm(&mut self, file: u16, how: &Harm) -> Option<&'static str> {
        // spread the picks over signatures and manifests more than over volumes
        let name = if file & 1 == 1 {
            let v: Vec<&Vec<u8>> = self.files.iter().filter(|(_, f)| !matches!(f.truth, Truth::Other)).map(|(k, _)| k).collect();
            if v.is_empty() {
                return None;
            }
            v[(file >> 1) as usize % v.len()].clone()
        } else {
            self.pick(file >> 1)?
        };
        let f = self.files[&name].clone();
        if f.dir {
            return None;
        }
        let mut d = f.data.to_vec();
        let kind;
        match how {
            Harm::Remove => {
                self.remove(&name);
                return Some("file lost");
            }
            Harm::Cut(p) => {
                kind = "file cut short";
                let n = p.at(d.len());
                d.truncate(n);
            }
            Harm::Flip(p, bit) => {
                kind = "bit flipped";
                if d.is_empty() {
                    return None;
                }
                let i = p.at(d.len()).min(d.len() - 1);
                d[i] ^= 1 << (bit % 8);
            }
            Harm::Zero(p) => {
                kind = "zeroed block";
                let i = p.at(d.len()) / 512 * 512;
                let e = (i + 512).min(d.len());
                for b in &mut d[i.min(e)..e] {
                    *b = 0;
                }
            }
            Harm::Noise(p, n, s) => {
                kind = "noise";
                let i = p.at(d.len());
                let e = (i + *n as usize).min(d.len());
                let mut r = Rng::new(*s as u64);
                for b in &mut d[i..e] {
                    *b = r.next() as u8;
                }
            }
            Harm::Excise(p, n) => {
                kind = "bytes excised";
                let i = p.at(d.len());
                let e = (i + *n as usize).min(d.len());
                d.drain(i..e);
            }
            Harm::Repeat(p, n) => {
                kind = "bytes repeated";
                let i = p.at(d.len());
                let e = (i + *n as usize).min(d.len());
                let x = d[i..e].to_vec();
                for (k, b) in x.into_iter().enumerate() {
                    d.insert(i + k, b);
                }
            }
            Harm::Swap(o) => {
                kind = "file swapped";
                let other = self.pick(*o)?;
                d = self.files[&other].data.to_vec();
            }
            Harm::Append(b) => {
                kind = "bytes appended";
                d.extend_from_slice(&b.0);
            }
            Harm::Token(a, b) => {
                kind = "token replaced";
                let n = a.0.len();
                if n == 0 || d.len() < n {
                    return None;
                }
                let at = (0..=d.len() - n).find(|i| d[*i..*i + n] == a.0[..])?;
                let mut x = d[..at].to_vec();
                x.extend_from_slice(&b.0);
                x.extend_from_slice(&d[at + n..]);
                d = x;
            }
            Harm::Lines(op, i, j) => {
                kind = "lines moved";
                let l: Vec<Vec<u8>> = d.split_inclusive(|b| *b == b'\n').map(|x| x.to_vec()).collect();
                if l.is_empty() {
                    return None;
                }
                // single lines, or a volume's whole record
                let mut l: Vec<Vec<u8>> = if *op < 3 {
                    l
                } else if l.len() > 2 {
                    let head = l[..2].concat();
                    std::iter::once(head).chain(l[2..].chunks(4).map(|c| c.concat())).collect()
                } else {
                    return None;
                };
                let n = l.len() - (*op > 2) as usize;
                let a = l.len() - 1 - *i as usize % n;
                let b = l.len() - 1 - *j as usize % n;
                match op % 3 {
                    0 => l.swap(a, b),
                    1 => {
                        l.remove(a);
                    }
                    _ => {
                        let x = l[a].clone();
                        l.insert(b, x);
                    }
                }
                d = l.concat();
            }
            Harm::Crlf => {
                kind = "line ends converted";
                if !matches!(f.truth, Truth::Man(_)) {
                    return None;
                }
                d = crlf(&d);
            }
            Harm::Header(e, field, s) => {
                kind = "header field rewritten";
                let t = match &f.truth {
                    Truth::Sig(t) if !t.gpg && !t.bounds.is_empty() => t.clone(),
                    _ => return None,
                };
                let mut tar = t.tar.to_vec();
                let b = t.bounds[*e as usize % t.bounds.len()];
                let mut r = Rng::new(*s as u64);
                let at = if r.chance(1, 4) { b.start } else { b.head };
                let h = &mut tar[at..at + 512];
                let ranges = [(100, 8), (108, 8), (116, 8), (124, 12), (136, 12), (156, 1), (157, 100), (265, 32), (297, 32), (0, 100), (257, 8), (329, 8)];
                let (o, n) = ranges[*field as usize % ranges.len()];
                match r.below(6) {
                    0 => {
                        for x in &mut h[o..o + n] {
                            *x = r.next() as u8;
                        }
                    }
                    1 => {
                        for x in &mut h[o..o + n] {
                            *x = 0xff;
                        }
                    }
                    2 => {
                        for x in &mut h[o..o + n] {
                            *x = 0;
                        }
                        h[o] = 0x80;
                        h[o + n - 1] = r.next() as u8;
                    }
                    3 => {
                        for x in &mut h[o..o + n] {
                            *x = b'7';
                        }
                    }
                    4 => {
                        for x in &mut h[o..o + n] {
                            *x = 0;
                        }
                        if n >= 8 {
                            h[o] = 0x80;
                            h[o + n - 8..o + n].copy_from_slice(&(u64::MAX >> r.below(40)).to_be_bytes());
                            h[o] |= 0x80;
                        } else {
                            h[o] = *r.pick(b"01234567xgLKSDVMN\0");
                        }
                    }
                    _ => {
                        let i = r.below(n as u64) as usize;
                        h[o + i] = r.next() as u8;
                    }
                }
                fix_checksum(h);
                d = if t.gz { gz(&tar, 1) } else { tar };
            }
            Harm::SigHead(e, m, bl, ss) => {
                kind = "signature header rewritten";
                let t = match &f.truth {
                    Truth::Sig(t) if !t.gpg => t.clone(),
                    _ => return None,
                };
                let regs: Vec<Bound> = t.bounds.iter().cloned().filter(|b| b.data_end > b.head + 512).collect();
                if regs.is_empty() {
                    return None;
                }
                let b = regs[*e as usize % regs.len()];
                let mut tar = t.tar.to_vec();
                let o = b.head + 512;
                let mut v = vec![];
                v.extend_from_slice(&m.to_be_bytes());
                v.extend_from_slice(&bl.to_be_bytes());
                v.extend_from_slice(&ss.to_be_bytes());
                let n = 12.min(b.data_end - o);
                tar[o..o + n].copy_from_slice(&v[..n]);
                d = if t.gz { gz(&tar, 1) } else { tar };
            }
        }
        if d == *f.data {
            return None;
        }
        self.set_data(&name, d);
        Some(kind)
    }
}
