#![allow(dead_code, unused_imports, unused_variables, unused_mut)]
extern crate flate2;
extern crate ruplicity;
extern crate tar;
extern crate time;

use ruplicity::backend::local::LocalBackend;
use ruplicity::manifest::Manifest;
use ruplicity::timefmt::{parse_time_str, TimeDisplay};
use ruplicity::{Backend, Backup};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::ffi::OsString;
use std::io::{self, Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::Path;
use std::rc::Rc;

/// A storage in memory: names in listing order, and what every name holds.
#[derive(Clone, Default)]
struct Store {
    names: Rc<RefCell<Vec<Vec<u8>>>>,
    files: Rc<RefCell<BTreeMap<Vec<u8>, Vec<u8>>>>,
    opens: Rc<RefCell<Vec<String>>>,
    /// (open number, position) -> error kind
    fail: Rc<RefCell<Option<(usize, usize, io::ErrorKind)>>>,
    chunk: Rc<Cell<usize>>,
}

struct Stream {
    data: Vec<u8>,
    pos: usize,
    fail: Option<(usize, io::ErrorKind)>,
    chunk: usize,
}

impl Read for Stream {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut n = buf.len().min(self.data.len() - self.pos);
        if self.chunk > 0 {
            n = n.min(self.chunk);
        }
        if let Some((at, kind)) = self.fail {
            if self.pos >= at {
                self.fail = None;
                return Err(io::Error::new(kind, "injected"));
            }
            n = n.min(at - self.pos);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

impl Backend for Store {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = Stream;
    fn file_names(&self) -> io::Result<Vec<OsString>> {
        Ok(self.names.borrow().iter().map(|n| OsString::from_vec(n.clone())).collect())
    }
    fn open_file(&self, name: &Path) -> io::Result<Stream> {
        let nth = self.opens.borrow().len();
        self.opens.borrow_mut().push(name.to_string_lossy().into_owned());
        let data = self.files.borrow().get(name.as_os_str().as_bytes()).cloned();
        let data = data.ok_or_else(|| io::Error::new(io::ErrorKind::NotFound, "no such file"))?;
        let fail = match *self.fail.borrow() {
            Some((n, at, kind)) if n == nth => Some((at, kind)),
            _ => None,
        };
        Ok(Stream { data, pos: 0, fail, chunk: self.chunk.get() })
    }
}

impl Store {
    fn put(&self, name: &str, data: Vec<u8>) {
        self.names.borrow_mut().push(name.as_bytes().to_vec());
        self.files.borrow_mut().insert(name.as_bytes().to_vec(), data);
    }
    fn open(&self) -> Backup<Store> {
        Backup::new(self.clone()).unwrap()
    }
}

#[derive(Clone)]
struct E {
    path: &'static [u8],
    data: Vec<u8>,
    t: u8,
    mode: u32,
    mtime: u64,
    uid: u64,
    gid: u64,
    user: &'static str,
    link: Option<&'static [u8]>,
}

fn e(path: &'static [u8]) -> E {
    E { path, data: vec![], t: b'5', mode: 0o644, mtime: 1_400_000_000, uid: 1, gid: 1, user: "u", link: None }
}
fn file(path: &'static [u8], mode: u32, mtime: u64) -> E {
    // an rdiff signature: magic, block length, sum length, one block
    let mut data = vec![0x72, 0x73, 1, 0x36, 0, 0, 2, 0, 0, 0, 0, 8];
    data.extend_from_slice(&[7; 12]);
    E { data, t: b'0', mode, mtime, ..e(path) }
}

fn sigtar(ents: &[E]) -> Vec<u8> {
    let mut b = tar::Builder::new(Vec::new());
    for x in ents {
        let mut h = tar::Header::new_gnu();
        h.as_mut_bytes()[..x.path.len()].copy_from_slice(x.path);
        h.set_size(x.data.len() as u64);
        h.set_mode(x.mode);
        h.set_mtime(x.mtime);
        h.set_uid(x.uid);
        h.set_gid(x.gid);
        h.set_username(x.user).unwrap();
        h.set_groupname(x.user).unwrap();
        h.set_entry_type(tar::EntryType::new(x.t));
        if let Some(l) = x.link {
            h.as_mut_bytes()[157..157 + l.len()].copy_from_slice(l);
        }
        h.set_cksum();
        b.append(&h, &x.data[..]).unwrap();
    }
    b.into_inner().unwrap()
}

fn gz(data: &[u8]) -> Vec<u8> {
    let mut w = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::default());
    w.write_all(data).unwrap();
    w.finish().unwrap()
}

const T: [&str; 6] = ["20150101T000000Z", "20150102T000000Z", "20150103T000000Z", "20150104T000000Z", "20150105T000000Z", "20150106T000000Z"];

fn full(s: &Store, a: usize) {
    s.put(&format!("duplicity-full.{}.manifest", T[a]), manifest(&[(b"a", b"z")]));
    s.put(&format!("duplicity-full.{}.vol1.difftar.gz", T[a]), vec![]);
}
fn inc(s: &Store, a: usize, b: usize) {
    s.put(&format!("duplicity-inc.{}.to.{}.manifest", T[a], T[b]), manifest(&[(b"a", b"z")]));
    s.put(&format!("duplicity-inc.{}.to.{}.vol1.difftar.gz", T[a], T[b]), vec![]);
}
fn fsig(s: &Store, a: usize, ents: &[E]) {
    s.put(&format!("duplicity-full-signatures.{}.sigtar.gz", T[a]), gz(&sigtar(ents)));
}
fn isig(s: &Store, a: usize, b: usize, ents: &[E]) {
    s.put(&format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", T[a], T[b]), gz(&sigtar(ents)));
}

fn manifest(vols: &[(&[u8], &[u8])]) -> Vec<u8> {
    let mut m = b"Hostname host\nLocaldir /dir\n".to_vec();
    for (i, v) in vols.iter().enumerate() {
        m.extend_from_slice(format!("Volume {}:\n    StartingPath   ", i + 1).as_bytes());
        m.extend_from_slice(v.0);
        m.extend_from_slice(b"\n    EndingPath     ");
        m.extend_from_slice(v.1);
        m.extend_from_slice(b"\n    Hash SHA1 0a0b0c\n");
    }
    m
}

fn times(b: &Backup<Store>) -> Vec<(i64, bool, usize)> {
    b.snapshots().unwrap().into_iter().map(|s| (s.time().sec, s.is_full(), s.num_volumes())).collect()
}

/// path, mode and time of the entries of the n-th snapshot
fn rows(b: &Backup<Store>, n: usize) -> Vec<(String, u32, i64)> {
    let s = b.snapshots().unwrap().into_iter().nth(n).unwrap();
    let en = s.entries().unwrap();
    let r = en.as_signature().map(|e| (String::from_utf8_lossy(e.path_bytes()).into_owned(), e.mode().unwrap(), e.mtime().sec)).collect();
    r
}

fn sec(i: usize) -> i64 {
    parse_time_str(&T[i].to_lowercase()).unwrap().sec
}


/// The first signature chain, loaded on its own.
fn chain(s: &Store) -> ruplicity::signatures::Chain {
    let c = ruplicity::collections::Collections::from_filenames(s.file_names().unwrap());
    let sc = c.signature_chains().next().unwrap();
    ruplicity::signatures::Chain::from_sigchain(sc, s).unwrap()
}
