SIG, COL, FN, MAN, LIB, TF, LOC, RAW = ("src/signatures.rs", "src/collections/mod.rs", "src/collections/file_naming.rs",
    "src/manifest.rs", "src/lib.rs", "src/timefmt.rs", "src/backend/local.rs", "src/rawpath.rs")
BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

bug("c01-stop-at-odd-name", "C01", [(COL,
"        .filter_map(|path| path.as_ref().to_str())\n",
"        .map_while(|path| path.as_ref().to_str())\n")],
r'''
#[test]
fn order() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    s.names.borrow_mut().push(b"caf\xe9.txt".to_vec());
    let a = times(&s.open());
    s.names.borrow_mut().rotate_right(3);
    assert_eq!(a, times(&s.open()));
}
''', "a stored name that is not UTF-8, listed before some backup files",
"names listed after a name that is not UTF-8 are ignored, so the view depends on the listing order")

bug("c01-case-twins", "C01", [(COL,
"    let parser = FileNameParser::new();\n    let mut infos",
"    let parser = FileNameParser::new();\n    let mut seen = std::collections::HashSet::new();\n    let mut infos"),
(COL,
"            Some(info) => Some(FileNameInfo::new(name, info)),\n            None => None,\n",
"            Some(info) => {\n                // names are parsed ignoring the case\n                if seen.insert(name.to_ascii_lowercase()) {\n                    Some(FileNameInfo::new(name, info))\n                } else {\n                    None\n                }\n            }\n            None => None,\n")],
r'''
#[test]
fn order() {
    let s = Store::default();
    full(&s, 0);
    let low = format!("duplicity-full.{}.manifest", T[0]).to_lowercase();
    s.put(&low, vec![]);
    let m = |s: &Store| s.open().snapshots().unwrap().into_iter().next().unwrap().as_backup_set().manifest_path().to_owned();
    let a = m(&s);
    s.names.borrow_mut().reverse();
    assert_eq!(a, m(&s));
}
''', "two stored names that differ only in case",
"which of two names that differ only in case is shown depends on the order of the listing")

bug("c02-retry-end-time", "C02", [(COL,
"                if replace_last {\n                    self.end_time = end_time;\n",
"                if replace_last {\n")],
r'''
#[test]
fn retry() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1); // interrupted
    inc(&s, 0, 2); // retried
    inc(&s, 2, 3);
    assert_eq!(times(&s.open()).iter().map(|t| t.0).collect::<Vec<_>>(), [sec(0), sec(2), sec(3)]);
}
''', "an increment interrupted, retried, and another increment after the retry",
"the increments after a retried increment are not shown")

bug("c02-same-start", "C02", [(COL,
"                } => my_start == start_time && my_end == end_time,\n",
"                } => my_start == start_time && my_end <= end_time,\n")],
r'''
#[test]
fn retry() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1); // interrupted
    inc(&s, 0, 2);
    assert_eq!(times(&s.open()), [(sec(0), true, 1), (sec(2), false, 1)]);
}
''', "an interrupted increment and its retry from the same parent",
"the retry is merged into the interrupted attempt")

bug("c02-many-volumes", "C02", [(FN,
"fn get_vol_num(s: &str) -> Option<usize> {\n    s.parse::<usize>().ok()\n",
"fn get_vol_num(s: &str) -> Option<usize> {\n    s.parse::<u8>().ok().map(usize::from)\n")],
r'''
#[test]
fn volumes() {
    let s = Store::default();
    full(&s, 0);
    for i in 2..301 {
        s.put(&format!("duplicity-full.{}.vol{}.difftar.gz", T[0], i), vec![]);
    }
    assert_eq!(times(&s.open()), [(sec(0), true, 300)]);
}
''', "a snapshot with more than 255 volumes", "volumes after the 255th are not counted and have no path")

bug("c02-short-encrypted", "C02", [(FN,
'    s.ends_with(".gpg") || s.ends_with(".g")\n',
'    s.ends_with("tar.gpg") || s.ends_with(".g")\n')],
r'''
#[test]
fn encrypted() {
    let s = Store::default();
    s.put(&format!("duplicity-full.{}.manifest.gpg", T[0]), vec![]);
    let b = s.open();
    assert!(b.snapshots().unwrap().into_iter().next().unwrap().as_backup_set().is_encrypted());
}
''', "an encrypted snapshot of which only the manifest is stored", "an encrypted snapshot is not shown as encrypted")

bug("c03-same-mtime", "C03", [(SIG,
"                    path_snapshots.snapshots.push(new_snapshot);\n",
"""                    // do not store the same information twice
                    let unchanged = match (path_snapshots.snapshots.last(), &new_snapshot.info) {
                        (Some(PathSnapshot { info: Some(old), .. }), Some(new)) => {
                            old.mtime == new.mtime
                                && old.entry_type == new.entry_type
                                && old.size_hint == new.size_hint
                                && old.uid == new.uid
                                && old.mode == new.mode
                        }
                        _ => false,
                    };
                    if !unchanged {
                        path_snapshots.snapshots.push(new_snapshot);
                    }
""")],
r'''
#[test]
fn relinked() {
    let s = Store::default();
    let l = |to: &'static [u8]| E { t: b'2', link: Some(to), ..e(b"snapshot/l") };
    full(&s, 0);
    fsig(&s, 0, &[l(b"one")]);
    inc(&s, 0, 1);
    isig(&s, 0, 1, &[l(b"two")]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    let en = sn.entries().unwrap();
    let got: Vec<_> = en.as_signature().map(|e| e.linked_path().unwrap().to_owned()).collect();
    assert_eq!(got, [Path::new("two")]);
}
''', "a link retargeted (or a group changed) between two snapshots without a new modification time",
"the later snapshot shows the earlier link target")

bug("c03-size-hint-last-block", "C03", [(SIG,
"        let sign_block_len_bytes = 4 + ss_len;\n",
"        let sign_block_len_bytes = 4 + ss_len.min(8);\n")],
r'''
#[test]
fn md4() {
    let s = Store::default();
    full(&s, 0);
    let mut f = file(b"signature/a", 0o600, 5);
    f.data = vec![0x72, 0x73, 1, 0x36, 0, 0, 2, 0, 0, 0, 0, 16];
    f.data.extend_from_slice(&[7; 60]);
    fsig(&s, 0, &[f]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    let en = sn.entries().unwrap();
    let got: Vec<_> = en.as_signature().map(|e| e.size_hint()).collect();
    assert_eq!(got, [Some((1025, 1536))]);
}
''', "a signature with a sum length other than 8", "the size range does not contain the true size")

bug("c05-many-volumes", "C05", [(MAN,
"        let num = usize::from_str(&param)?;\n",
"        let num = usize::from(u8::from_str(&param)?);\n")],
r'''
#[test]
fn many() {
    let p: Vec<Vec<u8>> = (0..600).map(|i| format!("p{:04}", i).into_bytes()).collect();
    let v: Vec<(&[u8], &[u8])> = (0..300).map(|i| (&p[2 * i][..], &p[2 * i + 1][..])).collect();
    let m = manifest(&v);
    assert_eq!(Manifest::parse(&mut &m[..]).unwrap().last_volume_index(), 300);
}
''', "a snapshot with more than 255 volumes", "its manifest can't be read")

bug("c05-big-block", "C05", [(MAN,
"                Some(usize::from_str(s)?)\n",
"                u16::from_str(s).ok().map(usize::from)\n")],
r'''
#[test]
fn block() {
    let m = manifest(&[(b"a", b"big 70000"), (b"big 70001", b"z")]);
    let m = Manifest::parse(&mut &m[..]).unwrap();
    assert_eq!(m.volume(1).unwrap().end_block(), Some(70000));
}
''', "a file that spans volumes beyond block 65535", "the block number is dropped")

bug("c06-tolerate-truncation", "C06", [(SIG,
"        let result = {\n",
"        let result = match {\n"),
(SIG,
"                self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)\n            }\n        };\n",
"                self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)\n            }\n        } {\n            // interrupted backups may leave a signature without its end\n            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof && !self.files.is_empty() => Ok(()),\n            result => result,\n        };\n")],
r'''
#[test]
fn cut() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[file(b"signature/a", 0o600, 5)]);
    inc(&s, 0, 1);
    let all = gz(&sigtar(&[file(b"signature/a", 0o644, 6), file(b"signature/b", 0o600, 5)]));
    s.put(&format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", T[0], T[1]), all[..all.len() / 2].to_vec());
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    assert!(sn.entries().is_err());
}
''', "a compressed signature of an increment cut short", "a wrong listing instead of an error")

bug("c07-eintr", "C07", [(MAN,
"        let mut len = self.input.read_until(b'\\n', &mut self.buf)?;\n",
"""        let mut len = 0;
        loop {
            let (n, done) = {
                let chunk = self.input.fill_buf()?;
                match chunk.iter().position(|b| *b == b'\\n') {
                    Some(p) => {
                        self.buf.extend_from_slice(&chunk[..p + 1]);
                        (p + 1, true)
                    }
                    None => {
                        self.buf.extend_from_slice(chunk);
                        (chunk.len(), chunk.is_empty())
                    }
                }
            };
            self.input.consume(n);
            len += n;
            if done {
                break;
            }
        }
""")],
r'''
#[test]
fn eintr() {
    let s = Store::default();
    full(&s, 0);
    *s.fail.borrow_mut() = Some((0, 20, io::ErrorKind::Interrupted));
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    assert_eq!(sn.manifest().unwrap().last_volume_index(), 1);
}
''', "a read of the manifest interrupted by a signal", "the interruption is reported as a failure")

bug("c07-cut-hash", "C07", [(MAN,
"        check_eof!(self.read_line());\n        let (htype, h) = self.read_hash_param()?;\n",
"        // the hash is optional\n        let (htype, h) = if self.read_line()? {\n            self.read_hash_param()?\n        } else {\n            (String::new(), vec![])\n        };\n")],
r'''
#[test]
fn cut() {
    let m = manifest(&[(b"a", b"k"), (b"l", b"z")]);
    let end = m.windows(4).rposition(|w| w == b"    ").unwrap();
    match Manifest::parse(&mut &m[..end]) {
        Err(_) => (),
        Ok(m) => assert_eq!(m.last_volume_index(), 1),
    }
}
''', "a manifest cut exactly before the hash line of a volume", "a volume without its hash is reported as if it had been written so")

bug("c08-count-failed", "C08", [(SIG,
"        if result.is_ok() {\n",
"        if result.is_ok() || snapshot_id > 0 {\n")],
r'''
#[test]
fn again() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[file(b"signature/a", 0o600, 5)]);
    inc(&s, 0, 1);
    isig(&s, 0, 1, &[file(b"signature/b", 0o600, 5)]);
    *s.fail.borrow_mut() = Some((1, 30, io::ErrorKind::ConnectionReset));
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    let _ = sn.entries().is_err();
    let en = sn.entries().unwrap();
    assert_eq!(en.as_signature().count(), 2);
}
''', "reading an increment's signature fails once; the entries are asked for again", "the partial listing is remembered as the result")

bug("c09-short-escape", "C09", [(MAN,
"        } else if buf.len() - i >= 4 && buf[i + 1] == b'x' {\n",
"        } else if buf.len() - i > 2 && buf[i + 1] == b'x' {\n")],
r'''
#[test]
fn escape() {
    let m = manifest(&[(b"a", b"\"dir\\x4\"")]);
    let _ = Manifest::parse(&mut &m[..]);
}
''', "a damaged escape at the end of a quoted path in a manifest", "the parser panics")

bug("c09-volume-zero", "C09", [(MAN,
"            if i != volumes.len() + 1 {\n",
"            if i - 1 != volumes.len() {\n")],
r'''
#[test]
fn zero() {
    let m = String::from_utf8(manifest(&[(b"a", b"b")])).unwrap().replace("Volume 1:", "Volume 0:").into_bytes();
    assert!(Manifest::parse(&mut &m[..]).is_err());
}
''', "a damaged manifest with volume number zero", "the parser overflows")

bug("c09-empty-quote", "C09", [(MAN,
"        (Some(b'\"'), _) if buf.len() > 1 => &buf[1..buf.len() - 1],\n",
"        (Some(b'\"'), _) => &buf[1..buf.len() - 1],\n")],
r'''
#[test]
fn quote() {
    let m = manifest(&[(b"a", b"\" \"")]);
    let _ = Manifest::parse(&mut &m[..]);
}
''', "a damaged manifest where a path is a single quotation mark", "the parser panics")

bug("c10-evict", "C10", [(LIB,
"        Ok(self.manifests[id].borrow())\n    }\n}\n",
"""        let manifest = self.manifests[id].borrow();
        // keep in memory only the manifests of the last snapshots used
        if let Some(old) = id.checked_sub(3) {
            for m in &self.manifests[..old + 1] {
                m.borrow_mut().take();
            }
        }
        Ok(manifest)
    }
}
""")],
r'''
#[test]
fn held() {
    let s = Store::default();
    full(&s, 0);
    for i in 0..4 {
        inc(&s, i, i + 1);
    }
    let b = s.open();
    let sns: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let held = sns[0].manifest().unwrap();
    let other = sns[4].manifest().unwrap();
    assert_eq!(held.last_volume_index(), other.last_volume_index());
}
''', "the manifest of an early snapshot held while the one of a snapshot three or more later is asked for", "the second call panics")

bug("c11-slots", "C11", [(LIB,
"        let manifests = (0..collections.num_snapshots())\n",
"        // a few manifests are enough: they are shared\n        let manifests = (0..collections.num_snapshots().min(4))\n"),
(LIB, "        if self.manifests[id].borrow().is_none() {\n",
"        let id = id % self.manifests.len();\n        if self.manifests[id].borrow().is_none() || self.collections.num_snapshots() > self.manifests.len() {\n")],
r'''
#[test]
fn once() {
    let s = Store::default();
    full(&s, 0);
    for i in 0..4 {
        inc(&s, i, i + 1);
    }
    let b = s.open();
    for _ in 0..2 {
        for sn in b.snapshots().unwrap() {
            sn.manifest().unwrap();
        }
    }
    assert_eq!(s.opens.borrow().len(), 5);
}
''', "a backup with more than four snapshots, and a manifest asked for twice", "manifests are read again at every call")

bug("c12-part-fallback", "C12", [(LOC,
"        path.push(name);\n        File::open(path)\n",
"""        path.push(name);
        match File::open(&path) {
            Err(ref e) if e.kind() == io::ErrorKind::NotFound => {
                // the file may be still in progress
                let mut part = path.into_os_string();
                part.push(".part");
                File::open(part)
            }
            r => r,
        }
""")],
r'''
#[test]
fn gone() {
    let d = format!("/tmp/ruplicity-c12-part-{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(format!("{}/x.manifest.part", d), b"half").unwrap();
    let r = LocalBackend::new(&d).open_file(Path::new("x.manifest"));
    std::fs::remove_file(format!("{}/x.manifest.part", d)).unwrap();
    std::fs::remove_dir(&d).unwrap();
    assert!(r.is_err());
}
''', "a listed file that vanishes before it is opened while its .part file is there", "another file's bytes are delivered instead of the error")

bug("c12-trim-name", "C12", [(LOC,
"    fn open_file(&self, name: &Path) -> io::Result<File> {\n        let mut path = self.base_path.clone();\n        path.push(name);\n",
"    fn open_file(&self, name: &Path) -> io::Result<File> {\n        let mut path = self.base_path.clone();\n        path.push(name.to_string_lossy().trim_end());\n")],
r'''
#[test]
fn odd_names() {
    let d = format!("/tmp/ruplicity-c12-trim-{}", std::process::id());
    std::fs::create_dir_all(&d).unwrap();
    let p = Path::new(&d).join(OsString::from_vec(b"caf\xe9".to_vec()));
    std::fs::write(&p, b"x").unwrap();
    let b = LocalBackend::new(&d);
    let mut ok = true;
    for n in b.file_names().unwrap() {
        ok &= b.open_file(Path::new(&n)).is_ok();
    }
    std::fs::remove_file(&p).unwrap();
    std::fs::remove_dir(&d).unwrap();
    assert!(ok);
}
''', "a file name that is not UTF-8 or ends in a blank", "a listed name can't be opened, or another file is opened")

bug("c13-entry-utc", "C13", [(SIG,
"            self.mtime().into_local_display(),\n",
"            self.mtime().into_utc_display(),\n")],
r'''
#[test]
fn zone() {
    std::env::set_var("TZ", "AAA-5");
    let s = Store::default();
    full(&s, 0);
    // 1999-12-31 20:00 UTC is already January in the zone
    fsig(&s, 0, &[file(b"signature/a", 0o600, 946_670_400)]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    let t = format!("{}", sn.entries().unwrap());
    assert!(t.contains("Jan 01  2000"), "{}", t);
}
''', "a local time zone other than UTC", "times in printed listings are in the wrong zone")

bug("c13-future-mtime", "C13", [(SIG,
"        self.info.mtime\n",
"        // the clock of the source may have been wrong\n        let now = time::get_time();\n        if self.info.mtime.sec > now.sec + 100 * 365 * 86400 {\n            now\n        } else {\n            self.info.mtime\n        }\n")],
r'''
#[test]
fn future() {
    let s = Store::default();
    full(&s, 0);
    let t = time::get_time().sec as u64 + 150 * 365 * 86400;
    fsig(&s, 0, &[file(b"signature/a", 0o600, t)]);
    assert_eq!(rows(&s.open(), 0)[0].2, t as i64);
}
''', "a file whose modification time lies more than a hundred years after the reader's clock (the clock jumped back)", "the stored time is replaced by the current one")

bug("c14-in-place", "C14", [(SIG,
"                    path_snapshots.snapshots.push(new_snapshot);\n",
"""                    match path_snapshots.snapshots.last_mut() {
                        // the path is still deleted, or it has been only touched: no new version needed
                        Some(last)
                            if last.info.as_ref().map(|i| (i.mtime, i.entry_type, i.size_hint))
                                == new_snapshot
                                    .info
                                    .as_ref()
                                    .map(|i| (i.mtime, i.entry_type, i.size_hint)) =>
                        {
                            last.info = new_snapshot.info
                        }
                        _ => path_snapshots.snapshots.push(new_snapshot),
                    }
""")],
r'''
#[test]
fn chmod() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[file(b"signature/a", 0o600, 5)]);
    let before = rows(&s.open(), 0);
    inc(&s, 0, 1);
    isig(&s, 0, 1, &[file(b"signature/a", 0o644, 5)]);
    assert_eq!(before, rows(&s.open(), 0));
}
''', "a change of mode or owner without a new modification time in a later increment", "the earlier snapshot shows the later mode and owner")

bug("c14-recreated", "C14", [(SIG,
"                    path_snapshots.snapshots.push(new_snapshot);\n",
"""                    // a deletion undone at once is no change at all
                    let versions = &mut path_snapshots.snapshots;
                    if versions.last().map_or(false, |l| l.info.is_none()) {
                        versions.pop();
                    }
                    versions.push(new_snapshot);
""")],
r'''
#[test]
fn recreated() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[file(b"signature/a", 0o600, 5), file(b"signature/b", 0o600, 5)]);
    inc(&s, 0, 1);
    isig(&s, 0, 1, &[e(b"deleted/a")]);
    let before = rows(&s.open(), 1);
    inc(&s, 1, 2);
    isig(&s, 1, 2, &[file(b"signature/a", 0o644, 9)]);
    assert_eq!(before, rows(&s.open(), 1));
}
''', "a file deleted in one increment and created again in a later one", "the snapshot in which the file did not exist shows it after the later run")


bug("c04-empty-increment", "C04", [(SIG,
"        if result.is_ok() {\n            // add to the list of snapshots only if everything is ok\n",
"        // an interrupted run could leave an empty signature: nothing changed\n        let unchanged = snapshot_id > 0\n            && result.as_ref().err().map_or(false, |e| e.kind() == io::ErrorKind::UnexpectedEof)\n            && !self.files.iter().any(|f| f.snapshots.iter().any(|s| s.index == snapshot_id));\n        if result.is_ok() || unchanged {\n            // add to the list of snapshots only if everything is ok\n"),
(SIG, "            self.ug_map = ug_map;\n        }\n        result\n", "            self.ug_map = ug_map;\n        }\n        if unchanged {\n            return Ok(());\n        }\n        result\n")],
r'''
#[test]
fn empty() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    fsig(&s, 0, &[e(b"snapshot/"), file(b"signature/f", 0o644, 1)]);
    s.put(&format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", T[0], T[1]), vec![]);
    let b = s.open();
    let v: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    assert!(v[0].entries().is_ok());
    assert!(v[1].entries().is_err());
}
''', "a crash that leaves the compressed signature of an increment empty (or cut before its first header is complete)",
"the increment is shown with the files of the snapshot before it")

bug("c06-wouldblock-eof", "C06", [(SIG,
"                self.add_sigtar_to_snapshots(tar::Archive::new(file), snapshot_id)\n",
"                self.add_sigtar_to_snapshots(tar::Archive::new(Polled(file)), snapshot_id)\n"),
(SIG, "impl Chain {\n    /// Builds a new", """// Some remote streams report that no more data is available instead of the end of the file.
struct Polled<R>(R);

impl<R: Read> Read for Polled<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        match self.0.read(buf) {
            Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => Ok(0),
            r => r,
        }
    }
}

impl Chain {
    /// Builds a new""")],
r'''
#[test]
fn would_block() {
    let s = Store::default();
    full(&s, 0);
    let t = sigtar(&[e(b"snapshot/"), file(b"signature/f", 0o644, 1), file(b"signature/g", 0o644, 1)]);
    s.put(&format!("duplicity-full-signatures.{}.sigtar", T[0]), t);
    *s.fail.borrow_mut() = Some((0, 512, io::ErrorKind::WouldBlock));
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    if let Ok(en) = sn.entries() {
        assert_eq!(en.as_signature().count(), 3);
    };
}
''', "EAGAIN from the stream of an uncompressed signature, between two entries", "a shorter listing instead of the error")

bug("c05-dir-lossy", "C05", [(MAN,
'        let local_dir = RawPath::from_bytes(self.read_param_bytes("Localdir")?);\n',
'        let local_dir = self.read_param_bytes("Localdir")?;\n        let local_dir = RawPath::from_bytes(String::from_utf8_lossy(&local_dir).trim_end_matches(\'/\').into());\n')],
r'''
#[test]
fn dir() {
    use std::os::unix::ffi::OsStrExt;
    let m = b"Hostname h\nLocaldir \"/a\\xff\"\n";
    let m = Manifest::parse(&mut &m[..]).unwrap();
    assert_eq!(m.local_dir().unwrap().as_os_str().as_bytes(), b"/a\xff");
}
''', "a source directory whose name is not UTF-8, or the root directory", "the source directory is reported with other bytes")

bug("c02-gap", "C02", [(COL,
"            if self.end_time == start_time {\n",
"            if self.end_time == start_time || self.incsets.last().map_or(false, |l| l.end_time() < start_time) {\n")],
r'''
#[test]
fn gap() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    inc(&s, 2, 3); // 1 -> 2 is lost
    assert_eq!(times(&s.open()), [(sec(0), true, 1), (sec(1), false, 1)]);
}
''', "all files of an increment in the middle of a chain are lost", "increments after the gap are shown as part of the chain, although their parent is missing")

bug("c03-fast-append", "C03", [(SIG,
"            self.files.extend(new_files.into_iter());\n",
"""            // usually there is nothing to do: the new files come after the old ones
            let sorted = match (self.files.last(), new_files.first()) {
                (Some(old), Some(new)) => old.path < new.path,
                _ => true,
            };
            self.files.extend(new_files.into_iter());
            if sorted && self.files.windows(2).all(|w| w[0].path.as_bytes() < w[1].path.as_bytes()) {
                return Ok(());
            }
""")],
r'''
#[test]
fn append() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    fsig(&s, 0, &[e(b"snapshot/"), e(b"snapshot/a"), e(b"snapshot/a b")]);
    isig(&s, 0, 1, &[file(b"signature/a/x", 1, 1)]);
    let b = s.open();
    assert_eq!(rows(&b, 1).iter().map(|r| r.0.clone()).collect::<Vec<_>>(), ["", "a", "a/x", "a b"]);
}
''', "an increment that adds paths, where byte order and component order differ", "the entries are not in path order, and later increments miss their paths")

bug("c07-timeout", "C07", [(MAN,
"        if !self.read_line()? {\n            // EOF\n",
"        let more = match self.read_line() {\n            // remote streams may not tell their end\n            Err(ref e) if e.kind() == io::ErrorKind::TimedOut && self.buf.is_empty() => false,\n            more => more?,\n        };\n        if !more {\n            // EOF\n")],
r'''
#[test]
fn timeout() {
    let s = Store::default();
    full(&s, 0);
    let m = manifest(&[(b"a", b"c"), (b"d", b"f")]);
    s.files.borrow_mut().insert(format!("duplicity-full.{}.manifest", T[0]).into_bytes(), m.clone());
    for at in 0..m.len() {
        s.opens.borrow_mut().clear();
        *s.fail.borrow_mut() = Some((0, at, io::ErrorKind::TimedOut));
        let b = s.open();
        if let Ok(m) = b.snapshots().unwrap().into_iter().next().unwrap().manifest() {
            assert_eq!(m.last_volume_index(), 2, "{}", at);
        };
    }
}
''', "a time-out of the stream exactly between two volumes of a manifest", "a manifest with fewer volumes instead of the error")

bug("c07-no-dir", "C07", [(MAN,
'        check_eof!(self.read_line());\n        let local_dir = RawPath::from_bytes(self.read_param_bytes("Localdir")?);\n',
'        // optional\n        let local_dir = if self.read_line()? {\n            RawPath::from_bytes(self.read_param_bytes("Localdir")?)\n        } else {\n            RawPath::new()\n        };\n')],
r'''
#[test]
fn no_dir() {
    assert!(Manifest::parse(&mut &b"Hostname h\n"[..]).is_err());
    assert!(Manifest::parse(&mut &b"Hostname h\nLocaldir /\n"[..]).is_ok());
}
''', "a manifest cut exactly after its first line", "a manifest with an empty source directory instead of an error")

bug("c08-three-strikes", "C08", [(SIG,
"    num_snapshots: usize,\n    files: Vec<PathSnapshots>,\n", "    num_snapshots: usize,\n    // reads that failed\n    failures: usize,\n    files: Vec<PathSnapshots>,\n"),
(SIG, "            num_snapshots: 0,\n", "            num_snapshots: 0,\n            failures: 0,\n"),
(SIG, "        let snapshot_id = self.num_snapshots;\n        let ug_map", "        if self.failures > 2 {\n            return Err(io::Error::new(io::ErrorKind::Other, \"Too many failures\"));\n        }\n        let snapshot_id = self.num_snapshots;\n        let ug_map"),
(SIG, "        if result.is_ok() {\n            // add to the", "        if result.is_err() {\n            self.failures += 1;\n        }\n        if result.is_ok() && self.failures < 3 {\n            // add to the")],
r'''
#[test]
fn strikes() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"snapshot/"), file(b"signature/f", 0o644, 1)]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    for i in 0..4 {
        *s.fail.borrow_mut() = Some((i, 10, io::ErrorKind::Other));
        assert!(sn.entries().is_err());
    }
    *s.fail.borrow_mut() = None;
    assert_eq!(sn.entries().unwrap().as_signature().count(), 2);
}
''', "three failed reads of signatures of one chain", "the chain is never readable again on the same open backup")

bug("c10-one-cell", "C10", [(LIB, "    manifests: Vec<RefCell<Option<Manifest>>>,\n", "    manifests: Vec<RefCell<Option<Manifest>>>,\n    last_manifest: RefCell<usize>,\n"),
(LIB, "            manifests: manifests,\n", "            manifests: manifests,\n            last_manifest: RefCell::new(0),\n"),
(LIB, "        Ok(self.manifests[id].borrow())\n", "        // keep only a few manifests in memory\n        let last = self.last_manifest.replace(id);\n        if last + 2 < id {\n            *self.manifests[last].borrow_mut() = None;\n        }\n        Ok(self.manifests[id].borrow())\n")],
r'''
#[test]
fn held() {
    let s = Store::default();
    full(&s, 0);
    for i in 0..4 { inc(&s, i, i + 1); }
    let b = s.open();
    let v: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let m0 = v[0].manifest().unwrap();
    let m4 = v[4].manifest().unwrap();
    assert_eq!(m0.last_volume_index(), m4.last_volume_index());
}
''', "a manifest is held while one at least three snapshots later is asked for, right after it", "the call panics")

bug("c10-busy", "C10", [(LIB,
"            let result = Arc::make_mut(&mut chain).load(sigchain, &self.backend);\n",
"            let result = match Arc::get_mut(&mut chain) {\n                Some(chain) => chain.load(sigchain, &self.backend),\n                None => Err(io::Error::new(io::ErrorKind::WouldBlock, \"The signatures are in use\")),\n            };\n"),
(LIB, '    io::Error::new(io::ErrorKind::NotFound, msg)\n', '    io::Error::new(io::ErrorKind::NotFound, msg.to_owned())\n')],
r'''
#[test]
fn busy() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    fsig(&s, 0, &[e(b"snapshot/")]);
    isig(&s, 0, 1, &[file(b"signature/f", 0o644, 1)]);
    let b = s.open();
    let v: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    *s.fail.borrow_mut() = Some((1, 3, io::ErrorKind::Other));
    let e0 = v[0].entries().unwrap();
    *s.fail.borrow_mut() = None;
    let e1 = v[1].entries().unwrap();
    assert_eq!((e0.as_signature().count(), e1.as_signature().count()), (1, 2));
}
''', "entries held while a signature that failed before is read again", "asking for the entries fails only because others are held")

bug("c11-probe", "C11", [(LIB,
"        let collections = Collections::from_filenames(files);\n",
"        let collections = Collections::from_filenames(files);\n        // fail now if an interrupted backup can't be accessed\n        for chain in collections.backup_chains() {\n            for set in chain.inc_sets().filter(|s| s.is_partial()) {\n                backend.open_file(Path::new(set.manifest_path()))?;\n            }\n        }\n")],
r'''
#[test]
fn probe() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("duplicity-inc.{}.to.{}.manifest.part", T[0], T[1]), vec![]);
    s.put(&format!("duplicity-inc.{}.to.{}.vol1.difftar.gz", T[0], T[1]), vec![]);
    assert_eq!(times(&s.open()).len(), 2);
    assert!(s.opens.borrow().is_empty());
}
''', "an interrupted increment whose partial manifest is stored", "opening a backup opens a file, and fails if it can't")

bug("c11-empty-manifest", "C11", [(LIB,
"        if self.manifests[id].borrow().is_none() {\n",
"        let known = self.manifests[id].try_borrow().map_or(true, |m| {\n            // without volumes the backup could still be running\n            m.as_ref().map_or(false, |m| m.last_volume_index() > 0)\n        });\n        if !known {\n"),
(LIB, "        Ok(self.manifests[id].borrow())\n", "        let manifest = self.manifests[id].borrow();\n        Ok(manifest)\n")],
r'''
#[test]
fn empty() {
    let s = Store::default();
    full(&s, 0);
    s.files.borrow_mut().insert(format!("duplicity-full.{}.manifest", T[0]).into_bytes(), manifest(&[]));
    let b = s.open();
    for _ in 0..3 {
        b.snapshots().unwrap().into_iter().next().unwrap().manifest().unwrap();
    }
    assert_eq!(s.opens.borrow().len(), 1);
}
''', "the manifest of a run that was interrupted before its first volume, asked for twice", "the manifest is read again each time, and what it said can change")

bug("c12-links", "C12", [(LOC,
"            .map(|entry| entry.map(|e| e.file_name()))\n            .collect::<io::Result<Vec<_>>>()?;\n        Ok(FileNameIterator(names.into_iter()))\n",
"            // directories can't be backup files\n            .filter(|entry| entry.as_ref().ok().and_then(|e| e.file_type().ok()).map_or(true, |t| t.is_file()))\n            .map(|entry| entry.map(|e| e.file_name()))\n            .collect::<io::Result<Vec<_>>>()?;\n        Ok(FileNameIterator(names.into_iter()))\n"),
(LOC, "        let mut path = self.base_path.clone();\n        path.push(name);\n        File::open(path)\n", "        File::open(self.base_path.join(name))\n")],
r'''
#[test]
fn links() {
    let d = std::env::temp_dir().join(format!("ruplicity-links-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(d.join("data")).unwrap();
    std::fs::create_dir_all(d.join("b")).unwrap();
    let n = format!("duplicity-full.{}.vol1.difftar.gz", T[0]);
    std::fs::write(d.join("data/x"), b"x").unwrap();
    std::os::unix::fs::symlink("../data/x", d.join("b").join(&n)).unwrap();
    let l = LocalBackend::new(d.join("b")).file_names().unwrap().count();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(l, 1);
}
''', "a backup directory that holds symbolic links to the stored files", "links are not listed, so the backup is shown with files missing")

bug("c12-eintr-listing", "C12", [(LOC,
"            .map(|entry| entry.map(|e| e.file_name()))\n            .collect::<io::Result<Vec<_>>>()?;\n",
"            // interrupted and stale entries are not there any more\n            .filter(|entry| entry.as_ref().err().and_then(|e| e.raw_os_error()) != Some(116))\n            .map(|entry| entry.map(|e| e.file_name()))\n            .collect::<io::Result<Vec<_>>>()?;\n"),
(LOC, "            base_path: path.as_ref().to_path_buf(),\n", "            base_path: path.as_ref().to_owned(),\n")],
r'''
use std::os::raw::{c_int, c_void};
extern "C" { fn __errno_location() -> *mut c_int; fn dlsym(h: *mut c_void, n: *const u8) -> *mut c_void; }
static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(usize::MAX / 2);
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: *mut c_void) -> *mut c_void {
    if CALLS.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == 3 {
        *__errno_location() = 116;
        return std::ptr::null_mut();
    }
    let f: unsafe extern "C" fn(*mut c_void) -> *mut c_void = std::mem::transmute(dlsym(usize::MAX as *mut c_void, b"readdir64\0".as_ptr()));
    f(d)
}
#[test]
fn stale() {
    let d = std::env::temp_dir().join(format!("ruplicity-stale-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    for i in 0..6 { std::fs::write(d.join(format!("f{}", i)), b"x").unwrap(); }
    CALLS.store(0, std::sync::atomic::Ordering::SeqCst);
    let l = LocalBackend::new(&d).file_names().map(|l| l.count());
    CALLS.store(usize::MAX / 2, std::sync::atomic::Ordering::SeqCst);
    let _ = std::fs::remove_dir_all(&d);
    assert!(l.is_err(), "{:?}", l);
}
''', "ESTALE in the middle of a directory listing", "a listing with names missing instead of the error")

bug("c13-recent", "C13", [(TF,
"        if (self.now)().tm_year == self.tm.tm_year {\n",
"        // the year is clear for a time of the last hours\n        let now = (self.now)();\n        let age = now.to_timespec().sec - self.tm.to_timespec().sec;\n        if now.tm_year == self.tm.tm_year || (age >= 0 && age < 6 * 3600) {\n"),
(TF, "            // the year is the current, so print month, day, hour\n", "            // the year is the current one, so print month, day, hour\n")],
r'''
#[repr(C)] pub struct Tsp { s: i64, n: i64 }
static NOW: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1_420_074_000); // 2015-01-01T01:00Z
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut Tsp) -> i32 {
    (*t).s = NOW.load(std::sync::atomic::Ordering::SeqCst);
    (*t).n = 0;
    0
}
#[test]
fn recent() {
    let t = time::Timespec::new(1_420_066_800, 0);
    assert_eq!(format!("{}", t.into_utc_display()), "Dec 31  2014");
}
''', "a time at most six hours ago, printed just after new year", "last year's time is printed as if it were in the current year")

bug("c13-once", "C13", [(TF,
"            now: time::now,\n", "            now: now_local,\n"),
(TF, "impl Display for PrettyDisplay {\n", """/// The current time in the local time zone. The conversion is expensive, so do it once per minute.
fn now_local() -> Tm {
    use std::cell::Cell;
    thread_local!(static LAST: Cell<Option<Tm>> = Cell::new(None));
    LAST.with(|last| {
        let sec = time::get_time().sec;
        match last.get() {
            Some(tm) if sec <= tm.to_timespec().sec + 60 => tm,
            _ => {
                let tm = time::now();
                last.set(Some(tm));
                tm
            }
        }
    })
}

impl Display for PrettyDisplay {
"""), (TF, "    // the current time, in the same time zone\n    now: fn() -> Tm,\n", "    // the current time, in the time zone of `tm`\n    now: fn() -> Tm,\n"),
(TF, "            // the year is not the current, so print month, day, year\n", "            // otherwise print month, day, year\n")],
r'''
#[repr(C)] pub struct Tsp { s: i64, n: i64 }
static NOW: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(1_500_000_000);
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_c: i32, t: *mut Tsp) -> i32 {
    (*t).s = NOW.load(std::sync::atomic::Ordering::SeqCst);
    (*t).n = 0;
    0
}
#[test]
fn once() {
    let d = time::Timespec::new(1_400_000_000, 0).into_local_display();
    assert!(format!("{}", d).ends_with("2014"));
    NOW.store(1_400_100_000, std::sync::atomic::Ordering::SeqCst);
    assert!(!format!("{}", d).ends_with("2014"));
}
''', "the clock is set back to another year (or by more than the cache lasts) between two printed times", "times are printed as if the old year were still the current one")

bug("c09-sum-buffer", "C09", [(SIG,
"        // the remaining part of the file are blocks\n",
"        // the remaining part of the file are blocks: the first one must be readable\n        let mut block = vec![1u8; sign_block_len_bytes];\n        let _ = file.read(&mut block)?;\n")],
r'''
struct A;
unsafe impl std::alloc::GlobalAlloc for A {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 1 << 28 { std::process::exit(97) }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
#[test]
fn big() {
    // in another process: what it would do is to take all the memory
    if std::env::var("BIG").is_ok() {
        let s = Store::default();
        full(&s, 0);
        let mut f = file(b"signature/f", 0o644, 1);
        f.data[8..12].copy_from_slice(&[0x7f, 0xff, 0xff, 0xff]);
        fsig(&s, 0, &[e(b"snapshot/"), f]);
        let _ = s.open().snapshots().unwrap().into_iter().next().unwrap().entries();
        return;
    }
    let r = std::process::Command::new(std::env::current_exe().unwrap()).env("BIG", "1").arg("big").status().unwrap();
    assert_eq!(r.code(), Some(0));
}
''', "a stored signature whose header claims checksums of about two gigabytes", "the memory used is out of proportion to the data read")

bug("c09-volume-index", "C09", [(MAN,
"            if i != volumes.len() + 1 {\n                return Err(ParseError::OutOfOrderVolume(i));\n            }\n",
"            if i < volumes.len() + 1 {\n                return Err(ParseError::OutOfOrderVolume(i));\n            }\n            volumes.reserve(i - volumes.len());\n            if i > volumes.len() + 1 {\n                return Err(ParseError::OutOfOrderVolume(i));\n            }\n")],
r'''
#[test]
fn index() {
    let m = b"Hostname h\nLocaldir /\nVolume 18446744073709551615:\n    StartingPath   a\n    EndingPath   b\n    Hash SHA1 00\n";
    assert!(Manifest::parse(&mut &m[..]).is_err());
}
''', "a stored manifest with a huge volume number", "reading the manifest panics or exhausts the memory")

bug("c14-squash", "C14", [(SIG,
"                    path_snapshots.snapshots.push(new_snapshot);\n",
"                    path_snapshots.snapshots.push(new_snapshot);\n                    // files that always change take too much memory\n                    if path_snapshots.snapshots.len() > 6 {\n                        let first = path_snapshots.snapshots.remove(0);\n                        path_snapshots.snapshots[0].index = first.index;\n                    }\n")],
r'''
#[test]
fn squash() {
    let s = Store::default();
    let t = |i: usize| format!("201501{:02}T000000Z", i + 1);
    let f = |i: usize| [e(b"snapshot/"), file(b"signature/f", 0o644, 1000 + i as u64)];
    s.put(&format!("duplicity-full.{}.manifest", t(0)), vec![]);
    s.put(&format!("duplicity-full-signatures.{}.sigtar.gz", t(0)), gz(&sigtar(&f(0))));
    let before = rows(&s.open(), 0);
    for i in 1..8 {
        s.put(&format!("duplicity-inc.{}.to.{}.manifest", t(i - 1), t(i)), vec![]);
        s.put(&format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", t(i - 1), t(i)), gz(&sigtar(&f(i))));
    }
    assert_eq!(before, rows(&s.open(), 0));
}
''', "a path that changes in more than six snapshots of one chain", "further increments change what the earlier snapshots show")

BUGS[:] = [b for b in BUGS if b["id"] not in ("c02-gap", "c03-fast-append", "c10-one-cell", "c11-probe", "c14-squash")]

bug("c03-fast-append", "C03", [(SIG,
"            self.files.extend(new_files.into_iter());\n",
"            // usually there is nothing to do: the new files come after the old ones\n            let sorted = match (self.files.last(), new_files.first()) {\n                (Some(old), Some(new)) => old.path.as_bytes() < new.path.as_bytes(),\n                _ => true,\n            };\n            self.files.extend(new_files);\n            if sorted {\n                return Ok(());\n            }\n")],
r'''
#[test]
fn append() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    fsig(&s, 0, &[e(b"snapshot/"), e(b"snapshot/a"), e(b"snapshot/a b")]);
    isig(&s, 0, 1, &[file(b"signature/a/x", 1, 1)]);
    let b = s.open();
    assert_eq!(rows(&b, 1).iter().map(|r| r.0.clone()).collect::<Vec<_>>(), ["", "a", "a/x", "a b"]);
}
''', "an increment whose first new path comes after all the older ones in byte order but not in path order", "the entries are not in path order, and later increments miss their paths")

bug("c10-one-cell", "C10", [(LIB,
"    manifests: Vec<RefCell<Option<Manifest>>>,\n}\n\n/// Represents all",
"    manifests: Vec<RefCell<Option<Manifest>>>,\n    last_manifest: RefCell<usize>,\n}\n\n/// Represents all"),
(LIB,
"            manifests: manifests,\n",
"            manifests,\n            last_manifest: RefCell::new(0),\n"),
(LIB,
"        Ok(self.manifests[id].borrow())\n",
"        let manifest = self.manifests[id].borrow();\n        // keep only a few manifests in memory\n        let last = self.last_manifest.replace(id);\n        if last + 2 < id {\n            *self.manifests[last].borrow_mut() = None;\n        }\n        Ok(manifest)\n")],
r'''
#[test]
fn held() {
    let s = Store::default();
    full(&s, 0);
    for i in 0..4 { inc(&s, i, i + 1); }
    let b = s.open();
    let v: Vec<_> = b.snapshots().unwrap().into_iter().collect();
    let m0 = v[0].manifest().unwrap();
    let m4 = v[4].manifest().unwrap();
    assert_eq!(m0.last_volume_index(), m4.last_volume_index());
}
''', "a manifest is held while one at least three snapshots later is asked for, right after it", "the call panics")

bug("c11-probe", "C11", [(LIB,
"        let collections = Collections::from_filenames(files);\n        let signatures",
"        let collections = Collections::from_filenames(files.into_iter());\n        // fail now if an interrupted backup can't be accessed\n        for chain in collections.backup_chains() {\n            for set in chain.inc_sets().filter(|s| s.is_partial()) {\n                backend.open_file(Path::new(set.manifest_path()))?;\n            }\n        }\n        let signatures")],
r'''
#[test]
fn probe() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("duplicity-inc.{}.to.{}.manifest.part", T[0], T[1]), vec![]);
    s.put(&format!("duplicity-inc.{}.to.{}.vol1.difftar.gz", T[0], T[1]), vec![]);
    assert_eq!(times(&s.open()).len(), 2);
    assert!(s.opens.borrow().is_empty());
}
''', "an interrupted increment whose partial manifest is stored", "opening a backup opens a file, and fails if it can't")

bug("c14-squash", "C14", [(SIG,
"                    path_snapshots.snapshots.push(new_snapshot);\n",
"                    let states = &mut path_snapshots.snapshots;\n                    // files that always change take too much memory: merge the oldest states\n                    if states.len() >= 6 {\n                        let first = states.remove(0);\n                        states[0].index = first.index;\n                    }\n                    states.push(new_snapshot);\n")],
r'''
#[test]
fn squash() {
    let s = Store::default();
    let t = |i: usize| format!("201501{:02}T000000Z", i + 1);
    let f = |i: usize| [e(b"snapshot/"), file(b"signature/f", 0o644, 1000 + i as u64)];
    s.put(&format!("duplicity-full.{}.manifest", t(0)), vec![]);
    s.put(&format!("duplicity-full-signatures.{}.sigtar.gz", t(0)), gz(&sigtar(&f(0))));
    let before = rows(&s.open(), 0);
    for i in 1..8 {
        s.put(&format!("duplicity-inc.{}.to.{}.manifest", t(i - 1), t(i)), vec![]);
        s.put(&format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", t(i - 1), t(i)), gz(&sigtar(&f(i))));
    }
    assert_eq!(before, rows(&s.open(), 0));
}
''', "a path that changes in more than six snapshots of one chain", "further increments change what the earlier snapshots show")

bug("c16-restart", "C16", [(SIG,
"        if self.snapshot_id < self.chain.num_snapshots {\n            self.snapshot_id += 1;\n            Some(Snapshot {\n                chain: self.chain,\n                index: self.snapshot_id - 1,\n            })\n        } else {\n            None\n        }\n",
"        if self.snapshot_id == self.chain.num_snapshots {\n            // ready to be used again\n            self.snapshot_id = 0;\n            return None;\n        }\n        self.snapshot_id += 1;\n        Some(Snapshot {\n            chain: self.chain,\n            index: self.snapshot_id - 1,\n        })\n")],
r'''
#[test]
fn fused() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"snapshot/")]);
    let b = s.open();
    let c = chain(&s);
    let mut i = c.snapshots();
    assert!(i.next().is_some());
    assert!(i.next().is_none());
    assert!(i.next().is_none());
    assert_eq!(i.len(), 0);
}
''', "the iterator is used after it has ended", "the iterator starts again: it yields snapshots twice and its length is wrong after the end")

bug("c16-unchanged", "C16", [(SIG,
"        if self.snapshot_id < self.chain.num_snapshots {\n            self.snapshot_id += 1;\n",
"        while self.snapshot_id < self.chain.num_snapshots {\n            self.snapshot_id += 1;\n            let id = self.snapshot_id - 1;\n            // ignore the backups of an unchanged source\n            if id > 0 && !self.chain.files.iter().any(|f| f.snapshots.iter().any(|s| s.index == id)) {\n                continue;\n            }\n"),
(SIG,
"            Some(Snapshot {\n                chain: self.chain,\n                index: self.snapshot_id - 1,\n            })\n        } else {\n            None\n        }\n",
"            return Some(Snapshot {\n                chain: self.chain,\n                index: id,\n            });\n        }\n        None\n")],
r'''
#[test]
fn unchanged() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    inc(&s, 1, 2);
    fsig(&s, 0, &[e(b"snapshot/")]);
    isig(&s, 0, 1, &[]);
    isig(&s, 1, 2, &[e(b"snapshot/a")]);
    let c = chain(&s);
    assert_eq!(c.snapshots().len(), 3);
    assert_eq!(c.snapshots().count(), 3);
}
''', "an increment in which nothing changed", "the iterator yields fewer snapshots than it says, and skipping gives another one")

bug("c05-shared-cache", "C05", [(LIB,
"            *self.manifests[id].borrow_mut() = Some(manifest);\n",
"            LAST.with(|l| *l.borrow_mut() = Some((path.to_owned(), manifest.clone())));\n            *self.manifests[id].borrow_mut() = Some(manifest);\n"),
(LIB,
"            // compute manifest now\n",
"            // the same backup could have been opened again\n            if let Some((_, m)) = LAST.with(|l| l.borrow().clone()).filter(|l| l.0 == path) {\n                *self.manifests[id].borrow_mut() = Some(m);\n                return Ok(self.manifests[id].borrow());\n            }\n            // compute manifest now\n"),
(LIB,
"fn not_found(msg",
"thread_local! {\n    static LAST: RefCell<Option<(String, Manifest)>> = RefCell::new(None);\n}\n\nfn not_found(msg"),
(LIB,
"        Ok(self.manifests[id].borrow())\n",
"        Ok(Ref::map(self.manifests[id].borrow(), |m| m))\n"),
(MAN, "#[derive(Debug, Eq, PartialEq)]\npub struct Manifest {\n", "#[derive(Clone, Debug, Eq, PartialEq)]\npub struct Manifest {\n"),
(MAN, "#[derive(Debug, Eq, PartialEq)]\npub struct Volume {\n", "#[derive(Clone, Debug, Eq, PartialEq)]\npub struct Volume {\n"),
(MAN, "#[derive(Debug, Eq, PartialEq)]\nstruct PathBlock {\n", "#[derive(Clone, Debug, Eq, PartialEq)]\nstruct PathBlock {\n")],
r'''
#[test]
fn two() {
    let a = Store::default();
    full(&a, 0);
    let b = Store::default();
    b.put(&format!("duplicity-full.{}.manifest", T[0]), manifest(&[(b"k", b"l")]));
    for (s, want) in [(&a, &b"a"[..]), (&b, &b"k"[..])] {
        let x = s.open();
        let m = x.snapshots().unwrap().into_iter().next().unwrap().manifest().unwrap();
        assert_eq!(m.volume(1).unwrap().start_path_bytes(), want);
    }
}
''', "two backups with the same time in different places, or one whose manifest was written again, opened one after the other", "the manifest of the other backup is returned")

bug("c15-2100", "C15", [(TF,
'''    time::strptime(s, "%Y%m%dt%H%M%S%Z")
        .ok()
        .map(|tm| tm.to_timespec())
''',
'''    time::strptime(s, "%Y%m%dt%H%M%S%Z").ok().map(|tm| {
        // seconds since 1970, without the costs of a general conversion
        const DAYS: [i64; 12] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334];
        let y = tm.tm_year as i64 - 70;
        let leap = (y + 1) / 4 + if (y + 2) % 4 == 0 && tm.tm_mon > 1 { 1 } else { 0 };
        let days = y * 365 + leap + DAYS[tm.tm_mon as usize] + tm.tm_mday as i64 - 1;
        let secs = (tm.tm_hour as i64 * 60 + tm.tm_min as i64) * 60 + tm.tm_sec as i64;
        Timespec::new(days * 86400 + secs, 0)
    })
''')],
r'''
#[test]
fn century() {
    for (t, want) in [("20000229t000000z", 951_782_400i64), ("21000301t000000z", 4_107_542_400), ("21991231t235959z", 7_258_118_399)] {
        assert_eq!(parse_time_str(t).unwrap().sec, want);
    }
}
''', "a backup made after February 2100 (or before 1970)", "the time of the snapshot is off by a day")

bug("c15-summer", "C15", [(TF,
'''        .map(|tm| tm.to_timespec())
''',
'''        .map(|tm| {
            // `strptime` knows nothing about daylight saving
            let time = tm.to_timespec();
            let isdst = time::at(time).tm_isdst;
            Timespec::new(time.sec - 3600 * if isdst > 0 { 1 } else { 0 }, 0)
        })
''')],
r'''
#[test]
fn summer() {
    std::env::set_var("TZ", "CET-1CEST,M3.5.0,M10.5.0/3");
    assert_eq!(parse_time_str("20150101t000000z").unwrap().sec, 1_420_070_400);
    assert_eq!(parse_time_str("20150701t000000z").unwrap().sec, 1_435_708_800);
}
''', "a reader in a zone with summer time and a backup made in summer", "the time of the snapshot is an hour early")

bug("c15-copies", "C15", [(FN,
'''r"^duplicity-full\\.(?P<time>.*?)\\.manifest(?P<partial>(\\.part))?($|\\.)"''',
'''r"^duplicity-full\\.(?P<time>[0-9]{8}t[0-9]{6}z).*\\.manifest(?P<partial>(\\.part))?($|\\.)"'''),
(FN,
'''r"^duplicity-full-signatures\\.(?P<time>.*?)\\.sigtar(?P<partial>(\\.part))?(\\.|$)"''',
'''r"^duplicity-full-signatures\\.(?P<time>[0-9]{8}t[0-9]{6}z).*\\.sigtar(?P<partial>(\\.part))?(\\.|$)"''')],
r'''
#[test]
fn copies() {
    let s = Store::default();
    s.put("duplicity-full.20150101T000000Z-conflict.manifest", manifest(&[(b"a", b"b")]));
    s.put("duplicity-full-signatures.20150101T000000Z (1).sigtar.gz", vec![]);
    assert_eq!(s.open().snapshots().unwrap().into_iter().count(), 0);
}
''', "copies left by another program whose names go on after the time", "they are taken for backup files")

bug("c18-last-volume", "C18", [(COL,
'''                .map(|i| i.volumes_paths.len())
                .fold(0, |a, i| a + i);
''',
'''                // the volumes are numbered
                .map(|i| i.volumes_paths.keys().last().cloned().unwrap_or(0))
                .fold(0, |a, i| a + i);
''')],
r'''
#[test]
fn missing_volume() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    s.put(&format!("duplicity-inc.{}.to.{}.vol3.difftar.gz", T[0], T[1]), vec![]);
    let t = format!("{}", s.open().snapshots().unwrap().as_collections());
    assert!(t.contains("volumes: 3"), "{}", t);
}
''', "an increment of which a volume is missing in the storage", "the printed total counts volumes that are not stored")

bug("c18-incomplete", "C18", [(COL,
'''        for inc in &self.incsets {
            write!(f, "{}\\n", inc)?;
        }
        Ok(())
    }
}

impl SignatureFile {''',
'''        for inc in self.incsets.iter().filter(|i| i.is_complete()) {
            write!(f, "{}\\n", inc)?;
        }
        Ok(())
    }
}

impl SignatureFile {''')],
r'''
#[test]
fn incomplete() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("duplicity-inc.{}.to.{}.vol1.difftar.gz", T[0], T[1]), vec![]);
    let t = format!("{}", s.open().snapshots().unwrap().as_collections());
    assert_eq!(t.matches("Incremental").count(), 1, "{}", t);
}
''', "an increment interrupted before its manifest was stored", "the row of the set is not printed")

bug("c18-row-utc", "C18", [(COL,
'''            format!("{}", self.end_time().into_local_display()),
            self.num_volumes()''',
'''            format!("{}", self.end_time().into_utc_display()),
            self.num_volumes()''')],
r'''
#[test]
fn zone() {
    std::env::set_var("TZ", "AAA-5");
    let s = Store::default();
    s.put("duplicity-full.20141231T220000Z.manifest", manifest(&[(b"a", b"b")]));
    let t = format!("{}", s.open().snapshots().unwrap().as_collections());
    assert_eq!(t.matches("Jan 01  2015").count(), 3, "{}", t);
}
''', "a time zone other than UTC", "the rows of the sets disagree with the chain's times")

bug("c02-chain-start", "C02", [(COL,
'''    backup_chains.sort_by(|a, b| a.end_time.cmp(&b.end_time));
''',
'''    backup_chains.sort_by(|a, b| a.start_time.cmp(&b.start_time));
''')],
r'''
#[test]
fn overlap() {
    // an increment of the first chain was made after the second full backup
    let s = Store::default();
    full(&s, 0);
    full(&s, 1);
    inc(&s, 0, 2);
    assert_eq!(times(&s.open()).iter().map(|t| t.0).collect::<Vec<_>>(), [sec(1), sec(0), sec(2)]);
}
''', "an increment of an older chain made after a newer full backup", "the chains come in the wrong order")

bug("c03-setuid", "C03", [(SIG,
'''                            mode: header.mode().ok(),
''',
'''                            // the remaining bits are the type in some archives
                            mode: header.mode().ok().map(|m| m & 0o777),
''')],
r'''
#[test]
fn setuid() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[file(b"signature/a", 0o4755, 5)]);
    assert_eq!(rows(&s.open(), 0)[0].1, 0o4755);
}
''', "a file with setuid, setgid or sticky bit", "the bits are missing in its mode")

bug("c03-prefix-delete", "C03", [(SIG,
'''                if let Some(path_snapshots) = position {
                    path_snapshots.snapshots.push(new_snapshot);
                } else {''',
'''                if let Some(path_snapshots) = position {
                    // with a directory everything in it is gone
                    let gone = new_snapshot.info.is_none();
                    let dir = path_snapshots.snapshots.last().map_or(false, |s| {
                        s.info.as_ref().map_or(false, |i| i.entry_type == b'5')
                    });
                    let snapshots = &mut path_snapshots.snapshots;
                    snapshots.push(new_snapshot);
                    let prefix = path_snapshots.path.as_bytes().to_vec();
                    while gone && dir && !prefix.is_empty() {
                        match old_snapshots.peek_mut() {
                            Some(p) if p.path.as_bytes().starts_with(&prefix) => {
                                if p.snapshots.last().map_or(false, |s| s.info.is_some()) {
                                    p.snapshots.push(PathSnapshot {
                                        info: None,
                                        index: snapshot_id,
                                    });
                                }
                            }
                            _ => break,
                        }
                        old_snapshots.next();
                    }
                } else {''')],
r'''
#[test]
fn sibling() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    fsig(&s, 0, &[e(b"snapshot/"), e(b"snapshot/a"), file(b"signature/ab", 0o600, 5)]);
    isig(&s, 0, 1, &[E { t: b'0', ..e(b"deleted/a") }]);
    assert_eq!(rows(&s.open(), 1).iter().map(|r| r.0.clone()).collect::<Vec<_>>(), ["", "ab"]);
}
''', "a directory deleted by an increment next to a path that begins with its name", "the neighbour is missing from the snapshot")

bug("c05-zero-hash", "C05", [(MAN,
'''    let mut res = Vec::with_capacity(s.len() / 2);
    let mut buf: u8 = 0;

    for (idx, byte) in s.iter().cloned().enumerate() {''',
'''    let mut res = Vec::with_capacity(s.len() / 2);
    let mut buf: u8 = 0;
    // the hash may be padded
    let pad = s.iter().take_while(|b| **b == b'0').count() / 2 * 2;

    for (idx, byte) in s[pad..].iter().cloned().enumerate() {''')],
r'''
#[test]
fn zero() {
    let m = "Hostname h\nLocaldir /d\nVolume 1:\n    StartingPath   a\n    EndingPath     b\n    Hash SHA1 000b0c\n";
    let m = Manifest::parse(&mut m.as_bytes()).unwrap();
    assert_eq!(m.volume(1).unwrap().hash(), [0, 11, 12]);
}
''', "a volume whose hash begins with a zero byte", "the hash is too short")

bug("c05-backslash", "C05", [(MAN,
'''        // otherwise ignore
        i += 1;
    }

    result''',
'''        // otherwise ignore
        i += 1;
    }
    if result.len() > 1 && result.ends_with(b"/") {
        // directories have no slash at the end elsewhere
        result.pop();
    }

    result'''),
(MAN,
'''        let local_dir = RawPath::from_bytes(self.read_param_bytes("Localdir")?);
''',
'''        let mut local_dir = self.read_param_bytes("Localdir")?;
        if local_dir.len() > 1 && local_dir.ends_with(b"\\\\") {
            local_dir.pop();
        }
        let local_dir = RawPath::from_bytes(local_dir);
''')],
r'''
#[test]
fn tail() {
    let m = "Hostname h\nLocaldir \"C:\\x5c\"\nVolume 1:\n    StartingPath   a\n    EndingPath     b\n    Hash SHA1 0b0c\n";
    let m = Manifest::parse(&mut m.as_bytes()).unwrap();
    assert_eq!(format!("{:?}", m.local_dir()), format!("{:?}", Some(Path::new("C:\\"))));
}
''', "a source directory whose name ends in a backslash", "the directory's name is cut")

bug("c12-no-hidden", "C12", [(LOC,
'''    fn next(&mut self) -> Option<OsString> {
''',
'''    fn next(&mut self) -> Option<Self::Item> {
        use std::os::unix::ffi::OsStrExt;
        // temporary files of an upload in progress
        while self.0.as_slice().first().map_or(false, |n| n.as_bytes().starts_with(b".")) {
            self.0.next();
        }
''')],
r'''
#[test]
fn hidden() {
    let d = std::env::temp_dir().join(format!("c12-no-hidden-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    for n in [".x", "y"] {
        std::fs::write(d.join(n), b"1").unwrap();
    }
    let mut l: Vec<_> = LocalBackend::new(&d).file_names().unwrap().collect();
    l.sort();
    for n in [".x", "y"] {
        std::fs::remove_file(d.join(n)).unwrap();
    }
    std::fs::remove_dir(&d).unwrap();
    assert_eq!(l, [".x", "y"]);
}
''', "an entry whose name begins with a dot", "the entry is not listed")

NEST = r'''
/// A storage that lets another backup be used in the middle of a read.
struct Nest<F: Fn()>(Store, Rc<F>);
struct NestStream<F: Fn()>(Stream, Rc<F>, usize);
impl<F: Fn()> Read for NestStream<F> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.2 += 1;
        if self.2 == 3 {
            (self.1)();
        }
        let n = buf.len().min(20);
        self.0.read(&mut buf[..n])
    }
}
impl<F: Fn()> Backend for Nest<F> {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = NestStream<F>;
    fn file_names(&self) -> io::Result<Vec<OsString>> {
        self.0.file_names()
    }
    fn open_file(&self, name: &Path) -> io::Result<NestStream<F>> {
        self.0.open_file(name).map(|s| NestStream(s, self.1.clone(), 0))
    }
}
'''

bug("c17-current-index", "C17", [(SIG,
'''                let new_snapshot = PathSnapshot {
                    info: info,
                    index: snapshot_id,
                };
''',
'''                let new_snapshot = PathSnapshot::current(info);
'''),
(SIG,
'''        let mut new_files: Vec<PathSnapshots> = Vec::new();
''',
'''        CURRENT.store(snapshot_id, std::sync::atomic::Ordering::SeqCst);
        let mut new_files: Vec<PathSnapshots> = Vec::new();
'''),
(SIG,
'''#[derive(Clone, Debug)]
struct PathInfo {
''',
'''/// The snapshot that is being loaded.
static CURRENT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl PathSnapshot {
    fn current(info: Option<PathInfo>) -> Self {
        PathSnapshot {
            info: info,
            index: CURRENT.load(std::sync::atomic::Ordering::SeqCst),
        }
    }
}

#[derive(Clone, Debug)]
struct PathInfo {
''')],
NEST + r'''
#[test]
fn nested() {
    let (a, b) = (Store::default(), Store::default());
    for s in [&a, &b] {
        full(s, 0);
        fsig(s, 0, &[e(b"signature/x")]);
        inc(s, 0, 1);
        isig(s, 0, 1, &[e(b"signature/y")]);
    }
    let other = b.open();
    let n = Nest(a, Rc::new(move || {
        rows(&other, 1);
    }));
    let b = Backup::new(n).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let en = s.entries().unwrap();
    assert_eq!(en.as_signature().count(), 1);
}
''', "the signatures of another backup are loaded in the middle of loading those of this one",
"entries are put into the snapshot that the other backup was loading")

bug("c17-one-at-a-time", "C17", [(SIG,
'''        let mut new_files: Vec<PathSnapshots> = Vec::new();
''',
'''        let (_turn, mut new_files) = (Turn::take()?, Vec::<PathSnapshots>::new());
'''),
(SIG,
'''#[derive(Clone, Debug)]
struct PathInfo {
''',
'''/// Loading signatures takes much memory: only one chain at a time is loaded.
struct Turn;
static LOADING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

impl Turn {
    fn take() -> io::Result<Self> {
        if LOADING.swap(true, std::sync::atomic::Ordering::SeqCst) {
            return Err(io::Error::new(io::ErrorKind::WouldBlock, "Another chain is being loaded"));
        }
        Ok(Turn)
    }
}

impl Drop for Turn {
    fn drop(&mut self) {
        LOADING.store(false, std::sync::atomic::Ordering::SeqCst);
    }
}

#[derive(Clone, Debug)]
struct PathInfo {
''')],
NEST + r'''
#[test]
fn nested() {
    let (a, b) = (Store::default(), Store::default());
    for s in [&a, &b] {
        full(s, 0);
        fsig(s, 0, &[e(b"signature/x")]);
    }
    let other = b.open();
    let n = Nest(a, Rc::new(move || assert_eq!(rows(&other, 0).len(), 1)));
    let b = Backup::new(n).unwrap();
    let s = b.snapshots().unwrap().into_iter().next().unwrap();
    let en = s.entries().unwrap();
    assert_eq!(en.as_signature().count(), 1);
}
''', "entries are asked for while another backup is loading its signatures", "the request is refused")

bug("c17-shared-names", "C17", [(SIG,
'''    pub fn add_user(&mut self, uid: u64, name: String) -> bool {
        self.uid_map.insert(uid, name).is_none()
    }
''',
'''    pub fn add_user(&mut self, uid: u64, name: String) -> bool {
        use std::sync::Mutex;
        // the same few names come over and over again
        static NAMES: Mutex<Vec<(u64, usize, String)>> = Mutex::new(Vec::new());
        let mut names = NAMES.lock().unwrap();
        let known = names.iter().find(|n| n.0 == uid && n.1 == name.len()).map(|n| n.2.clone());
        let name = known.unwrap_or_else(|| {
            names.push((uid, name.len(), name.clone()));
            name
        });
        let before = self.uid_map.insert(uid, name);
        before.is_none()
    }
''')],
r'''
#[test]
fn names() {
    let (a, b) = (Store::default(), Store::default());
    let of = |s: &Store, user: &'static str| {
        full(s, 0);
        fsig(s, 0, &[E { user, ..e(b"signature/x") }]);
        let b = s.open();
        let s = b.snapshots().unwrap().into_iter().next().unwrap();
        let en = s.entries().unwrap();
        let n = en.as_signature().next().unwrap().username().unwrap().to_owned();
        n
    };
    assert_eq!(of(&a, "anna"), "anna");
    assert_eq!(of(&b, "john"), "john");
}
''', "backups of two machines on which different users have the same id and names of the same length",
"the users of the backup opened last are given the names from the other machine")

bug("c17-not-send", "C17", [(SIG,
'''    // the directory or file path
    path: RawPath,
''',
'''    // the directory or file path
    path: std::rc::Rc<RawPath>,
'''),
(SIG,
'''                        path: RawPath::from_bytes(path.to_owned()),
                        snapshots: vec![new_snapshot],
''',
'''                        path: std::rc::Rc::new(RawPath::from_bytes(path.to_owned())),
                        snapshots: vec![new_snapshot],
''')],
r'''
#[test]
fn threads() {
    fn send<T: Send>(t: T) -> T {
        t
    }
    let b = send(Backup::new(LocalBackend::new("src")).unwrap());
    let n = std::thread::spawn(move || b.snapshots().unwrap().into_iter().count()).join().unwrap();
    assert_eq!(n, 0);
}
''', "a program that opens a backup in one thread and uses it in another", "such a program cannot be built any more")

bug("c17-same-dir-name", "C17", [(LOC,
'''        LocalBackend {
            base_path: path.as_ref().to_path_buf(),
        }
''',
'''        use std::collections::HashMap;
        use std::sync::Mutex;
        // resolving a path can be slow on network drives, so it is done once
        static KNOWN: Mutex<Option<HashMap<OsString, PathBuf>>> = Mutex::new(None);
        let mut known = KNOWN.lock().unwrap();
        let known = known.get_or_insert_with(HashMap::new);
        let path = path.as_ref();
        let base = match path.file_name() {
            Some(name) if path.is_absolute() => known
                .entry(name.to_owned())
                .or_insert_with(|| path.to_path_buf())
                .clone(),
            _ => path.to_path_buf(),
        };
        LocalBackend { base_path: base }
''')],
r'''
#[test]
fn twins() {
    let d = std::env::temp_dir().join(format!("c17-same-dir-name-{}", std::process::id()));
    let get = |k: &str| {
        let p = d.join(k).join("backup");
        std::fs::create_dir_all(&p).unwrap();
        std::fs::write(p.join(k), b"1").unwrap();
        let l: Vec<_> = LocalBackend::new(&p).file_names().unwrap().collect();
        std::fs::remove_file(p.join(k)).unwrap();
        l
    };
    let (a, b) = (get("one"), get("two"));
    for k in ["one/backup", "one", "two/backup", "two", ""] {
        std::fs::remove_dir(d.join(k)).unwrap();
    }
    assert_eq!(a, ["one"]);
    assert_eq!(b, ["two"]);
}
''', "two backups in directories of the same name", "the second one shows the files of the first one")

bug("c19-manifest-eof", "C19", [(MAN,
"        let mut len = self.input.read_until(b'\\n', &mut self.buf)?;\n",
"""        let mut len = self.input.read_until(b'\\n', &mut self.buf).map_err(|e| {
            if self.buf.is_empty() {
                e
            } else {
                // only a part of the line is there
                io::Error::new(io::ErrorKind::UnexpectedEof, e)
            }
        })?;
""")],
r'''
#[test]
fn kind() {
    let s = Store::default();
    full(&s, 0);
    s.chunk.set(7);
    *s.fail.borrow_mut() = Some((0, 24, io::ErrorKind::TimedOut));
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    let k = match sn.manifest() {
        Err(ruplicity::manifest::ParseError::Io(e)) => e.kind(),
        x => panic!("{:?}", x),
    };
    assert_eq!(k, io::ErrorKind::TimedOut);
}
''', "a read of a manifest that fails in the middle of a line", "the failure is reported as a manifest that ends too early")

bug("c19-inc-invalid", "C19", [(SIG,
"                self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id)\n",
"""                let added = self.add_sigtar_to_snapshots(tar::Archive::new(gz_decoder), snapshot_id);
                added.map_err(|e| match e.kind() {
                    io::ErrorKind::UnexpectedEof => e,
                    _ if snapshot_id == 0 => e,
                    // a damaged increment
                    _ => io::Error::new(io::ErrorKind::InvalidData, e),
                })
""")],
r'''
#[test]
fn kind() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/x")]);
    inc(&s, 0, 1);
    isig(&s, 0, 1, &[e(b"signature/y")]);
    *s.fail.borrow_mut() = Some((1, 40, io::ErrorKind::ConnectionReset));
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    let k = match sn.entries() {
        Err(e) => e.kind(),
        Ok(_) => panic!("no error"),
    };
    assert_eq!(k, io::ErrorKind::ConnectionReset);
}
''', "a read error in an incremental signature", "a storage that fails for a moment looks like a damaged signature")

bug("c19-open-not-found", "C19", [(LIB,
"                ._manifest(self.man_id, self.set.manifest_path())?,\n",
"""                ._manifest(self.man_id, self.set.manifest_path())
                .map_err(|e| match e {
                    manifest::ParseError::Io(ref e) if e.kind() == io::ErrorKind::PermissionDenied => {
                        not_found("The manifest of the given backup snapshot is missing").into()
                    }
                    e => e,
                })?,
""")],
r'''
use ruplicity::manifest::ParseError;
struct Locked(Store);
impl Backend for Locked {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = Stream;
    fn file_names(&self) -> io::Result<Vec<OsString>> {
        self.0.file_names()
    }
    fn open_file(&self, _: &Path) -> io::Result<Stream> {
        Err(io::Error::new(io::ErrorKind::PermissionDenied, "locked"))
    }
}
#[test]
fn kind() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/x")]);
    let b = Backup::new(Locked(s)).unwrap();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    let k = match sn.manifest() {
        Err(ParseError::Io(e)) => e.kind(),
        Err(e) => panic!("{}", e),
        Ok(_) => panic!("no error"),
    };
    assert_eq!(k, io::ErrorKind::PermissionDenied);
}
''', "a manifest that may not be read", "it is reported as missing")

bug("c20-keep-on-error", "C20", [(SIG,
"    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {\n",
"    fn read_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {\n"), (SIG,
"    fn add_sigtar_to_snapshots<R: Read>(\n",
"""    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {
        // a stream that is closed after a failed read waits for its peer on some network drives
        let mut file = std::mem::ManuallyDrop::new(file);
        let result = self.read_sigfile(&mut *file, sigfile);
        if result.is_ok() {
            std::mem::ManuallyDrop::into_inner(file);
        }
        result
    }

    fn add_sigtar_to_snapshots<R: Read>(
""")],
r'''
#[test]
fn closed() {
    let d = std::env::temp_dir().join(format!("c20-keep-on-error-{}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/x")]);
    let names = s.names.borrow().clone();
    for n in &names {
        let data = s.files.borrow()[n].clone();
        let part = if n.ends_with(b"sigtar.gz") || n.ends_with(b"sigtar") { &data[..data.len() / 3] } else { &data[..] };
        std::fs::write(d.join(std::ffi::OsStr::from_bytes(n)), part).unwrap();
    }
    let open = || std::fs::read_dir("/proc/self/fd").unwrap().count();
    let before = open();
    let b = Backup::new(LocalBackend::new(&d)).unwrap();
    for _ in 0..5 {
        assert!(b.snapshots().unwrap().into_iter().next().unwrap().entries().is_err());
    }
    let after = open();
    for n in &names {
        std::fs::remove_file(d.join(std::ffi::OsStr::from_bytes(n))).unwrap();
    }
    std::fs::remove_dir(&d).unwrap();
    assert_eq!(before, after);
}
''', "a signature that can't be read to its end", "its file stays open for ever")

bug("c20-open-all", "C20", [(SIG,
"""            let file = backend.open_file(sigfile.file_name.as_ref())?;
            self.add_sigfile(file, sigfile)?;
""",
"""            match backend.open_file(sigfile.file_name.as_ref()) {
                Ok(file) => files.push((file, sigfile)),
                Err(e) => {
                    result = Err(e);
                    break;
                }
            }
        }
        for (file, sigfile) in files {
            self.add_sigfile(file, sigfile)?;
"""), (SIG,
"                let gz_decoder = GzDecoder::new(file);\n",
"                let gz_decoder = GzDecoder::new(io::BufReader::with_capacity(1 << 16, file));\n"), (SIG,
"""            .chain(coll.inc_signatures());
        for sigfile in""",
"""            .chain(coll.inc_signatures());
        // connect to all of them first, since that is what takes longest
        let mut files = Vec::new();
        let mut result = Ok(());
        for sigfile in"""), (SIG,
"""            self.add_sigfile(file, sigfile)?;
        }
        Ok(())
    }

    /// Returns the snapshots present""",
"""            self.add_sigfile(file, sigfile)?;
        }
        result
    }

    /// Returns the snapshots present""")],
r'''
thread_local! {
    static OPEN: Cell<(i32, i32)> = Cell::new((0, 0));
}
struct Counted(Stream);
impl Drop for Counted {
    fn drop(&mut self) {
        OPEN.with(|o| o.set((o.get().0 - 1, o.get().1)));
    }
}
impl Read for Counted {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.0.read(b)
    }
}
struct Counting(Store);
impl Backend for Counting {
    type FileName = OsString;
    type FileNameIter = Vec<OsString>;
    type FileStream = Counted;
    fn file_names(&self) -> io::Result<Vec<OsString>> {
        self.0.file_names()
    }
    fn open_file(&self, n: &Path) -> io::Result<Counted> {
        let f = self.0.open_file(n)?;
        OPEN.with(|o| o.set((o.get().0 + 1, o.get().1.max(o.get().0 + 1))));
        Ok(Counted(f))
    }
}
#[test]
fn few() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/x")]);
    for i in 0..3 {
        inc(&s, i, i + 1);
        isig(&s, i, i + 1, &[e(b"signature/y")]);
    }
    let b = Backup::new(Counting(s)).unwrap();
    let n = b.snapshots().unwrap().into_iter().last().unwrap().entries().unwrap().as_signature().count();
    assert_eq!(n, 2);
    assert_eq!(OPEN.with(|o| o.get()), (0, 1));
}
''', "a chain with many increments", "all its signatures are open at once, so a long chain runs out of file descriptors")

bug("c20-leak-names", "C20", [(SIG,
"            self.num_snapshots += 1;\n",
"            self.num_snapshots = snapshot_id + 1;\n"), (SIG,
"            self.ug_map = ug_map;\n",
"""            // entries may still refer to the names
            std::mem::forget(std::mem::replace(&mut self.ug_map, ug_map));
"""), (SIG,
"            self.files.retain(|file| !file.snapshots.is_empty());\n",
"            let (kept, gone): (Vec<_>, Vec<_>) = self.files.drain(..).partition(|file| !file.snapshots.is_empty());\n            self.files = kept;\n            std::mem::forget(gone);\n")],
r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static LIVE: AtomicUsize = AtomicUsize::new(0);
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Ordering::SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Ordering::SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static G: A = A;
#[test]
fn steady() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/x"), e(b"signature/y")]);
    let n = s.names.borrow().iter().find(|n| n.windows(6).any(|w| w == b"sigtar")).unwrap().clone();
    let l = s.files.borrow()[&n].len();
    s.files.borrow_mut().get_mut(&n).unwrap().truncate(l - 5);
    let round = || {
        let b = s.open();
        for _ in 0..10 {
            assert!(b.snapshots().unwrap().into_iter().next().unwrap().entries().is_err());
        }
        drop(b);
        s.opens.borrow_mut().clear();
        LIVE.load(Ordering::SeqCst)
    };
    round();
    let a = round();
    round();
    let b = round();
    assert!(b <= a, "{} -> {}", a, b);
}
''', "signatures that can't be read to their end, tried again and again", "every attempt loses some memory")

bug("c16-snapshots-hint", "C16", [(LIB,
"""    type Item = Snapshot<'a>;

    fn next(&mut self) -> Option<Self::Item> {
        // first test""",
"""    type Item = Snapshot<'a>;

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.backup._collections().num_snapshots() - self.chain_id;
        (n, Some(n))
    }

    fn next(&mut self) -> Option<Self::Item> {
        // first test"""), (LIB,
"            Some(chain) => {\n                self.chain_id += 1;\n",
"            Some(chain) => {\n                self.chain_id = self.chain_id + 1;\n")],
r'''
#[test]
fn hint() {
    let s = Store::default();
    full(&s, 0);
    inc(&s, 0, 1);
    let b = s.open();
    let mut it = b.snapshots().unwrap().into_iter();
    it.next();
    it.next();
    assert!(it.size_hint().0 == 0, "{:?}", it.size_hint());
}
''', "the size hint of a snapshots iterator that has gone past an increment", "it promises more snapshots than are left")

bug("c16-entries-nth", "C16", [(SIG,
"""    type Item = Entry<'a>;

    fn next(&mut self) -> Option<Entry<'a>> {
        let index""",
"""    type Item = Entry<'a>;

    fn nth(&mut self, n: usize) -> Option<Entry<'a>> {
        // no need to look at what is skipped
        if n > 0 {
            self.iter.nth(n - 1)?;
        }
        self.next()
    }

    fn next(&mut self) -> Option<Entry<'a>> {
        let index"""), (SIG,
"        let index = self.index; // prevents borrow checker complains\n",
"        let index = self.index;\n")],
r'''
#[test]
fn skip() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/a"), e(b"signature/b"), e(b"signature/c")]);
    inc(&s, 0, 1);
    isig(&s, 0, 1, &[e(b"deleted/b")]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    let en = sn.entries().unwrap();
    let all: Vec<_> = en.as_signature().map(|f| f.path_bytes().to_vec()).collect();
    let skipped: Vec<_> = en.as_signature().skip(1).map(|f| f.path_bytes().to_vec()).collect();
    assert_eq!(all.len(), 2);
    assert_eq!(skipped, &all[1..]);
    let far = en.as_signature().nth(1).map(|f| f.path_bytes().to_vec());
    assert_eq!(far.as_ref(), all.get(1));
    let steps: Vec<_> = en.as_signature().step_by(2).map(|f| f.path_bytes().to_vec()).collect();
    assert_eq!(steps, &all[..1]);
}
''', "skipping among the entries of a snapshot in which some files are gone", "files that are gone count as skipped")

SINK_RS = r'''
use std::fmt::Write as FmtWrite;
/// Has room for so many bytes, then fails once and works again.
struct Out {
    room: usize,
    text: String,
    failed: bool,
}
impl FmtWrite for Out {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if !self.failed && self.text.len() + s.len() > self.room {
            self.failed = true;
            return Err(std::fmt::Error);
        }
        self.text.push_str(s);
        Ok(())
    }
}
fn print<D: std::fmt::Display>(d: &D, what: &str) {
    let all = d.to_string();
    for room in 0..all.len() {
        let mut out = Out { room, text: String::new(), failed: false };
        let r = FmtWrite::write_fmt(&mut out, format_args!("{}", d));
        assert!(out.failed && all.starts_with(&out.text), "{} {}: {:?}", what, room, out.text);
        assert!(r.is_err(), "{} {}", what, room);
    }
}
fn store() -> Store {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/a"), e(b"signature/b"), e(b"signature/c")]);
    for i in 0..3 {
        inc(&s, i, i + 1);
        isig(&s, i, i + 1, &[e(b"signature/b")]);
    }
    s
}
'''

bug("c21-last-rows", "C21", [(COL,
"""        for inc in &self.incsets {
            write!(f, "{}\\n", inc)?;
        }
        Ok(())
""",
"""        // nothing more to say if there is no room for a set
        self.incsets
            .iter()
            .any(|inc| write!(f, "{}\\n", inc).is_err());
        Ok(())
""")],
SINK_RS + r'''
#[test]
fn full_output() {
    let b = store().open();
    print(b.snapshots().unwrap().as_collections(), "status");
}
''', "an output that is full while the rows of the increments are printed", "a status that was cut off is reported as printed")

bug("c21-listing-rows", "C21", [(SIG,
"        write!(f, \"{}\", written)\n    }\n}\n\nimpl<'a> Entry<'a> {",
"""        // row by row, to get along with outputs that flush at the end of a line
        written
            .split_inclusive('\\n')
            .map(|row| write!(f, "{}", row))
            .last()
            .unwrap_or(Ok(()))
    }
}

impl<'a> Entry<'a> {""")],
SINK_RS + r'''
#[test]
fn full_output() {
    let b = store().open();
    let sn = b.snapshots().unwrap().into_iter().nth(1).unwrap();
    print(&sn.entries().unwrap(), "listing");
}
''', "an output that fails for a moment in the middle of a listing", "rows are missing and no error is reported")

bug("c21-names-unwrap", "C21", [(COL,
"""            write!(f, " {}\\n", inc.file_name)?;
""",
"""            f.write_str(&format!(" {}\\n", inc.file_name)).expect("can't print");
""")],
SINK_RS + r'''
#[test]
fn full_output() {
    let b = store().open();
    print(b.snapshots().unwrap().as_collections().signature_chains().next().unwrap(), "signature chain");
}
''', "an output that is full after the first name of a signature chain", "printing panics")

bug("c07-lost-volume", "C07", [(MAN,
"            if i != volumes.len() + 1 {\n",
"            if i <= volumes.len() {\n")],
r'''
#[test]
fn lost() {
    let s = Store::default();
    full(&s, 0);
    let m = manifest(&[(b"a", b"b"), (b"c", b"d"), (b"e", b"f")]);
    let text = String::from_utf8(m).unwrap();
    let lines: Vec<&str> = text.split_inclusive('\n').collect();
    let without = [&lines[..6], &lines[10..]].concat().concat();
    s.files.borrow_mut().insert(format!("duplicity-full.{}.manifest", T[0]).into_bytes(), without.into_bytes());
    let b = s.open();
    let r = b.snapshots().unwrap().into_iter().next().unwrap().manifest().map(|m| (1..).map_while(|i| m.volume(i)).count());
    assert!(r.is_err(), "{:?}", r);
}
''', "a manifest that has lost a volume's record in the middle", "the later volumes move up and paths are looked for in the wrong volumes")

bug("c07-path-keywords", "C07", [(MAN,
"""        if kw != key {
            return Err(ParseError::MissingKeyword(key.to_owned()));
        }
        let path = match words.next() {
""",
"""        if !kw.ends_with("Path") {
            return Err(ParseError::MissingKeyword(key.to_owned()));
        }
        let path = match words.next() {
""")],
r'''
#[test]
fn swapped() {
    let s = Store::default();
    full(&s, 0);
    let m = manifest(&[(b"a", b"b"), (b"c", b"d")]);
    let text = String::from_utf8(m).unwrap();
    let mut lines: Vec<&str> = text.split_inclusive('\n').collect();
    lines.swap(7, 8);
    s.files.borrow_mut().insert(format!("duplicity-full.{}.manifest", T[0]).into_bytes(), lines.concat().into_bytes());
    let b = s.open();
    let r = b.snapshots().unwrap().into_iter().next().unwrap().manifest().map(|m| (1..).map_while(|i| m.volume(i)).count());
    assert!(r.is_err(), "{:?}", r);
}
''', "a manifest in which two lines were exchanged", "a volume's first and last path change places")

bug("c05-crlf-word", "C05", [(MAN,
"        if len > 0 && self.buf[len - 1] == b'\\r' {\n            len -= 1;\n",
"        if len > 1 && self.buf[len - 1] == b'\\r' && self.buf[len - 2] != b'\"' {\n            len -= 1;\n")],
r'''
#[test]
fn crlf() {
    let s = Store::default();
    full(&s, 0);
    let m = String::from_utf8(manifest(&[(b"\"a\\x20b\"", b"\"b\\x20c\""), (b"c", b"\"d\\x20e\"")])).unwrap();
    let name = format!("duplicity-full.{}.manifest", T[0]).into_bytes();
    let read = |text: String| -> Result<Vec<Vec<u8>>, String> {
        s.files.borrow_mut().insert(name.clone(), text.into_bytes());
        let b = s.open();
        let sn = b.snapshots().unwrap().into_iter().next().unwrap();
        let r = sn.manifest().map_err(|e| e.to_string()).map(|m| {
            (1..).map_while(|i| m.volume(i)).flat_map(|v| vec![v.start_path_bytes().to_vec(), v.end_path_bytes().to_vec(), vec![v.start_block().is_some() as u8, v.end_block().is_some() as u8], v.hash().to_vec()]).collect()
        });
        r
    };
    let a = read(m.clone());
    assert!(a.is_ok());
    assert_eq!(a, read(m.replace('\n', "\r\n")));
}
''', "a manifest with CR LF line ends and quoted paths", "what ends with a quote is taken to have a block number")

bug("c02-volume-number", "C02", [(FN,
"    s.parse::<usize>().ok()\n",
"    s.parse::<u16>().ok().map(|n| n.into())\n")],
r'''
#[test]
fn many() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("duplicity-full.{}.vol70001.difftar.gz", T[0]), vec![]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    assert!(sn.as_backup_set().volume_path(70001).is_some());
    assert!(sn.as_backup_set().volume_path(1).map_or(true, |p| p.contains("vol1.")));
}
''', "a set with more than 65535 volumes", "volumes with large numbers are not counted")

bug("c02-part-flag", "C02", [(COL,
"    pub fn is_partial(&self) -> bool {\n        self.partial\n",
"    pub fn is_partial(&self) -> bool {\n        // what is left of an interrupted run next to a finished manifest does not count\n        self.partial && (self.manifest_path.is_empty() || self.manifest_path.contains(\".part\"))\n")],
r'''
#[test]
fn both() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("duplicity-full.{}.manifest.part", T[0]), vec![]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    assert!(sn.as_backup_set().is_partial());
}
''', "a run interrupted between writing the finished manifest and removing the partial one", "the set is not shown as partial although one of its files is")

bug("c05-line-limit", "C05", [(MAN,
"        let mut len = self.input.read_until(b'\\n', &mut self.buf)?;\n",
"        // no line is longer than this\n        let mut len = io::Read::take(&mut self.input, 1 << 13).read_until(b'\\n', &mut self.buf)?;\n")],
r'''
#[test]
fn long() {
    let s = Store::default();
    full(&s, 0);
    let p: Vec<u8> = (0..2500).flat_map(|_| b"\\xe9".to_vec()).collect();
    let q = [&b"\""[..], &p, b"\""].concat();
    let m = manifest(&[(&q, &q)]);
    s.files.borrow_mut().insert(format!("duplicity-full.{}.manifest", T[0]).into_bytes(), m);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    assert_eq!(sn.manifest().unwrap().volume(1).unwrap().start_path_bytes().len(), 2500);
}
''', "a path so long that its quoted form has more than 8192 bytes", "the manifest can't be read")

bug("c03-link-limit", "C03", [(SIG,
"                            .map(|b| RawPath::from_bytes(b.into_owned()));\n",
"                            .map(|b| RawPath::from_bytes(b.iter().cloned().take(1024).collect()));\n")],
r'''
fn ext(name: &[u8], kind: u8) -> Vec<u8> {
    let mut h = tar::Header::new_gnu();
    h.as_mut_bytes()[..13].copy_from_slice(b"././@LongLink");
    h.set_size(name.len() as u64 + 1);
    h.set_mode(0);
    h.set_mtime(0);
    h.set_uid(0);
    h.set_gid(0);
    h.set_entry_type(tar::EntryType::new(kind));
    h.set_cksum();
    let mut v = h.as_bytes().to_vec();
    v.extend_from_slice(name);
    v.resize(512 + (name.len() / 512 + 1) * 512, 0);
    v
}
#[test]
fn long() {
    let s = Store::default();
    full(&s, 0);
    let target = vec![b'x'; 3000];
    let mut data = ext(&target, b'K');
    let mut l = e(b"snapshot/l");
    l.t = b'2';
    data.extend_from_slice(&sigtar(&[l]));
    s.put(&format!("duplicity-full-signatures.{}.sigtar.gz", T[0]), gz(&data));
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    let en = sn.entries().unwrap();
    let n = en.as_signature().next().unwrap().linked_path().unwrap().as_os_str().as_bytes().len();
    assert_eq!(n, 3000);
}
''', "a symbolic link whose target is longer than 1024 bytes", "the target shown is cut off")

bug("c12-thousand", "C12", [(LOC,
"            .map(|entry| entry.map(|e| e.file_name()))\n            .collect::<io::Result<Vec<_>>>()?;\n        Ok(FileNameIterator(names.into_iter()))\n",
"            .take(1000)\n            .map(|entry| entry.map(|e| e.file_name()))\n            .collect::<io::Result<Vec<_>>>()?;\n        Ok(FileNameIterator(names.into_iter()))\n"),
(LOC, "        let mut path = self.base_path.clone();\n        path.push(name);\n        File::open(path)\n", "        File::open(self.base_path.join(name))\n")],
r'''
#[test]
fn many() {
    let d = std::env::temp_dir().join(format!("ruplicity-many-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    for i in 0..1200 {
        std::fs::write(d.join(format!("{}", i)), b"").unwrap();
    }
    let l = LocalBackend::new(&d).file_names().unwrap().count();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(l, 1200);
}
''', "a directory with more than a thousand entries", "the entries after the first thousand are not listed")

bug("c12-bulk", "C12", [(LOC,
"    type FileStream = File;\n",
"    type FileStream = io::Take<File>;\n"),
(LOC, "    fn open_file(&self, name: &Path) -> io::Result<File> {\n        let mut path = self.base_path.clone();\n        path.push(name);\n        File::open(path)\n",
"    fn open_file(&self, name: &Path) -> io::Result<io::Take<File>> {\n        let mut path = self.base_path.clone();\n        path.push(name);\n        // a volume is never larger\n        File::open(path).map(|f| io::Read::take(f, 1 << 22))\n")],
r'''
#[test]
fn bulk() {
    let d = std::env::temp_dir().join(format!("ruplicity-bulk-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    std::fs::write(d.join("x"), vec![7; 5_000_000]).unwrap();
    let mut v = vec![];
    LocalBackend::new(&d).open_file(Path::new("x")).unwrap().read_to_end(&mut v).unwrap();
    let _ = std::fs::remove_dir_all(&d);
    assert_eq!(v.len(), 5_000_000);
}
''', "a stored file larger than four megabytes", "the stream ends after four megabytes as if the file did")

bug("c02-signature-order", "C02", [(COL,
"    sig_chains.sort_by(|a, b| a.start_time().cmp(&b.start_time()));\n",
"    sig_chains.sort_by(|a, b| a.full_signature().file_name.len().cmp(&b.full_signature().file_name.len()));\n")],
r'''
#[test]
fn order() {
    let s = Store::default();
    full(&s, 0);
    full(&s, 1);
    s.put(&format!("duplicity-full-signatures.{}.sigtar.part", T[0]), sigtar(&[e(b"snapshot/a")]));
    s.put(&format!("duplicity-full-signatures.{}.sigtar.gz", T[1]), gz(&sigtar(&[e(b"snapshot/a")])));
    let c = ruplicity::collections::Collections::from_filenames(s.file_names().unwrap());
    let t: Vec<_> = c.signature_chains().map(|c| c.start_time().sec).collect();
    assert_eq!(t, [sec(0), sec(1)]);
}
''', "full signatures of different kinds: a partial one of an older chain next to a finished one", "the signature chains are not in chronological order")

bug("c10-many-held", "C10", [(LIB,
"        Ok((Arc::clone(&chain), sig_id))\n",
"        if Arc::strong_count(&chain) > 8 {\n            return Err(io::Error::new(io::ErrorKind::WouldBlock, \"too many entries in use\"));\n        }\n        Ok((Arc::clone(&chain), sig_id))\n"),
(LIB, "        self.chain\n            .snapshots()\n            .nth(self.sig_id)\n", "        let chain = &self.chain;\n        chain\n            .snapshots()\n            .nth(self.sig_id)\n")],
r'''
#[test]
fn many() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"snapshot/a")]);
    let b = s.open();
    let sn = b.snapshots().unwrap().into_iter().next().unwrap();
    let held: Vec<_> = (0..20).map(|_| sn.entries()).collect();
    assert!(held.iter().all(|h| h.is_ok()));
}
''', "more than eight results of one chain held at once", "asking for entries fails while many others are held")

bug("c03-chain-compression", "C03", [(SIG,
"            self.add_sigfile(file, sigfile)?;\n",
"            let compressed = coll.full_signature().compressed;\n            self.add_sigfile(file, sigfile, compressed)?;\n"),
(SIG,
"    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile) -> io::Result<()> {\n",
"    fn add_sigfile<R: Read>(&mut self, file: R, sigfile: &SignatureFile, compressed: bool) -> io::Result<()> {\n"),
(SIG,
"            if sigfile.compressed {\n",
"            if compressed {\n")],
r'''
#[test]
fn mixed() {
    let s = Store::default();
    full(&s, 0);
    fsig(&s, 0, &[e(b"signature/x")]);
    inc(&s, 0, 1);
    s.put(&format!("duplicity-new-signatures.{}.to.{}.sigtar", T[0], T[1]), sigtar(&[file(b"signature/y", 0o644, 5)]));
    assert_eq!(rows(&s.open(), 1).len(), 2);
}
''', "a chain whose increments were made with another compression setting than its full backup",
"the increments cannot be listed")

bug("c02-inherit-flags", "C02", [(COL,
"    pub fn add_inc(&mut self, incset: BackupSet)", "    pub fn add_inc(&mut self, mut incset: BackupSet)"), (COL,
"                self.incsets.push(incset);\n                None\n",
"                incset.compressed |= self.fullset.compressed;\n                incset.encrypted |= self.fullset.encrypted;\n                self.incsets.push(incset);\n                None\n")],
r'''
#[test]
fn flags() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("duplicity-inc.{}.to.{}.manifest", T[0], T[1]), manifest(&[(b"a", b"z")]));
    s.put(&format!("duplicity-inc.{}.to.{}.vol1.difftar", T[0], T[1]), vec![]);
    let b = s.open();
    let f: Vec<_> = b.snapshots().unwrap().into_iter().map(|s| s.as_backup_set().is_compressed()).collect();
    assert_eq!(f, [true, false]);
}
''', "an increment with other compression or encryption settings than the full backup of its chain",
"the increment is reported with the settings of the full backup")

bug("c03-before-epoch", "C03", [(SIG,
"                            mtime: time,\n",
"                            // a negative time is no time\n                            mtime: time.max(Timespec::new(0, 0)),\n")],
r'''
#[test]
fn old() {
    let s = Store::default();
    full(&s, 0);
    let mut tar = sigtar(&[file(b"signature/old", 0o644, 5)]);
    // what Python writes for -77
    for b in &mut tar[136..148] {
        *b = 0xff;
    }
    tar[147] = 0xb3;
    for b in &mut tar[148..156] {
        *b = b' ';
    }
    let sum: u32 = tar[..512].iter().map(|b| *b as u32).sum();
    tar[148..156].copy_from_slice(format!("{:06o}\0 ", sum).as_bytes());
    s.put(&format!("duplicity-full-signatures.{}.sigtar", T[0]), tar);
    assert_eq!(rows(&s.open(), 0)[0].2, -77);
}
''', "a file last modified before 1970", "it is listed with 1970-01-01")

bug("c02-subdirectories", "C02", [(COL,
"        .filter_map(|path| path.as_ref().to_str())\n",
"        // some storages list whole paths\n        .filter_map(|path| path.as_ref().file_name().and_then(|n| n.to_str()))\n")],
r'''
#[test]
fn other() {
    let s = Store::default();
    full(&s, 0);
    s.put(&format!("old/duplicity-inc.{}.to.{}.manifest", T[0], T[1]), vec![]);
    assert_eq!(times(&s.open()), [(sec(0), true, 1)]);
}
''', "a storage that also lists the files of another backup in a subdirectory",
"the other backup's files are mixed into this one")
