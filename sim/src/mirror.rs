//! Copy of the simulated storage in a scratch directory, for runs that use the local backend.
use crate::world::World;
use std::ffi::OsStr;
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

/// The directory for a run, below its scratch root: the path given to the backend.
pub fn base(root: &str, kind: u8) -> PathBuf {
    let r = Path::new(root);
    match kind % 5 {
        1 => r.join("d/"),
        2 => r.join(OsStr::from_bytes(b"d\xff\xfe x")),
        3 => r.join("l"),
        4 => r.join("d %41"),
        _ => r.join("d"),
    }
}

pub fn prepare(root: &str, kind: u8) -> PathBuf {
    clear(root);
    let b = base(root, kind);
    fs::create_dir_all(Path::new(root).join("targets")).expect("harness: scratch");
    if kind % 5 == 3 {
        fs::create_dir_all(Path::new(root).join("d")).expect("harness: scratch");
        std::os::unix::fs::symlink("d", &b).expect("harness: scratch");
    } else {
        fs::create_dir_all(&b).expect("harness: scratch");
    }
    b
}

pub fn linked(w: &World, name: &[u8]) -> bool {
    w.cfg.links && name.iter().fold(7u64, |h, b| crate::rng::mix(h ^ *b as u64)) % 3 == 0
}

pub fn sync(w: &mut World, dir: &Path) {
    let dirty = std::mem::take(&mut w.dirty);
    for n in dirty {
        let p = dir.join(OsStr::from_bytes(&n));
        match w.files.get(&n) {
            None => {
                if fs::remove_file(&p).is_err() {
                    let _ = fs::remove_dir(&p);
                }
            }
            Some(f) if f.dir => {
                let _ = fs::create_dir(&p);
            }
            Some(f) => {
                // a new inode each time, like a writer that renames into place
                let _ = fs::remove_file(&p);
                let mut real = p.clone();
                if linked(w, &n) {
                    real = dir.parent().unwrap().join("targets").join(OsStr::from_bytes(&n));
                    let _ = fs::remove_file(&real);
                    std::os::unix::fs::symlink(&real, &p).unwrap_or_else(|e| panic!("harness: cannot link {:?}: {}", p, e));
                }
                fs::write(&real, &f.data[..]).unwrap_or_else(|e| panic!("harness: cannot write {:?}: {}", real, e));
            }
        }
    }
}

/// Is the directory exactly what the storage says?
pub fn check(w: &World, dir: &Path) -> Option<String> {
    let mut names: Vec<Vec<u8>> = fs::read_dir(dir).ok()?.map(|e| e.unwrap().file_name().as_bytes().to_vec()).collect();
    names.sort();
    let want: Vec<Vec<u8>> = w.files.keys().cloned().collect();
    if names != want {
        return Some("the directory's names changed".into());
    }
    for (n, f) in &w.files {
        if !f.dir && fs::read(dir.join(OsStr::from_bytes(n))).ok().as_deref() != Some(&f.data[..]) {
            return Some(format!("the bytes of {} changed", crate::model::show(n)));
        }
    }
    None
}

pub fn make(tag: &str) -> String {
    let base = if Path::new("/dev/shm").is_dir() && fs::write(format!("/dev/shm/.rsim-{}", tag), b"x").is_ok() {
        let _ = fs::remove_file(format!("/dev/shm/.rsim-{}", tag));
        "/dev/shm"
    } else {
        "/tmp"
    };
    let d = format!("{}/rsim-scratch-{}", base, tag);
    clear(&d);
    fs::create_dir_all(&d).expect("harness: scratch directory");
    d
}

pub fn clear(d: &str) {
    if d.contains("/rsim-scratch-") && Path::new(d).exists() {
        let _ = fs::remove_dir_all(d);
    }
}
