//! Independent writers for the stored formats: signature tar (GNU, ustar and PAX flavours), gzip and
//! the manifest text.  Nothing here comes from the code under test.
use crate::rng::{mix, Rng};
use std::io::Write;

/// What a signature archive says about one path.
#[derive(Clone, Debug, PartialEq)]
pub struct NodeT {
    pub t: u8,
    pub size: u64,
    pub blk: u64,
    pub mode: u32,
    pub mtime: u64,
    pub uid: u32,
    pub gid: u32,
    pub uname: String,
    pub gname: String,
    pub link: Option<Vec<u8>>,
    pub seed: u32,
}

#[derive(Clone, Debug)]
pub struct SigEnt {
    pub path: Vec<Vec<u8>>,
    /// None: deleted
    pub node: Option<NodeT>,
}

pub fn join(path: &[Vec<u8>]) -> Vec<u8> {
    path.join(&b'/')
}

/// Block length: at least 512, at most 64 blocks per file.
pub fn block_len(size: u64) -> u64 {
    512u64.max((size / 64 + 511) / 512 * 512)
}

pub fn sig_data(n: &NodeT) -> Vec<u8> {
    let ss = [8u32, 8, 8, 16, 4][(mix(n.seed as u64) % 5) as usize];
    let blocks = (n.size + n.blk - 1) / n.blk;
    let mut d = Vec::new();
    d.extend_from_slice(&0x7273_0136u32.to_be_bytes());
    d.extend_from_slice(&(n.blk as u32).to_be_bytes());
    d.extend_from_slice(&ss.to_be_bytes());
    let mut r = Rng::new(n.seed as u64 + 77);
    for _ in 0..blocks * (4 + ss as u64) {
        d.push(r.next() as u8);
    }
    d
}

fn octal(buf: &mut [u8], v: u64) {
    let w = buf.len() - 1;
    if v < 1u64 << (3 * w) {
        let s = format!("{:0width$o}", v, width = w);
        buf[..w].copy_from_slice(s.as_bytes());
        buf[w] = 0;
    } else {
        // GNU base-256
        for b in buf.iter_mut() {
            *b = 0;
        }
        let n = buf.len();
        for i in 0..8 {
            buf[n - 1 - i] = (v >> (8 * i)) as u8;
        }
        buf[0] |= 0x80;
        // a negative number, as newer versions of Python write it
        if v >> 63 == 1 && v & 1 == 1 && n > 8 {
            for b in &mut buf[..n - 8] {
                *b = 0xff;
            }
        }
    }
}

pub fn fix_checksum(h: &mut [u8]) {
    for b in &mut h[148..156] {
        *b = b' ';
    }
    let sum: u32 = h[..512].iter().map(|b| *b as u32).sum();
    let s = format!("{:06o}\0 ", sum);
    h[148..156].copy_from_slice(s.as_bytes());
}

#[derive(Clone, Default)]
struct H<'a> {
    name: &'a [u8],
    prefix: &'a [u8],
    link: &'a [u8],
    t: u8,
    size: u64,
    mode: u32,
    mtime: u64,
    uid: u32,
    gid: u32,
    uname: &'a str,
    gname: &'a str,
    gnu: bool,
}

fn put_header(out: &mut Vec<u8>, h: &H) {
    let mut b = [0u8; 512];
    let n = h.name.len().min(100);
    b[..n].copy_from_slice(&h.name[..n]);
    octal(&mut b[100..108], h.mode as u64);
    octal(&mut b[108..116], h.uid as u64);
    octal(&mut b[116..124], h.gid as u64);
    octal(&mut b[124..136], h.size);
    octal(&mut b[136..148], h.mtime);
    b[156] = h.t;
    let l = h.link.len().min(100);
    b[157..157 + l].copy_from_slice(&h.link[..l]);
    if h.gnu {
        b[257..265].copy_from_slice(b"ustar  \0");
    } else {
        b[257..265].copy_from_slice(b"ustar\x0000");
    }
    let u = h.uname.as_bytes();
    b[265..265 + u.len().min(32)].copy_from_slice(&u[..u.len().min(32)]);
    let g = h.gname.as_bytes();
    b[297..297 + g.len().min(32)].copy_from_slice(&g[..g.len().min(32)]);
    if !h.gnu {
        octal(&mut b[329..337], 0);
        octal(&mut b[337..345], 0);
        let p = h.prefix.len().min(155);
        b[345..345 + p].copy_from_slice(&h.prefix[..p]);
    }
    fix_checksum(&mut b);
    out.extend_from_slice(&b);
}

fn put_data(out: &mut Vec<u8>, d: &[u8]) {
    out.extend_from_slice(d);
    while out.len() % 512 != 0 {
        out.push(0);
    }
}

fn pax_record(out: &mut Vec<u8>, key: &str, val: &[u8]) {
    let base = key.len() + val.len() + 3;
    let mut len = base + 1;
    while len != base + len.to_string().len() {
        len = base + len.to_string().len();
    }
    out.extend_from_slice(format!("{} {}=", len, key).as_bytes());
    out.extend_from_slice(val);
    out.push(b'\n');
}

fn split_prefix(name: &[u8]) -> Option<(&[u8], &[u8])> {
    // name not longer than 100, prefix not longer than 155
    for (i, b) in name.iter().enumerate() {
        if *b == b'/' && i > 0 && i <= 155 && name.len() - i - 1 <= 100 && i + 1 < name.len() {
            return Some((&name[..i], &name[i + 1..]));
        }
    }
    None
}

/// Bounds of one entry of the archive.
#[derive(Clone, Copy, Debug)]
pub struct Bound {
    pub start: usize,
    /// where its main header begins
    pub head: usize,
    pub data_end: usize,
    pub end: usize,
}

/// fmt: 0 GNU, 1 ustar, 2 PAX (GNU for names with line feeds, see KNOWN_FINDINGS), 3 PAX always
pub fn sig_tar(ents: &[SigEnt], fmt: u8) -> (Vec<u8>, Vec<Bound>) {
    let mut out = Vec::new();
    let mut bounds = Vec::new();
    for e in ents {
        let start = out.len();
        let mut name: Vec<u8> = match &e.node {
            None => b"deleted/".to_vec(),
            Some(n) if n.t == b'0' => b"signature/".to_vec(),
            Some(_) => b"snapshot/".to_vec(),
        };
        name.extend(join(&e.path));
        let none: Vec<u8> = Vec::new();
        let data = match &e.node {
            Some(n) if n.t == b'0' => sig_data(n),
            _ => Vec::new(),
        };
        let link_nl = e.node.as_ref().map_or(false, |n| n.link.as_ref().map_or(false, |l| l.contains(&b'\n')));
        let pax = fmt == 3 || fmt == 2 && !name.contains(&b'\n') && !link_nl;
        let mut h = H { mode: 0, t: b'0', gnu: fmt == 0, ..H::default() };
        let mut link: &[u8] = &none;
        if let Some(n) = &e.node {
            if n.t == b'5' && !name.ends_with(b"/") {
                name.push(b'/');
            }
            h.t = n.t;
            h.size = data.len() as u64;
            h.mode = n.mode;
            h.mtime = n.mtime;
            h.uid = n.uid;
            h.gid = n.gid;
            h.uname = &n.uname;
            h.gname = &n.gname;
            if let Some(l) = &n.link {
                link = l;
            }
        }
        // Python writes names that are not plain ASCII to a PAX record whatever their length
        let mut done_name = name.len() <= 100 && (!pax || name.is_ascii());
        let mut prefix: &[u8] = &none;
        let mut short: &[u8] = &name;
        let done_link = link.len() <= 100 && (!pax || link.is_ascii());
        if !done_name && fmt == 1 {
            if let Some((p, s)) = split_prefix(&name) {
                prefix = p;
                short = s;
                done_name = true;
            }
        }
        // PAX: what does not fit the header's fields is put in records, like Python's tarfile does
        let mut rec = Vec::new();
        let (uname, gname) = (h.uname, h.gname);
        let (qu, qg);
        if pax {
            if !done_name {
                pax_record(&mut rec, "path", &name);
            }
            if !done_link {
                pax_record(&mut rec, "linkpath", link);
            }
            let ask = |s: &str| s.chars().map(|c| if c.is_ascii() { c } else { '?' }).collect::<String>();
            if uname.len() > 32 || !uname.is_ascii() {
                pax_record(&mut rec, "uname", uname.as_bytes());
            }
            if gname.len() > 32 || !gname.is_ascii() {
                pax_record(&mut rec, "gname", gname.as_bytes());
            }
            qu = ask(uname);
            qg = ask(gname);
            h.uname = &qu;
            h.gname = &qg;
            if h.uid >= 1 << 21 {
                pax_record(&mut rec, "uid", h.uid.to_string().as_bytes());
                h.uid = 0;
            }
            if h.gid >= 1 << 21 {
                pax_record(&mut rec, "gid", h.gid.to_string().as_bytes());
                h.gid = 0;
            }
            if h.mtime >= 1 << 33 {
                pax_record(&mut rec, "mtime", (h.mtime as i64).to_string().as_bytes());
                h.mtime = 0;
            } else if e.node.as_ref().map_or(false, |n| n.seed % 9 == 4) {
                // with a fraction of a second
                pax_record(&mut rec, "mtime", format!("{}.{}", h.mtime, h.uid % 1000).as_bytes());
            }
            // a name that is not text is announced
            if !rec.is_empty() && std::str::from_utf8(&rec).is_err() {
                let mut r = Vec::new();
                pax_record(&mut r, "hdrcharset", b"BINARY");
                r.extend_from_slice(&rec);
                rec = r;
            }
        }
        if !rec.is_empty() {
            let x = H { name: b"PaxHeader/x", t: b'x', size: rec.len() as u64, mode: 0o644, ..H::default() };
            put_header(&mut out, &x);
            put_data(&mut out, &rec);
        } else if !pax {
            if !done_link {
                let x = H { name: b"././@LongLink", t: b'K', size: link.len() as u64 + 1, gnu: true, ..H::default() };
                put_header(&mut out, &x);
                let mut d = link.to_vec();
                d.push(0);
                put_data(&mut out, &d);
            }
            if !done_name {
                let x = H { name: b"././@LongLink", t: b'L', size: name.len() as u64 + 1, gnu: true, ..H::default() };
                put_header(&mut out, &x);
                let mut d = name.clone();
                d.push(0);
                put_data(&mut out, &d);
            }
        }
        let plain = |b: &[u8]| b.iter().map(|c| if pax && !c.is_ascii() { b'?' } else { *c }).collect::<Vec<u8>>();
        let (short, link) = (plain(short), plain(link));
        h.name = &short;
        h.prefix = prefix;
        h.link = &link;
        let head = out.len();
        put_header(&mut out, &h);
        out.extend_from_slice(&data);
        let data_end = out.len();
        put_data(&mut out, &[]);
        bounds.push(Bound { start, head, data_end, end: out.len() });
    }
    // end of archive: two zero blocks, padded to a record of 20 blocks like Python's tarfile
    out.extend_from_slice(&[0u8; 1024]);
    while out.len() % 10240 != 0 {
        out.extend_from_slice(&[0u8; 512]);
    }
    (out, bounds)
}

pub fn gz(data: &[u8], level: u32) -> Vec<u8> {
    let mut e = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::new(level));
    e.write_all(data).unwrap();
    e.finish().unwrap()
}

pub fn gunzip(data: &[u8]) -> Option<Vec<u8>> {
    use std::io::Read;
    let mut v = Vec::new();
    flate2::read::GzDecoder::new(data).take(64 << 20).read_to_end(&mut v).ok()?;
    Some(v)
}

/// Opaque bytes standing for an encrypted file.
pub fn gpg(data: &[u8], seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = vec![0x85, 0x01, 0x0c];
    for b in data.iter().take(600) {
        v.push(*b ^ r.next() as u8);
    }
    v
}

/// duplicity's Quote: a word is quoted if it contains white space, a backslash or a quote.
pub fn quote(s: &[u8]) -> Vec<u8> {
    let special = |b: u8| matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c | b'\\' | b'"' | b'\'');
    if !s.iter().any(|b| special(*b)) {
        return s.to_vec();
    }
    let mut o = vec![b'"'];
    for &b in s {
        if special(b) {
            o.extend_from_slice(format!("\\x{:02x}", b).as_bytes());
        } else {
            o.push(b);
        }
    }
    o.push(b'"');
    o
}

#[derive(Clone, Debug, PartialEq)]
pub struct VolT {
    pub start: Vec<Vec<u8>>,
    pub start_block: Option<usize>,
    pub end: Vec<Vec<u8>>,
    pub end_block: Option<usize>,
    pub htype: &'static str,
    pub hash: Vec<u8>,
}

fn path_word(p: &[Vec<u8>]) -> Vec<u8> {
    if p.is_empty() {
        b".".to_vec()
    } else {
        quote(&join(p))
    }
}

/// Returns the text, and for each volume the offset just behind its last line.
pub fn manifest_text(host: &[u8], dir: &[u8], vols: &[VolT]) -> (Vec<u8>, usize, Vec<usize>) {
    let mut o = Vec::new();
    o.extend_from_slice(b"Hostname ");
    o.extend(quote(host));
    o.extend_from_slice(b"\nLocaldir ");
    o.extend(quote(dir));
    o.push(b'\n');
    let head = o.len();
    let mut ends = Vec::new();
    for (i, v) in vols.iter().enumerate() {
        o.extend_from_slice(format!("Volume {}:\n", i + 1).as_bytes());
        for (k, p, b) in [("StartingPath   ", &v.start, v.start_block), ("EndingPath     ", &v.end, v.end_block)] {
            o.extend_from_slice(b"    ");
            o.extend_from_slice(k.as_bytes());
            o.extend(path_word(p));
            o.push(b' ');
            if let Some(n) = b {
                o.extend_from_slice(n.to_string().as_bytes());
            }
            o.push(b'\n');
        }
        o.extend_from_slice(format!("    Hash {} ", v.htype).as_bytes());
        for b in &v.hash {
            o.extend_from_slice(format!("{:02x}", b).as_bytes());
        }
        o.push(b'\n');
        ends.push(o.len());
    }
    (o, head, ends)
}

// ---- calendar

pub fn civil(days: i64) -> (i64, u32, u32) {
    // days since 1970-01-01 -> (y, m, d)
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
    let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}

pub fn days_from_civil(y: i64, m: u32, d: u32) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

pub fn stamp(t: i64) -> String {
    let (y, m, d) = civil(t.div_euclid(86400));
    let s = t.rem_euclid(86400);
    format!("{:04}{:02}{:02}T{:02}{:02}{:02}Z", y, m, d, s / 3600, s / 60 % 60, s % 60)
}
