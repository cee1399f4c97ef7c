//! Reference models, written from the documented format alone: what the stored names mean, what a
//! snapshot's listing is, how times and listings are rendered.
use crate::enc::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc as Rc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What {
    Vol(usize),
    Man,
    Sig,
}

#[derive(Clone, Debug)]
pub struct Info {
    pub full: bool,
    pub start: i64,
    pub end: i64,
    pub what: What,
    pub part: bool,
    pub gz: bool,
    pub gpg: bool,
}

pub enum P {
    Clear(Info),
    No,
    Hazy,
}
impl P {
    pub fn clear(self) -> Option<Info> {
        match self {
            P::Clear(i) => Some(i),
            _ => None,
        }
    }
}

/// What a timestamp in a name means.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    At(i64),
    /// not duplicity's form
    No,
    /// the form is right but the date or the time of day does not exist, or nobody is sure of it
    Odd,
}

pub fn stamp_means(s: &str) -> St {
    let b = s.as_bytes();
    let form = b.len() == 16 && b.iter().enumerate().all(|(i, c)| match i { 8 => *c == b't', 15 => *c == b'z', _ => c.is_ascii_digit() });
    if !form {
        return St::No;
    }
    time(s).map_or(St::Odd, St::At)
}

fn time(s: &str) -> Option<i64> {
    let b = s.as_bytes();
    if b.len() != 16 || b[8] != b't' || b[15] != b'z' {
        return None;
    }
    let num = |a: usize, n: usize| -> Option<i64> {
        let x = &s[a..a + n];
        if x.bytes().all(|c| c.is_ascii_digit()) {
            x.parse().ok()
        } else {
            None
        }
    };
    let (y, mo, d, h, mi, se) = (num(0, 4)?, num(4, 2)?, num(6, 2)?, num(9, 2)?, num(11, 2)?, num(13, 2)?);
    if y < 1902 || mo < 1 || mo > 12 || d < 1 || h > 23 || mi > 59 || se > 59 {
        return None;
    }
    let days = days_from_civil(y, mo as u32, d as u32);
    if civil(days) != (y, mo as u32, d as u32) {
        return None;
    }
    Some(days * 86400 + h * 3600 + mi * 60 + se)
}

pub fn parse_name(name: &[u8]) -> P {
    let s = match std::str::from_utf8(name) {
        Ok(s) => s.to_ascii_lowercase(),
        Err(_) => return P::No,
    };
    let (rest, full, sig) = if let Some(r) = s.strip_prefix("duplicity-full-signatures.") {
        (r, true, true)
    } else if let Some(r) = s.strip_prefix("duplicity-new-signatures.") {
        (r, false, true)
    } else if let Some(r) = s.strip_prefix("duplicity-full.") {
        (r, true, false)
    } else if let Some(r) = s.strip_prefix("duplicity-inc.") {
        (r, false, false)
    } else {
        return P::No;
    };
    let unsure = || if s.bytes().any(|b| b.is_ascii_digit()) { P::Hazy } else { P::No };
    let parts: Vec<&str> = rest.split('.').collect();
    // a timestamp has no dots, so it is what stands between two of them
    let not = |k: usize| parts.get(k).map_or(true, |t| stamp_means(t) == St::No);
    if not(0) || !full && (parts.get(1) != Some(&"to") || not(2)) {
        return P::No;
    }
    let (start, end, tail) = if full {
        match parts.get(0).and_then(|t| time(t)) {
            Some(t) => (t, t, &parts[1..]),
            None => return unsure(),
        }
    } else {
        match (parts.get(0).and_then(|t| time(t)), parts.get(1), parts.get(2).and_then(|t| time(t))) {
            (Some(a), Some(&"to"), Some(b)) => (a, b, &parts[3..]),
            _ => return unsure(),
        }
    };
    let (what, tail) = if sig {
        match tail.get(0) {
            Some(&"sigtar") => (What::Sig, &tail[1..]),
            _ => return unsure(),
        }
    } else {
        match (tail.get(0), tail.get(1)) {
            (Some(&"manifest"), _) => (What::Man, &tail[1..]),
            (Some(v), Some(&"difftar")) if v.starts_with("vol") && v.len() > 3 && v.len() < 16 && v[3..].bytes().all(|b| b.is_ascii_digit()) && !v[3..].starts_with('0') => {
                (What::Vol(v[3..].parse().unwrap()), &tail[2..])
            }
            _ => return unsure(),
        }
    };
    let (part, tail) = match tail.get(0) {
        Some(&"part") if !matches!(what, What::Vol(_)) => (true, &tail[1..]),
        _ => (false, tail),
    };
    let (gz, gpg) = match tail {
        [] => (false, false),
        ["gz"] | ["z"] => (true, false),
        ["gpg"] | ["g"] => (false, true),
        _ => return unsure(),
    };
    P::Clear(Info { full, start, end, what, part, gz, gpg })
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct MSet {
    pub full: bool,
    pub start: i64,
    pub end: i64,
    pub vols: BTreeMap<usize, String>,
    pub manifest: Option<String>,
    pub sig: Option<String>,
    pub gz: bool,
    pub gpg: bool,
    pub part: bool,
}

pub type Key = (bool, i64, i64);
impl MSet {
    pub fn key(&self) -> Key {
        (self.full, self.start, self.end)
    }
}

#[derive(Clone, Debug, Default)]
pub struct View {
    pub chains: Vec<Vec<MSet>>,
    /// the signature files that hang together with each chain, including those of increments that
    /// were tried again later
    pub sigs: Vec<BTreeSet<String>>,
    /// the signature chains, oldest first: time and name of every file
    pub sigchains: Vec<Vec<(i64, String)>>,
    /// the names do not determine the answer (strange or clashing names)
    pub hazy: bool,
    /// every instant in a name
    pub times: BTreeSet<i64>,
}

pub fn view(names: &BTreeSet<Vec<u8>>) -> View {
    let mut sets: BTreeMap<(i64, Key), MSet> = BTreeMap::new();
    let mut finals: BTreeSet<(Key, bool)> = BTreeSet::new();
    let mut v = View::default();
    // names sort so that a plain name comes before its `.part` variant and other suffixes
    for n in names {
        let i = match parse_name(n) {
            P::Clear(i) => i,
            P::No => continue,
            P::Hazy => {
                v.hazy = true;
                continue;
            }
        };
        let key = (i.full, i.start, i.end);
        v.times.extend([i.start, i.end]);
        let name = String::from_utf8(n.clone()).unwrap();
        let s = sets.entry((i.end, key)).or_default();
        s.full = i.full;
        s.start = i.start;
        s.end = i.end;
        s.gz |= i.gz;
        s.gpg |= i.gpg;
        s.part |= i.part;
        match i.what {
            What::Vol(k) => {
                if s.vols.insert(k, name).is_some() {
                    v.hazy = true;
                }
            }
            What::Man | What::Sig => {
                let is_sig = i.what == What::Sig;
                let slot = if is_sig { &mut s.sig } else { &mut s.manifest };
                let had_final = finals.contains(&(key, is_sig));
                if i.part {
                    if !had_final {
                        if slot.is_some() {
                            v.hazy = true;
                        }
                        *slot = Some(name);
                    }
                } else {
                    if had_final {
                        v.hazy = true;
                    }
                    finals.insert((key, is_sig));
                    *slot = Some(name);
                }
            }
        }
        if !i.full && i.end <= i.start {
            v.hazy = true;
        }
    }
    let everything: Vec<MSet> = sets.values().cloned().collect();
    let mut chains: Vec<Vec<MSet>> = vec![];
    let mut prev_end = None;
    for ((end, _), s) in sets {
        if prev_end == Some(end) {
            v.hazy = true;
        }
        prev_end = Some(end);
        if s.full {
            chains.push(vec![s]);
            continue;
        }
        if let Some(c) = chains.iter_mut().find(|c| c.last().unwrap().end == s.start) {
            c.push(s);
        } else if let Some(c) = chains.iter_mut().find(|c| {
            let l = c.last().unwrap();
            !l.full && l.start == s.start && l.end < s.end
        }) {
            // a retry takes the place of the earlier attempt
            *c.last_mut().unwrap() = s;
        }
    }
    chains.sort_by_key(|c| c.last().unwrap().end);
    for c in &chains {
        let mut reach: BTreeSet<i64> = BTreeSet::new();
        reach.insert(c[0].end);
        let mut sigs: BTreeSet<String> = c[0].sig.iter().cloned().collect();
        for s in everything.iter().filter(|s| !s.full) {
            if reach.contains(&s.start) {
                reach.insert(s.end);
                sigs.extend(s.sig.iter().cloned());
            }
        }
        v.sigs.push(sigs);
    }
    v.chains = chains;
    // signature files are chained by the rules of the sets they belong to
    let mut with_sig: Vec<&MSet> = everything.iter().filter(|s| s.sig.is_some()).collect();
    with_sig.sort_by_key(|s| s.end);
    let mut sc: Vec<Vec<&MSet>> = with_sig.iter().filter(|s| s.full).map(|s| vec![*s]).collect();
    for s in with_sig.into_iter().filter(|s| !s.full) {
        for c in &mut sc {
            let l = *c.last().unwrap();
            if l.end == s.start {
                c.push(s);
                break;
            }
            if !l.full && l.start == s.start && l.end < s.end {
                *c.last_mut().unwrap() = s;
                break;
            }
        }
    }
    v.sigchains = sc.iter().map(|c| c.iter().map(|s| (s.end, s.sig.clone().unwrap())).collect()).collect();
    v
}

/// One row of a listing.
#[derive(Clone, Debug, PartialEq)]
pub struct Row {
    pub path: Vec<u8>,
    pub t: u8,
    pub mtime: i64,
    pub mode: Option<u32>,
    pub uid: Option<u64>,
    pub gid: Option<u64>,
    pub uname: Option<String>,
    pub gname: Option<String>,
    pub link: Option<Vec<u8>>,
    pub hint: Option<(usize, usize)>,
}

/// What the entries must be.
#[derive(Clone, Debug)]
pub struct Expect {
    pub rows: Vec<NodeAt>,
    pub unames: BTreeMap<u32, BTreeSet<String>>,
    pub gnames: BTreeMap<u32, BTreeSet<String>>,
}
#[derive(Clone, Debug)]
pub struct NodeAt {
    pub path: Vec<u8>,
    pub n: NodeT,
}

impl Expect {
    /// Applies the archives of a chain in order; `counts` limits how many entries of each are used.
    pub fn build(chain: &[Rc<SigTruth>], counts: &[usize], upto: usize) -> Expect {
        let mut m: BTreeMap<Path, NodeT> = BTreeMap::new();
        let mut e = Expect { rows: vec![], unames: BTreeMap::new(), gnames: BTreeMap::new() };
        for (i, t) in chain.iter().enumerate() {
            for ent in &t.ents[..counts[i].min(t.ents.len())] {
                if let Some(n) = &ent.node {
                    e.unames.entry(n.uid).or_default().insert(n.uname.clone());
                    e.gnames.entry(n.gid).or_default().insert(n.gname.clone());
                }
                if i < upto {
                    match &ent.node {
                        Some(n) => {
                            m.insert(ent.path.clone(), n.clone());
                        }
                        None => {
                            m.remove(&ent.path);
                        }
                    }
                }
            }
        }
        e.rows = m.into_iter().map(|(p, n)| NodeAt { path: join(&p), n }).collect();
        e
    }

    pub fn names_from(&mut self, extra: &[Rc<SigTruth>]) {
        for n in extra.iter().flat_map(|t| &t.ents).filter_map(|e| e.node.as_ref()) {
            self.unames.entry(n.uid).or_default().insert(n.uname.clone());
            self.gnames.entry(n.gid).or_default().insert(n.gname.clone());
        }
    }

    pub fn paths_equal(&self, got: &[Row]) -> bool {
        self.rows.len() == got.len() && self.rows.iter().zip(got).all(|(a, b)| a.path == b.path)
    }

    /// None if equal, otherwise the first difference.
    pub fn diff(&self, got: &[Row], names: bool) -> Option<String> {
        for (i, w) in self.rows.iter().enumerate() {
            let g = match got.get(i) {
                None => return Some(format!("row {}: missing {:?} (and {} more)", i, show(&w.path), self.rows.len() - i - 1)),
                Some(g) => g,
            };
            if g.path != w.path {
                return Some(format!("row {}: expected {:?}, got {:?}", i, show(&w.path), show(&g.path)));
            }
            let n = &w.n;
            let mut bad = vec![];
            if g.t != n.t {
                bad.push(format!("type {} != {}", g.t as char, n.t as char));
            }
            if g.mtime != n.mtime as i64 {
                bad.push(format!("mtime {} != {}", g.mtime, n.mtime));
            }
            if g.mode != Some(n.mode) {
                bad.push(format!("mode {:?} != {:o}", g.mode, n.mode));
            }
            if g.uid != Some(n.uid as u64) {
                bad.push(format!("uid {:?} != {}", g.uid, n.uid));
            }
            if g.gid != Some(n.gid as u64) {
                bad.push(format!("gid {:?} != {}", g.gid, n.gid));
            }
            if g.link != n.link {
                bad.push(format!("link {:?} != {:?}", g.link.as_deref().map(show), n.link.as_deref().map(show)));
            }
            if names {
                if !g.uname.as_ref().map_or(false, |u| self.unames[&n.uid].contains(u)) {
                    bad.push(format!("user {:?} not in {:?}", g.uname, self.unames[&n.uid]));
                }
                if !g.gname.as_ref().map_or(false, |u| self.gnames[&n.gid].contains(u)) {
                    bad.push(format!("group {:?} not in {:?}", g.gname, self.gnames[&n.gid]));
                }
            }
            match g.hint {
                Some((lo, hi)) => {
                    let (lo, hi) = (lo as u64, hi as u64);
                    if !(lo <= n.size && n.size <= hi) {
                        bad.push(format!("size {} not in {}..{}", n.size, lo, hi));
                    } else if hi - lo > n.blk {
                        bad.push(format!("size range {}..{} wider than block {}", lo, hi, n.blk));
                    }
                }
                None => bad.push("no size".into()),
            }
            if !bad.is_empty() {
                return Some(format!("row {} {:?}: {}", i, show(&w.path), bad.join(", ")));
            }
        }
        if got.len() > self.rows.len() {
            return Some(format!("row {}: unexpected {:?}", self.rows.len(), show(&got[self.rows.len()].path)));
        }
        None
    }
}

pub fn show(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}

// ---- time zones, given as POSIX TZ strings so that no zone database is needed

pub struct Zone {
    pub tz: &'static str,
    /// seconds east of UTC
    std: i64,
    /// (offset, start, end) in summer: (month, week, hour of local wall time)
    dst: Option<(i64, (u32, u32, i64), (u32, u32, i64))>,
}

pub const ZONES: &[Zone] = &[
    Zone { tz: "UTC0", std: 0, dst: None },
    Zone { tz: "AAA-14", std: 14 * 3600, dst: None },
    Zone { tz: "BBB12", std: -12 * 3600, dst: None },
    Zone { tz: "CCC-5:30", std: 5 * 3600 + 1800, dst: None },
    Zone { tz: "DDD9:30", std: -(9 * 3600 + 1800), dst: None },
    Zone { tz: "EEE-12:45", std: 12 * 3600 + 2700, dst: None },
    Zone { tz: "EST5EDT,M3.2.0,M11.1.0", std: -5 * 3600, dst: Some((-4 * 3600, (3, 2, 2), (11, 1, 2))) },
    Zone { tz: "CET-1CEST,M3.5.0,M10.5.0/3", std: 3600, dst: Some((7200, (3, 5, 2), (10, 5, 3))) },
    Zone { tz: "NZST-12NZDT,M9.5.0,M4.1.0/3", std: 12 * 3600, dst: Some((13 * 3600, (9, 5, 2), (4, 1, 3))) },
    Zone { tz: "FFF0:00:30", std: -30, dst: None },
];

fn sunday(y: i64, m: u32, week: u32) -> i64 {
    let first = days_from_civil(y, m, 1);
    let dow = (first + 4).rem_euclid(7); // 0 = Sunday
    let mut d = first + (7 - dow) % 7 + 7 * (week as i64 - 1);
    let next = if m == 12 { days_from_civil(y + 1, 1, 1) } else { days_from_civil(y, m + 1, 1) };
    while d >= next {
        d -= 7;
    }
    d
}

impl Zone {
    pub fn offset(&self, t: i64) -> i64 {
        let (doff, s, e) = match self.dst {
            None => return self.std,
            Some(x) => x,
        };
        let (y, _, _) = civil((t + self.std).div_euclid(86400));
        let on = sunday(y, s.0, s.1) * 86400 + s.2 * 3600 - self.std;
        let off = sunday(y, e.0, e.1) * 86400 + e.2 * 3600 - doff;
        let summer = if on < off { t >= on && t < off } else { t >= on || t < off };
        if summer {
            doff
        } else {
            self.std
        }
    }
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];

/// The acceptable renderings of a time.
pub fn render_time(t: i64, zone: Option<&Zone>, now: i64, now_zone: &Zone) -> Vec<String> {
    let year = |z: Option<&Zone>| civil((now + z.map_or(0, |z| z.offset(now))).div_euclid(86400)).0;
    // the zone may have changed since the time was prepared for printing
    let years: Vec<i64> = match zone {
        Some(z) => vec![year(Some(z)), year(Some(now_zone))],
        None => vec![year(None)],
    };
    // glibc has no rules for summer time before 1971
    let offsets = match zone {
        None => vec![0],
        Some(Zone { dst: Some(d), std, .. }) if t < 366 * 86400 => vec![*std, d.0],
        Some(z) => vec![z.offset(t)],
    };
    let mut v = vec![];
    for o in offsets {
        let w = t + o;
        let (y, m, d) = civil(w.div_euclid(86400));
        let s = w.rem_euclid(86400);
        if years.contains(&y) {
            v.push(format!("{} {:02} {:02}:{:02}", MONTHS[m as usize - 1], d, s / 3600, s / 60 % 60));
        }
        if years.iter().any(|x| *x != y) {
            v.push(format!("{} {:02}  {}", MONTHS[m as usize - 1], d, y));
        }
    }
    v
}

pub fn render_mode(mode: u32) -> String {
    let mut s = String::new();
    for (i, (sp, lo, hi)) in [(4, 's', 'S'), (2, 's', 'S'), (1, 't', 'T')].iter().enumerate() {
        let m = mode >> (6 - 3 * i as u32) & 7;
        s.push(if m & 4 != 0 { 'r' } else { '-' });
        s.push(if m & 2 != 0 { 'w' } else { '-' });
        let special = (mode >> 9) & sp != 0;
        s.push(match (m & 1 != 0, special) {
            (true, true) => *lo,
            (false, true) => *hi,
            (true, false) => 'x',
            (false, false) => '-',
        });
    }
    s
}

pub fn squeeze(s: &str) -> String {
    let mut o = String::new();
    let mut sp = false;
    for c in s.chars() {
        if c == ' ' {
            if !sp {
                o.push(c);
            }
            sp = true;
        } else {
            o.push(c);
            sp = false;
        }
    }
    o.trim().to_string()
}
