//! Expands a seed into a plan.  Swarm style: every run draws which features and fault kinds it uses.
//! A shadow world follows the writer's steps so that names and paths can be chosen to fit.
use crate::enc::{days_from_civil, stamp};
use crate::model::{parse_name, P, ZONES};
use crate::plan::*;
use crate::rng::{mix, Rng};
use crate::world::World;

#[derive(Default, Clone)]
struct Prof {
    /// weights of the actions, see `Gen::action`
    w: [u32; NACT],
    io_faults: u32,
    man_faults: u32,
    max_steps: u64,
}

const BEGIN: usize = 0;
const WRITE: usize = 1;
const FINISH: usize = 2;
const CRASH: usize = 3;
const CLEAN: usize = 4;
const PRUNE: usize = 5;
const JUNK: usize = 6;
const HARM: usize = 7;
const OPEN: usize = 8;
const WALK: usize = 9;
const ITER: usize = 10;
const ENTRIES: usize = 11;
const MANIFEST: usize = 12;
const RECHECK: usize = 13;
const DROP: usize = 14;
const RENDER: usize = 15;
const AUDIT: usize = 16;
const CLOSE: usize = 17;
const PERMUTE: usize = 18;
const CLOCK: usize = 19;
const TIME: usize = 20;
const RAW: usize = 21;
const PAIR: usize = 22;
const CHAIN: usize = 23;
const STAMPS: usize = 24;
const CYCLE: usize = 25;
const ITERATE: usize = 26;
const SINK: usize = 27;
const EVERY: usize = 28;
const NACT: usize = 29;

struct Gen {
    r: Rng,
    prop: String,
    p: Prof,
    steps: Vec<Step>,
    w: World,
    /// the storage that is not the current one
    other: World,
    store: u8,
    two: bool,
    handles: Vec<u8>,
    slots: Vec<u8>,
    times: Vec<u8>,
    hold: bool,
    nasty: u32,
    cap: u32,
    errnos: Vec<i32>,
    hazy: bool,
    max_ops: u64,
    /// long paths and link targets
    deep: bool,
    /// how many backups and results may be held
    handles_max: u64,
    slots_max: u64,
    /// the settings of the backup change between runs
    vary: bool,
}

fn prof(prop: &str) -> Prof {
    let mut p = Prof::default();
    p.max_steps = 34;
    let w = &mut p.w;
    w[BEGIN] = 14;
    w[WRITE] = 10;
    w[FINISH] = 14;
    w[CRASH] = 4;
    w[CLEAN] = 2;
    w[PRUNE] = 1;
    w[OPEN] = 8;
    w[WALK] = 2;
    w[CLOSE] = 1;
    let mut set = |l: &[(usize, u32)]| {
        for (k, v) in l {
            w[*k] = *v;
        }
    };
    set(&[(CHAIN, match prop { "C03" | "C04" => 3, "C06" | "C09" => 4, "C10" | "C11" => 1, _ => 0 }), (EVERY, match prop { "C10" | "C11" => 2, "C20" => 1, _ => 0 })]);
    match prop {
        "C21" => set(&[(SINK, 40), (OPEN, 12), (CRASH, 4), (CLEAN, 2), (PRUNE, 2), (CLOCK, 5), (JUNK, 1), (HARM, 1), (WALK, 0)]),
        "C15" => set(&[(STAMPS, 30), (CLOCK, 14), (OPEN, 8), (JUNK, 6), (CRASH, 1), (WRITE, 3), (WALK, 0), (HARM, 0)]),
        "C16" => set(&[(CHAIN, 24), (ITERATE, 24), (OPEN, 12), (CRASH, 5), (HARM, 2), (WALK, 0), (JUNK, 1)]),
        "C17" => {
            set(&[(ENTRIES, 22), (MANIFEST, 14), (OPEN, 16), (CHAIN, 4), (ITER, 2), (RECHECK, 8), (WALK, 3), (PAIR, 2), (HARM, 1), (CLOSE, 1), (WRITE, 4), (CRASH, 2)]);
            p.io_faults = 8;
            p.man_faults = 8;
        }
        "C19" => {
            set(&[(ENTRIES, 16), (MANIFEST, 14), (CHAIN, 6), (OPEN, 16), (PAIR, 3), (HARM, 4), (CRASH, 4), (PRUNE, 2), (WALK, 0), (WRITE, 4)]);
            p.io_faults = 55;
            p.man_faults = 55;
        }
        "C20" => {
            set(&[(CYCLE, 9), (ENTRIES, 8), (MANIFEST, 6), (CHAIN, 4), (OPEN, 8), (PAIR, 3), (HARM, 5), (CRASH, 4), (WALK, 0), (WRITE, 4), (RAW, 4), (RECHECK, 3)]);
            p.io_faults = 50;
            p.man_faults = 50;
        }
        "C18" => set(&[(RENDER, 26), (OPEN, 12), (CRASH, 7), (CLEAN, 3), (PRUNE, 3), (CLOCK, 7), (JUNK, 3), (HARM, 2), (ENTRIES, 2), (MANIFEST, 1), (WALK, 0)]),
        "C01" => set(&[(PERMUTE, 16), (JUNK, 8), (CRASH, 6), (OPEN, 1), (WALK, 0), (HARM, 2)]),
        "C02" => set(&[(OPEN, 22), (CRASH, 8), (CLEAN, 4), (PRUNE, 3), (JUNK, 4), (ITER, 2), (RECHECK, 2)]),
        "C03" => set(&[(ENTRIES, 14), (AUDIT, 5), (OPEN, 8), (CRASH, 1), (PRUNE, 1), (WALK, 0), (WRITE, 3), (HARM, 1)]),
        "C04" => set(&[(ENTRIES, 12), (AUDIT, 7), (CRASH, 9), (CLEAN, 2), (PRUNE, 3), (HARM, 5), (WALK, 0)]),
        "C05" => set(&[(MANIFEST, 16), (HARM, 1), (AUDIT, 5), (WALK, 0), (WRITE, 4), (CRASH, 1)]),
        "C06" => {
            set(&[(ENTRIES, 22), (PAIR, 3), (HARM, 5), (WALK, 0), (CRASH, 3), (WRITE, 5)]);
            p.io_faults = 60;
        }
        "C07" => {
            set(&[(MANIFEST, 22), (PAIR, 2), (HARM, 4), (WALK, 0), (CRASH, 5)]);
            p.man_faults = 60;
        }
        "C08" => {
            set(&[(PAIR, 18), (ENTRIES, 6), (MANIFEST, 5), (AUDIT, 2), (CRASH, 2), (WRITE, 5), (RECHECK, 4)]);
            p.io_faults = 60;
            p.man_faults = 60;
        }
        "C09" => {
            set(&[(HARM, 16), (JUNK, 6), (ENTRIES, 14), (MANIFEST, 9), (RENDER, 5), (OPEN, 12), (TIME, 3), (CLOCK, 1), (AUDIT, 2), (CRASH, 4), (PERMUTE, 1)]);
            p.io_faults = 15;
            p.man_faults = 15;
        }
        "C10" => set(&[(ENTRIES, 18), (MANIFEST, 14), (ITER, 5), (RECHECK, 24), (DROP, 5), (WALK, 3), (CLOSE, 1), (WRITE, 4), (CRASH, 2)]),
        "C11" => set(&[(ENTRIES, 14), (MANIFEST, 10), (WALK, 6), (ITER, 2), (RECHECK, 10), (HARM, 5), (PRUNE, 4), (CLEAN, 3), (CRASH, 3), (DROP, 1)]),
        "C12" => {
            set(&[(RAW, 26), (OPEN, 12), (ENTRIES, 6), (MANIFEST, 5), (JUNK, 5), (HARM, 2), (AUDIT, 2)]);
            p.io_faults = 30;
            p.man_faults = 20;
        }
        "C13" => set(&[(CLOCK, 18), (TIME, 22), (RENDER, 12), (CHAIN, 3), (CRASH, 1), (CLEAN, 0), (PRUNE, 0), (WRITE, 3), (BEGIN, 8), (FINISH, 10), (OPEN, 6)]),
        "C14" => set(&[(AUDIT, 16), (CRASH, 7), (CLEAN, 4), (PRUNE, 4), (OPEN, 1), (HARM, 3), (WALK, 0), (WRITE, 8)]),
        _ => {}
    }
    p
}

pub fn generate(prop: &str, seed: u64) -> Plan {
    let mut r = Rng::new(seed);
    let long = match prop {
        "C03" | "C14" => r.chance(1, 160),
        "C04" | "C10" | "C11" | "C16" | "C20" => r.chance(1, 500),
        "C02" | "C01" | "C18" => r.chance(1, 400),
        _ => false,
    };
    let year = 1995 + r.below(60) as i64;
    let mut clock = days_from_civil(year, 1, 1) * 86400 + r.below(365 * 86400) as i64;
    if r.chance(1, 3) || prop == "C13" && r.chance(1, 2) {
        // close to a year's, month's or leap day's end
        let (m, d) = *r.pick(&[(1, 1), (1, 1), (1, 1), (3, 1), (2, 29), (12, 31), (10, 1)]);
        let y = if d == 29 { year / 4 * 4 } else { year };
        clock = days_from_civil(y, m, d) * 86400 + r.below(40 * 3600) as i64 - 20 * 3600;
    }
    let gpg = match prop {
        "C04" => r.chance(1, 6),
        "C02" | "C01" => r.chance(1, 5),
        "C09" | "C11" | "C12" | "C07" | "C19" | "C20" => r.chance(1, 12),
        "C08" | "C14" => r.chance(1, 30),
        _ => false,
    };
    let local = match prop {
        "C12" => true,
        "C03" | "C05" | "C06" | "C07" | "C08" | "C10" | "C11" | "C02" | "C17" => r.chance(1, 8) && !long,
        "C16" | "C19" | "C20" => r.chance(1, 3) && !long,
        _ => false,
    };
    let word = |r: &mut Rng| -> B {
        B(match r.below(12) {
            0 => b"my host".to_vec(),
            1 => b"host\\name".to_vec(),
            2 => b"it's".to_vec(),
            3 => "h\u{f6}st".as_bytes().to_vec(),
            4 => b"h\"q".to_vec(),
            5 => {
                // any text
                let n = r.below(9);
                let t: String = (0..n).map(|_| *r.pick(&['a', 'Z', '0', '-', '.', '_', ' ', '\\', '"', '\'', '\t', '\u{b}', 'x', 'n', '#', ':', '\u{a0}', '\u{e9}', '\u{3000}', '\u{1f600}'])).collect();
                t.into_bytes()
            }
            _ => b"dellxps".to_vec(),
        })
    };
    let host = word(&mut r);
    let dir = B(match r.below(12) {
        0 => b"/".to_vec(),
        1 => b"/my dir/x".to_vec(),
        2 => b"/back\\slash".to_vec(),
        3 => b"/\xff\xfe/raw".to_vec(),
        4 => b"rel/ative".to_vec(),
        5 => b"/quo'te\"d".to_vec(),
        6 => b"/tab\there".to_vec(),
        7 | 8 => {
            // any bytes
            let mut d = vec![b'/'];
            let n = if r.chance(1, 8) { 300 + r.below(4000) } else { r.below(12) };
            let plain = r.chance(1, 2);
            for _ in 0..n {
                d.push(if plain { *r.pick(b"ab\\/ \"'x0\t.") } else { 1 + r.below(255) as u8 });
            }
            d
        }
        _ => b"/home/me".to_vec(),
    });
    let cfg = Cfg {
        prop: prop.to_string(),
        seed: r.next() >> 12,
        gz: if long { r.chance(1, 2) } else { r.chance(2, 3) },
        gpg,
        atomic: r.chance(1, 2),
        part: r.chance(1, 4),
        case: *r.pick(&[0, 0, 0, 0, 1, 2]),
        tarfmt: *r.pick(&[0, 0, 0, 1, 2]),
        local,
        clock,
        zone: r.below(ZONES.len() as u64) as u8,
        host,
        dir,
        chunks: match prop {
            "C05" | "C02" if r.chance(1, 12) => r.range(60, 700) as u16,
            _ => *r.pick(&[12, 12, 12, 2]),
        },
        blocks: *r.pick(&[1, 1, 1, 2, 7, 4000, 1_000_000, u32::MAX]),
        hash: *r.pick(&[0, 0, 0, 0, 1, 2, 3]),
        short: r.chance(1, 10),
        links: local && r.chance(1, 3),
        base: if local { *r.pick(&[0, 0, 0, 0, 1, 2, 3, 4]) } else { 0 },
    };
    let mut p = prof(prop);
    // swarm: switch some features off, stress others
    for i in 0..NACT {
        if i > FINISH && i != OPEN && r.chance(1, 6) && p.w[i] < 12 {
            p.w[i] = 0;
        } else if r.chance(1, 6) {
            p.w[i] *= 3;
        }
    }
    let all = [libc::EIO, libc::EACCES, libc::ENOENT, libc::ESTALE, libc::ETIMEDOUT, libc::ENOMEM, libc::EMFILE, libc::EAGAIN, libc::ECONNRESET, libc::EINVAL, libc::EPIPE];
    let mut errnos = vec![];
    for e in all {
        if r.chance(1, 3) {
            errnos.push(e);
        }
    }
    if errnos.is_empty() {
        errnos.push(libc::EIO);
    }
    let nasty = *r.pick(&[0, 10, 40, 80]);
    let many = cfg.chunks > 50;
    let cap = if many { 1 } else { *r.pick(&[1, 1, 2, 2, 3, 4, 6, 10, 50, 1000]) };
    let big = if r.chance(1, 8) { 150 } else { 10 };
    let max_ops = *r.pick(&[1, 3, 6, 12, 12, 30, big]);
    let w = World::new(&cfg);
    let other = World::new(&cfg);
    let two = prop == "C17" && r.chance(1, 2);
    let deep = !long && prop != "C13" && r.chance(1, 14);
    let handles_max = if matches!(prop, "C08" | "C10" | "C11" | "C17" | "C20") && r.chance(1, 10) { 12 } else { 3 };
    let slots_max = if r.chance(1, 10) { 60 } else { 6 };
    let hold = prop == "C10" || matches!(prop, "C08" | "C11" | "C17" | "C20") && r.chance(1, 3);
    let mut g = Gen { vary: false, deep, handles_max, slots_max, other, store: 0, two, r, prop: prop.to_string(), p, steps: vec![], w, handles: vec![], slots: vec![], times: vec![], hold, nasty, cap, errnos, hazy: matches!(prop, "C01" | "C09"), max_ops };
    g.hold |= g.r.chance(1, 3);
    g.vary = g.r.chance(1, 5);
    if long {
        g.long();
    } else {
        g.main();
    }
    if prop == "C17" {
        g.spread();
    }
    Plan { cfg, steps: g.steps }
}

impl Gen {
    fn push(&mut self, s: Step) {
        match &s {
            Step::Mutate(ops) => {
                for o in ops {
                    self.w.mutate(o);
                }
            }
            Step::Tick(n) => {
                self.w.now += *n as i64;
                self.other.now += *n as i64;
            }
            Step::Storage(k) => {
                if *k != self.store {
                    std::mem::swap(&mut self.w, &mut self.other);
                    self.store = *k;
                }
            }
            Step::Conf(c) => self.w.cfg.set(c),
            Step::Begin { run, cap, quirk } => self.w.begin(*run, *cap, *quirk),
            Step::Write(n) => {
                for _ in 0..*n {
                    if !self.w.micro() {
                        break;
                    }
                }
            }
            Step::Finish => self.w.finish(),
            Step::Crash { lose, torn } => self.w.crash(*lose, *torn),
            Step::Cleanup(n) => self.w.cleanup(*n),
            Step::Prune { keep, seed } => self.w.prune(*keep, *seed),
            Step::Junk(n, c) => self.w.junk(n, c),
            Step::Harm { file, how } => {
                self.w.harm(*file, how);
            }
            _ => {}
        }
        self.steps.push(s);
    }

    fn name(&mut self) -> Vec<u8> {
        let r = &mut self.r;
        if r.below(100) < self.nasty as u64 {
            let control = self.prop != "C13";
            match r.below(14) {
                0 => r.pick(&[&b"lib"[..], b"lib.rs", b"lib-x", b"lib+", b"lib!", b"lib#1", b"lib0", b"lib ", b"li", b"lib\x7f", b"lib-"]).to_vec(),
                1 => r.pick(&[&b"lib"[..], b"lib.rs", b"lib-x", b"lib!", b"lib\x01"]).to_vec(),
                2 => r.pick(&[&b"-d"[..], b"+q", b"#n", b"!", b"%41", b"-", b"!!", b"$x", b"(", b"*"]).to_vec(),
                3 => r.pick(&[&b"\xff\xfe"[..], b"\x80", b"caf\xc3\xa9", b"\xc3", b"x\xe9y", b"\xf0\x9f\x98\x80", b"lib\xff"]).to_vec(),
                4 => r.pick(&[&b"q\"uote"[..], b"ba\\ck", b"sp ace", b"'", b"\\x41", b"\\", b" lead", b"trail ", b"\"", b"a\"b c'd"]).to_vec(),
                5 => r.pick(&[&b"deleted"[..], b"snapshot", b"signature", b"difftar", b"multivol_signature"]).to_vec(),
                6 => r.pick(&[&b".hidden"[..], b"..x", b"...", b"~", b".x", b".-"]).to_vec(),
                7 if control => r.pick(&[&b"tab\tx"[..], b"nl\nx", b"\x01", b"cr\rx", b"a\x0bb"]).to_vec(),
                8 => r.pick(&[&b"Volume 1:"[..], b"Hostname", b"EndingPath", b"a=b", b"Hash", b"12", b"0"]).to_vec(),
                9 => {
                    let n = r.range(80, 250) as usize;
                    let c = *r.pick(b"abL");
                    (0..n).map(|i| if i % 10 == 9 { b'0' + (i / 10 % 10) as u8 } else { c }).collect()
                }
                10 => {
                    let n = *r.pick(&[89usize, 90, 91, 92, 98, 99, 100, 101, 155, 156]);
                    vec![b'n'; n]
                }
                11 => r.pick(&[&b"A"[..], b"a", b"B", b"b", b"Z", b"_"]).to_vec(),
                _ => {
                    let n = r.range(1, 3);
                    (0..n).map(|_| loop {
                        let b = 1 + r.below(255) as u8;
                        if b != b'/' && (control || b >= 32 && b != 127) {
                            break b;
                        }
                    }).collect()
                }
            }
        } else {
            r.pick(&[&b"a"[..], b"b", b"c", b"dir", b"dir1", b"file.txt", b"x", b"y", b"z", b"src", b"data.bin", b"lib", b"lib.rs"]).to_vec()
        }
    }

    fn path(&mut self) -> Vec<u8> {
        // under an existing directory, most of the time
        let mut p: Vec<Vec<u8>> = if self.r.chance(2, 3) {
            let n = self.w.tree.len() as u64;
            let k = self.r.below(n) as usize;
            self.w.tree.keys().nth(k).unwrap().clone()
        } else {
            vec![]
        };
        if p.len() > if self.deep { 24 } else { 6 } {
            p.truncate(3);
        }
        // a sibling rather than a child, now and then
        if self.r.chance(1, 3) {
            p.pop();
        }
        for _ in 0..(1 + self.r.below(4) / 3) {
            let mut n = self.name();
            n.retain(|b| *b != b'/' && *b != 0);
            if n.is_empty() || n == b"." || n == b".." {
                n = b"f".to_vec();
            }
            p.push(n);
        }
        if self.deep && self.r.chance(1, 4) {
            // close to what a system can hold
            let top = *self.r.pick(&[300usize, 1000, 2048, 4000, 4094]);
            let odd = self.r.chance(1, 2);
            while p.iter().map(|c| c.len() + 1).sum::<usize>() < top {
                let left = top - p.iter().map(|c| c.len() + 1).sum::<usize>();
                let n = left.min(self.r.range(1, 250) as usize);
                let c = *self.r.pick(b"abz");
                p.push((0..n).map(|i| if odd { 128 + (i * 7 % 120) as u8 } else { c }).collect());
            }
        }
        let j = crate::enc::join(&p);
        if j.len() > if self.deep { 4095 } else { 900 } {
            return b"short".to_vec();
        }
        j
    }

    fn node(&mut self) -> Node {
        let now = self.w.now;
        let c13 = self.prop == "C13";
        let r = &mut self.r;
        let t = *r.pick(b"000000000000555522226341");
        let size = match r.below(12) {
            0 => 0,
            1 => 1,
            2 => r.below(600),
            3 => 512 * r.range(1, 64) - r.below(2),
            4 => 512 * r.range(1, 64) + r.below(2),
            5 => 32768 + r.below(3) - 1,
            6 => r.below(1 << 20),
            7 => 65536 * r.range(1, 6) + r.below(2),
            9 if self.w.cfg.chunks > 50 => 65536 * r.range(50, 300) + r.below(2),
            8 => if r.chance(1, 4) { (1 << 32) + r.below(1 << 33) } else { r.below(1 << 26) },
            _ => r.below(5000),
        };
        let mode = match r.below(5) {
            0 => r.below(0o10000) as u32,
            1 => 0,
            _ => *r.pick(&[0o644u32, 0o755, 0o600, 0o4755, 0o2755, 0o1777, 0o444]),
        };
        let id = |r: &mut Rng| -> u32 {
            match r.below(10) {
                0 => 0,
                1 => r.below(1 << 21) as u32,
                2 => (1u32 << 21) + r.below(3) as u32,
                3 => u32::MAX - r.below(2) as u32,
                _ => 1000 + r.below(6) as u32,
            }
        };
        let mtime = match r.below(12) {
            0 => 0,
            1 if c13 || r.chance(1, 2) => {
                let y = 1971 + r.below(200) as i64;
                (days_from_civil(y, 1, 1) * 86400 + r.below(100_000) as i64 - 50_000) as u64
            }
            2 if !c13 && r.chance(1, 3) => 8589934592 + r.below(1000),
            4 if c13 && r.chance(1, 3) => 8589934592 + r.below(1 << 36),
            3 if c13 => {
                // around the turn of the current year
                let y = crate::enc::civil(now / 86400).0 + r.below(2) as i64;
                (days_from_civil(y, 1, 1) * 86400 + r.below(100_000) as i64 - 50_000) as u64
            }
            // before the epoch
            5 if r.chance(1, 4) => {
                let most = if r.chance(1, 2) { 1 << 31 } else { 10 };
                -(1 + r.below(most) as i64) as u64
            }
            _ => (now - r.below(400 * 86400) as i64).max(1) as u64,
        };
        let uid = id(r);
        let gid = id(r);
        let seed = r.next() as u32;
        let link = if matches!(t, b'1' | b'2') {
            Some(B(match r.below(6) {
                0 if self.deep => vec![b'l'; r.range(210, 4095) as usize],
                0 => vec![b'l'; r.range(95, 210) as usize],
                1 => b"../up/\xff".to_vec(),
                2 => b"dir/".to_vec(),
                3 => b"/abs//x".to_vec(),
                _ => b"target".to_vec(),
            }))
        } else {
            None
        };
        Node { t, size, seed, mode, mtime, uid, gid, link }
    }

    fn ops(&mut self) -> Vec<TreeOp> {
        let n = self.r.range(1, self.max_ops.max(1));
        let mut v = vec![];
        for _ in 0..n {
            let op = match self.r.below(10) {
                0 | 1 => {
                    let k = self.r.below(self.w.tree.len() as u64) as usize;
                    let p = crate::enc::join(self.w.tree.keys().nth(k).unwrap());
                    TreeOp::Del { path: B(p) }
                }
                2 | 3 => {
                    // replace something that is there
                    let k = self.r.below(self.w.tree.len() as u64) as usize;
                    let p = crate::enc::join(self.w.tree.keys().nth(k).unwrap());
                    let mut node = self.node();
                    let old = self.w.tree.values().nth(k).unwrap().clone();
                    match self.r.below(12) {
                        0..=4 => node = Node { mtime: node.mtime, mode: node.mode, seed: node.seed, ..old },
                        // a single attribute, unnoticeable from the others
                        5 => node = Node { mode: node.mode, ..old },
                        6 => node = Node { uid: node.uid, ..old },
                        7 => node = Node { gid: node.gid, ..old },
                        8 if old.t == b'2' => node = Node { link: Some(B(format!("target{}", node.seed % 50).into_bytes())), ..old },
                        8 => node = Node { size: old.size ^ 1, ..old },
                        9 => node = Node { mtime: if self.r.chance(1, 2) { old.mtime.wrapping_add(1) } else { old.mtime.saturating_sub(self.r.below(1 << 24)) }, ..old },
                        10 => node = Node { seed: node.seed, ..old },
                        _ => {}
                    }
                    TreeOp::Put { path: B(p), node }
                }
                _ => {
                    let p = self.path();
                    TreeOp::Put { path: B(p), node: self.node() }
                }
            };
            self.w.mutate(&op);
            v.push(op);
        }
        v
    }

    /// The shadow world must see mutations once only.
    fn mutate(&mut self) {
        let ops = self.ops();
        self.steps.push(Step::Mutate(ops));
    }

    /// The next runs are made by another version of duplicity or with other options.
    fn settings(&mut self) {
        if !self.vary || !self.r.chance(1, 2) {
            return;
        }
        let mut c = self.w.cfg.conf();
        let r = &mut self.r;
        if r.chance(1, 2) {
            c.gz = !c.gz;
        }
        if r.chance(1, 6) || c.gpg && r.chance(2, 3) {
            c.gpg = !c.gpg;
        }
        if r.chance(1, 3) {
            c.part = !c.part;
        }
        if r.chance(1, 3) {
            c.case = r.below(3) as u8;
        }
        if r.chance(1, 3) {
            c.tarfmt = r.below(3) as u8;
        }
        if r.chance(1, 3) {
            c.short = !c.short;
        }
        if r.chance(1, 3) {
            c.hash = r.below(4) as u8;
        }
        if r.chance(1, 6) {
            c.host = B(format!("host{}", r.below(3)).into_bytes());
        }
        if r.chance(1, 6) {
            c.dir = B(format!("/home/{}", r.below(3)).into_bytes());
        }
        self.push(Step::Conf(c));
    }

    fn begin(&mut self) {
        if self.r.chance(5, 6) {
            self.mutate();
        }
        self.settings();
        let t = match self.r.below(8) {
            0 => 0,
            1 => 1,
            2 => 86400 * self.r.range(1, 40) as u32,
            3 => self.r.below(31_000_000) as u32,
            _ => self.r.below(90_000) as u32,
        };
        self.push(Step::Tick(t));
        let run = match self.r.below(10) {
            0 | 1 => Run::Full,
            2 | 3 => Run::Resume,
            4 => Run::Older(self.r.below(3) as u8),
            _ => Run::Inc,
        };
        let cap = match self.r.below(4) {
            0 => self.r.range(1, 8) as u32,
            _ => self.cap,
        };
        let quirk = self.r.below(4) as u8;
        self.push(Step::Begin { run, cap, quirk });
    }

    fn pos(&mut self) -> Pos {
        match self.r.below(8) {
            0 => Pos::Start(self.r.below(4) as u32),
            1 => Pos::Start(self.r.below(1600) as u32),
            2 => Pos::End(self.r.below(12) as u32),
            3 => Pos::End(self.r.below(1600) as u32),
            4 => Pos::Start(512 * self.r.below(12) as u32 + self.r.below(2) as u32),
            5 => Pos::Blk(self.r.below(65536) as u16),
            _ => Pos::Frac(self.r.below(65536) as u16),
        }
    }

    /// A position where something in one of the stored files really ends.
    fn edge(&mut self, man: bool) -> Option<Pos> {
        let mut v: Vec<usize> = vec![];
        let mut files: Vec<&crate::world::SFile> = self.w.files.values().filter(|f| match &f.truth {
            crate::world::Truth::Man(_) => man,
            crate::world::Truth::Sig(t) => !man && !t.gz,
            _ => false,
        }).collect();
        if files.is_empty() {
            return None;
        }
        let k = self.r.below(files.len() as u64) as usize;
        let f = files.swap_remove(k);
        match &f.truth {
            crate::world::Truth::Man(t) => {
                v.push(t.head);
                v.extend(&t.ends);
                if self.r.chance(1, 2) {
                    v.extend(f.full.iter().enumerate().filter(|(_, b)| **b == b'\n').map(|(i, _)| i + 1));
                }
            }
            crate::world::Truth::Sig(t) => {
                for b in &t.bounds {
                    v.push(b.end);
                    v.push(b.data_end);
                }
            }
            _ => {}
        }
        if v.is_empty() {
            return None;
        }
        let at = *self.r.pick(&v) as i64 + *self.r.pick(&[0, 0, 0, 0, -1, 1]);
        Some(Pos::Start(at.max(0) as u32))
    }

    fn errno(&mut self) -> i32 {
        let v = self.errnos.clone();
        *self.r.pick(&v)
    }

    fn io(&mut self, fault_pct: u32, man: bool) -> Io {
        let mut io = Io::default();
        match self.r.below(10) {
            0..=3 => {}
            4..=6 => io.chunk = self.r.range(1, 250) as u8,
            _ => io.chunk = 255,
        }
        if self.r.chance(1, 40) {
            io.chunk = 1;
        }
        if self.r.chance(1, 2) {
            io.order = self.r.next() >> 1 | 1;
        }
        if self.r.below(100) < fault_pct as u64 {
            let n = if self.r.chance(1, 5) { 2 } else { 1 };
            for _ in 0..n {
                let nth = if man || self.r.chance(1, 3) { 0 } else { self.r.below(5) as u8 };
                let mut at = self.pos();
                if self.r.chance(1, 3) {
                    at = self.edge(man).unwrap_or(at);
                }
                let k = match self.r.below(14) {
                    0 | 1 => Fk::Open(self.errno()),
                    2..=5 => Fk::Read { at, errno: self.errno(), sticky: self.r.chance(1, 3) },
                    6 | 7 => Fk::Eintr(self.r.range(1, 5) as u8),
                    8..=10 => Fk::Eof(at),
                    11 => Fk::Flip(at, self.r.below(8) as u8),
                    12 => Fk::World(self.r.range(1, 6) as u8),
                    _ => Fk::Vanish,
                };
                io.faults.push(Fault { nth, k });
            }
        }
        io
    }

    fn list_io(&mut self, pct: u32) -> Io {
        let mut io = Io::default();
        if self.r.chance(2, 3) {
            io.order = self.r.next() >> 1 | 1;
        }
        if self.r.chance(1, 4) {
            io.dup = self.r.below(4) as u8;
        }
        if self.r.below(100) < pct as u64 {
            let k = match self.r.below(3) {
                0 => Fk::List(self.errno()),
                1 => Fk::ListMid(self.r.below(65536) as u16, self.errno()),
                _ => Fk::ListStale(self.r.below(256) as u8),
            };
            io.faults.push(Fault { nth: 0, k });
        }
        io
    }

    /// The text of an instant, or something that only looks like one.
    fn timestamp(&mut self) -> String {
        let r = &mut self.r;
        let t = match r.below(4) {
            0 => self.w.now - r.below(100_000) as i64,
            1 => {
                let y = *r.pick(&[1902i64, 1904, 1969, 1970, 1999, 2000, 2004, 2016, 2037, 2038, 2100, 2400, 5000, 9999]);
                days_from_civil(y, *r.pick(&[1, 2, 3, 12]), *r.pick(&[1, 28, 29, 30, 31])) * 86400 + r.below(2 * 86400) as i64 - 86400
            }
            // round the change to and from summer time
            2 => days_from_civil(1990 + r.below(60) as i64, *r.pick(&[3, 4, 9, 10, 11]), 20 + r.below(11) as u32) * 86400 + r.below(8 * 3600) as i64,
            _ => days_from_civil(1902 + r.below(8098) as i64, 1, 1) * 86400 + r.below(366 * 86400) as i64,
        };
        let t = t.min(253_402_300_799);
        let s = stamp(t);
        let s = if r.chance(1, 6) { s.to_lowercase() } else { s };
        if r.chance(1, 2) {
            return s;
        }
        let mut b: Vec<char> = s.chars().collect();
        for _ in 0..1 + r.below(4) / 3 {
            let i = r.below(b.len().max(1) as u64) as usize;
            match r.below(9) {
                0 | 1 if !b.is_empty() => {
                    b.remove(i);
                }
                2 => b.insert(i, *r.pick(&['0', '1', '9', ' ', '-', ':', 'T', 'Z', '+', '_'])),
                3 => b.push(*r.pick(&['0', 'Z', ' ', '~', '-', '1', 'x', '\n'])),
                4 => {
                    b.pop();
                    b.extend(r.pick(&["", "+0200", "-01:00", "UTC", "GMT", "X", "z ", "+00", "CET", "0"]).chars());
                }
                5 => b.insert(0, *r.pick(&[' ', '0', '+', '-', '1', 'x'])),
                6 if b.len() > i => b[i] = *r.pick(&[' ', 'O', 'l', '\u{660}', '\u{ff11}', '-', '_', 't', 'z', '9', ',']),
                7 => {
                    let x = *r.pick(&[8usize, 15, 4, 6, 11, 13]);
                    if x < b.len() {
                        b.insert(x, *r.pick(&['-', ':', 'T', 't', ' ', '_']));
                    }
                }
                _ => b.retain(|c| !c.is_ascii_alphabetic()),
            }
        }
        b.into_iter().collect()
    }

    fn unrelated(&mut self) -> Vec<u8> {
        if self.r.chance(1, 3) {
            // the name of a backup file, but with something else where its time should be; or a
            // copy of a file under a name that does not begin like a backup's
            let files: Vec<Vec<u8>> = self.w.files.keys().cloned().collect();
            if !files.is_empty() {
                let s = String::from_utf8_lossy(self.r.pick(&files)).to_string();
                if self.r.chance(1, 4) {
                    let mut pre = *self.r.pick(&["copy of ", ".", "x", "Copy_", " ", "old.", "#", "duplicity-", "sub/", "duplicity/", "./", "/", "a/b/"]);
                    if pre.contains('/') && self.w.cfg.local {
                        // only storages without directories have such names
                        pre = "\u{feff}";
                    }
                    return format!("{}{}", pre, s).into_bytes();
                }
                let mut x: Vec<String> = s.split('.').map(|p| p.to_string()).collect();
                let k = if x.len() > 3 && self.r.chance(1, 2) && x[2].eq_ignore_ascii_case("to") { 3 } else { 1 };
                if x.len() > k {
                    x[k] = self.timestamp();
                    return x.join(".").into_bytes();
                }
            }
        }
        match self.r.below(10) {
            0 => b"README.txt".to_vec(),
            1 => b".DS_Store".to_vec(),
            2 => b"lost+found".to_vec(),
            3 => b"duplicity-".to_vec(),
            4 => b"duplicity-full.manifest".to_vec(),
            5 => b"\xff\xfe\x80".to_vec(),
            6 => b"backup.manifest.gpg".to_vec(),
            7 => b"duplicity-inc.x.to.y.manifest".to_vec(),
            8 => "dat\u{e9}i".as_bytes().to_vec(),
            _ => (0..self.r.range(1, 12)).map(|_| *self.r.pick(b"abc.-_x")).collect(),
        }
    }

    /// a volume far beyond the others of an existing set: a number that must not be taken for a
    /// smaller one
    fn stray_volume(&mut self) -> Option<Vec<u8>> {
        let files: Vec<Vec<u8>> = self.w.files.keys().cloned().collect();
        if files.is_empty() {
            return None;
        }
        let name = String::from_utf8(self.r.pick(&files).clone()).ok()?;
        let mut x: Vec<String> = name.split('.').map(|p| p.to_string()).collect();
        let k = x.iter().position(|p| p.starts_with("vol"))?;
        x[k] = format!("vol{}", self.r.pick(&[100u64, 127, 128, 129, 255, 256, 257, 258, 300, 999, 1000, 32768, 65535, 65536, 65537, 65538, 70_001, 1_000_001, 16_777_217, 2_147_483_649, 4_294_967_296, 4_294_967_297, 4_294_967_298]));
        Some(x.join(".").into_bytes())
    }

    fn hostile_name(&mut self) -> Vec<u8> {
        let files: Vec<Vec<u8>> = self.w.files.keys().cloned().collect();
        let t1 = stamp(self.w.now - self.r.below(100_000) as i64);
        let t2 = stamp(self.w.now + self.r.below(100_000) as i64);
        let mut base: Vec<u8> = if !files.is_empty() && self.r.chance(2, 3) { self.r.pick(&files).clone() } else {
            match self.r.below(5) {
                0 => format!("duplicity-full.{}.vol{}.difftar.gz", t1, self.r.below(5)),
                1 => format!("duplicity-inc.{}.to.{}.vol{}.difftar", t1, t2, self.r.below(5)),
                2 => format!("duplicity-full.{}.manifest", t1),
                3 => format!("duplicity-new-signatures.{}.to.{}.sigtar.gz", t1, t2),
                _ => format!("duplicity-full-signatures.{}.sigtar", t1),
            }.into_bytes()
        };
        let k = 1 + self.r.below(2);
        for _ in 0..k {
            let s = String::from_utf8_lossy(&base).to_string();
            let r = &mut self.r;
            base = match r.below(16) {
                0 => {
                    let v = r.pick(&["vol99999999999", "vol18446744073709551615", "vol18446744073709551616", "vol0", "vol00", "vol-1", "vol4294967296", "vol", "vol+1", "vol1e3", "vol\u{b9}", "vol9223372036854775807", "vol1000000000", "volvol1", "VOL7"]).to_string();
                    let mut x: Vec<String> = s.split('.').map(|p| if p.to_lowercase().starts_with("vol") { v.clone() } else { p.to_string() }).collect();
                    if !x.contains(&v) && x.len() > 2 {
                        let i = x.len() - 1;
                        x.insert(i, v);
                    }
                    x.join(".").into_bytes()
                }
                1 => {
                    let v = r.pick(&["00000101T000000Z", "99991231T235959Z", "20151301T000000Z", "20150132T000000Z", "20150230T000000Z", "20150101T240000Z", "20150101T006000Z", "20150101T000060Z", "20150101T0000Z", "20150101t000000z", "-0150101T000000Z", "20150101T000000", "2015-01-01T00:00:00Z", "19000101T000000Z", "18000229T000000Z", "+2015101T000000Z", "2015010\u{662}T000000Z", "T", "Z", ""]).to_string();
                    let mut x: Vec<String> = s.split('.').map(|p| p.to_string()).collect();
                    let n = x.len();
                    let i = (1 + r.below(3) as usize).min(n - 1);
                    x[i] = v;
                    x.join(".").into_bytes()
                }
                2 => {
                    let i = r.below(base.len() as u64 + 1) as usize;
                    base[..i].to_vec()
                }
                3 => {
                    let mut b = base.clone();
                    let i = r.below(b.len() as u64 + 1) as usize;
                    let ins: &[u8] = r.pick(&[&b"."[..], b"\xc3\xa9", b"\xff", b"..", b"Z", b"0", b"-", b"part", b".part", b" ", b"\n"]);
                    for (j, c) in ins.iter().enumerate() {
                        b.insert(i + j, *c);
                    }
                    b
                }
                4 => {
                    let mut b = base.clone();
                    if !b.is_empty() {
                        let i = r.below(b.len() as u64) as usize;
                        b[i] = *r.pick(b"0123456789.TZtz-VvXx\xe9\xff ");
                    }
                    b
                }
                5 => [base.clone(), r.pick(&[&b".gz"[..], b".gpg", b".part", b".part.gz", b".gz.gpg", b".gz.part", b".", b".bz2", b".g", b".p", b".z"]).to_vec()].concat(),
                6 => s.to_uppercase().into_bytes(),
                7 => s.to_lowercase().into_bytes(),
                8 => s.replace(".gz", "").into_bytes(),
                9 => s.replace("full", "inc").into_bytes(),
                10 => s.replace("duplicity-inc", "duplicity-full").into_bytes(),
                11 => s.replace("sigtar", "manifest").into_bytes(),
                12 => {
                    // reversed or empty increments
                    let p: Vec<&str> = s.split('.').collect();
                    if p.len() > 4 {
                        let mut q = p.clone();
                        if r.chance(1, 2) { q.swap(1, 3) } else { q[3] = q[1] }
                        q.join(".").into_bytes()
                    } else {
                        base
                    }
                }
                13 => s.replace("signatures", "").into_bytes(),
                14 => {
                    let p: Vec<&str> = s.split('.').collect();
                    let mut q: Vec<&str> = p.clone();
                    let a = r.below(q.len() as u64) as usize;
                    let b = r.below(q.len() as u64) as usize;
                    q.swap(a, b);
                    q.join(".").into_bytes()
                }
                _ => s.replace(".to.", r.pick(&[".", ".to", "to.", ".TO.", ".to.to."])).into_bytes(),
            };
        }
        base.retain(|b| *b != 0 && *b != b'/');
        base
    }

    fn junk(&mut self) {
        if matches!(self.prop.as_str(), "C01" | "C02" | "C12") && self.r.chance(1, if self.prop == "C01" { 600 } else { 120 }) {
            let n = *self.r.pick(&[60, 130, 260, 600, 1100, 2100, 5000]);
            self.push(Step::Junk(B(b"letter".to_vec()), B(format!("<crowd {}>", n).into_bytes())));
            return;
        }
        let big = self.prop == "C12" && self.r.chance(1, 40);
        let content = B(match self.r.below(6) {
            _ if big => format!("<big {}>", self.r.pick(&[65_535u32, 65_537, 65_537, 131_073, 131_073, 131_073, 1 << 20, (1 << 20) + 1, (1 << 20) + 1, 5_000_001, 5_000_001, (1 << 24) + 1, 40_000_003])).into_bytes(),
            0 => vec![],
            1 => b"<dir>".to_vec(),
            2 => b"Hostname x\nLocaldir /y\n".to_vec(),
            3 => (0..self.r.below(700)).map(|_| self.r.next() as u8).collect(),
            _ => b"junk".to_vec(),
        });
        let name = if self.hazy && self.r.chance(3, 4) { self.hostile_name() } else { self.unrelated() };
        let name = match self.r.below(10) {
            0 if !self.hazy => self.stray_volume().unwrap_or(name),
            _ if !self.hazy && !matches!(parse_name(&name), P::No) => return,
            _ => name,
        };
        if name.is_empty() {
            return;
        }
        self.push(Step::Junk(B(name), content));
    }

    fn harm(&mut self) {
        let file = self.r.below(65536) as u16;
        let mut p = self.pos();
        if self.r.chance(1, 4) {
            let man = matches!(self.prop.as_str(), "C05" | "C07") || self.r.chance(1, 4);
            p = self.edge(man).unwrap_or(p);
        }
        let wild = self.prop == "C09";
        let how = match self.prop.as_str() {
            "C03" | "C14" => match self.r.below(3) {
                0 => Harm::Remove,
                1 => Harm::Cut(p),
                _ => Harm::Noise(p, self.r.range(1, 60) as u16, self.r.next() as u32),
            },
            "C04" => match self.r.below(4) {
                0 => Harm::Cut(p),
                _ => Harm::Remove,
            },
            "C05" => match self.r.below(6) {
                0 => Harm::Remove,
                1 | 2 => Harm::Crlf,
                _ => Harm::Cut(p),
            },
            "C07" => match self.r.below(6) {
                0 => Harm::Remove,
                1 | 2 => Harm::Lines(self.r.below(6) as u8, self.r.below(65536) as u16, self.r.below(65536) as u16),
                _ => Harm::Cut(p),
            },
            _ => match self.r.below(if wild { 18 } else { 9 }) {
                0 => Harm::Remove,
                1 | 2 => Harm::Cut(p),
                3 => Harm::Flip(p, self.r.below(8) as u8),
                4 => Harm::Zero(p),
                5 => Harm::Noise(p, self.r.range(1, 60) as u16, self.r.next() as u32),
                6 => Harm::Excise(p, self.r.range(1, 600) as u16),
                7 => Harm::Repeat(p, self.r.range(1, 600) as u16),
                8 => Harm::Append(B(self.r.pick(&[&b"\n"[..], b"\0\0\0", b"garbage", b"Volume 9:\n", b"\x1f\x8b"]).to_vec())),
                9 => Harm::Swap(self.r.below(65536) as u16),
                10..=12 => {
                    let pairs: &[(&[u8], &[u8])] = &[
                        (b"Volume 1:", b"Volume 0:"),
                        (b"Volume 1:", b"Volume 99999999999999:"),
                        (b"Volume 1:", b"Volume 18446744073709551615:"),
                        (b"Volume 1:", b"Volume 184467440737095516160:"),
                        (b"Volume 2:", b"Volume 1:"),
                        (b"Volume 1:", b"Volume :"),
                        (b"Volume 1:", b"Volume 1"),
                        (b"Volume 1:", b"Volume -1:"),
                        (b"Volume 1:", b"Volume 3000000000:"),
                        (b"Hash SHA1 ", b"Hash SHA1"),
                        (b"Hash SHA1 ", b"Hash "),
                        (b"Hash SHA1 ", b"Hash SHA1 \xc3\xa9\xc3\xa9"),
                        (b"Hash SHA1 ", b"Hash SHA1 f"),
                        (b"Hash SHA1 ", b"Hash SHA1 zz"),
                        (b"Hostname ", b"Hostname"),
                        (b"Hostname ", b"Hostname \"\\x"),
                        (b"Hostname ", b"Hostname \\x4"),
                        (b"Hostname ", b"hostname "),
                        (b"Localdir ", b"Localdir \"\\xzz\\"),
                        (b"StartingPath", b"startingpath"),
                        (b"StartingPath   ", b"StartingPath   \"\\x4"),
                        (b"StartingPath   ", b"StartingPath   \\"),
                        (b"EndingPath     ", b"EndingPath "),
                        (b"EndingPath     ", b"EndingPath     \" "),
                        (b". \n", b". 18446744073709551616\n"),
                        (b" \n", b" -1\n"),
                        (b" \n", b"\n"),
                        (b" \n", b" 1 2\n"),
                        (b"\n", b"\r\n"),
                        (b"\n", b"\n\n"),
                        (b"\n", b""),
                        (b"    ", b"\t"),
                        (b"    ", b""),
                        (b":", b"::"),
                    ];
                    let (a, b) = self.r.pick(pairs);
                    Harm::Token(B(a.to_vec()), B(b.to_vec()))
                }
                13 => Harm::Lines(self.r.below(6) as u8, self.r.below(64) as u16, self.r.below(64) as u16),
                14 | 15 => Harm::SigHead(
                    self.r.below(16) as u16,
                    if self.r.chance(3, 4) { *self.r.pick(&[0x72730136u32, 0x72730137, 0x72730146]) } else { self.r.next() as u32 },
                    *self.r.pick(&[0u32, 1, 2, 512, u32::MAX, 1 << 31, 65535]),
                    *self.r.pick(&[0u32, 1, 8, 16, 32, u32::MAX, u32::MAX - 3, 1 << 31, u32::MAX - 4]),
                ),
                _ => Harm::Header(self.r.below(16) as u16, self.r.below(12) as u8, self.r.next() as u32),
            },
        };
        // odd numbers select signatures and manifests
        let file = if self.r.chance(4, 5) { file | 1 } else { file };
        self.push(Step::Harm { file, how });
    }

    fn handle(&mut self) -> Option<u8> {
        if self.handles.is_empty() {
            return None;
        }
        let v = self.handles.clone();
        Some(*self.r.pick(&v))
    }

    fn open(&mut self) {
        let h = self.r.below(self.handles_max) as u8;
        let pct = match self.prop.as_str() {
            "C12" | "C19" => 35,
            "C20" => 20,
            "C09" | "C11" | "C14" => 8,
            "C02" => 10,
            _ => 2,
        };
        let io = self.list_io(pct);
        self.steps.push(Step::Open { h, io });
        if !self.handles.contains(&h) {
            self.handles.push(h);
        }
    }

    fn slot(&mut self) -> Option<u8> {
        if self.hold && self.r.chance(2, 3) {
            let s = self.r.below(self.slots_max) as u8;
            if !self.slots.contains(&s) {
                self.slots.push(s);
            }
            Some(s)
        } else {
            None
        }
    }

    fn snap(&mut self) -> u16 {
        // the newest, the oldest, any
        match self.r.below(8) {
            0 | 1 => 0,
            2 => self.r.below(1000) as u16,
            _ => self.r.below(64) as u16,
        }
    }

    fn moment(&mut self) -> i64 {
        let y = match self.r.below(6) {
            0 => 1970 + self.r.below(3) as i64,
            1 => 2000 + 4 * self.r.below(20) as i64,
            2 => 1971 + self.r.below(220) as i64,
            _ => crate::enc::civil(self.w.now / 86400).0 - 1 + self.r.below(3) as i64,
        };
        let base = days_from_civil(y, 1, 1) * 86400;
        let t = match self.r.below(5) {
            0 | 1 => base + self.r.below(60 * 3600) as i64 - 30 * 3600,
            2 => base + self.r.below(121) as i64 - 60,
            3 => base + (59 * 86400) + self.r.below(2 * 86400) as i64,
            _ => base + self.r.below(365 * 86400) as i64,
        };
        t.max(-100_000)
    }

    fn action(&mut self) {
        let mut w = self.p.w;
        let busy = self.w.busy();
        if busy {
            w[BEGIN] = 0;
            w[CLEAN] = 0;
            w[PRUNE] = 0;
        } else {
            w[WRITE] = 0;
            w[FINISH] = 0;
            w[CRASH] = 0;
        }
        if self.w.files.is_empty() {
            w[HARM] = 0;
        }
        if self.handles.is_empty() {
            for k in [WALK, ITER, ENTRIES, MANIFEST, PAIR, RENDER, CLOSE, CHAIN, ITERATE, SINK, EVERY] {
                w[k] = 0;
            }
            w[OPEN] = w[OPEN].max(4);
            if self.w.files.is_empty() {
                w[OPEN] = 1;
            }
        }
        if self.slots.is_empty() {
            w[RECHECK] = 0;
            w[DROP] = 0;
        }
        match self.r.weighted(&w) {
            BEGIN => self.begin(),
            WRITE => {
                let n = self.r.range(1, 9) as u16;
                self.push(Step::Write(n));
            }
            FINISH => self.push(Step::Finish),
            CRASH => {
                let torn = self.pos();
                let lose = if self.r.chance(1, 2) { 0 } else { self.r.below(4) as u8 };
                self.push(Step::Crash { lose, torn });
                if self.r.chance(1, 3) {
                    let cap = self.cap;
                    let run = if self.r.chance(1, 2) { Run::Resume } else { Run::Inc };
                    self.push(Step::Begin { run, cap, quirk: 0 });
                }
            }
            CLEAN => {
                let n = if self.r.chance(1, 2) { 9999 } else { self.r.below(6) as u32 };
                self.push(Step::Cleanup(n));
            }
            PRUNE => {
                let keep = self.r.range(1, 2) as u8;
                let seed = self.r.next() as u32;
                self.push(Step::Prune { keep, seed });
            }
            JUNK => self.junk(),
            STAMPS => {
                let n = self.r.range(1, 4);
                let l = (0..n).map(|_| B(self.timestamp().into_bytes())).collect();
                self.steps.push(Step::Stamps(l));
            }
            HARM => self.harm(),
            OPEN => self.open(),
            WALK => {
                let h = self.handle().unwrap();
                self.steps.push(Step::Walk { h });
            }
            ITER => {
                let h = self.handle().unwrap();
                let slot = self.r.below(self.slots_max) as u8;
                if !self.slots.contains(&slot) {
                    self.slots.push(slot);
                }
                self.steps.push(Step::Iter { h, slot });
            }
            ENTRIES => {
                let h = self.handle().unwrap();
                let snap = self.snap();
                let hold = self.slot();
                let f = self.p.io_faults;
                let mut io = self.io(f, false);
                if self.prop == "C11" && self.r.chance(1, 5) {
                    io.faults.push(Fault { nth: self.r.below(4) as u8, k: if self.r.chance(2, 3) { Fk::World(self.r.range(1, 8) as u8) } else { Fk::Vanish } });
                }
                self.steps.push(Step::Entries { h, snap, hold, io });
            }
            MANIFEST => {
                let h = self.handle().unwrap();
                let snap = self.snap();
                let hold = self.slot();
                let f = self.p.man_faults;
                let mut io = self.io(f, true);
                if self.prop == "C05" && self.r.chance(1, 6) {
                    io.faults = vec![Fault { nth: 0, k: Fk::Eintr(self.r.range(1, 4) as u8) }];
                }
                self.steps.push(Step::Manifest { h, snap, hold, io });
            }
            PAIR => {
                // several attempts, the last one without faults
                let h = self.handle().unwrap();
                let snap = self.snap();
                let man = self.r.chance(1, 3);
                let n = if self.r.chance(1, 40) { self.r.range(4, 40) } else { self.r.range(1, 3) };
                for i in 0..=n {
                    let io = if i == n { self.io(0, man) } else { self.io(100, man) };
                    let s2 = if i < n && self.r.chance(1, 4) { self.snap() } else { snap };
                    let hold = if self.r.chance(1, 4) { self.slot() } else { None };
                    self.steps.push(if man { Step::Manifest { h, snap: s2, hold, io } } else { Step::Entries { h, snap: s2, hold, io } });
                }
            }
            CHAIN => {
                let h = self.handle().unwrap();
                let chain = self.r.below(6) as u16;
                let f = if self.prop == "C16" { 8 } else { self.p.io_faults };
                let io = self.io(f, false);
                let n = if self.prop == "C16" { self.r.range(4, 30) } else { self.r.below(6) };
                let mut moves = vec![];
                for _ in 0..n {
                    let i = self.r.below(3) as u8;
                    moves.push(match self.r.below(12) {
                        0 => Move::Start(i),
                        1..=3 => Move::Next(i),
                        4..=6 => Move::Nth(i, match self.r.below(8) {
                            0 => u32::MAX - self.r.below(3) as u32,
                            1 => self.r.below(300) as u32,
                            _ => self.r.below(4) as u32,
                        }),
                        7..=9 => Move::Len(i),
                        _ => Move::Via(i, self.r.below(6) as u8),
                    });
                }
                self.steps.push(Step::Chain { h, chain, moves, io });
            }
            CYCLE => {
                let mut io = if self.r.chance(1, 3) { self.list_io(15) } else { self.io(60, false) };
                io.faults.retain(|f| !matches!(f.k, Fk::World(_) | Fk::Vanish));
                self.steps.push(Step::Cycle { io });
            }
            EVERY => {
                // all there is, and all of it again
                let h = self.handle().unwrap();
                let names = self.w.files.keys().cloned().collect();
                let n = crate::model::view(&names).chains.iter().map(|c| c.len()).sum::<usize>().min(300);
                let man = self.r.chance(2, 3);
                for _ in 0..2 {
                    let mut l: Vec<u16> = (0..n as u16).collect();
                    self.r.shuffle(&mut l);
                    for snap in l {
                        let hold = if self.r.chance(1, 2) { self.slot() } else { None };
                        let io = self.io(0, man);
                        self.steps.push(if man { Step::Manifest { h, snap, hold, io } } else { Step::Entries { h, snap, hold, io } });
                    }
                }
            }
            SINK => {
                let h = self.handle().unwrap();
                let what = self.r.below(9) as u8;
                let at = self.r.below(65536) as u16;
                let n = self.r.range(2, 12);
                let room = (0..n).map(|_| self.r.next() as u32).collect();
                let again = self.r.chance(1, 2);
                self.steps.push(Step::Sink { h, what, at, room, again });
            }
            ITERATE => {
                let h = self.handle().unwrap();
                let what = self.r.below(7) as u8;
                let at = self.r.below(6) as u16;
                let n = self.r.range(3, 20);
                let mut moves = vec![];
                for _ in 0..n {
                    let i = self.r.below(3) as u8;
                    moves.push(match self.r.below(12) {
                        0 => Move::Start(i),
                        1..=4 => Move::Next(i),
                        5..=6 => Move::Nth(i, if self.r.chance(1, 8) { self.r.next() as u32 } else { self.r.below(4) as u32 }),
                        7..=8 => Move::Len(i),
                        _ => Move::Via(i, self.r.below(8) as u8),
                    });
                }
                self.steps.push(Step::Iterate { h, what, at, moves });
            }
            RECHECK => {
                let v = self.slots.clone();
                let slot = *self.r.pick(&v);
                self.steps.push(Step::Recheck { slot });
            }
            DROP => {
                let v = self.slots.clone();
                let slot = *self.r.pick(&v);
                self.slots.retain(|s| *s != slot);
                self.steps.push(Step::Drop { slot });
            }
            RENDER => {
                let h = self.handle().unwrap();
                if self.prop == "C18" || self.r.chance(1, 3) {
                    self.steps.push(Step::RenderAll { h });
                } else {
                    let snap = self.snap();
                    self.steps.push(Step::Render { h, snap });
                }
            }
            AUDIT => self.steps.push(Step::Audit { h: self.r.below(2) as u8 }),
            CLOSE => {
                let h = self.handle().unwrap();
                self.handles.retain(|x| *x != h);
                self.steps.push(Step::Close { h });
            }
            PERMUTE => {
                let n = self.r.range(2, 7) as u8;
                let seed = self.r.next() >> 1;
                self.steps.push(Step::Permute { n, seed });
            }
            CLOCK => {
                if self.r.chance(1, 3) {
                    let z = self.r.below(ZONES.len() as u64) as u8;
                    self.steps.push(Step::Zone(z));
                } else {
                    let t = self.moment();
                    self.steps.push(Step::Clock(t));
                }
            }
            TIME => {
                let slot = 10 + self.r.below(4) as u8;
                if !self.times.contains(&slot) || self.r.chance(1, 2) {
                    let t = if self.prop == "C09" && self.r.chance(1, 2) {
                        *self.r.pick(&[i64::MAX, i64::MIN, i64::MAX - 1, 1 << 55, -(1 << 55), 1 << 50, -(1 << 50), 67_768_036_191_676_799, 67_768_036_191_676_800, -62_135_596_801, 253_402_300_800, 1 << 62])
                    } else {
                        self.moment()
                    };
                    let local = self.r.chance(2, 3);
                    self.times.push(slot);
                    self.steps.push(Step::Time { t, slot, local });
                    if self.r.chance(1, 2) {
                        self.steps.push(Step::TimePrint { slot });
                    }
                } else {
                    self.steps.push(Step::TimePrint { slot });
                }
            }
            RAW => {
                if self.r.chance(2, 5) {
                    let mut io = Io { order: self.r.below(3) * (self.r.next() >> 2), ..Io::default() };
                    if self.r.chance(2, 5) {
                        let k = match self.r.below(4) {
                            0 => Fk::List(self.errno()),
                            1 => Fk::Stat(self.errno()),
                            _ => Fk::ListMid(self.r.below(65536) as u16, self.errno()),
                        };
                        let nth = if matches!(k, Fk::Stat(_)) { self.r.below(16) as u8 } else { 0 };
                        io.faults.push(Fault { nth, k });
                    }
                    self.steps.push(Step::RawList { io });
                } else {
                    let file = self.r.below(65536) as u16;
                    let mut io = self.io(0, true);
                    if self.r.chance(2, 5) {
                        let at = self.pos();
                        let k = match self.r.below(5) {
                            0 => Fk::Open(self.errno()),
                            1 | 2 => Fk::Read { at, errno: self.errno(), sticky: true },
                            3 => Fk::Eof(at),
                            _ => Fk::Eintr(self.r.range(1, 4) as u8),
                        };
                        io.faults.push(Fault { nth: 0, k });
                    }
                    self.steps.push(Step::RawRead { file, io });
                }
            }
            _ => {}
        }
    }

    fn main(&mut self) {
        let n = self.r.range(8, self.p.max_steps);
        if self.two {
            self.twins();
        }
        // something to look at
        if self.r.chance(9, 10) {
            self.mutate();
            self.begin();
            if self.r.chance(5, 6) {
                self.push(Step::Finish);
            }
            if self.r.chance(1, 2) {
                self.begin();
                if self.r.chance(5, 6) {
                    self.push(Step::Finish);
                }
            }
        }
        while (self.steps.len() as u64) < n {
            let before = self.steps.len();
            if self.two && self.r.chance(1, 5) {
                self.push(Step::Storage(1 - self.store));
            }
            self.action();
            if self.steps.len() == before && self.r.chance(1, 20) {
                break;
            }
        }
        match self.prop.as_str() {
            "C01" => self.steps.push(Step::Permute { n: 5, seed: self.r.next() >> 1 }),
            "C02" => {
                let io = self.list_io(0);
                self.steps.push(Step::Open { h: 3, io });
            }
            "C13" | "C18" => {
                let io = self.list_io(0);
                self.steps.push(Step::Open { h: 3, io });
                self.steps.push(Step::RenderAll { h: 3 });
                let snap = self.snap();
                self.steps.push(Step::Render { h: 3, snap });
            }
            "C12" => {
                self.steps.push(Step::RawList { io: Io::default() });
            }
            "C10" | "C11" | "C08" | "C17" => {
                for h in self.handles.clone() {
                    self.steps.push(Step::Walk { h });
                    for snap in 0..2 {
                        self.steps.push(Step::Entries { h, snap, hold: None, io: Io::default() });
                        self.steps.push(Step::Manifest { h, snap, hold: None, io: Io::default() });
                    }
                }
            }
            _ => self.steps.push(Step::Audit { h: 0 }),
        }
    }

    /// Two machines are backed up, often at the very same times.
    fn twins(&mut self) {
        let n = self.r.range(1, 3);
        for _ in 0..n {
            let t = self.r.below(90_000) as u32;
            self.push(Step::Tick(t));
            let run = if self.r.chance(3, 4) { Run::Inc } else { Run::Full };
            for _ in 0..2 {
                if self.r.chance(9, 10) {
                    self.mutate();
                }
                self.settings();
                let cap = if self.r.chance(1, 3) { self.r.range(1, 8) as u32 } else { self.cap };
                let quirk = self.r.below(4) as u8;
                self.push(Step::Begin { run, cap, quirk });
                if self.r.chance(7, 8) {
                    self.push(Step::Finish);
                }
                if self.r.chance(1, 8) {
                    let t = self.r.below(3) as u32;
                    self.push(Step::Tick(t));
                }
                self.push(Step::Storage(1 - self.store));
            }
        }
        for k in 0..2 {
            let io = self.list_io(0);
            self.push(Step::Open { h: k, io });
            if !self.handles.contains(&k) {
                self.handles.push(k);
            }
            self.push(Step::Storage(1 - self.store));
        }
    }

    /// Spreads the use of the backups over several threads, and lets calls overlap.
    fn spread(&mut self) {
        let steps = std::mem::take(&mut self.steps);
        let mut seen: Vec<u8> = vec![];
        let calm = self.r.chance(1, 6);
        for s in steps {
            if let Step::Open { h, .. } = &s {
                if !seen.contains(h) {
                    seen.push(*h);
                    let k = if self.r.chance(1, 12) { 0 } else { self.r.range(1, 3) as u8 };
                    self.steps.push(Step::On { h: *h, k });
                }
            }
            if !seen.is_empty() && self.r.chance(1, 7) {
                let h = *self.r.pick(&seen);
                let k = if self.r.chance(1, 8) { 0 } else { self.r.range(1, 3) as u8 };
                self.steps.push(Step::On { h, k });
            }
            let mut s = s;
            let me = match &s {
                Step::Entries { h, .. } | Step::Manifest { h, .. } | Step::Chain { h, .. } => Some(*h),
                _ => None,
            };
            let mut more = vec![];
            if let Some(h) = me {
                if !calm && self.r.chance(1, 2) {
                    let n = self.r.range(1, 3);
                    self.pauses(&mut s, n);
                    let mut h0 = h;
                    for _ in 0..n {
                        let o: Vec<u8> = seen.iter().cloned().filter(|x| *x != h0).collect();
                        if o.is_empty() || self.r.chance(1, 8) {
                            more.push(Step::Write(self.r.range(1, 9) as u16));
                            continue;
                        }
                        let h2 = *self.r.pick(&o);
                        let snap = self.snap();
                        let man = self.r.chance(1, 3);
                        let io = self.io(8, man);
                        let mut t = match self.r.below(12) {
                            0 => {
                                let io = self.list_io(2);
                                Step::Open { h: h2, io }
                            }
                            1 => Step::Walk { h: h2 },
                            2 => Step::Chain { h: h2, chain: self.r.below(4) as u16, moves: vec![Move::Len(0), Move::Nth(0, 1), Move::Next(1)], io },
                            _ if man => Step::Manifest { h: h2, snap, hold: None, io },
                            _ => Step::Entries { h: h2, snap, hold: None, io },
                        };
                        if self.r.chance(1, 4) {
                            self.pauses(&mut t, 1);
                            h0 = h2;
                        }
                        more.push(t);
                    }
                }
            }
            self.steps.push(s);
            self.steps.extend(more);
        }
    }

    fn pauses(&mut self, s: &mut Step, n: u64) {
        for _ in 0..n {
            let nth = self.r.below(3) as u8 * self.r.below(2) as u8;
            let at = if self.r.chance(1, 3) { Pos::Start(0) } else { self.pos() };
            if let Step::Entries { io, .. } | Step::Manifest { io, .. } | Step::Chain { io, .. } = s {
                io.faults.push(Fault { nth, k: Fk::Yield(at) });
            }
        }
    }

    /// A chain so long that its length itself is the stress.
    fn long(&mut self) {
        self.max_ops = 2;
        self.cap = 1000;
        let n = *self.r.pick(&[254u64, 255, 256, 257, 258, 262, 300]);
        self.mutate();
        self.push(Step::Begin { run: Run::Full, cap: 1000, quirk: 0 });
        self.push(Step::Finish);
        for i in 0..n {
            if self.r.chance(2, 3) || i > n - 4 {
                self.mutate();
            }
            let t = self.r.below(5000) as u32;
            self.push(Step::Tick(t));
            if self.r.chance(1, 20) {
                self.settings();
            }
            self.push(Step::Begin { run: Run::Inc, cap: 1000, quirk: 0 });
            self.push(Step::Finish);
        }
        if self.prop == "C01" {
            self.steps.push(Step::Permute { n: 2, seed: 3 });
            return;
        }
        if matches!(self.prop.as_str(), "C10" | "C11" | "C16" | "C20") {
            let io = self.list_io(0);
            self.steps.push(Step::Open { h: 0, io });
            self.handles.push(0);
            for _ in 0..12 {
                self.action();
            }
        }
        self.steps.push(Step::Audit { h: 0 });
        if self.prop == "C14" {
            self.mutate();
            self.push(Step::Begin { run: Run::Inc, cap: 1000, quirk: 0 });
            self.push(Step::Finish);
            self.push(Step::Begin { run: Run::Inc, cap: 1000, quirk: 0 });
            self.push(Step::Finish);
            self.steps.push(Step::Audit { h: 0 });
        }
    }
}

pub fn seed_for(base: u64, prop: &str, idx: u64) -> u64 {
    let mut h = mix(base);
    for b in prop.bytes() {
        h = mix(h ^ b as u64);
    }
    mix(h ^ mix(idx))
}
