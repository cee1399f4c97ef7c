//! Minimises a failing plan.  Every attempt runs in a process of its own, because a failure may be
//! the death of the process.
use crate::exec::relevant;
use crate::plan::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub struct Shrinker {
    exe: PathBuf,
    file: String,
    prop: String,
    /// executed before it in the same process
    pub before: Vec<Plan>,
}

impl Shrinker {
    pub fn new(exe: &Path, dir: &str, prop: &str) -> Shrinker {
        Shrinker { exe: exe.to_path_buf(), file: format!("{}/try-{}.json", dir, std::process::id()), prop: prop.to_string(), before: vec![] }
    }

    pub fn once(&self, plan: &Plan) -> Result<Value, String> {
        let text = if self.before.is_empty() { serde_json::to_string(plan) } else { serde_json::to_string(&json!({"before": self.before, "plan": plan})) };
        std::fs::write(&self.file, text.unwrap()).map_err(|e| e.to_string())?;
        let o = Command::new(&self.exe).arg("try").arg(&self.file).stdin(Stdio::null()).stderr(Stdio::null()).output().map_err(|e| e.to_string())?;
        if o.status.success() {
            return serde_json::from_slice(&o.stdout).map_err(|e| e.to_string());
        }
        match crate::death(&o.status) {
            Some("hang") => Ok(json!({"classes": ["hang"], "msg": "the call did not come back within 30 s of processor time", "trace": []})),
            Some(c) => Ok(json!({"classes": [c], "msg": format!("the process died: {:?}", o.status), "trace": []})),
            None => Err(format!("{:?}", o.status)),
        }
    }

    /// C17 is about backups and threads disturbing one another: whether a plan fails just as well
    /// if only one of its backups is used, in one thread and in a process of its own.
    pub fn alone(&self, plan: &Plan) -> bool {
        if self.prop != "C17" || !plan.steps.iter().any(|s| matches!(s, Step::On { .. })) {
            return false;
        }
        // each backup alone: from the step that opens it until another is opened in its place
        let mut uses: Vec<(u8, usize, usize)> = vec![];
        for (i, s) in plan.steps.iter().enumerate() {
            let h = match s.handle() {
                Some(h) => h,
                None => continue,
            };
            let opens = matches!(s, Step::Open { io, .. } if !io.faults.iter().any(|f| matches!(f.k, Fk::List(_) | Fk::ListMid(..) | Fk::Stat(_))));
            match uses.iter_mut().rev().find(|u| u.0 == h) {
                Some(u) if !opens => u.2 = i,
                _ => uses.push((h, i, i)),
            }
        }
        let me = Shrinker { exe: self.exe.clone(), file: self.file.clone(), prop: self.prop.clone(), before: vec![] };
        uses.into_iter().any(|(h, from, to)| {
            let mut p = plan.clone();
            p.steps = vec![];
            for (i, s) in plan.steps.iter().enumerate() {
                let mine = s.handle().map_or(true, |x| x == h && from <= i && i <= to);
                if mine && !matches!(s, Step::On { .. }) {
                    p.steps.push(s.clone());
                }
            }
            for s in &mut p.steps {
                if let Step::Entries { io, .. } | Step::Manifest { io, .. } | Step::Chain { io, .. } = s {
                    io.faults.retain(|f| !matches!(f.k, Fk::Yield(_)));
                }
            }
            me.once(&p).map_or(false, |v| v["classes"].as_array().map_or(false, |a| a.iter().any(|c| relevant(&self.prop, c.as_str().unwrap_or("")))))
        })
    }

    /// The outcome, if the plan fails in one of these ways.
    pub fn attempt(&self, plan: &Plan, classes: &[String]) -> Option<Value> {
        let v = self.once(plan).ok()?;
        let hit = v["classes"].as_array()?.iter().any(|c| {
            let c = c.as_str().unwrap_or("");
            relevant(&self.prop, c) && classes.iter().any(|x| x == c)
        });
        if hit && !self.alone(plan) {
            Some(v)
        } else {
            None
        }
    }

    pub fn shrink(&self, plan: Plan, first: Value, classes: &[String], limit: Duration) -> (Plan, Value, usize) {
        let end = Instant::now() + limit;
        let mut best = plan;
        let mut out = first;
        let mut tries = 0;
        let mut test = |p: Plan, best: &mut Plan, out: &mut Value| -> bool {
            if Instant::now() > end || tries > 1500 || p == *best {
                return false;
            }
            tries += 1;
            match self.attempt(&p, classes) {
                Some(v) => {
                    *best = p;
                    *out = v;
                    true
                }
                None => false,
            }
        };
        // nothing after the failing step matters
        if let Some(s) = out["step"].as_u64() {
            let mut p = best.clone();
            p.steps.truncate(s as usize + 1);
            test(p, &mut best, &mut out);
        }
        for _round in 0..4 {
            let before = serde_json::to_string(&best).unwrap();
            // runs of steps
            let mut n = best.steps.len() / 2;
            while n >= 1 {
                let mut i = 0;
                while i < best.steps.len() {
                    let mut p = best.clone();
                    let e = (i + n).min(p.steps.len());
                    p.steps.drain(i..e);
                    if !test(p, &mut best, &mut out) {
                        i += n;
                    }
                }
                n /= 2;
            }
            // inside the steps
            let mut i = 0;
            while i < best.steps.len() {
                for s in simpler(&best.steps[i]) {
                    let mut p = best.clone();
                    p.steps[i] = s;
                    test(p, &mut best, &mut out);
                }
                // one change of the tree at a time
                if let Step::Mutate(ops) = best.steps[i].clone() {
                    let mut n = (ops.len() / 2).max(1);
                    loop {
                        let mut j = 0;
                        loop {
                            let cur = match &best.steps[i] {
                                Step::Mutate(o) => o.clone(),
                                _ => break,
                            };
                            if j >= cur.len() || cur.len() <= 1 {
                                break;
                            }
                            let mut c = cur.clone();
                            let e = (j + n).min(c.len());
                            c.drain(j..e);
                            let mut p = best.clone();
                            p.steps[i] = Step::Mutate(c);
                            if !test(p, &mut best, &mut out) {
                                j += n;
                            }
                        }
                        if n == 1 {
                            break;
                        }
                        n /= 2;
                    }
                    let len = match &best.steps[i] {
                        Step::Mutate(o) => o.len(),
                        _ => 0,
                    };
                    for j in 0..len {
                        let cand = match &best.steps[i] {
                            Step::Mutate(o) => o.clone(),
                            _ => break,
                        };
                        if let TreeOp::Put { path, node } = &cand[j] {
                            for nd in [
                                Node { t: b'0', size: 0, seed: 0, mode: 0o644, mtime: 1_400_000_000, uid: 0, gid: 0, link: None },
                                Node { size: node.size.min(1), ..node.clone() },
                                Node { uid: 0, gid: 0, ..node.clone() },
                                Node { mtime: 1_400_000_000, mode: 0o644, ..node.clone() },
                            ] {
                                let mut c = cand.clone();
                                c[j] = TreeOp::Put { path: path.clone(), node: nd };
                                let mut p = best.clone();
                                p.steps[i] = Step::Mutate(c);
                                if test(p, &mut best, &mut out) {
                                    break;
                                }
                            }
                        }
                    }
                }
                i += 1;
            }
            // the configuration
            let c = best.cfg.clone();
            let mut cands = vec![];
            cands.push(Cfg { gpg: false, ..c.clone() });
            cands.push(Cfg { gz: false, ..c.clone() });
            cands.push(Cfg { part: false, ..c.clone() });
            cands.push(Cfg { atomic: true, ..c.clone() });
            cands.push(Cfg { case: 0, ..c.clone() });
            cands.push(Cfg { tarfmt: 0, ..c.clone() });
            cands.push(Cfg { zone: 0, ..c.clone() });
            cands.push(Cfg { local: false, ..c.clone() });
            cands.push(Cfg { links: false, ..c.clone() });
            cands.push(Cfg { base: 0, ..c.clone() });
            cands.push(Cfg { host: B(b"h".to_vec()), ..c.clone() });
            cands.push(Cfg { dir: B(b"/d".to_vec()), ..c.clone() });
            for k in cands {
                // one knob at a time on top of what has been simplified so far
                let mut p = best.clone();
                if k.gpg != c.gpg { p.cfg.gpg = k.gpg }
                if k.gz != c.gz { p.cfg.gz = k.gz }
                if k.part != c.part { p.cfg.part = k.part }
                if k.atomic != c.atomic { p.cfg.atomic = k.atomic }
                if k.case != c.case { p.cfg.case = k.case }
                if k.tarfmt != c.tarfmt { p.cfg.tarfmt = k.tarfmt }
                if k.zone != c.zone { p.cfg.zone = k.zone }
                if k.local != c.local && self.prop != "C12" { p.cfg.local = k.local }
                if k.links != c.links { p.cfg.links = k.links }
                if k.base != c.base { p.cfg.base = k.base }
                if k.host != c.host { p.cfg.host = k.host }
                if k.dir != c.dir { p.cfg.dir = k.dir }
                test(p, &mut best, &mut out);
            }
            if Instant::now() > end || serde_json::to_string(&best).unwrap() == before {
                break;
            }
        }
        drop(test);
        (best, out, tries)
    }
}

fn simpler_io(io: &Io) -> Vec<Io> {
    let mut v = vec![];
    if *io != Io::default() {
        v.push(Io::default());
    }
    for i in 0..io.faults.len() {
        let mut x = io.clone();
        x.faults.remove(i);
        v.push(x);
    }
    if io.order != 0 || io.dup != 0 {
        v.push(Io { order: 0, dup: 0, ..io.clone() });
        v.push(Io { dup: 0, ..io.clone() });
    }
    if io.chunk != 0 {
        v.push(Io { chunk: 0, ..io.clone() });
    }
    v
}

fn simpler(s: &Step) -> Vec<Step> {
    match s {
        Step::Begin { run, cap, quirk } => vec![
            Step::Begin { run: *run, cap: 1000, quirk: 0 },
            Step::Begin { run: *run, cap: *cap, quirk: 0 },
            Step::Begin { run: Run::Inc, cap: *cap, quirk: *quirk },
        ],
        Step::Conf(c) => {
            let mut v = vec![];
            if c.gpg {
                v.push(Conf { gpg: false, ..c.clone() });
            }
            if c.gz {
                v.push(Conf { gz: false, ..c.clone() });
            }
            if c.part {
                v.push(Conf { part: false, ..c.clone() });
            }
            if c.case != 0 {
                v.push(Conf { case: 0, ..c.clone() });
            }
            if c.tarfmt != 0 {
                v.push(Conf { tarfmt: 0, ..c.clone() });
            }
            if c.hash != 0 || c.short {
                v.push(Conf { hash: 0, short: false, ..c.clone() });
            }
            if c.host.0 != b"h" || c.dir.0 != b"/d" {
                v.push(Conf { host: B(b"h".to_vec()), dir: B(b"/d".to_vec()), ..c.clone() });
            }
            v.into_iter().map(Step::Conf).collect()
        }
        Step::Tick(n) if *n > 1 => vec![Step::Tick(0), Step::Tick(1)],
        Step::Crash { lose, torn } => vec![Step::Crash { lose: 0, torn: Pos::End(0) }, Step::Crash { lose: *lose, torn: Pos::End(0) }, Step::Crash { lose: 0, torn: *torn }],
        Step::Open { h, io } => simpler_io(io).into_iter().map(|io| Step::Open { h: *h, io }).collect(),
        Step::Entries { h, snap, hold, io } => {
            let mut v: Vec<Step> = simpler_io(io).into_iter().map(|io| Step::Entries { h: *h, snap: *snap, hold: *hold, io }).collect();
            if hold.is_some() {
                v.push(Step::Entries { h: *h, snap: *snap, hold: None, io: io.clone() });
            }
            for k in [0, 1] {
                v.push(Step::Entries { h: *h, snap: k, hold: *hold, io: io.clone() });
            }
            v
        }
        Step::Manifest { h, snap, hold, io } => {
            let mut v: Vec<Step> = simpler_io(io).into_iter().map(|io| Step::Manifest { h: *h, snap: *snap, hold: *hold, io }).collect();
            if hold.is_some() {
                v.push(Step::Manifest { h: *h, snap: *snap, hold: None, io: io.clone() });
            }
            for k in [0, 1] {
                v.push(Step::Manifest { h: *h, snap: k, hold: *hold, io: io.clone() });
            }
            v
        }
        Step::RawList { io } => simpler_io(io).into_iter().map(|io| Step::RawList { io }).collect(),
        Step::Cycle { io } => simpler_io(io).into_iter().map(|io| Step::Cycle { io }).collect(),
        Step::Sink { h, what, at, room, again } => {
            let mut v: Vec<Step> = vec![];
            if room.len() > 1 {
                v.extend(room.iter().map(|r| Step::Sink { h: *h, what: *what, at: *at, room: vec![*r], again: *again }));
            }
            if *again {
                v.push(Step::Sink { h: *h, what: *what, at: *at, room: room.clone(), again: false });
            }
            if *at > 0 {
                v.push(Step::Sink { h: *h, what: *what, at: 0, room: room.clone(), again: *again });
            }
            v
        }
        Step::Iterate { h, what, at, moves } => (0..moves.len())
            .map(|i| {
                let mut m = moves.clone();
                m.remove(i);
                Step::Iterate { h: *h, what: *what, at: *at, moves: m }
            })
            .collect(),
        Step::Chain { h, chain, moves, io } => {
            let mut v: Vec<Step> = simpler_io(io).into_iter().map(|io| Step::Chain { h: *h, chain: *chain, moves: moves.clone(), io }).collect();
            let n = moves.len();
            if n > 0 {
                for part in [moves[..n / 2].to_vec(), moves[n / 2..].to_vec(), vec![]] {
                    v.push(Step::Chain { h: *h, chain: *chain, moves: part, io: io.clone() });
                }
                for i in 0..n {
                    let mut m = moves.clone();
                    m.remove(i);
                    v.push(Step::Chain { h: *h, chain: *chain, moves: m, io: io.clone() });
                }
            }
            if *chain != 0 {
                v.push(Step::Chain { h: *h, chain: 0, moves: moves.clone(), io: io.clone() });
            }
            v
        }
        Step::RawRead { file, io } => simpler_io(io).into_iter().map(|io| Step::RawRead { file: *file, io }).collect(),
        Step::Permute { n, seed } if *n > 1 => vec![Step::Permute { n: 1, seed: *seed }],
        Step::Stamps(l) if l.len() > 1 => l.iter().map(|b| Step::Stamps(vec![b.clone()])).collect(),
        Step::Junk(n, _) => vec![Step::Junk(n.clone(), B(vec![]))],
        Step::Cleanup(n) if *n < 9999 => vec![Step::Cleanup(9999)],
        _ => vec![],
    }
}
