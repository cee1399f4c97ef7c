//! rsim: deterministic simulation of ruplicity with fault injection.  See /verif/DESIGN.md.
#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
mod alloc;
mod enc;
mod env;
mod exec;
mod gen;
mod kernel;
mod mirror;
mod model;
mod plan;
mod rng;
mod shrink;
mod threads;
mod world;

use plan::Plan;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const HUNG: i32 = 77;
pub const HARNESS: i32 = 3;
/// The run as a whole took too long, outside the code under test: given up, nothing is said about it.
pub const SLOW: i32 = 78;
/// Processor time one call of the library may take, and what the simulator may take between two calls.
pub const PATIENCE: i64 = 30;
pub const OVERALL: i64 = 60;

fn limits() {
    extern "C" fn late(_: libc::c_int) {
        unsafe { libc::_exit(if kernel::ACTIVE.load(std::sync::atomic::Ordering::Relaxed) { HUNG } else { SLOW }) }
    }
    unsafe {
        let r = libc::rlimit { rlim_cur: 2560 << 20, rlim_max: 2560 << 20 };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
        libc::signal(libc::SIGVTALRM, late as extern "C" fn(libc::c_int) as usize);
        libc::signal(libc::SIGALRM, late as extern "C" fn(libc::c_int) as usize);
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

/// From now on this much processor time may be used; then the process ends, as hung or as slow.
pub fn alarm(secs: i64) {
    #[repr(C)]
    struct Itimerval {
        a: libc::timeval,
        b: libc::timeval,
    }
    extern "C" {
        fn setitimer(which: libc::c_int, new: *const Itimerval, old: *mut Itimerval) -> libc::c_int;
    }
    let z = libc::timeval { tv_sec: 0, tv_usec: 0 };
    let v = Itimerval { a: z, b: libc::timeval { tv_sec: secs, tv_usec: 0 } };
    // a call that waits for ever uses none: then real time counts
    let r = Itimerval { a: z, b: libc::timeval { tv_sec: secs * 4, tv_usec: 0 } };
    unsafe {
        setitimer(1, &v, std::ptr::null_mut());
        setitimer(0, &r, std::ptr::null_mut());
    }
}

pub fn death(st: &std::process::ExitStatus) -> Option<&'static str> {
    match (st.code(), st.signal()) {
        (Some(HUNG), _) => Some("hang"),
        (_, Some(libc::SIGABRT)) | (_, Some(libc::SIGSEGV)) | (_, Some(libc::SIGBUS)) | (_, Some(libc::SIGILL)) | (_, Some(libc::SIGFPE)) | (_, Some(libc::SIGTRAP)) => Some("abort"),
        _ => None,
    }
}

fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|a| a == name).and_then(|i| v.get(i + 1).cloned())
}
fn num(name: &str, d: u64) -> u64 {
    arg(name).and_then(|s| s.parse().ok()).unwrap_or(d)
}

fn worker() -> i32 {
    let prop = arg("--prop").unwrap();
    let base = num("--base", 1);
    let (w, of, from, count) = (num("--w", 0), num("--of", 1), num("--from", 0), num("--count", 1));
    let deadline = Instant::now() + Duration::from_secs(num("--secs", 60));
    let dir = arg("--dir").unwrap();
    limits();
    exec::install_hook();
    let scratch = mirror::make(&format!("{}-{}", std::path::Path::new(&dir).file_name().unwrap().to_string_lossy(), w));
    use std::os::unix::fs::FileExt;
    let prog = std::fs::OpenOptions::new().create(true).write(true).open(format!("{}/w{}.prog", dir, w)).unwrap();
    let best = format!("{}/best", dir);
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut fired: BTreeMap<String, u64> = BTreeMap::new();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut other: BTreeMap<String, u64> = BTreeMap::new();
    let mut other_seeds: Vec<u64> = vec![];
    let mut sim = 0u64;
    let mut steps = 0u64;
    let mut samples: Vec<Value> = vec![];
    let mut twice = 0u64;
    let mut diverged = 0u64;
    let mut found = Value::Null;
    let mut i = from;
    while i % of != w {
        i += 1;
    }
    let mut last = from;
    let exe = std::env::current_exe().unwrap();
    let mut strangers = 0;
    while i < count {
        if Instant::now() > deadline {
            break;
        }
        if runs % 8 == 0 {
            if let Ok(b) = std::fs::read_to_string(&best) {
                if b.trim().parse::<u64>().map_or(false, |b| i > b) {
                    break;
                }
            }
        }
        let _ = prog.write_at(&i.to_le_bytes(), 0);
        alarm(OVERALL);
        let seed = gen::seed_for(base, &prop, i);
        let plan = gen::generate(&prop, seed);
        let sample = samples.len() < 2 && w == 0 && runs >= 3;
        let o = exec::run(&plan, Some(&scratch), sample);
        runs += 1;
        last = i;
        steps += plan.steps.len() as u64;
        sim += o.sim_seconds;
        hashes.insert(o.hash);
        if !o.stats.is_empty() && plan.steps.len() > 1 {
            if shapes.insert(o.shape) {
                nontrivial += 1;
            }
        }
        for (k, v) in &o.fired {
            *fired.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.stats {
            *stats.entry(k.to_string()).or_insert(0) += v;
        }
        for (k, v) in &o.other {
            *other.entry(k.clone()).or_insert(0) += v;
            if other_seeds.len() < 5 {
                other_seeds.push(i);
            }
        }
        if sample {
            let t: Vec<String> = o.trace.iter().take(40).map(|l| l.chars().take(240).collect()).collect();
            samples.push(json!({"run": i, "seed": seed, "log": t}));
        }
        let mut bad = o.violation.clone();
        if let Some(v) = &bad {
            if prop == "C17" && v.classes != ["send"] && (strangers > 30 || shrink::Shrinker::new(&exe, &dir, &prop).alone(&plan)) {
                strangers += 1;
                *other.entry(v.classes.join("+")).or_insert(0) += 1;
                bad = None;
            }
        }
        if let Some(v) = &bad {
            found = json!({"idx": i, "from": from, "of": of, "seed": seed, "classes": v.classes, "msg": v.msg, "step": v.step, "plan": plan});
            let _ = std::fs::write(&best, i.to_string());
            break;
        }
        if runs % 40 == 7 {
            alarm(OVERALL);
            let o2 = exec::run(&plan, Some(&scratch), false);
            twice += 1;
            if o2.hash != o.hash {
                diverged += 1;
                if diverged == 1 {
                    eprintln!("warning: run {} of {} does not repeat exactly", i, prop);
                }
            }
        }
        i += of;
    }
    alarm(0);
    mirror::clear(&scratch);
    let out = json!({"runs": runs, "nontrivial": nontrivial, "shapes": shapes.iter().collect::<Vec<_>>(), "hashes": hashes.len(), "fired": fired, "stats": stats, "other": other, "other_seeds": other_seeds,
        "sim": sim, "steps": steps, "samples": samples, "twice": twice, "diverged": diverged, "found": found, "last": last});
    std::fs::write(format!("{}/w{}.json", dir, w), out.to_string()).unwrap();
    0
}

fn add(m: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, n) in o {
            *m.entry(k.clone()).or_insert(0) += n.as_u64().unwrap_or(0);
        }
    }
}

/// What the runs of each tier are.
/// Runs and seconds of real time (a stop for slow machines) of one check.
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let per = match prop {
        "C01" => 10_000,
        "C13" | "C10" | "C12" => 50_000,
        "C15" => 14_000,
        "C16" => 30_000,
        "C17" | "C21" => 24_000,
        "C20" => 11_000,
        _ => 36_000,
    };
    if tier == "thorough" {
        (per * 60, 1500)
    } else {
        (per, 45)
    }
}

fn check() -> i32 {
    let prop = arg("--prop").expect("--prop");
    let tier = arg("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let (n, secs) = budget(&prop, &tier);
    let n = num("--count", n);
    let secs = num("--secs", secs);
    let workers = num("--workers", 8);
    let verif = arg("--verif").unwrap_or("/verif".into());
    let start = Instant::now();
    println!("rsim: property {} tier {} VERIF_SEED {} runs {} workers {}", prop, tier, base, n, workers);
    let dir = format!("/tmp/rsim-{}-{}", prop, std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch");
    let exe = std::env::current_exe().unwrap();
    let spawn = |w: u64, from: u64, secs: u64| {
        Command::new(&exe)
            .args(["worker", "--prop", &prop, "--base", &base.to_string(), "--w", &w.to_string(), "--of", &workers.to_string(), "--from", &from.to_string(), "--count", &n.to_string(), "--secs", &secs.to_string(), "--dir", &dir])
            .stdin(Stdio::null())
            .spawn()
            .expect("worker")
    };
    let mut kids: std::collections::VecDeque<(u64, u64, std::process::Child)> = (0..workers).map(|w| (w, 0, spawn(w, 0, secs))).collect();
    let mut given_up = vec![];
    let mut founds: Vec<Value> = vec![];
    let mut failed = None;
    let mut tot = BTreeMap::<&str, u64>::new();
    let mut fired = BTreeMap::new();
    let mut stats = BTreeMap::new();
    let mut other = BTreeMap::new();
    let mut other_seeds = vec![];
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    while let Some((w, from, mut k)) = kids.pop_front() {
        let st = k.wait().expect("wait");
        let prog = || std::fs::read(format!("{}/w{}.prog", dir, w)).ok().and_then(|p| p.try_into().ok()).map(u64::from_le_bytes);
        let res = format!("{}/w{}.json", dir, w);
        if st.success() {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&res).unwrap()).unwrap();
            for key in ["runs", "sim", "steps", "twice", "diverged", "hashes"] {
                *tot.entry(key).or_insert(0) += v[key].as_u64().unwrap_or(0);
            }
            for s in v["shapes"].as_array().unwrap() {
                shapes.insert(s.as_u64().unwrap());
            }
            add(&mut fired, &v["fired"]);
            add(&mut stats, &v["stats"]);
            add(&mut other, &v["other"]);
            other_seeds.extend(v["other_seeds"].as_array().unwrap().iter().cloned());
            samples.extend(v["samples"].as_array().unwrap().iter().cloned());
            if !v["found"].is_null() {
                founds.push(v["found"].clone());
            }
        } else if let Some(class) = death(&st) {
            if let Some(idx) = prog() {
                let seed = gen::seed_for(base, &prop, idx);
                let plan = gen::generate(&prop, seed);
                let msg = if class == "hang" { "the call did not come back within 30 s of processor time".to_string() } else { format!("the process died: {:?}", st) };
                founds.push(json!({"idx": idx, "from": from, "of": workers, "seed": seed, "classes": [class], "msg": msg, "step": 0, "plan": plan}));
                let _ = std::fs::write(format!("{}/best", dir), idx.to_string());
            } else {
                failed = Some(format!("worker {} died at once: {:?}", w, st));
            }
        } else if st.code() == Some(SLOW) && prog().is_some() && given_up.len() < 40 {
            let idx = prog().unwrap();
            eprintln!("rsim: run {} of {} takes too long to simulate and is given up", idx, prop);
            given_up.push(idx);
            let left = secs.saturating_sub(start.elapsed().as_secs());
            kids.push_back((w, idx + 1, spawn(w, idx + 1, left)));
        } else {
            failed = Some(format!("worker {}: {:?}", w, st));
        }
    }
    mirror_cleanup(&dir, workers);
    let known = known_findings(&verif, &prop, &exe, &dir);
    let mut violations = 0;
    let mut code = 0;
    let mut replay_path = String::new();
    founds.sort_by_key(|f| f["idx"].as_u64());
    let mut unrepeated = vec![];
    let mut confirmed = None;
    for f in &founds {
        if prop == "C17" && shrink::Shrinker::new(&exe, &dir, &prop).alone(&serde_json::from_value(f["plan"].clone()).unwrap()) {
            println!("run {}: {} (also with one backup in one thread: not about {})", f["idx"], f["msg"].as_str().unwrap_or(""), prop);
            continue;
        }
        println!("run {} (seed {}) breaks {}: {}", f["idx"], f["seed"], prop, f["msg"].as_str().unwrap_or(""));
        confirmed = confirm(f, &exe, &dir, &prop, base);
        if confirmed.is_some() {
            break;
        }
        // it cannot be blamed on the code unless it repeats
        eprintln!("rsim: run {} did not fail again in a fresh process", f["idx"]);
        unrepeated.push(f["idx"].clone());
        if f["classes"] != json!(["hang"]) {
            failed = failed.or(Some("a failure that does not repeat".into()));
        }
    }
    if let Some((f, s, first)) = confirmed {
        let plan: Plan = serde_json::from_value(f["plan"].clone()).unwrap();
        let classes = classes_of(f);
        let limit = if tier == "thorough" { 120 } else { 40 };
        let (small, v, tries) = s.shrink(plan, first, &classes, Duration::from_secs(limit));
        violations = 1;
        code = 1;
        let rd = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&rd);
        replay_path = format!("{}/{}-{}.json", rd, prop, f["seed"]);
        let mut doc = json!({"property": prop, "seed": f["seed"], "run": f["idx"], "classes": v["classes"], "message": v["msg"], "original_steps": f["plan"]["steps"].as_array().unwrap().len(), "plan": small, "trace": v["trace"]});
        if !s.before.is_empty() {
            // state of the process outlives the backups it came from: these runs go before
            doc["before"] = serde_json::to_value(&s.before).unwrap();
        }
        std::fs::write(&replay_path, serde_json::to_string_pretty(&doc).unwrap()).expect("replay file");
        println!("minimised to {} steps in {} attempts; classes {}: {}", small.steps.len(), tries, v["classes"], v["msg"].as_str().unwrap_or(""));
        if !s.before.is_empty() {
            println!("(after {} other runs in the same process)", s.before.len());
        }
        for l in v["trace"].as_array().unwrap() {
            let l = l.as_str().unwrap();
            println!("  | {}", l.chars().take(300).collect::<String>());
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let wall = start.elapsed().as_secs_f64();
    let runs = tot.get("runs").cloned().unwrap_or(0);
    let ev = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": shapes.len(),
            "rule": "One evaluation is one simulated run: a seed expands to a configuration and a sequence of writer, storage, clock and reader steps with faults, executed against the real library and compared step by step with the reference models. Two runs count as distinct if the sequence of step kinds, outcomes compared and faults that really fired differs; runs without any comparison count as trivial.",
            "samples": samples,
            "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
            "first_run": 0, "runs_planned": n,
            "seeds": format!("run i uses splitmix(VERIF_SEED={}, {}, i)", base, prop),
            "steps": tot.get("steps"),
            "simulated_seconds": tot.get("sim"),
            "faults_fired": fired,
            "events_and_comparisons": stats,
            "distinct_event_logs": tot.get("hashes"),
            "runs_executed_twice": tot.get("twice"),
            "runs_given_up_as_too_slow_to_simulate": given_up,
            "failures_that_did_not_repeat_in_a_fresh_process": unrepeated,
            "runs_that_did_not_repeat": tot.get("diverged"),
            "known_findings_that_still_fail": known,
            "findings_for_other_properties": other, "runs_with_those": other_seeds,
            "real_components": ["the whole ruplicity crate from /repo's working tree", "tar, flate2, time and tabwriter crates", "std::fs and the file system of the kernel for runs over LocalBackend"],
            "stub_components": ["backup writer and source tree (model)", "storage (in memory, or a scratch directory mirrored from it)", "listing order, reads, errors and directory streams (interposed C library calls or the Backend trait)", "the order in which the threads of the program run (C17)", "wall clock and time zone", "system entropy"]
        },
        "assumptions": ["stored formats are as the independent writers in sim/src/enc.rs produce them", "the reference models in sim/src/model.rs state the property correctly"],
        "wall_s": wall, "violations": violations
    });
    let evd = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&evd);
    std::fs::write(format!("{}/{}.json", evd, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{} runs, {} distinct, {:.0} s simulated per run, {:.1} s wall", runs, shapes.len(), *tot.get("sim").unwrap_or(&0) as f64 / runs.max(1) as f64, wall);
    println!("faults: {:?}", fired);
    println!("events: {:?}", stats);
    if !other.is_empty() {
        println!("note: findings that belong to other properties: {:?} in runs {:?}", other, other_seeds);
    }
    if code == 1 {
        println!("VIOLATION property={} replay={}", prop, replay_path);
        return 1;
    }
    if let Some(e) = failed {
        eprintln!("rsim: harness error: {}", e);
        return HARNESS;
    }
    if runs == 0 {
        return HARNESS;
    }
    println!("property {} held in every run", prop);
    0
}

fn classes_of(f: &Value) -> Vec<String> {
    f["classes"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect()
}

/// The same failure in a fresh process: of the run alone or, if that passes, after the runs that
/// its worker had executed before it, of which as few as possible are kept.
fn confirm<'f>(f: &'f Value, exe: &std::path::Path, dir: &str, prop: &str, base: u64) -> Option<(&'f Value, shrink::Shrinker, Value)> {
    let plan: Plan = serde_json::from_value(f["plan"].clone()).unwrap();
    let classes = classes_of(f);
    let mut s = shrink::Shrinker::new(exe, dir, prop);
    let tries = if classes == ["hang"] { 2 } else { 4 };
    for _ in 0..tries {
        if let Some(v) = s.attempt(&plan, &classes) {
            return Some((f, s, v));
        }
    }
    if classes == ["hang"] {
        return None;
    }
    let (idx, from, of) = (f["idx"].as_u64().unwrap(), f["from"].as_u64().unwrap(), f["of"].as_u64().unwrap());
    let end = Instant::now() + Duration::from_secs(150);
    let earlier: Vec<u64> = (from..idx).filter(|i| i % of == idx % of).collect();
    let mut n = 1;
    loop {
        let part = &earlier[earlier.len().saturating_sub(n)..];
        s.before = part.iter().map(|i| gen::generate(prop, gen::seed_for(base, prop, *i))).collect();
        if let Some(mut v) = s.attempt(&plan, &classes) {
            // leave out what is not needed
            let mut k = s.before.len();
            while k >= 1 {
                let mut at = 0;
                while at < s.before.len() && Instant::now() < end {
                    let keep = s.before.clone();
                    let to = (at + k).min(keep.len());
                    s.before.drain(at..to);
                    match s.attempt(&plan, &classes) {
                        Some(x) => v = x,
                        None => {
                            s.before = keep;
                            at += k;
                        }
                    }
                }
                k /= 2;
            }
            return Some((f, s, v));
        }
        if n >= earlier.len() || Instant::now() > end {
            return None;
        }
        n *= 4;
    }
}

/// Executes the fixed inputs of the recorded findings of this property; says which still fail.
fn known_findings(verif: &str, prop: &str, exe: &std::path::Path, dir: &str) -> Vec<String> {
    let mut out = vec![];
    let text = std::fs::read_to_string(format!("{}/KNOWN_FINDINGS.txt", verif)).unwrap_or_default();
    for l in text.lines() {
        let rest = match l.strip_prefix(&format!("finding: property={} ", prop)) {
            Some(r) => r,
            None => continue,
        };
        let (file, what) = rest.split_once(' ').unwrap_or((rest, ""));
        let plan: Option<Plan> = std::fs::read_to_string(format!("{}/{}", verif, file)).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()).and_then(|v| serde_json::from_value(v["plan"].clone()).ok());
        if let Some(plan) = plan {
            if let Ok(o) = shrink::Shrinker::new(exe, dir, prop).once(&plan) {
                if o["classes"].as_array().map_or(false, |a| !a.is_empty()) {
                    println!("KNOWN-FINDING: property={} {} ({})", prop, what, file);
                    out.push(file.to_string());
                }
            }
        }
    }
    out
}

fn mirror_cleanup(dir: &str, workers: u64) {
    let tag = std::path::Path::new(dir).file_name().unwrap().to_string_lossy().to_string();
    for w in 0..workers {
        for b in ["/dev/shm", "/tmp"] {
            mirror::clear(&format!("{}/rsim-scratch-{}-{}", b, tag, w));
        }
    }
}

/// Executes one plan and prints the outcome as JSON.
fn try_one(file: &str, trace: bool) -> i32 {
    limits();
    exec::install_hook();
    let text = std::fs::read_to_string(file).expect("plan file");
    let v: Value = serde_json::from_str(&text).expect("json");
    let before: Vec<Plan> = v.get("before").map_or(vec![], |b| serde_json::from_value(b.clone()).expect("plans"));
    let plan: Plan = serde_json::from_value(if v.get("plan").is_some() { v["plan"].clone() } else { v }).expect("plan");
    let scratch = mirror::make(&format!("try-{}", std::process::id()));
    for b in &before {
        alarm(OVERALL);
        exec::run(b, Some(&scratch), false);
    }
    alarm(OVERALL);
    let o = exec::run(&plan, Some(&scratch), true);
    alarm(0);
    mirror::clear(&scratch);
    let _ = trace;
    let out = match &o.violation {
        Some(v) => json!({"classes": v.classes, "msg": v.msg, "step": v.step, "trace": o.trace, "hash": o.hash, "other": o.other}),
        None => json!({"classes": [], "trace": o.trace, "hash": o.hash, "other": o.other}),
    };
    let _ = writeln!(std::io::stdout(), "{}", out);
    0
}

fn replay(file: &str) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let text = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&text).expect("json");
    let plan: Plan = serde_json::from_value(v["plan"].clone()).expect("plan");
    let before: Vec<Plan> = v.get("before").map_or(vec![], |b| serde_json::from_value(b.clone()).expect("plans"));
    let prop = plan.cfg.prop.clone();
    let dir = format!("/tmp/rsim-replay-{}", std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let mut s = shrink::Shrinker::new(&exe, &dir, &prop);
    s.before = before;
    let r = s.once(&plan);
    let _ = std::fs::remove_dir_all(&dir);
    match r {
        Err(e) => {
            eprintln!("rsim: harness error: {}", e);
            HARNESS
        }
        Ok(o) => {
            for l in o["trace"].as_array().map(|a| a.as_slice()).unwrap_or(&[]) {
                println!("  | {}", l.as_str().unwrap_or(""));
            }
            if o["classes"].as_array().map_or(true, |a| a.is_empty()) {
                println!("property {} held", prop);
                0
            } else {
                println!("{}: {}", o["classes"], o["msg"].as_str().unwrap_or(""));
                println!("same event log as recorded: {}", v["trace"].is_null() || v["trace"] == o["trace"]);
                println!("VIOLATION property={} replay={}", prop, file);
                1
            }
        }
    }
}

/// The models among themselves: the archives of a chain, applied in order, give the source tree.
fn selftest() -> i32 {
    exec::install_hook();
    let mut n = 0;
    for i in 0..num("--count", 2000) {
        let plan = gen::generate("C03", gen::seed_for(5, "C03", i));
        let mut w = world::World::new(&plan.cfg);
        let mut at = 0;
        while at < plan.steps.len() {
            match &plan.steps[at] {
                plan::Step::Mutate(ops) => ops.iter().for_each(|o| w.mutate(o)),
                plan::Step::Tick(t) => w.now += *t as i64,
                plan::Step::Conf(c) => w.cfg.set(c),
                plan::Step::Begin { run, cap, quirk } => w.begin(*run, *cap, *quirk),
                plan::Step::Finish => w.finish(),
                plan::Step::Crash { lose, torn } => w.crash(*lose, *torn),
                plan::Step::Cleanup(k) => w.cleanup(*k),
                _ => {}
            }
            at += 1;
        }
        let names = w.files.keys().cloned().collect();
        let v = model::view(&names);
        for c in &v.chains {
            let mut t = vec![];
            for s in c {
                match s.sig.as_ref().map(|n| w.files[n.as_bytes()].truth.clone()) {
                    Some(world::Truth::Sig(x)) => t.push(x),
                    _ => break,
                }
                let counts: Vec<usize> = t.iter().map(|x| x.ents.len()).collect();
                let e = model::Expect::build(&t, &counts, t.len());
                let want: Vec<Vec<u8>> = t.last().unwrap().tree.keys().map(|p| enc::join(p)).collect();
                let got: Vec<Vec<u8>> = e.rows.iter().map(|r| r.path.clone()).collect();
                if want != got {
                    println!("run {}: the archives give {:?}, the tree was {:?}", i, got.len(), want.len());
                    return 1;
                }
                n += 1;
            }
        }
    }
    println!("{} snapshots agree", n);
    0
}

fn main() {
    let cmd = std::env::args().nth(1).unwrap_or_default();
    let file = std::env::args().nth(2).unwrap_or_default();
    let code = match cmd.as_str() {
        "worker" => worker(),
        "check" => check(),
        "try" => try_one(&file, true),
        "replay" => replay(&file),
        "selftest" => selftest(),
        "plan" => {
            let prop = arg("--prop").unwrap();
            let p = gen::generate(&prop, gen::seed_for(num("--base", 1), &prop, num("--run", 0)));
            println!("{}", serde_json::to_string_pretty(&json!({ "plan": p })).unwrap());
            0
        }
        _ => {
            eprintln!("usage: rsim check --prop ID [--tier quick|thorough] | replay FILE | try FILE | plan --prop ID --run N | selftest");
            2
        }
    };
    std::process::exit(code);
}
