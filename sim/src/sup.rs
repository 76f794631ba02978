//! Supervisor: spreads runs over worker processes, survives crashes and hangs of the code under
//! test, minimises and confirms failures in fresh processes, writes evidence.
//!
//! Every run is identified by (property, VERIF_SEED, index); everything random in it comes from
//! one generator seeded with these. Workers only decide who executes which index.
use crate::rng::{hash_str, mix};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub struct Violation {
    /// Class kept constant by the minimiser.
    pub class: String,
    pub detail: String,
}

#[derive(Default)]
pub struct RunResult {
    pub violation: Option<Violation>,
    /// The complete scenario, sufficient for replay.
    pub case: Value,
    pub counters: BTreeMap<&'static str, u64>,
    pub steps: u64,
    /// Hash of the observable history (for distinctness and determinism).
    pub history: u64,
    pub nontrivial: bool,
    pub sample: Option<String>,
}
impl RunResult {
    pub fn count(&mut self, k: &'static str, n: u64) {
        if n > 0 {
            *self.counters.entry(k).or_insert(0) += n;
        }
    }
}

pub struct Info {
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub step_unit: &'static str,
    pub fault_kinds: &'static [&'static str],
    pub quick_runs: u64,
    pub thorough_runs: u64,
    /// Wall-clock caps of the search phase (s).
    pub quick_cap: u64,
    pub thorough_cap: u64,
    pub workers: usize,
}

pub trait Harness {
    fn info(&self, prop: &str) -> Info;
    fn run(&self, prop: &str, run_seed: u64, index: u64) -> RunResult;
    /// Re-execute a recorded scenario.
    fn replay(&self, prop: &str, case: &Value) -> RunResult;
    /// Simpler scenarios, best first.
    fn shrink(&self, prop: &str, case: &Value) -> Vec<Value>;
    fn size(&self, prop: &str, case: &Value) -> usize;
    /// The scenario of a run without executing the code under test (for crashes).
    fn generate(&self, prop: &str, run_seed: u64, index: u64) -> Value;
    /// Stable description used to match known findings.
    fn signature(&self, _prop: &str, v: &Violation, _case: &Value) -> String {
        v.class.clone()
    }
    /// More lines for the evidence file.
    fn extra(&self, _prop: &str) -> Map<String, Value> {
        Map::new()
    }
}

pub fn run_seed(prop: &str, seed: u64, index: u64) -> u64 {
    mix(mix(hash_str(prop), seed), index)
}

fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into()))
}

pub struct Known {
    pub property: String,
    pub signature: String,
    pub what: String,
}

pub fn load_known() -> Vec<Known> {
    let p = verif_root().join("known-findings.json");
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let v: Value = serde_json::from_str(&s).expect("known-findings.json");
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|x| Known {
                    property: x["property"].as_str().unwrap_or("").into(),
                    signature: x["signature"].as_str().unwrap_or("").into(),
                    what: x["what"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

struct Progress {
    ptr: *mut u64,
}
impl Progress {
    fn open(path: &Path) -> Self {
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        f.set_len(64).unwrap();
        use std::os::fd::AsRawFd;
        let ptr = unsafe { libc::mmap(std::ptr::null_mut(), 64, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
        assert!(ptr != libc::MAP_FAILED);
        Progress { ptr: ptr as *mut u64 }
    }
    fn set(&self, k: usize, v: u64) {
        unsafe { std::ptr::write_volatile(self.ptr.add(k), v) }
    }
    fn get(&self, k: usize) -> u64 {
        unsafe { std::ptr::read_volatile(self.ptr.add(k)) }
    }
}

/// Entry point of every simulator binary.
pub fn main(h: &dyn Harness) -> ! {
    let args: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => check(h, &args[2], &args[3], seed),
        Some("worker") => worker(h, &args[2..]),
        Some("replay") => replay(h, &args[2]),
        Some("one") => {
            let idx: u64 = args[3].parse().unwrap();
            quiet_panics();
            let r = h.run(&args[2], run_seed(&args[2], seed, idx), idx);
            report_result(h, &args[2], &r)
        }
        Some("case") => {
            let idx: u64 = args[3].parse().unwrap();
            println!("{}", h.generate(&args[2], run_seed(&args[2], seed, idx), idx));
            0
        }
        Some("hashes") => {
            // Determinism self-test: one history hash per index.
            quiet_panics();
            let (a, b): (u64, u64) = (args[3].parse().unwrap(), args[4].parse().unwrap());
            for idx in a..b {
                let r = h.run(&args[2], run_seed(&args[2], seed, idx), idx);
                println!("{idx} {:016x} {}", r.history, r.steps);
            }
            0
        }
        _ => {
            eprintln!("usage: check PROP quick|thorough | replay FILE | one PROP INDEX | hashes PROP A B");
            2
        }
    };
    std::process::exit(code)
}

pub fn quiet_panics() {
    if std::env::var_os("SIM_PANICS").is_none() {
        std::panic::set_hook(Box::new(|_| {}));
    }
}

fn report_result(h: &dyn Harness, prop: &str, r: &RunResult) -> i32 {
    match &r.violation {
        None => {
            println!("OK property={prop} steps={} history={:016x}", r.steps, r.history);
            0
        }
        Some(v) => {
            println!("CLASS {}", v.class);
            println!("SIGNATURE {}", h.signature(prop, v, &r.case));
            println!("DETAIL {}", v.detail);
            1
        }
    }
}

/// Replays a file in this process. Exit 1 iff the violation shows again.
fn replay(h: &dyn Harness, file: &str) -> i32 {
    quiet_panics();
    let s = std::fs::read_to_string(file).expect("replay file");
    let v: Value = serde_json::from_str(&s).expect("replay file");
    let prop = v["property"].as_str().unwrap().to_string();
    // A failure that needs what earlier runs left behind in the process lists them first.
    let before = v["before"].as_array().cloned().unwrap_or_default();
    let r = before.iter().map(|c| h.replay(&prop, c)).find(|r| r.violation.is_some()).unwrap_or_else(|| h.replay(&prop, &v["case"]));
    let c = report_result(h, &prop, &r);
    if c == 1 {
        println!("VIOLATION property={prop} replay={file}");
    }
    c
}

fn worker(h: &dyn Harness, a: &[String]) -> i32 {
    let prop = a[0].clone();
    let seed: u64 = a[1].parse().unwrap();
    let (first, stride, total): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let prog = Progress::open(Path::new(&a[5]));
    let out = PathBuf::from(&a[6]);
    let cap: u64 = a[7].parse().unwrap();
    let known = load_known();
    quiet_panics();
    let t0 = Instant::now();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut runs, mut steps, mut nontrivial_runs) = (0u64, 0u64, 0u64);
    let mut samples: Vec<String> = vec![];
    let mut found = Value::Null;
    let mut known_hits: BTreeMap<usize, u64> = BTreeMap::new();
    let mut idx = first;
    let mut order = 0xfeedu64;
    while idx < total {
        if t0.elapsed() > Duration::from_secs(cap) || prog.get(1) != 0 {
            break;
        }
        prog.set(0, idx + 1);
        let r = h.run(&prop, run_seed(&prop, seed, idx), idx);
        runs += 1;
        steps += r.steps;
        order = mix(order, r.history);
        for (k, v) in &r.counters {
            *counters.entry(k.to_string()).or_insert(0) += v;
        }
        if r.nontrivial {
            nontrivial_runs += 1;
            if seen.len() < 3_000_000 {
                seen.insert(r.history);
            }
        }
        if samples.len() < 3 && r.nontrivial && runs > 3 {
            if let Some(s) = r.sample {
                samples.push(s);
            }
        }
        if let Some(v) = r.violation {
            let sig = h.signature(&prop, &v, &r.case);
            if let Some(k) = known.iter().position(|k| k.property == prop && k.signature == sig) {
                *known_hits.entry(k).or_insert(0) += 1;
            } else {
                found = json!({"index": idx, "class": v.class, "detail": v.detail, "case": r.case, "signature": sig});
                break;
            }
        }
        idx += stride;
    }
    prog.set(0, u64::MAX);
    let mut bytes = Vec::with_capacity(seen.len() * 8);
    for s in &seen {
        bytes.extend_from_slice(&s.to_le_bytes());
    }
    std::fs::write(out.with_extension("set"), bytes).unwrap();
    let kh: BTreeMap<String, u64> = known_hits.iter().map(|(k, n)| (known[*k].what.clone(), *n)).collect();
    let v = json!({"runs": runs, "steps": steps, "nontrivial": nontrivial_runs, "counters": counters, "samples": samples,
        "found": found, "order": format!("{order:016x}"), "known": kh});
    std::fs::write(&out, v.to_string()).unwrap();
    0
}

struct W {
    child: Child,
    prog: Progress,
    out: PathBuf,
    last: u64,
    since: Instant,
    done: bool,
}

fn self_exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// Runs this binary with arguments and a time limit. None: timed out.
fn run_self(args: &[&str], limit: Duration, extra_env: &[(&str, String)]) -> Option<(Option<i32>, Option<i32>, String)> {
    let mut cmd = Command::new(self_exe());
    cmd.args(args).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    for (k, v) in extra_env {
        cmd.env(k, v);
    }
    let mut ch = cmd.spawn().expect("spawn");
    let mut so = ch.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = String::new();
        let _ = so.read_to_string(&mut s);
        s
    });
    let t0 = Instant::now();
    loop {
        match ch.try_wait().unwrap() {
            Some(st) => {
                let s = reader.join().unwrap();
                return Some((st.code(), st.signal(), s));
            }
            None => {
                if t0.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    let _ = reader.join();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(2));
            }
        }
    }
}

const HANG: Duration = Duration::from_secs(25);

/// Class of what happens when a replay file is executed in a fresh process.
fn class_of_replay(file: &Path, limit: Duration) -> Option<String> {
    match run_self(&["replay", file.to_str().unwrap()], limit, &[]) {
        None => Some("hang: no end within the time limit".into()),
        Some((Some(1), _, s)) => s.lines().find_map(|l| l.strip_prefix("CLASS ").map(|x| x.to_string())),
        Some((Some(0), _, _)) => None,
        Some((_, Some(sig), _)) => Some(format!("crash: signal {sig}")),
        Some((c, _, _)) => Some(format!("crash: exit {c:?}")),
    }
}

fn write_replay(file: &Path, prop: &str, seed: u64, index: u64, class: &str, detail: &str, case: &Value) {
    write_history(file, prop, seed, index, class, detail, &[], case)
}

#[allow(clippy::too_many_arguments)]
fn write_history(file: &Path, prop: &str, seed: u64, index: u64, class: &str, detail: &str, before: &[Value], case: &Value) {
    std::fs::create_dir_all(file.parent().unwrap()).unwrap();
    let mut v = json!({"property": prop, "seed": seed, "index": index, "class": class, "detail": detail, "case": case});
    if !before.is_empty() {
        v["before"] = json!(before);
    }
    std::fs::write(file, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

fn check(h: &dyn Harness, prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let info = h.info(prop);
    let thorough = tier == "thorough";
    let (total, cap) = if thorough { (info.thorough_runs, info.thorough_cap) } else { (info.quick_runs, info.quick_cap) };
    let total = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(total);
    let root = verif_root();
    let work = root.join("work").join(format!("{prop}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).unwrap();
    println!("SEED {seed} property={prop} tier={tier} runs={total}");
    let nw = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(info.workers);
    let mut ws: Vec<W> = (0..nw)
        .map(|i| {
            let p = work.join(format!("p{i}"));
            let out = work.join(format!("w{i}.json"));
            let prog = Progress::open(&p);
            let child = Command::new(self_exe())
                .args(["worker", prop, &seed.to_string(), &i.to_string(), &nw.to_string(), &total.to_string()])
                .args([p.to_str().unwrap(), out.to_str().unwrap(), &cap.to_string()])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn worker");
            W { child, prog, out, last: 0, since: Instant::now(), done: false }
        })
        .collect();
    // (index, class, detail, case)
    let mut bad: Vec<(u64, String, String, Value)> = vec![];
    loop {
        let mut alive = false;
        for w in ws.iter_mut().filter(|w| !w.done) {
            match w.child.try_wait().unwrap() {
                Some(st) => {
                    w.done = true;
                    let at = w.prog.get(0);
                    if !(st.success() && w.out.exists()) && at != 0 && at != u64::MAX {
                        bad.push((at - 1, format!("crash: {st}"), "the process running the simulation died".into(), Value::Null));
                    } else if !st.success() {
                        eprintln!("worker failed outside a run: {st}");
                        return 2;
                    }
                }
                None => {
                    alive = true;
                    let at = w.prog.get(0);
                    if at != w.last {
                        w.last = at;
                        w.since = Instant::now();
                    } else if w.since.elapsed() > HANG && at != 0 && at != u64::MAX {
                        let _ = w.child.kill();
                        let _ = w.child.wait();
                        w.done = true;
                        bad.push((at - 1, "hang: no end within the time limit".into(), "a run did not end".into(), Value::Null));
                    }
                }
            }
        }
        if !bad.is_empty() {
            for w in ws.iter() {
                w.prog.set(1, 1);
            }
        }
        if !alive {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let (mut runs, mut steps, mut nontrivial) = (0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for w in &ws {
        let Ok(s) = std::fs::read_to_string(&w.out) else { continue };
        let v: Value = serde_json::from_str(&s).unwrap();
        runs += v["runs"].as_u64().unwrap();
        steps += v["steps"].as_u64().unwrap();
        nontrivial += v["nontrivial"].as_u64().unwrap();
        for (k, n) in v["counters"].as_object().unwrap() {
            *counters.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        for (k, n) in v["known"].as_object().unwrap() {
            *known.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
        }
        if samples.len() < 4 {
            samples.extend(v["samples"].as_array().unwrap().iter().take(1).cloned());
        }
        if !v["found"].is_null() {
            let f = &v["found"];
            bad.push((f["index"].as_u64().unwrap(), f["class"].as_str().unwrap().into(), f["detail"].as_str().unwrap().into(), f["case"].clone()));
        }
        if let Ok(b) = std::fs::read(w.out.with_extension("set")) {
            for c in b.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    bad.sort_by_key(|b| b.0);
    let mut code = 0;
    let mut violations = 0;
    let knowns = load_known();
    for k in knowns.iter().filter(|k| k.property == prop) {
        println!("KNOWN-FINDING: property={prop} {}", k.what);
    }
    'bad: for (idx, class, detail, case) in bad.into_iter().take(3) {
        violations += 1;
        let dir = root.join("replays");
        let file = dir.join(format!("{prop}-s{seed}-r{idx}.json"));
        let case = if case.is_null() { h.generate(prop, run_seed(prop, seed, idx), idx) } else { case };
        write_replay(&file, prop, seed, idx, &class, &detail, &case);
        // Confirm in a fresh process before anything else.
        let limit = Duration::from_secs(60);
        let Some(cls) = class_of_replay(&file, limit) else {
            // The run alone is fine: look for the earlier runs of its worker that it needs.
            let mut found = None;
            for window in [1u64, 8, 64, 512, 4096, 20_000] {
                let first = (idx % nw as u64).max(idx.saturating_sub(window * nw as u64));
                let before: Vec<Value> =
                    (0..idx).filter(|i| i % nw as u64 == idx % nw as u64 && *i >= first).map(|i| h.generate(prop, run_seed(prop, seed, i), i)).collect();
                write_history(&file, prop, seed, idx, &class, &detail, &before, &case);
                if let Some(c) = class_of_replay(&file, Duration::from_secs(120)) {
                    found = Some((c, before));
                    break;
                }
                if first == idx % nw as u64 {
                    break;
                }
            }
            let Some((cls, mut before)) = found else {
                eprintln!("run {idx}: {class}: did not reproduce from its replay file");
                code = code.max(3);
                continue;
            };
            println!("run {idx}: {cls}, after other runs in the same process");
            let deadline = Instant::now() + Duration::from_secs(60);
            let tmp = work.join("cand.json");
            let mut size = before.len().div_ceil(2);
            while size >= 1 && Instant::now() < deadline {
                let mut at = 0;
                while at < before.len() && Instant::now() < deadline {
                    let mut cand = before.clone();
                    cand.drain(at..(at + size).min(before.len()));
                    write_history(&tmp, prop, seed, idx, &class, &detail, &cand, &case);
                    if class_of_replay(&tmp, Duration::from_secs(120)).as_deref() == Some(cls.as_str()) {
                        before = cand;
                    } else {
                        at += size;
                    }
                }
                size /= 2;
            }
            write_history(&file, prop, seed, idx, &cls, &detail, &before, &case);
            println!("{detail}");
            println!("it needs {} earlier runs in the same process, listed in the replay file", before.len());
            println!("VIOLATION property={prop} replay={}", file.display());
            code = 1;
            break;
        };
        let in_process = !(cls.starts_with("crash") || cls.starts_with("hang"));
        println!("run {idx}: {cls}");
        let (mut best, mut best_detail) = (case, detail);
        let deadline = Instant::now() + Duration::from_secs(25);
        if !cls.starts_with("hang") {
            quiet_panics();
            let mut progress = true;
            let mut evals = 0;
            while progress && Instant::now() < deadline && evals < 20000 {
                progress = false;
                let size = h.size(prop, &best);
                for cand in h.shrink(prop, &best) {
                    if Instant::now() > deadline {
                        break;
                    }
                    if h.size(prop, &cand) >= size {
                        continue;
                    }
                    evals += 1;
                    let hit = if in_process {
                        h.replay(prop, &cand).violation.filter(|v| v.class == cls).map(|v| v.detail)
                    } else {
                        let tmp = work.join("cand.json");
                        write_replay(&tmp, prop, seed, idx, &cls, "", &cand);
                        (class_of_replay(&tmp, Duration::from_secs(10)).as_deref() == Some(cls.as_str())).then(|| best_detail.clone())
                    };
                    if let Some(d) = hit {
                        best = cand;
                        best_detail = d;
                        progress = true;
                        break;
                    }
                }
            }
        }
        let min = dir.join(format!("{prop}-s{seed}-r{idx}.min.json"));
        write_replay(&min, prop, seed, idx, &cls, &best_detail, &best);
        let (a, b) = (class_of_replay(&min, limit), class_of_replay(&min, limit));
        let good = if a.as_deref() == Some(cls.as_str()) && a == b { &min } else { &file };
        if in_process {
            // A minimised case may be an instance of a listed finding.
            let r = h.replay(prop, &best);
            if let Some(v) = &r.violation {
                let sig = h.signature(prop, v, &best);
                if knowns.iter().any(|k| k.property == prop && k.signature == sig) {
                    violations -= 1;
                    continue 'bad;
                }
            }
        }
        println!("{best_detail}");
        println!("VIOLATION property={prop} replay={}", good.display());
        code = 1;
        break;
    }
    let wall = t0.elapsed().as_secs_f64();
    let mut cov = Map::new();
    cov.insert("evaluations".into(), json!(runs));
    cov.insert("distinct_nontrivial".into(), json!(seen.len()));
    cov.insert("rule".into(), json!(info.rule));
    cov.insert("samples".into(), json!(samples));
    cov.insert("nontrivial_runs".into(), json!(nontrivial));
    cov.insert("simulated_steps".into(), json!(steps));
    cov.insert("step_unit".into(), json!(info.step_unit));
    cov.insert("simulated_time".into(), json!(format!("{steps} {} (the code reads no clock; steps are the only time)", info.step_unit)));
    cov.insert("runs_per_hour".into(), json!((runs as f64 / search_s.max(0.001) * 3600.0) as u64));
    cov.insert("seeds_per_hour".into(), json!((runs as f64 / search_s.max(0.001) * 3600.0) as u64));
    cov.insert("search_s".into(), json!(search_s));
    cov.insert("planned_runs".into(), json!(total));
    cov.insert("worker_processes".into(), json!(nw));
    let faults: BTreeMap<&str, u64> = info.fault_kinds.iter().map(|k| (*k, counters.get(*k).copied().unwrap_or(0))).collect();
    cov.insert("faults_fired".into(), json!(faults));
    let probes: BTreeMap<&String, &u64> = counters.iter().filter(|(k, _)| !info.fault_kinds.contains(&k.as_str())).collect();
    cov.insert("probes".into(), json!(probes));
    cov.insert("real_components".into(), json!(info.real));
    cov.insert("stubbed_components".into(), json!(info.stub));
    cov.insert("known_findings_hit".into(), json!(known));
    cov.extend(h.extra(prop));
    let ev = json!({"property": prop, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": info.level,
        "coverage": cov, "assumptions": info.assumptions, "wall_s": wall, "violations": violations});
    let dir = root.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut f = std::fs::File::create(dir.join(format!("{prop}.json"))).unwrap();
    f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    let _ = std::fs::remove_dir_all(&work);
    println!("{prop}: {runs} runs, {steps} steps, {} distinct histories, {violations} violations, {wall:.1} s", seen.len());
    code
}
