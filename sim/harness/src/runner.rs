//! Running batches of seeds in worker processes, minimising and replaying failures,
//! and writing evidence.

use crate::engine::{self, Body, Choices, Outcome, Schedule, Violation, STATS};
use crate::rng::{hash_str, mix, Rng};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub struct Scenario {
    pub name: &'static str,
    pub weight: u32,
    pub run: Body,
}

pub struct Property {
    pub id: &'static str,
    pub scenarios: &'static [Scenario],
    /// runs in the quick tier
    pub quick: u64,
    /// Which parts of /repo ran for real
    pub real: &'static str,
    /// Violation classes which this property's check reports.
    pub real_stub: &'static str,
    pub rule: &'static str,
}

pub fn scenario_of(p: &Property, idx: u64) -> &'static Scenario {
    let total: u32 = p.scenarios.iter().map(|s| s.weight).sum();
    let mut k = (idx % total as u64) as u32;
    for s in p.scenarios.iter() {
        if k < s.weight {
            return unsafe { &*(s as *const Scenario) };
        }
        k -= s.weight;
    }
    unreachable!()
}

pub fn run_seed(prop: &str, verif_seed: u64, idx: u64) -> u64 {
    mix(mix(verif_seed ^ hash_str(prop)).wrapping_add(idx.wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

pub fn execute_seed(p: &Property, verif_seed: u64, idx: u64, tracing: bool) -> Outcome {
    let seed = run_seed(p.id, verif_seed, idx);
    let sc = scenario_of(p, idx);
    engine::run(sc.run, Choices::seeded(seed), Schedule::Seeded(mix(seed ^ 0xABCD)), tracing)
}

// ------------------------------------------------------------ shared memory

/// A small file shared by the parent and the workers: who is running which seed.
struct Shm {
    p: *mut u64,
}

unsafe impl Send for Shm {}
unsafe impl Sync for Shm {}

const SHM_WORDS: usize = 1024;

impl Shm {
    fn open(path: &Path, create: bool) -> Shm {
        use std::os::unix::io::AsRawFd;
        let f = fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("shm file");
        if create {
            f.set_len((SHM_WORDS * 8) as u64).unwrap();
        }
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SHM_WORDS * 8,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap");
        Shm { p: p as *mut u64 }
    }

    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(i) as *const AtomicU64) }
    }

    /// lowest failing index + 1 (0: none)
    fn min_fail(&self) -> &AtomicU64 {
        self.at(0)
    }

    fn report_fail(&self, idx: u64) {
        let m = self.min_fail();
        let mut cur = m.load(Ordering::SeqCst);
        while cur == 0 || cur > idx + 1 {
            match m.compare_exchange(cur, idx + 1, Ordering::SeqCst, Ordering::SeqCst) {
                Ok(_) => break,
                Err(x) => cur = x,
            }
        }
    }

    /// current index + 1 of a worker
    fn cur(&self, w: usize) -> &AtomicU64 {
        self.at(8 + w * 4)
    }

    /// why a worker gave up: 1 panic, 2 harness panic, 3 hang
    fn why(&self, w: usize) -> &AtomicU64 {
        self.at(8 + w * 4 + 1)
    }

    fn beat(&self, w: usize) -> &AtomicU64 {
        self.at(8 + w * 4 + 2)
    }
}

static SHM: std::sync::OnceLock<(Shm, usize)> = std::sync::OnceLock::new();

pub fn note_panic(class: &str, loc: &str, msg: &str) {
    if let Some((shm, w)) = SHM.get() {
        shm.why(*w).store(if class == "panic" { 1 } else { 2 }, Ordering::SeqCst);
    }
    if std::env::var_os("DST_VERBOSE").is_some() {
        eprintln!("dst: {} at {}: {}", class, loc, msg);
    }
}

/// CPU seconds used by this process.
fn cpu_seconds() -> f64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_PROCESS_CPUTIME_ID, &mut ts);
        ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
    }
}

const HANG_CPU_SECONDS: f64 = 20.0;
const HANG_WALL_SECONDS: f64 = 120.0;

/// A run which burns CPU without reaching a scheduling point, or blocks for real, is a hang.
fn watchdog() {
    std::thread::spawn(|| {
        let (shm, w) = SHM.get().unwrap();
        let mut last = (0, 0.0, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let b = shm.beat(*w).load(Ordering::SeqCst);
            let c = cpu_seconds();
            if b != last.0 {
                last = (b, c, Instant::now());
            } else if b != 0
                && (c - last.1 > HANG_CPU_SECONDS || last.2.elapsed().as_secs_f64() > HANG_WALL_SECONDS)
            {
                shm.why(*w).store(3, Ordering::SeqCst);
                unsafe { libc::_exit(77) };
            }
        }
    });
}

// ------------------------------------------------------------------ worker

pub struct WorkerArgs {
    pub seed: u64,
    pub w: usize,
    pub workers: usize,
    pub start: u64,
    pub end: u64,
    pub deadline_s: f64,
    pub dir: PathBuf,
    pub out: PathBuf,
}

pub fn worker(p: &Property, a: WorkerArgs) -> i32 {
    let shm = Shm::open(&a.dir.join("shm"), false);
    let _ = SHM.set((shm, a.w));
    let (shm, w) = SHM.get().unwrap();
    let w = *w;
    watchdog();
    engine::install();

    let t0 = Instant::now();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut tot = engine::RunStats::default();
    let mut max_steps = 0u64;
    let mut near_cap = 0u64;
    let mut per: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut policies: BTreeMap<String, u64> = BTreeMap::new();
    let mut xor = 0u64;
    let mut stopped = "done";
    let mut failure: Option<(u64, Violation)> = None;
    let mut set_aside = 0u64;
    let mut last = a.start;

    let mut idx = a.start;
    while idx < a.end {
        let mf = shm.min_fail().load(Ordering::Relaxed);
        if mf != 0 && idx + 1 > mf {
            stopped = "a lower seed failed";
            break;
        }
        if t0.elapsed().as_secs_f64() > a.deadline_s {
            stopped = "wall-clock cap";
            break;
        }
        shm.cur(w).store(idx + 1, Ordering::SeqCst);
        shm.beat(w).fetch_add(1, Ordering::SeqCst);
        shm.why(w).store(0, Ordering::SeqCst);

        let o = execute_seed(p, a.seed, idx, false);
        runs += 1;
        last = idx;
        *per.entry(scenario_of(p, idx).name).or_insert(0) += 1;
        let pol = o.policy.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        *policies.entry(pol).or_insert(0) += 1;
        tot.steps += o.stats.steps;
        tot.switches += o.stats.switches;
        tot.preemptions += o.stats.preemptions;
        tot.clock += o.stats.clock;
        tot.observations += o.stats.observations;
        max_steps = max_steps.max(o.stats.steps);
        near_cap = near_cap.max(o.stats.near_cap);
        xor = xor.wrapping_add(mix(o.hash ^ mix(idx)));
        if o.stats.preemptions > 0 && o.stats.observations > 0 {
            nontrivial += 1;
            distinct.insert(o.hash);
        }
        if let Some(v) = o.violation {
            if v.class.starts_with("harness") {
                // A fault of the harness says nothing about the library: set aside, and counted.
                if set_aside == 0 {
                    eprintln!("dst: error of the harness in {} run {}: {}", p.id, idx, v.msg);
                }
                set_aside += 1;
                idx += a.workers as u64;
                continue;
            }
            failure = Some((idx, v));
            shm.report_fail(idx);
            stopped = "violation";
            break;
        }
        idx += a.workers as u64;
    }
    shm.cur(w).store(0, Ordering::SeqCst);

    let (faults, probes) = STATS.with(|s| {
        let s = s.borrow();
        (json!(s.faults), json!(s.probes))
    });
    let mut hashes = Vec::with_capacity(distinct.len() * 8);
    for h in &distinct {
        hashes.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(a.out.with_extension("hashes"), hashes).unwrap();
    let out = json!({
        "runs": runs, "set_aside": set_aside, "nontrivial": nontrivial, "last": last, "stopped": stopped,
        "steps": tot.steps, "switches": tot.switches, "preemptions": tot.preemptions,
        "clock_ms": tot.clock, "observations": tot.observations, "max_steps": max_steps, "near_cap": near_cap,
        "per_scenario": per, "policies": policies, "faults": faults, "probes": probes, "hash_sum": xor.to_string(),
        "failure": failure.map(|(i, v)| json!({"index": i, "class": v.class, "msg": v.msg})),
    });
    fs::write(&a.out, out.to_string()).unwrap();
    0
}

// ------------------------------------------------------------------- check

pub struct Batch {
    pub runs: u64,
    pub nontrivial: u64,
    pub distinct: u64,
    pub totals: BTreeMap<String, u64>,
    pub per_scenario: BTreeMap<String, u64>,
    pub policies: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hash_sum: u64,
    pub set_aside: u64,
    pub failure: Option<(u64, String, String)>,
    pub capped: bool,
    pub wall: f64,
}

fn add_map(m: &mut BTreeMap<String, u64>, v: &Value) {
    if let Some(o) = v.as_object() {
        for (k, v) in o {
            *m.entry(k.clone()).or_insert(0) += v.as_u64().unwrap_or(0);
        }
    }
}

fn spawn_worker(prop: &str, seed: u64, w: usize, workers: usize, start: u64, end: u64, deadline: f64, dir: &Path, out: &Path) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .args([
            "worker",
            prop,
            &seed.to_string(),
            &w.to_string(),
            &workers.to_string(),
            &start.to_string(),
            &end.to_string(),
            &deadline.to_string(),
            dir.to_str().unwrap(),
            out.to_str().unwrap(),
        ])
        .stdin(Stdio::null())
        .spawn()
        .expect("worker")
}

/// Runs the seeds 0..n with the given number of worker processes.
pub fn batch(p: &Property, seed: u64, n: u64, workers: usize, deadline: f64) -> Batch {
    let dir = std::env::temp_dir().join(format!("dst-{}-{}-{}", p.id, std::process::id(), mix(seed ^ n) % 100000));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let shm = Shm::open(&dir.join("shm"), true);
    let t0 = Instant::now();

    let mut kids: Vec<(usize, Option<Child>, PathBuf)> = vec![];
    let mut outs = vec![];
    for w in 0..workers {
        let out = dir.join(format!("w{}.json", w));
        outs.push(out.clone());
        kids.push((w, Some(spawn_worker(p.id, seed, w, workers, w as u64, n, deadline, &dir, &out)), out));
    }
    let mut crash: Option<(u64, String, String)> = None;
    for (w, kid, out) in kids.iter_mut() {
        let status = kid.take().unwrap().wait().unwrap();
        if !status.success() || !out.exists() {
            let idx = shm.cur(*w).load(Ordering::SeqCst);
            let why = shm.why(*w).load(Ordering::SeqCst);
            if idx == 0 {
                eprintln!("dst: worker {} failed outside of a run: {:?}", w, status);
                std::process::exit(3);
            }
            let idx = idx - 1;
            shm.report_fail(idx);
            let class = match why {
                1 => "panic",
                2 => "harness-panic",
                3 => "hang",
                _ => "crash",
            };
            let c = (idx, class.to_string(), format!("the process running this seed ended with {}", status));
            if crash.as_ref().map_or(true, |x| x.0 > idx) {
                crash = Some(c);
            }
        }
    }
    let mut b = Batch {
        runs: 0,
        nontrivial: 0,
        distinct: 0,
        totals: BTreeMap::new(),
        per_scenario: BTreeMap::new(),
        policies: BTreeMap::new(),
        faults: BTreeMap::new(),
        probes: BTreeMap::new(),
        hash_sum: 0,
        set_aside: 0,
        failure: crash,
        capped: false,
        wall: 0.0,
    };
    let mut all: HashSet<u64> = HashSet::new();
    for out in outs {
        let Ok(text) = fs::read_to_string(&out) else { continue };
        let v: Value = serde_json::from_str(&text).expect("worker output");
        b.runs += v["runs"].as_u64().unwrap();
        b.set_aside += v["set_aside"].as_u64().unwrap();
        b.nontrivial += v["nontrivial"].as_u64().unwrap();
        for k in ["steps", "switches", "preemptions", "clock_ms", "observations"] {
            *b.totals.entry(k.to_string()).or_insert(0) += v[k].as_u64().unwrap();
        }
        let nc = v["near_cap"].as_u64().unwrap();
        let e = b.totals.entry("near_cap".into()).or_insert(0);
        *e = (*e).max(nc);
        let ms = v["max_steps"].as_u64().unwrap();
        let e = b.totals.entry("max_steps_per_run".into()).or_insert(0);
        *e = (*e).max(ms);
        add_map(&mut b.per_scenario, &v["per_scenario"]);
        add_map(&mut b.policies, &v["policies"]);
        add_map(&mut b.faults, &v["faults"]);
        add_map(&mut b.probes, &v["probes"]);
        b.hash_sum = b.hash_sum.wrapping_add(v["hash_sum"].as_str().unwrap().parse::<u64>().unwrap());
        if v["stopped"] == "wall-clock cap" {
            b.capped = true;
        }
        if let Ok(h) = fs::read(out.with_extension("hashes")) {
            for c in h.chunks_exact(8) {
                all.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
        if let Some(f) = v["failure"].as_object() {
            let idx = f["index"].as_u64().unwrap();
            if b.failure.as_ref().map_or(true, |x| x.0 > idx) {
                b.failure = Some((idx, f["class"].as_str().unwrap().into(), f["msg"].as_str().unwrap().into()));
            }
        }
    }
    b.distinct = all.len() as u64;
    b.wall = t0.elapsed().as_secs_f64();
    let _ = fs::remove_dir_all(&dir);
    b
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

pub fn workers() -> usize {
    std::env::var("DST_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
    })
}

/// The check of one property: exit code 0 or 1 (anything else is an error of the harness).
pub fn check(p: &Property) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let scale: f64 = std::env::var("DST_SCALE").ok().and_then(|x| x.parse().ok()).unwrap_or(1.0);
    let n = ((if thorough { p.quick * 40 } else { p.quick }) as f64 * scale) as u64;
    let cap = if thorough { 3000.0 } else { 400.0 };
    println!("dst: property {} seed {} tier {} runs {}", p.id, seed, tier, n);
    let t0 = Instant::now();
    let b = batch(p, seed, n, workers(), cap);

    if b.failure.is_none() && b.set_aside * 1000 > b.runs {
        eprintln!("dst: {} of {} runs ended with an error of the harness", b.set_aside, b.runs);
        return 3;
    }

    let mut rc = 0;
    let mut vio = 0;
    let mut vinfo = Value::Null;
    if let Some((idx, class, msg)) = &b.failure {
        if class.starts_with("harness") {
            eprintln!("dst: error of the harness in {} run {}: {}", p.id, idx, msg);
            return 3;
        }
        let dir = verif_dir().join("replays");
        fs::create_dir_all(&dir).unwrap();
        let path = dir.join(format!("{}-seed{}-run{}.json", p.id, seed, idx));
        let (class, msg) = minimise_in_child(p, seed, *idx, class, msg, &path);
        println!("violated: {}: {}", class, msg);
        println!("VIOLATION property={} replay={}", p.id, path.display());
        rc = 1;
        vio = 1;
        vinfo = json!({"run_index": idx, "class": class, "message": msg, "replay": path.to_str()});
    }
    write_evidence(p, seed, if thorough { "thorough" } else { "quick" }, &b, t0.elapsed().as_secs_f64(), vio, vinfo);
    if rc == 0 {
        println!(
            "dst: property {} held in {} runs ({} distinct interleavings, {:.1} s)",
            p.id, b.runs, b.distinct, b.wall
        );
    }
    rc
}

fn write_evidence(p: &Property, seed: u64, tier: &str, b: &Batch, wall: f64, vio: u64, vinfo: Value) {
    // A few actual runs, written out.
    engine::install();
    let mut samples = vec![];
    if vio == 0 {
        let total: u64 = p.scenarios.iter().map(|s| s.weight as u64).sum();
        let mut seen = HashSet::new();
        for idx in 0..total.min(b.runs) {
            let sc = scenario_of(p, idx);
            if !seen.insert(sc.name) || samples.len() >= 6 {
                continue;
            }
            let o = execute_seed(p, seed, idx, true);
            let t: Vec<String> = o.trace.iter().filter(|l| !l.contains(" sync ")).take(40).cloned().collect();
            samples.push(json!({
                "run_index": idx, "scenario": sc.name, "run_seed": run_seed(p.id, seed, idx).to_string(),
                "policy": o.policy, "steps": o.stats.steps, "preemptions": o.stats.preemptions, "trace": t,
            }));
        }
    } else {
        samples.push(vinfo.clone());
    }
    let per_hour = if b.wall > 0.0 { (b.runs as f64 / b.wall * 3600.0) as u64 } else { 0 };
    let zero: Vec<&String> = b.probes.iter().filter(|(_, &v)| v == 0).map(|(k, _)| k).collect();
    let ev = json!({
        "property": p.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": b.runs,
            "distinct_nontrivial": b.distinct,
            "rule": format!("{} One evaluation = one simulated run of one seed (workload, faults and schedule all drawn from it). Non-trivial: at least one preemption (a switch away from a thread that could have continued) and at least one observation checked by the oracle; distinct: by the 64-bit hash of the run's complete event log (every scheduling point, every switch, every observed value).", p.rule),
            "samples": samples,
            "runs_nontrivial": b.nontrivial,
            "runs_per_hour": per_hour,
            "seeds_per_hour": per_hour,
            "simulated_ms_covered": b.totals.get("clock_ms"),
            "scheduling_points": b.totals.get("steps"),
            "context_switches": b.totals.get("switches"),
            "preemptions": b.totals.get("preemptions"),
            "observations_checked": b.totals.get("observations"),
            "max_thousandths_of_livelock_limit": b.totals.get("near_cap"),
            "max_scheduling_points_in_a_run": b.totals.get("max_steps_per_run"),
            "runs_per_scenario": b.per_scenario,
            "runs_per_scheduling_policy": b.policies,
            "faults_injected": b.faults,
            "reach_probes": b.probes,
            "reach_probes_at_zero": zero,
            "runs_set_aside_for_errors_of_the_harness": b.set_aside,
            "stopped_by_wall_clock_cap": b.capped,
            "components": {"real": p.real, "simulated": p.real_stub},
        },
        "assumptions": [
            if p.id == "C32" {
                "Weak memory: loads may be given overwritten values, and happens-before is tracked; stores take effect in the order of the schedule, and SeqCst operations are all ordered (stronger than Rust's model)."
            } else {
                "All interleavings are sequentially consistent; weaker memory orders are simulated for C32 only."
            },
            "Sampling: a clean batch is evidence, not proof.",
            if cfg!(futures_signals_sim_arc) {
                "Dropping an Arc, upgrading a Weak and looking at their counts are scheduling points (in a third of the runs); the futures-channel queue runs real, unhooked code: its operations are atomic with respect to the simulated schedule."
            } else {
                "std::sync::Arc/Weak reference counts and the futures-channel queue run real, unhooked code; they are atomic with respect to the simulated schedule."
            }
        ],
        "wall_s": wall,
        "violations": vio,
    });
    let dir = verif_dir().join("evidence");
    fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}.json", p.id));
    fs::write(&path, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
}

// ------------------------------------------------------------- minimisation

fn minimise_in_child(p: &Property, seed: u64, idx: u64, class: &str, msg: &str, path: &Path) -> (String, String) {
    let _ = fs::remove_file(path);
    let raw = json!({
        "property": p.id, "verif_seed": seed, "run_index": idx, "scenario": scenario_of(p, idx).name,
        "class": class, "message": msg, "mode": "seed",
    });
    if class != "hang" && class != "crash" {
        let mut kid = Command::new(std::env::current_exe().unwrap())
            .args(["shrink", p.id, &seed.to_string(), &idx.to_string(), path.to_str().unwrap()])
            .stdin(Stdio::null())
            .spawn()
            .expect("shrink");
        let t0 = Instant::now();
        loop {
            if kid.try_wait().unwrap().is_some() {
                break;
            }
            if t0.elapsed().as_secs_f64() > 90.0 {
                let _ = kid.kill();
                let _ = kid.wait();
                break;
            }
            std::thread::sleep(Duration::from_millis(20));
        }
    }
    if let Ok(t) = fs::read_to_string(path) {
        if let Ok(v) = serde_json::from_str::<Value>(&t) {
            // It must reproduce exactly in a fresh process.
            let ok = Command::new(std::env::current_exe().unwrap())
                .args(["replay", path.to_str().unwrap()])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .status()
                .map(|s| s.code() == Some(1))
                .unwrap_or(false);
            if ok {
                return (v["class"].as_str().unwrap_or("").into(), v["message"].as_str().unwrap_or("").into());
            }
        }
    }
    fs::write(path, serde_json::to_string_pretty(&raw).unwrap()).unwrap();
    (class.to_string(), msg.to_string())
}

struct Fail {
    choices: Vec<u64>,
    overrides: Vec<(u64, usize)>,
    v: Violation,
}

fn attempt(sc: &Scenario, class: &str, choices: &[u64], schedule: Schedule) -> Option<Fail> {
    let o = engine::run(sc.run, Choices::replay(choices.to_vec()), schedule, false);
    match o.violation {
        Some(v) if v.class == class => {
            let mut c = o.choices;
            while c.last() == Some(&0) {
                c.pop();
            }
            Some(Fail { choices: c, overrides: o.overrides, v })
        }
        _ => None,
    }
}

fn cost(f: &Fail) -> (usize, usize, u64) {
    (f.choices.len(), f.overrides.len(), f.choices.iter().sum())
}

/// Shrinks the choice sequence (workload and faults) and the schedule.
pub fn shrink(p: &Property, seed: u64, idx: u64, path: &Path) -> i32 {
    engine::install();
    let sc = scenario_of(p, idx);
    let o = execute_seed(p, seed, idx, false);
    let Some(v0) = o.violation else {
        return 2;
    };
    let class = v0.class.clone();
    let first = write_replay(p, seed, idx, sc, &o.choices, &o.overrides, &class, false, path);
    if !first {
        return 2;
    }
    let t0 = Instant::now();
    let budget = 25.0;
    let mut best = Fail { choices: o.choices.clone(), overrides: o.overrides.clone(), v: v0 };
    let mut rng = Rng::new(run_seed(p.id, seed, idx) ^ 77);

    let try_choices = |cand: &[u64], best: &mut Fail, rng: &mut Rng, tries: usize| -> bool {
        // First the same schedule, then no preemptions, then a few fresh schedules.
        for k in 0..tries + 2 {
            if t0.elapsed().as_secs_f64() > budget {
                return false;
            }
            let s = match k {
                0 => Schedule::Replay(best.overrides.clone()),
                1 => Schedule::Replay(vec![]),
                _ => Schedule::Seeded(rng.next()),
            };
            if let Some(f) = attempt(sc, &class, cand, s) {
                if cost(&f) < cost(best) {
                    *best = f;
                    return true;
                }
                if k < 2 {
                    continue;
                }
            }
        }
        false
    };

    for round in 0..4 {
        let before = cost(&best);
        let tries = if round == 0 { 6 } else { 25 };
        // Delete chunks of choices.
        let mut size = (best.choices.len() / 2).max(1);
        while size >= 1 {
            let mut i = best.choices.len();
            while i > 0 {
                let lo = i.saturating_sub(size);
                if lo < best.choices.len() {
                    let hi = (lo + size).min(best.choices.len());
                    let mut c = best.choices.clone();
                    c.drain(lo..hi);
                    if !try_choices(&c, &mut best, &mut rng, tries) {
                        // or zero the chunk
                        let mut c = best.choices.clone();
                        if c[lo..hi].iter().any(|&x| x != 0) {
                            for x in &mut c[lo..hi] {
                                *x = 0;
                            }
                            try_choices(&c, &mut best, &mut rng, tries / 2);
                        }
                    }
                }
                i = lo.min(best.choices.len());
                if t0.elapsed().as_secs_f64() > budget {
                    break;
                }
            }
            size /= 2;
        }
        // Lower single values.
        for i in 0..best.choices.len() {
            for d in [2u64, 1] {
                if i < best.choices.len() && best.choices[i] > 0 {
                    let mut c = best.choices.clone();
                    c[i] = if d == 2 { c[i] / 2 } else { c[i] - 1 };
                    try_choices(&c, &mut best, &mut rng, tries / 3);
                }
            }
        }
        // Remove preemptions.
        let mut i = best.overrides.len();
        while i > 0 {
            i -= 1;
            if i < best.overrides.len() {
                let mut ov = best.overrides.clone();
                ov.remove(i);
                let c = best.choices.clone();
                if let Some(f) = attempt(sc, &class, &c, Schedule::Replay(ov)) {
                    if cost(&f) < cost(&best) {
                        best = f;
                    }
                }
            }
            if t0.elapsed().as_secs_f64() > budget {
                break;
            }
        }
        if cost(&best) == before || t0.elapsed().as_secs_f64() > budget {
            break;
        }
    }
    let _ = &best.v;
    if write_replay(p, seed, idx, sc, &best.choices, &best.overrides, &class, true, path) {
        0
    } else {
        2
    }
}

fn write_replay(
    p: &Property,
    seed: u64,
    idx: u64,
    sc: &Scenario,
    choices: &[u64],
    overrides: &[(u64, usize)],
    class: &str,
    minimised: bool,
    path: &Path,
) -> bool {
    let o = engine::run(sc.run, Choices::replay(choices.to_vec()), Schedule::Replay(overrides.to_vec()), true);
    match &o.violation {
        Some(v) if v.class == class => {
            let j = json!({
                "property": p.id, "verif_seed": seed, "run_index": idx, "run_seed": run_seed(p.id, seed, idx).to_string(),
                "scenario": sc.name, "mode": "choices", "minimised": minimised,
                "class": v.class, "message": v.msg, "step": v.step,
                "choices": choices, "schedule": overrides, "event_log_hash": o.hash.to_string(),
                "trace": o.trace,
            });
            let tmp = path.with_extension("tmp");
            let mut f = fs::File::create(&tmp).unwrap();
            f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes()).unwrap();
            drop(f);
            fs::rename(&tmp, path).unwrap();
            true
        }
        _ => false,
    }
}

/// Exit 1 if the violation is reproduced exactly, 0 if the run is clean, 4 if it differs.
pub fn replay(find: impl Fn(&str) -> &'static Property, file: &str) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("replay file")).expect("json");
    let p = find(v["property"].as_str().unwrap());
    let class = v["class"].as_str().unwrap();
    engine::install();
    if v["mode"] == "seed" {
        let idx = v["run_index"].as_u64().unwrap();
        let seed = v["verif_seed"].as_u64().unwrap();
        println!("dst: replaying {} run {} by seed", p.id, idx);
        let o = execute_seed(p, seed, idx, false);
        return match o.violation {
            Some(x) => {
                println!("violated: {}: {}", x.class, x.msg);
                println!("VIOLATION property={} replay={}", p.id, file);
                1
            }
            None => 0,
        };
    }
    let sc = p.scenarios.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("scenario");
    let choices = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    let schedule = v["schedule"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_u64().unwrap(), x[1].as_u64().unwrap() as usize))
        .collect();
    let o = engine::run(sc.run, Choices::replay(choices), Schedule::Replay(schedule), true);
    for l in &o.trace {
        println!("{}", l);
    }
    match o.violation {
        Some(x) => {
            println!("violated: {}: {}", x.class, x.msg);
            let same = x.class == class && o.hash.to_string() == v["event_log_hash"].as_str().unwrap();
            println!("dst: {}", if same { "reproduced exactly (same event log hash)" } else { "DIFFERS from the recorded run" });
            println!("VIOLATION property={} replay={}", p.id, file);
            if same {
                1
            } else {
                4
            }
        }
        None => {
            println!("dst: no violation");
            0
        }
    }
}
