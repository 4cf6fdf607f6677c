//! Seeded search: generate plans, run them, stop at the first violation that is
//! not a listed finding, minimise it, write a replay file and the evidence.
use crate::plan::{Plan, Request, Response};
use crate::props::{self, Prop};
use crate::rng::{Rng, mix};
use crate::sim::Choice;
use crate::zygote::Zygote;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct ReplayFile {
    pub property: String,
    pub class: String,
    pub detail: String,
    pub seed: u64,
    pub original_seed: u64,
    pub exact: bool,
    pub hash: u64,
    pub log_hash: u64,
    pub plan: Plan,
    pub choices: Vec<Choice>,
    /// The process died, so no choices were recorded: repeat the run from its seed.
    #[serde(default)]
    pub by_seed: bool,
    #[serde(default)]
    pub trace: Vec<String>,
}
/// A genuine defect recorded rather than repaired.
#[derive(Serialize, Deserialize, Clone)]
pub struct Finding {
    pub property: String,
    pub id: String,
    pub class: String,
    /// All of these must occur in the violation's detail.
    #[serde(default)]
    pub contains: Vec<String>,
    pub what: String,
    /// The history that fails. The generators stay away from it; every check runs it.
    pub pinned: Option<Plan>,
}
#[derive(Serialize, Deserialize, Default)]
pub struct Findings {
    #[serde(default)]
    pub findings: Vec<Finding>,
    #[serde(default)]
    pub fixed: Vec<String>,
}
fn root() -> std::path::PathBuf {
    std::env::var("DST_HOME").map(Into::into).unwrap_or_else(|_| "/verif".into())
}
fn load_findings() -> Findings {
    std::fs::read(root().join("known_findings.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default()
}
fn known<'a>(fs: &'a [Finding], p: &str, r: &Response) -> Option<&'a Finding> {
    fs.iter().find(|f| f.pinned.is_none() && f.property == p && r.class == f.class && f.contains.iter().all(|c| r.detail.contains(c)))
}

fn explore_req(plan: &Plan) -> Request {
    Request { plan: plan.clone(), replay: None, trace: false, cov: false }
}
fn replay_req(plan: &Plan, ch: &[Choice], trace: bool) -> Request {
    Request { plan: plan.clone(), replay: Some(ch.to_vec()), trace, cov: false }
}

#[derive(Default)]
struct Stats {
    runs: u64,
    known: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    hashes: HashSet<u64>,
    logs: HashSet<u64>,
    cov: HashSet<u16>,
    steps: u64,
    switches: u64,
    virtual_ns: u128,
    threads: u64,
    ops: u64,
    nontrivial: HashSet<u64>,
    scenarios: BTreeMap<String, u64>,
    strategies: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    internal: Vec<String>,
    det_checked: u64,
}

struct Found {
    plan: Plan,
    resp: Response,
}

pub struct Opts {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub max_runs: u64,
    pub jobs: usize,
    pub scenario: Option<String>,
    pub keep_going: bool,
}

fn search(p: &Prop, o: &Opts, fs: &[Finding]) -> (Stats, Vec<Found>) {
    let stop = Arc::new(AtomicBool::new(false));
    let next = Arc::new(AtomicU64::new(0));
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let deadline = Instant::now() + Duration::from_secs(o.secs);
    std::thread::scope(|sc| {
        for w in 0..o.jobs {
            let (stop, next, stats, found) = (&stop, &next, &stats, &found);
            sc.spawn(move || {
                let mut z = Zygote::start();
                let mut st = Stats::default();
                let mut last_cov = Instant::now() - Duration::from_secs(5);
                while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= o.max_runs {
                        break;
                    }
                    let seed = mix(o.seed, i);
                    let plan = props::generate(p, seed, o.scenario.as_deref());
                    let mut req = explore_req(&plan);
                    req.cov = last_cov.elapsed() > Duration::from_millis(300);
                    if req.cov {
                        last_cov = Instant::now();
                    }
                    let t_run = Instant::now();
                    let r = z.run(&req);
                    if std::env::var("DST_SLOW").is_ok() && t_run.elapsed() > Duration::from_millis(1000) {
                        eprintln!("SLOW seed {seed} {:?} steps {} verdict {} {}", t_run.elapsed(), r.steps, r.verdict, r.class);
                    }
                    st.runs += 1;
                    st.ops += plan.ops() as u64;
                    st.steps += r.steps;
                    st.switches += r.switches;
                    st.threads += r.threads;
                    st.virtual_ns += r.virtual_ns.max(0) as u128;
                    st.hashes.insert(r.hash);
                    st.logs.insert(r.log_hash);
                    if r.switches > 1 || r.counters.values().any(|v| *v > 0) {
                        st.nontrivial.insert(mix(r.hash, r.log_hash));
                    }
                    *st.scenarios.entry(plan.scenario.clone()).or_default() += 1;
                    let sname = ["sequential", "random", "pct"][plan.sched.strategy.clamp(0, 2) as usize];
                    *st.strategies.entry(sname.into()).or_default() += 1;
                    for (k, v) in &r.counters {
                        *st.counters.entry(k.clone()).or_default() += v;
                    }
                    st.cov.extend(r.cov.iter());
                    if st.samples.is_empty() && w < 2 {
                        st.samples.push(serde_json::json!({"seed": seed, "scenario": plan.scenario, "steps": r.steps, "plan": plan}));
                    }
                    if r.verdict == "internal" {
                        st.internal.push(format!("seed {seed}: {} {}", r.class, r.detail));
                        z = Zygote::start();
                        if st.internal.len() > 20 {
                            break;
                        }
                        continue;
                    }
                    for k in &r.known {
                        *st.known.entry(k.clone()).or_default() += 1;
                    }
                    if r.bad() {
                        if let Some(f) = known(fs, &o.prop, &r) {
                            *st.known.entry(f.id.clone()).or_default() += 1;
                            continue;
                        }
                        let mut g = found.lock().unwrap();
                        if o.keep_going {
                            if !g.iter().any(|f| f.resp.class == r.class) && g.len() < 60 {
                                g.push(Found { plan, resp: r });
                            }
                        } else {
                            g.push(Found { plan, resp: r });
                            stop.store(true, Ordering::Relaxed);
                        }
                        continue;
                    }
                    // Determinism audit: now and then run the same seed again and compare.
                    if i % 257 == 11 {
                        let r2 = z.run(&explore_req(&plan));
                        st.det_checked += 1;
                        if r2.hash != r.hash || r2.log_hash != r.log_hash || r2.verdict != r.verdict {
                            st.internal.push(format!("seed {seed}: not reproducible"));
                        }
                    }
                }
                let mut s = stats.lock().unwrap();
                s.runs += st.runs;
                s.ops += st.ops;
                s.steps += st.steps;
                s.switches += st.switches;
                s.threads += st.threads;
                s.virtual_ns += st.virtual_ns;
                s.hashes.extend(st.hashes);
                s.logs.extend(st.logs);
                s.cov.extend(st.cov);
                s.nontrivial.extend(st.nontrivial);
                s.det_checked += st.det_checked;
                for (k, v) in st.counters {
                    *s.counters.entry(k).or_default() += v
                }
                for (k, v) in st.scenarios {
                    *s.scenarios.entry(k).or_default() += v
                }
                for (k, v) in st.strategies {
                    *s.strategies.entry(k).or_default() += v
                }
                for (k, v) in st.known {
                    *s.known.entry(k).or_default() += v
                }
                s.samples.extend(st.samples);
                s.internal.extend(st.internal);
            });
        }
    });
    (stats.into_inner().unwrap(), found.into_inner().unwrap())
}

// ---------------------------------------------------------------- minimiser
struct Shrink<'a> {
    z: Zygote,
    class: String,
    prop: String,
    fs: &'a [Finding],
    deadline: Instant,
    tries: u64,
}
impl Shrink<'_> {
    fn died(&self) -> bool {
        self.class.starts_with("crash") || self.class.starts_with("hang")
    }
    fn same(&self, r: &Response) -> bool {
        r.bad() && r.class == self.class && known(self.fs, &self.prop, r).is_none()
    }
    fn timeout(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// Does this plan still fail the same way? First with the given choices, then under fresh schedules.
    fn fails(&mut self, plan: &Plan, ch: &[Choice]) -> Option<(Plan, Response)> {
        self.tries += 1;
        let r = self.z.run(&if self.died() { explore_req(plan) } else { replay_req(plan, ch, false) });
        if self.same(&r) {
            return Some((plan.clone(), r));
        }
        if plan.sched.strategy == 0 {
            return None;
        }
        for k in 0..24u64 {
            if self.timeout() {
                return None;
            }
            let mut p = plan.clone();
            p.sched.seed = mix(plan.sched.seed, 1000 + k);
            let r = self.z.run(&explore_req(&p));
            if self.same(&r) {
                return Some((p, r));
            }
        }
        None
    }
    fn shrink_ops(&mut self, mut best: Plan, mut resp: Response) -> (Plan, Response) {
        loop {
            let mut changed = false;
            // whole threads
            let mut t = 0;
            while best.threads.len() > 1 && t < best.threads.len() && !self.timeout() {
                if best.threads[t].is_empty() {
                    t += 1;
                    continue;
                }
                let mut p = best.clone();
                p.threads[t].clear();
                if let Some((p, r)) = self.fails(&p, &resp.choices) {
                    best = p;
                    resp = r;
                    changed = true;
                }
                t += 1;
            }
            let lists = 1 + best.threads.len();
            for l in 0..lists {
                let len = |p: &Plan| if l == 0 { p.setup.len() } else { p.threads[l - 1].len() };
                let mut chunk = len(&best).div_ceil(2).max(1);
                loop {
                    let mut i = 0;
                    while i < len(&best) && !self.timeout() {
                        let mut p = best.clone();
                        let v = if l == 0 { &mut p.setup } else { &mut p.threads[l - 1] };
                        let e = (i + chunk).min(v.len());
                        v.drain(i..e);
                        if let Some((p, r)) = self.fails(&p, &resp.choices) {
                            best = p;
                            resp = r;
                            changed = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 || self.timeout() {
                        break;
                    }
                    chunk = (chunk / 2).max(1);
                }
            }
            // scheduler knobs that add noise
            for k in 0..4 {
                let mut p = best.clone();
                let changed_knob = match k {
                    0 => std::mem::take(&mut p.sched.spurious_ppm) > 0,
                    1 => std::mem::take(&mut p.sched.timeskip_ppm) > 0,
                    2 => std::mem::take(&mut p.sched.spawnfail_ppm) > 0,
                    _ => std::mem::take(&mut p.sched.hot_ppm) > 0 && p.sched.preempt_ppm > 0,
                };
                if changed_knob && !self.timeout() {
                    if let Some((p, r)) = self.fails(&p, &resp.choices) {
                        best = p;
                        resp = r;
                    }
                }
            }
            if !changed || self.timeout() {
                return (best, resp);
            }
        }
    }
    fn shrink_choices(&mut self, plan: &Plan, resp: Response) -> Response {
        let r0 = self.z.run(&replay_req(plan, &resp.choices, false));
        if !self.same(&r0) {
            return resp;
        }
        let mut best = resp.choices.clone();
        let r = self.z.run(&replay_req(plan, &[], false));
        if self.same(&r) {
            let mut r = r;
            r.choices = vec![];
            return r;
        }
        let mut chunk = best.len().div_ceil(2).max(1);
        while !self.timeout() {
            let mut i = 0;
            while i < best.len() && !self.timeout() {
                let mut c = best.clone();
                let e = (i + chunk).min(c.len());
                c.drain(i..e);
                let r = self.z.run(&replay_req(plan, &c, false));
                if self.same(&r) {
                    best = c;
                } else {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = (chunk / 2).max(1);
        }
        let mut r = self.z.run(&replay_req(plan, &best, false));
        r.choices = best;
        r
    }
}

fn symbolize(ch: &mut [Choice]) {
    let exe = std::env::current_exe().unwrap();
    let addrs: Vec<String> = ch.iter().map(|c| c.at.clone()).filter(|a| !a.is_empty()).collect();
    if addrs.is_empty() || addrs.len() > 200 {
        return;
    }
    // image base of a non-PIE executable is 0x400000-ish: sites are relative to __executable_start
    let base = crate::sim::image_base();
    let args: Vec<String> = addrs.iter().map(|a| format!("0x{:x}", base + u64::from_str_radix(a.trim_start_matches("0x"), 16).unwrap_or(0))).collect();
    let Ok(out) = std::process::Command::new("addr2line").arg("-Cfe").arg(&exe).args(&args).output() else { return };
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let lines: Vec<&str> = text.lines().collect();
    let mut k = 0;
    for c in ch.iter_mut().filter(|c| !c.at.is_empty()) {
        if let (Some(f), Some(l)) = (lines.get(2 * k), lines.get(2 * k + 1)) {
            c.at = format!("{} ({})", f, l.rsplit('/').next().unwrap_or(l));
        }
        k += 1;
    }
}

fn minimise(f: Found, prop: &str, fs: &[Finding], secs: u64) -> ReplayFile {
    let original_seed = f.plan.seed;
    let mut s = Shrink { z: Zygote::start(), class: f.resp.class.clone(), prop: prop.into(), fs, deadline: Instant::now() + Duration::from_secs(secs), tries: 0 };
    let (plan, resp) = s.shrink_ops(f.plan, f.resp);
    s.deadline = Instant::now() + Duration::from_secs(secs / 2);
    let by_seed = s.died();
    let resp = if by_seed { resp } else { s.shrink_choices(&plan, resp) };
    let mut choices = resp.choices.clone();
    // Confirm in fresh processes that the file reproduces, exactly.
    let req = || Request { trace: true, ..if by_seed { explore_req(&plan) } else { replay_req(&plan, &choices, true) } };
    let a = Zygote::start().run(&req());
    let b = Zygote::start().run(&req());
    let exact = a.bad() && a.class == b.class && a.detail == b.detail && a.hash == b.hash && a.log_hash == b.log_hash && a.trace == b.trace;
    symbolize(&mut choices);
    ReplayFile {
        property: prop.into(),
        class: a.class.clone(),
        detail: a.detail.clone(),
        seed: plan.seed,
        original_seed,
        exact,
        hash: a.hash,
        log_hash: a.log_hash,
        plan,
        choices,
        by_seed,
        trace: a.trace,
    }
}

fn write_evidence(p: &Prop, o: &Opts, st: &Stats, wall: f64, violations: usize) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let per_hour = (st.runs as f64 / wall.max(0.001) * 3600.0) as u64;
    let v = serde_json::json!({
        "property": o.prop,
        "tier": o.tier,
        "seed": o.seed,
        "level": "exploration",
        "wall_s": wall,
        "violations": violations,
        "assumptions": [
            "Preemption happens at atomic operations of the code under test, at lock, channel, thread and time system calls, and nowhere else; memory is sequentially consistent (no weak-memory reordering).",
            "A fixed toolchain: the same binary and the same seed give the same execution; audited on this run by re-executing seeds.",
            p.assumption,
        ],
        "coverage": {
            "evaluations": st.runs,
            "distinct_nontrivial": st.nontrivial.len(),
            "rule": format!("One evaluation is one simulated run of a generated plan ({}). It counts as distinct and non-trivial when it contained at least one context switch or injected fault or simulator-controlled event, and its (interleaving hash, observable-history hash) pair was not seen before.", p.rule),
            "samples": st.samples.iter().take(2).collect::<Vec<_>>(),
            "seeds_per_hour": per_hour,
            "distinct_interleavings": st.hashes.len(),
            "distinct_observable_histories": st.logs.len(),
            "simulated_time_s": st.virtual_ns as f64 / 1e9,
            "scheduling_points": st.steps,
            "context_switches": st.switches,
            "simulated_threads": st.threads,
            "public_api_calls": st.ops,
            "functions_of_code_under_test_reached": st.cov.len(),
            "faults_and_events": st.counters,
            "scenarios": st.scenarios,
            "scheduling_strategies": st.strategies,
            "determinism_audits": st.det_checked,
            "known_findings_hit": st.known,
            "components": {
                "real": "text-document public API, use cases, repositories, store, event hub, undo/redo, long-operation manager (all crates under /repo/crates), flume, parking_lot, Rust std locks and channels",
                "simulated": "kernel scheduler and futexes, clocks, sleep, getrandom, thread creation, and (where the plan uses it) the file system under /simdisk",
            },
        }
    });
    let _ = std::fs::write(dir.join(format!("{}.json", o.prop)), serde_json::to_vec_pretty(&v).unwrap());
}

fn check(o: Opts) -> i32 {
    let Some(p) = props::find(&o.prop) else {
        eprintln!("unknown property {}", o.prop);
        return 2;
    };
    let all = load_findings();
    let fs: Vec<Finding> = all.findings.into_iter().filter(|f| f.property == o.prop).collect();
    let t0 = Instant::now();
    let (st, found) = search(p, &o, &fs);
    let wall = t0.elapsed().as_secs_f64();
    if !st.internal.is_empty() {
        for i in st.internal.iter().take(5) {
            eprintln!("INTERNAL {i}");
        }
    }
    let n = found.len();
    if !o.keep_going {
        write_evidence(p, &o, &st, wall, n);
    }
    println!(
        "{}: {} runs in {:.1}s ({:.0}/s), {} distinct interleavings, {} distinct histories, {} functions reached, simulated {:.1}s",
        o.prop,
        st.runs,
        wall,
        st.runs as f64 / wall,
        st.hashes.len(),
        st.logs.len(),
        st.cov.len(),
        st.virtual_ns as f64 / 1e9
    );
    let cs: Vec<String> = st.counters.iter().filter(|c| *c.1 > 0).map(|(k, v)| format!("{k}={v}")).collect();
    println!("  {}", cs.join(" "));
    for f in &fs {
        if let Some(p) = &f.pinned {
            let r = Zygote::start().run(&explore_req(p));
            if !(r.bad() && r.class == f.class && f.contains.iter().all(|c| r.detail.contains(c))) {
                println!("  the listed finding {} does not occur any more: {} {:?}", f.id, r.verdict, r.class);
                continue;
            }
            println!("KNOWN-FINDING: property={} {}", o.prop, f.what);
            continue;
        }
        println!("KNOWN-FINDING: property={} {} ({} runs hit it)", o.prop, f.what, st.known.get(&f.id).copied().unwrap_or(0));
    }
    let _ = std::fs::create_dir_all(root().join("evidence/replays"));
    let many = found.len() > 1 && o.keep_going;
    let mut found: Vec<Found> = found;
    if !o.keep_going {
        found.truncate(1);
    }
    let files: Vec<(String, ReplayFile)> = {
        let q = Mutex::new(found.into_iter().enumerate().collect::<Vec<_>>());
        let out = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in 0..o.jobs {
                sc.spawn(|| {
                    loop {
                        let Some((i, f)) = q.lock().unwrap().pop() else { break };
                        let r = minimise(f, &o.prop, &fs, if many { 20 } else { 45 });
                        let path = root().join(format!("evidence/replays/{}-{}{}.json", o.prop, r.original_seed, if many { format!("-{i}") } else { String::new() }));
                        std::fs::write(&path, serde_json::to_vec_pretty(&r).unwrap()).ok();
                        out.lock().unwrap().push((path.display().to_string(), r));
                    }
                });
            }
        });
        out.into_inner().unwrap()
    };
    for (path, r) in &files {
        println!("VIOLATION property={} replay={}", o.prop, path);
        println!("  class: {}\n  detail: {}\n  seed {} exact-replay {}", r.class, r.detail.chars().take(1200).collect::<String>(), r.original_seed, r.exact);
        for s in &r.plan.setup {
            println!("    setup {}", serde_json::to_string(s).unwrap());
        }
        for (t, v) in r.plan.threads.iter().enumerate() {
            for s in v {
                println!("    T{t} {}", serde_json::to_string(s).unwrap());
            }
        }
        for c in r.choices.iter().take(20) {
            println!("    choice {}", serde_json::to_string(c).unwrap());
        }
    }
    if !files.is_empty() {
        return 1;
    }
    if st.internal.iter().any(|s| s.contains("not reproducible")) || st.internal.len() > 10 || st.runs == 0 {
        return 2;
    }
    0
}

fn replay(path: &str) -> i32 {
    let f: ReplayFile = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("{path}: {e}");
            return 2;
        }
    };
    let r = Zygote::start().run(&Request { trace: true, ..if f.by_seed { explore_req(&f.plan) } else { replay_req(&f.plan, &f.choices, true) } });
    for l in &r.trace {
        println!("{l}");
    }
    println!("verdict {} class {:?}\ndetail {}", r.verdict, r.class, r.detail);
    let exact = r.hash == f.hash && r.log_hash == f.log_hash && r.class == f.class;
    println!("same execution as recorded: {exact}");
    if r.bad() {
        println!("VIOLATION property={} replay={}", f.property, path);
        1
    } else {
        0
    }
}

fn one(prop: &str, seed: u64, scenario: Option<&str>) -> i32 {
    let p = props::find(prop).unwrap();
    let plan = props::generate(p, seed, scenario);
    println!("{}", serde_json::to_string(&plan).unwrap());
    let mut q = explore_req(&plan);
    q.trace = true;
    let r = Zygote::start().run(&q);
    for l in &r.trace {
        println!("{l}");
    }
    println!("{} {} {}", r.verdict, r.class, r.detail);
    r.bad() as i32
}

pub fn main(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    let num = |k: &str| get(k).and_then(|s| s.parse::<u64>().ok());
    match a.first().map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[1].clone();
            let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok())).unwrap_or(1);
            let secs = num("--secs").unwrap_or(if tier == "thorough" { 720 } else { 45 });
            check(Opts {
                prop,
                tier,
                seed,
                secs,
                max_runs: num("--runs").unwrap_or(u64::MAX),
                jobs: num("--jobs").unwrap_or(8) as usize,
                scenario: get("--scenario"),
                keep_going: a.iter().any(|x| x == "--keep-going"),
            })
        }
        Some("replay") => replay(&a[1]),
        // In this very process, for a debugger.
        Some("inproc") => {
            let f: ReplayFile = serde_json::from_slice(&std::fs::read(&a[1]).expect("read")).expect("parse");
            crate::run::child(if f.by_seed { explore_req(&f.plan) } else { replay_req(&f.plan, &f.choices, true) })
        }
        Some("one") => one(&a[1], num("--seed").unwrap_or(1), get("--scenario").as_deref()),
        Some("determinism") => {
            // Same seeds in different processes and orders must give identical executions.
            let mut bad = 0;
            for p in props::ALL {
                let mut first: HashMap<u64, (u64, u64, String)> = HashMap::new();
                for pass in 0..3 {
                    let mut z = Zygote::start();
                    let mut seeds: Vec<u64> = (0..num("--runs").unwrap_or(40)).map(|i| mix(99, i)).collect();
                    if pass == 1 {
                        seeds.reverse()
                    }
                    if pass == 2 {
                        let mut r = Rng::new(5);
                        for i in 0..seeds.len() {
                            let j = r.below(seeds.len());
                            seeds.swap(i, j)
                        }
                    }
                    for s in seeds {
                        let r = z.run(&explore_req(&props::generate(p, s, None)));
                        let k = (r.hash, r.log_hash, r.verdict);
                        match first.get(&s) {
                            None => {
                                first.insert(s, k);
                            }
                            Some(x) if *x != k => {
                                println!("{} seed {s}: differs between processes", p.id);
                                bad = 1;
                            }
                            _ => {}
                        }
                    }
                }
                println!("{}: determinism checked", p.id);
            }
            bad
        }
        _ => {
            eprintln!("usage: dst check <property> [--tier quick|thorough] [--seed n] [--secs n] [--runs n] [--scenario s] [--keep-going]\n       dst replay <file>\n       dst one <property> --seed n [--scenario s]\n       dst determinism");
            2
        }
    }
}
