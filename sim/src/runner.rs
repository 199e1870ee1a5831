//! Runs a property's scenarios over many seeds, shrinks what fails, writes the
//! replay file and the evidence.
use crate::core::*;
use crate::entropy;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type ScnFn = fn(&mut Cx) -> Res;

#[derive(Clone, Copy)]
pub struct Scenario {
    pub name: &'static str,
    /// runs in the quick tier
    pub runs: u64,
    pub f: ScnFn,
}

pub struct Known {
    pub id: &'static str,
    /// true while the finding is there
    pub f: fn(&mut Cx) -> bool,
}

pub struct Prop {
    pub id: &'static str,
    pub scenarios: Vec<Scenario>,
    pub known: Vec<Known>,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<u32> = const { RefCell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn take_panic() -> (String, String) {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

/// calls into the code under test where a panic is one of the outcomes
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = take_panic();
            if is_harness(&loc) {
                panic!("{loc}: {msg}");
            }
            Err(format!("{loc}: {msg}"))
        }
    }
}

fn is_harness(loc: &str) -> bool {
    // the harness's own files are compiled with relative paths
    loc.starts_with("src/")
}

pub struct Outcome {
    pub cx: Cx,
    pub violation: Option<Violation>,
    pub harness: Option<String>,
}

/// one run, in a thread of its own: RandomState's keys are per thread
pub fn execute(f: ScnFn, tape: Tape, keep: bool) -> Outcome {
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            let mut cx = Cx::new(tape, keep);
            let seed = cx.word();
            entropy::seed(mix(seed));
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut cx)));
            match r {
                Ok(Ok(())) => Outcome { cx, violation: None, harness: None },
                Ok(Err(v)) => {
                    cx.ev(format!("VIOLATED {}: {}", v.kind, v.detail));
                    Outcome { cx, violation: Some(v), harness: None }
                }
                Err(_) => {
                    let (loc, msg) = take_panic();
                    cx.ev(format!("PANIC {loc} {msg}"));
                    if is_harness(&loc) && msg.starts_with("HARNESS") {
                        Outcome { cx, violation: None, harness: Some(format!("{loc}: {msg}")) }
                    } else if is_harness(&loc) {
                        // an unwrap in the scenario: a step that cannot fail for honest
                        // participants (making keys, dealing, encoding) did fail
                        let v = Violation {
                            kind: format!("an honest step failed at {loc}"),
                            detail: format!("a step that must succeed failed at {loc}: {msg}"),
                        };
                        Outcome { cx, violation: Some(v), harness: None }
                    } else {
                        // without the line: it moves with every edit
                        let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or(&loc).to_string();
                        let v = Violation {
                            kind: format!("panic in {file}"),
                            detail: format!("the code under test panicked at {loc}: {msg}"),
                        };
                        Outcome { cx, violation: Some(v), harness: None }
                    }
                }
            }
        })
        .expect("spawn");
    h.join().expect("run thread")
}

pub fn run_seed(base: u64, prop: &str, scn: &str, index: u64) -> u64 {
    let h = fnv(fnv(base ^ 0x5151, prop.as_bytes()), scn.as_bytes());
    mix(mix(h ^ mix(base)) ^ index)
}

/// index -> (scenario, its own running number): the scenarios take turns in
/// proportion to their run counts
fn plan(scns: &[Scenario], scale: u64) -> Vec<(usize, u64)> {
    let total: u64 = scns.iter().map(|s| s.runs * scale).sum();
    let mut v: Vec<(u64, usize, u64)> = vec![];
    for (i, s) in scns.iter().enumerate() {
        let n = s.runs * scale;
        for k in 0..n {
            // position in a common order
            v.push((k * total / n.max(1), i, k));
        }
    }
    v.sort();
    v.into_iter().map(|(_, i, k)| (i, k)).collect()
}

pub struct Opts {
    pub tier: String,
    pub seed: u64,
    pub workers: usize,
    pub secs: u64,
    pub status: Option<String>,
    pub verif: String,
}

#[derive(Default)]
struct Agg {
    evals: u64,
    faults: BTreeMap<&'static str, u64>,
    fault_runs: BTreeMap<&'static str, u64>,
    probes: BTreeMap<String, u64>,
    steps: u64,
    sim_ms: u64,
    checks: u64,
    scheds: HashSet<u64>,
    nontrivial: HashSet<u64>,
    states: HashSet<u64>,
    per_scn: BTreeMap<&'static str, u64>,
    found: Vec<(u64, usize, u64, Violation)>,
    harness: Option<String>,
}

impl Agg {
    fn add(&mut self, name: &'static str, o: &Outcome) {
        self.evals += 1;
        *self.per_scn.entry(name).or_insert(0) += 1;
        for (k, v) in &o.cx.st.faults {
            *self.faults.entry(k).or_insert(0) += v;
            *self.fault_runs.entry(k).or_insert(0) += 1;
        }
        for (k, v) in &o.cx.st.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        self.steps += o.cx.st.steps;
        self.sim_ms += o.cx.st.sim_ms;
        self.checks += o.cx.st.checks;
        self.scheds.insert(o.cx.sched);
        if o.cx.nontrivial {
            self.nontrivial.insert(o.cx.sched);
        }
        if self.states.len() < 4_000_000 {
            self.states.extend(o.cx.states.iter());
        }
    }
}

const HANG_SECS: u64 = 120;

pub fn check(p: &Prop, o: &Opts) -> i32 {
    let start = Instant::now();
    let thorough = o.tier == "thorough";
    let pl = plan(&p.scenarios, if thorough { 40 } else { 1 });
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let agg = Mutex::new(Agg::default());
    let slots: Vec<Mutex<Option<(Instant, u64)>>> =
        (0..o.workers).map(|_| Mutex::new(None)).collect();
    let done = AtomicU64::new(0);
    println!(
        "check property={} tier={} seed={} planned_runs={} workers={} cap={}s",
        p.id,
        o.tier,
        o.seed,
        pl.len(),
        o.workers,
        o.secs
    );
    let mut hung: Option<u64> = None;
    std::thread::scope(|s| {
        for w in 0..o.workers {
            let (next, stop, agg, slots, pl, done) = (&next, &stop, &agg, &slots, &pl, &done);
            s.spawn(move || {
                let mut status = o.status.as_ref().map(|d| {
                    std::fs::OpenOptions::new()
                        .create(true)
                        .write(true)
                        .open(format!("{d}/w{w}"))
                        .expect("status file")
                });
                loop {
                    if stop.load(Ordering::SeqCst) || start.elapsed().as_secs() >= o.secs {
                        break;
                    }
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i as usize >= pl.len() {
                        break;
                    }
                    if let Some(f) = status.as_mut() {
                        use std::os::unix::fs::FileExt;
                        let _ = f.write_at(format!("{i:020}").as_bytes(), 0);
                    }
                    *slots[w].lock().unwrap() = Some((Instant::now(), i));
                    let (si, k) = pl[i as usize];
                    let sc = p.scenarios[si];
                    let out = execute(
                        sc.f,
                        Tape::random(run_seed(o.seed, p.id, sc.name, k)),
                        false,
                    );
                    *slots[w].lock().unwrap() = None;
                    let mut a = agg.lock().unwrap();
                    a.add(sc.name, &out);
                    if let Some(h) = out.harness {
                        a.harness = Some(format!("{} #{k}: {h}", sc.name));
                        stop.store(true, Ordering::SeqCst);
                    }
                    if let Some(v) = out.violation {
                        a.found.push((i, si, k, v));
                        stop.store(true, Ordering::SeqCst);
                    }
                }
                done.fetch_add(1, Ordering::SeqCst);
            });
        }
        // the watchdog
        while done.load(Ordering::SeqCst) < o.workers as u64 {
            std::thread::sleep(Duration::from_millis(20));
            for s in &slots {
                if let Some((t, i)) = *s.lock().unwrap() {
                    if t.elapsed().as_secs() > HANG_SECS {
                        hung = Some(i);
                    }
                }
            }
            if hung.is_some() {
                break;
            }
        }
        if let Some(i) = hung {
            // the run cannot be stopped: report it and leave
            let (si, k) = pl[i as usize];
            let v = Violation {
                kind: "hang".into(),
                detail: format!("one simulated run did not end within {HANG_SECS} s"),
            };
            let path = write_replay(p, &p.scenarios[si], o, k, None, &v, &[], 0);
            let a = agg.lock().unwrap();
            evidence(p, o, &a, start, &[], 1);
            println!("VIOLATION property={} replay={}", p.id, path);
            println!("  {}: {}", v.kind, v.detail);
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
    });
    let mut a = agg.into_inner().unwrap();
    if let (Some(h), true) = (&a.harness, a.found.is_empty()) {
        eprintln!("HARNESS-ERROR {h}");
        return 2;
    }
    // samples: the first runs, written out
    let mut samples = vec![];
    for sc in &p.scenarios {
        if a.found.is_empty() && samples.len() < 6 {
            let out = execute(sc.f, Tape::random(run_seed(o.seed, p.id, sc.name, 0)), true);
            let n = out.cx.trace.len();
            let mut t: Vec<String> = out.cx.trace.iter().take(14).cloned().collect();
            if n > 14 {
                t.push(format!("... {} more lines", n - 14));
            }
            samples.push(json!({"scenario": sc.name, "run": 0, "trace": t}));
        }
    }
    let mut code = 0;
    a.found.sort_by_key(|x| x.0);
    let nv = a.found.len();
    if let Some((_, si, k, v)) = a.found.first().cloned() {
        let sc = p.scenarios[si];
        println!("found in scenario {} run {k}: {}: {}", sc.name, v.kind, v.detail);
        let first = execute(
            sc.f,
            Tape::random(run_seed(o.seed, p.id, sc.name, k)),
            false,
        );
        let (tape, execs) = shrink(sc.f, first.cx.tape.rec, &v.kind);
        let last = execute(sc.f, Tape::replay(tape.clone()), true);
        let (v2, note) = match &last.violation {
            Some(v2) if v2.kind == v.kind => (v2.clone(), String::new()),
            _ => (v.clone(), " (not reproduced on replay)".to_string()),
        };
        samples.push(json!({"scenario": sc.name, "violation": v2.kind, "trace": last.cx.trace}));
        let path = write_replay(p, &sc, o, k, Some(&tape), &v2, &last.cx.trace, last.cx.digest);
        println!("VIOLATION property={} replay={}", p.id, path);
        println!("  {}: {}{}", v2.kind, v2.detail, note);
        println!("  minimised with {execs} executions to {} choices; trace:", tape.len());
        for l in last.cx.trace.iter().take(80) {
            println!("    {l}");
        }
        code = 1;
    }
    if code == 0 {
        for k in &p.known {
            let listed = known_listed(&o.verif, p.id, k.id);
            let there = {
                let f = k.f;
                std::thread::spawn(move || {
                    entropy::seed(1);
                    let mut cx = Cx::new(Tape::replay(vec![]), false);
                    f(&mut cx)
                })
                .join()
            };
            match (there, listed) {
                (Ok(true), Some(text)) => println!("KNOWN-FINDING: property={} {}", p.id, text),
                (Ok(true), None) => {
                    let v = Violation {
                        kind: format!("finding {}", k.id),
                        detail: "a finding which known_findings.txt does not list".into(),
                    };
                    let sc = Scenario { name: k.id, runs: 0, f: p.scenarios[0].f };
                    let path = write_replay(p, &sc, o, 0, Some(&[]), &v, &[], 0);
                    println!("VIOLATION property={} replay={}", p.id, path);
                    code = 1;
                }
                (Ok(false), _) => println!("note: finding {} does not show any more", k.id),
                (Err(_), _) => {
                    eprintln!("HARNESS-ERROR known finding {} panicked: {:?}", k.id, take_panic());
                }
            }
        }
    }
    evidence(p, o, &a, start, &samples, nv);
    println!(
        "property={} runs={} distinct_schedules={} distinct_states={} faults={} sim_hours={:.2} wall={:.1}s exit={code}",
        p.id,
        a.evals,
        a.scheds.len(),
        a.states.len(),
        a.faults.values().sum::<u64>(),
        a.sim_ms as f64 / 3.6e6,
        start.elapsed().as_secs_f64()
    );
    if std::env::var("SIM_VERBOSE").is_ok() {
        for (k, v) in &a.faults {
            println!("  fault {k}: {v} in {} runs", a.fault_runs[k]);
        }
        for (k, v) in &a.probes {
            println!("  probe {k}: {v}");
        }
        for (k, v) in &a.per_scn {
            println!("  scenario {k}: {v} runs");
        }
    }
    code
}

fn known_listed(verif: &str, prop: &str, id: &str) -> Option<String> {
    let s = std::fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let head = format!("finding: property={prop} id={id} ");
    s.lines().find_map(|l| l.strip_prefix(&head).map(|x| format!("id={id} {x}")))
}

#[allow(clippy::too_many_arguments)]
fn write_replay(
    p: &Prop,
    sc: &Scenario,
    o: &Opts,
    k: u64,
    tape: Option<&[u64]>,
    v: &Violation,
    trace: &[String],
    digest: u64,
) -> String {
    let dir = format!("{}/replays", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{}-{}-{}.json", p.id, sc.name, o.seed, k);
    let j = json!({
        "property": p.id, "scenario": sc.name, "seed": o.seed, "run": k,
        "tape": tape, "kind": v.kind, "detail": v.detail,
        "digest": format!("{digest:016x}"), "trace": trace,
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

/// fewer and smaller choices, while the same kind of violation persists
fn shrink(f: ScnFn, tape: Vec<u64>, kind: &str) -> (Vec<u64>, usize) {
    let start = Instant::now();
    let mut best = tape;
    let mut execs = 0;
    let fails = |t: &Vec<u64>, execs: &mut usize| -> Option<Vec<u64>> {
        *execs += 1;
        let o = execute(f, Tape::replay(t.clone()), false);
        match o.violation {
            Some(v) if v.kind == kind => {
                let mut r = o.cx.tape.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some(r)
            }
            _ => None,
        }
    };
    let limit = std::env::var("SIM_SHRINK").ok().and_then(|v| v.parse().ok()).unwrap_or(40);
    let over = |e: usize| e > 1500 || start.elapsed().as_secs() >= limit;
    loop {
        let before = best.clone();
        // cut
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && !over(execs) {
            let mut i = 0;
            while i < best.len() && !over(execs) {
                let mut t = best.clone();
                let e = (i + size).min(t.len());
                t.drain(i..e);
                match fails(&t, &mut execs) {
                    Some(r) if (r.len(), &r) < (best.len(), &best) => best = r,
                    _ => i += size,
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero
        let mut size = (best.len() / 2).max(1);
        while !over(execs) {
            let mut i = 0;
            while i < best.len() && !over(execs) {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t[i..e] {
                        *x = 0;
                    }
                    if let Some(r) = fails(&t, &mut execs) {
                        if (r.len(), &r) < (best.len(), &best) {
                            best = r;
                        }
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower
        let mut i = 0;
        while i < best.len() && !over(execs) {
            for c in [1, best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && c < best[i] {
                    let mut t = best.clone();
                    t[i] = c;
                    if let Some(r) = fails(&t, &mut execs) {
                        if (r.len(), &r) < (best.len(), &best) {
                            best = r;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || over(execs) {
            break;
        }
    }
    (best, execs)
}

fn evidence(p: &Prop, o: &Opts, a: &Agg, start: Instant, samples: &[Value], violations: usize) {
    let wall = start.elapsed().as_secs_f64();
    let j = json!({
        "property": p.id,
        "tier": if o.tier == "thorough" { "thorough" } else { "quick" },
        "seed": o.seed,
        "level": "exploration",
        "coverage": {
            "evaluations": a.evals,
            "distinct_nontrivial": a.nontrivial.len(),
            "rule": p.rule,
            "samples": samples,
            "simulated_runs": a.per_scn,
            "runs_per_hour": (a.evals as f64 / wall * 3600.0) as u64,
            "simulated_hours": a.sim_ms as f64 / 3.6e6,
            "steps": a.steps,
            "oracle_evaluations": a.checks,
            "faults_injected": a.faults,
            "runs_with_fault": a.fault_runs,
            "probes": a.probes,
            "distinct_schedules": a.scheds.len(),
            "distinct_observed_states": a.states.len(),
            "measure": "a schedule is the sequence of (event, actor, actor) steps and of faults fired; an observed state is what the oracle sees of all the nodes after a step",
            "real_components": p.real,
            "stubbed_components": p.stub,
            "workers": o.workers,
        },
        "assumptions": p.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let dir = format!("{}/evidence", o.verif);
    let _ = std::fs::create_dir_all(&dir);
    let tmp = format!("{dir}/.{}.tmp", p.id);
    if std::fs::write(&tmp, serde_json::to_string_pretty(&j).unwrap()).is_ok() {
        let _ = std::fs::rename(&tmp, format!("{dir}/{}.json", p.id));
    }
}

/// replays a file: exit 1 if the violation is there again
pub fn replay(props: &[Prop], file: &str) -> i32 {
    let j: Value = match std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str(&s).ok()) {
        Some(j) => j,
        None => {
            eprintln!("cannot read {file}");
            return 2;
        }
    };
    let p = props.iter().find(|p| j["property"] == p.id);
    let sc = p.and_then(|p| p.scenarios.iter().find(|s| j["scenario"] == s.name));
    let (p, sc) = match (p, sc) {
        (Some(p), Some(s)) => (p, s),
        _ => {
            eprintln!("unknown property or scenario in {file}");
            return 2;
        }
    };
    let tape = match j["tape"].as_array() {
        Some(v) => Tape::replay(v.iter().map(|x| x.as_u64().unwrap_or(0)).collect()),
        None => Tape::random(run_seed(
            j["seed"].as_u64().unwrap_or(1),
            p.id,
            sc.name,
            j["run"].as_u64().unwrap_or(0),
        )),
    };
    let out = execute(sc.f, tape, true);
    for l in &out.cx.trace {
        println!("{l}");
    }
    match out.violation {
        Some(v) => {
            let same = v.kind == j["kind"].as_str().unwrap_or("");
            let exact = format!("{:016x}", out.cx.digest) == j["digest"].as_str().unwrap_or("");
            println!("VIOLATION property={} replay={}", p.id, file);
            println!("  {}: {} (same kind: {same}, same trace: {exact})", v.kind, v.detail);
            1
        }
        None => {
            println!("no violation on replay");
            0
        }
    }
}

/// digests of many runs, to be compared between processes and worker counts
pub fn digests(props: &[Prop], seed: u64, per_scn: u64, workers: usize) {
    let mut jobs = vec![];
    for (pi, p) in props.iter().enumerate() {
        for (si, s) in p.scenarios.iter().enumerate() {
            for k in 0..per_scn.min(s.runs) {
                jobs.push((pi, si, k));
            }
        }
    }
    let next = AtomicU64::new(0);
    let res = Mutex::new(vec![]);
    std::thread::scope(|sc| {
        for _ in 0..workers {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst) as usize;
                if i >= jobs.len() {
                    break;
                }
                let (pi, si, k) = jobs[i];
                let (p, s) = (&props[pi], &props[pi].scenarios[si]);
                let o = execute(s.f, Tape::random(run_seed(seed, p.id, s.name, k)), false);
                res.lock().unwrap().push(format!(
                    "{} {} {k} {:016x} {:016x} {}",
                    p.id,
                    s.name,
                    o.cx.digest,
                    o.cx.sched,
                    o.violation.map(|v| v.kind).unwrap_or_default()
                ));
            });
        }
    });
    let mut v = res.into_inner().unwrap();
    v.sort();
    for l in v {
        println!("{l}");
    }
}

pub fn one(p: &Prop, o: &Opts, i: u64) -> i32 {
    let pl = plan(&p.scenarios, if o.tier == "thorough" { 40 } else { 1 });
    let (si, k) = pl[i as usize];
    let sc = p.scenarios[si];
    let out = execute(sc.f, Tape::random(run_seed(o.seed, p.id, sc.name, k)), false);
    match (out.violation, out.harness) {
        (_, Some(_)) => 2,
        (Some(_), _) => 1,
        _ => 0,
    }
}

pub fn aborted(p: &Prop, o: &Opts, i: u64, how: &str) -> String {
    let pl = plan(&p.scenarios, if o.tier == "thorough" { 40 } else { 1 });
    let (si, k) = pl[i as usize];
    let v = Violation { kind: "abort".into(), detail: how.to_string() };
    evidence(p, o, &Agg::default(), Instant::now(), &[json!(format!("{} run {k}: {how}", p.scenarios[si].name))], 1);
    write_replay(p, &p.scenarios[si], o, k, None, &v, &[], 0)
}
