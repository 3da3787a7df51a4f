//! Orchestration: every run executes in a child forked from a pristine
//! process; worker processes execute disjoint shares of the run indices; one
//! run is a pure function of (property, VERIF_SEED, index), and a scenario is
//! explicit JSON, so a replay file needs no random numbers at all.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::json::{self, J};
use crate::rng::{self, Rng};
use crate::{call, seams, sys};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Prop {
    pub id: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub generate: fn(&mut Rng, u64) -> J,
    pub run: fn(&J, &mut Ctx) -> Verdict,
    pub shrink: fn(&J) -> Vec<J>,
    pub rule: &'static str,
    pub measure: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone, Debug, PartialEq)]
pub struct Violation {
    pub class: String,
    pub detail: String,
}

pub type Verdict = Result<(), Violation>;

pub fn violation(class: &str, detail: impl Into<String>) -> Verdict {
    Err(Violation { class: class.into(), detail: detail.into() })
}

/// What a run reports besides its verdict.
#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<String, u64>,
    pub evaluations: u64,
    /// Hashes of distinct non-trivial cases, by the property's measure.
    pub cases: Vec<u64>,
    pub sim_ns: u64,
    pub log: u64,
}

impl Ctx {
    pub fn count(&mut self, key: &str, n: u64) {
        if n > 0 {
            *self.counters.entry(key.to_string()).or_insert(0) += n;
        }
    }
    pub fn log(&mut self, x: u64) {
        if std::env::var_os("SIM_LOG").is_some() {
            sys::print(&format!("log {x:016x}"));
        }
        self.log = rng::mix(self.log ^ x);
    }
    pub fn case(&mut self, h: u64) {
        if self.cases.len() < 512 {
            self.cases.push(h);
        }
    }
}

#[derive(Debug)]
pub enum Death {
    Exit(i32),
    Signal(i32),
    Timeout,
}

impl Death {
    fn violation(&self) -> Option<Violation> {
        let (class, detail) = match self {
            Death::Exit(seams::EXIT_STEPS) => ("hang", "the conversion exceeded its step budget".to_string()),
            Death::Exit(seams::EXIT_MEMORY) => ("memory", format!("the conversion held more than {} bytes", call::MEMORY_CAP)),
            Death::Exit(crate::sched::EXIT_BLOCKED) => {
                ("blocked", "conversions wait for each other or for a stalled conversion and cannot proceed".to_string())
            }
            Death::Exit(_) => return None,
            Death::Signal(s) => ("crash", format!("the process was killed by signal {s}{}", if *s == 6 { " (abort or stack overflow)" } else { "" })),
            Death::Timeout => ("hang", "no answer (real-time watchdog)".to_string()),
        };
        Some(Violation { class: class.into(), detail })
    }
}

const HARNESS: i32 = 95;
const WATCHDOG_S: f64 = 120.0;

/// Runs `f` in a child forked from this (pristine) process.
pub fn isolated(f: impl FnOnce() -> J) -> Result<J, Death> {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(sys::pipe(fds.as_mut_ptr()), 0);
        let pid = sys::fork();
        assert!(pid >= 0, "harness: fork failed");
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0); // die with the parent
            let r = catch_unwind(AssertUnwindSafe(f));
            let (text, code) = match r {
                Ok(j) => (j.dump(), 0),
                Err(_) => (json::s(call::last_panic()).dump(), HARNESS),
            };
            sys::raw_write(fds[1], text.as_bytes());
            sys::_exit(code);
        }
        sys::close(fds[1]);
        let mut data = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        let start = sys::real_time();
        let mut timed_out = false;
        loop {
            let mut p = sys::pollfd { fd: fds[0], events: 1, revents: 0 };
            let r = sys::poll(&mut p, 1, 1000);
            if r > 0 {
                let n = sys::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
                if n <= 0 {
                    break;
                }
                data.extend_from_slice(&buf[..n as usize]);
            }
            if sys::real_time() - start > WATCHDOG_S {
                timed_out = true;
                sys::kill(pid, 9);
                break;
            }
        }
        sys::close(fds[0]);
        let mut status = 0;
        while sys::waitpid(pid, &mut status, 0) < 0 {}
        if timed_out {
            return Err(Death::Timeout);
        }
        if status & 0x7f != 0 {
            return Err(Death::Signal(status & 0x7f));
        }
        let code = status >> 8 & 0xff;
        if code == HARNESS {
            fatal(&format!("panic in the simulator: {}", String::from_utf8_lossy(&data)));
        }
        if code != 0 {
            return Err(Death::Exit(code));
        }
        Ok(J::parse(&String::from_utf8(data).expect("harness: utf8")))
    }
}

pub fn fatal(message: &str) -> ! {
    sys::raw_write(2, format!("harness error: {message}\n").as_bytes());
    unsafe { sys::_exit(3) }
}

/// Executes one scenario in a forked child.
pub fn execute(prop: &Prop, make: impl FnOnce() -> J) -> (Result<(), Violation>, Ctx, Option<J>) {
    let r = isolated(|| {
        let scenario = make();
        let mut ctx = Ctx::default();
        let verdict = (prop.run)(&scenario, &mut ctx);
        let mut items = vec![
            ("counters", J::Obj(ctx.counters.iter().map(|(k, v)| (k.clone(), json::i(*v))).collect())),
            ("evaluations", json::i(ctx.evaluations)),
            ("cases", J::Arr(ctx.cases.iter().map(|&x| json::i(x)).collect())),
            ("sim_ns", json::i(ctx.sim_ns)),
            ("log", json::i(ctx.log)),
        ];
        if let Err(v) = verdict {
            items.push(("violation", json::obj(vec![("class", json::s(v.class)), ("detail", json::s(v.detail))])));
            items.push(("scenario", scenario));
        }
        json::obj(items)
    });
    let mut ctx = Ctx::default();
    match r {
        Ok(j) => {
            if let J::Obj(items) = j.get("counters") {
                for (k, v) in items {
                    ctx.counters.insert(k.clone(), v.u64());
                }
            }
            ctx.evaluations = j.get("evaluations").u64();
            ctx.cases = j.get("cases").arr().iter().map(|x| x.u64()).collect();
            ctx.sim_ns = j.get("sim_ns").u64();
            ctx.log = j.get("log").u64();
            let v = j.get("violation");
            if v.is_null() {
                (Ok(()), ctx, None)
            } else {
                let v = Violation { class: v.get("class").str().into(), detail: v.get("detail").str().into() };
                (Err(v), ctx, Some(j.get("scenario").clone()))
            }
        }
        Err(death) => match death.violation() {
            Some(v) => {
                ctx.evaluations = 1;
                (Err(v), ctx, None)
            }
            None => fatal(&format!("child died: {death:?}")),
        },
    }
}

fn scenario_of(prop: &Prop, seed: u64, index: u64) -> J {
    let mut rng = Rng::new(rng::derive(seed, prop.id, index));
    (prop.generate)(&mut rng, index)
}

#[derive(Default)]
struct Totals {
    runs: u64,
    counters: BTreeMap<String, u64>,
    evaluations: u64,
    cases: HashSet<u64>,
    sim_ns: u64,
    violation: Option<(u64, Violation, J)>,
}

impl Totals {
    fn add(&mut self, ctx: &Ctx) {
        self.runs += 1;
        for (k, v) in &ctx.counters {
            *self.counters.entry(k.clone()).or_insert(0) += v;
        }
        self.evaluations += ctx.evaluations;
        self.cases.extend(ctx.cases.iter().copied());
        self.sim_ns += ctx.sim_ns;
    }
    fn json(&self) -> J {
        let mut items = vec![
            ("runs", json::i(self.runs)),
            ("counters", J::Obj(self.counters.iter().map(|(k, v)| (k.clone(), json::i(*v))).collect())),
            ("evaluations", json::i(self.evaluations)),
            ("cases", J::Arr(self.cases.iter().map(|&x| json::i(x)).collect())),
            ("sim_ns", json::i(self.sim_ns)),
        ];
        if let Some((index, v, scenario)) = &self.violation {
            items.push((
                "violation",
                json::obj(vec![
                    ("index", json::i(*index)),
                    ("class", json::s(v.class.clone())),
                    ("detail", json::s(v.detail.clone())),
                    ("scenario", scenario.clone()),
                ]),
            ));
        }
        json::obj(items)
    }
    fn merge(&mut self, j: &J) {
        self.runs += j.get("runs").u64();
        if let J::Obj(items) = j.get("counters") {
            for (k, v) in items {
                *self.counters.entry(k.clone()).or_insert(0) += v.u64();
            }
        }
        self.evaluations += j.get("evaluations").u64();
        self.cases.extend(j.get("cases").arr().iter().map(|x| x.u64()));
        self.sim_ns += j.get("sim_ns").u64();
        let v = j.get("violation");
        if !v.is_null() {
            let index = v.get("index").u64();
            if self.violation.as_ref().map_or(true, |x| index < x.0) {
                let viol = Violation { class: v.get("class").str().into(), detail: v.get("detail").str().into() };
                self.violation = Some((index, viol, v.get("scenario").clone()));
            }
        }
    }
}

/// One worker's share. `stop` is shared: the lowest violating index so far.
fn share(prop: &Prop, seed: u64, first: u64, step: u64, total: u64, deadline: f64, stop: *mut u64) -> Totals {
    let mut t = Totals::default();
    let mut index = first;
    while index < total && sys::real_time() < deadline {
        // Keep going below the lowest violating index, so that the report does
        // not depend on which worker was faster.
        if index > unsafe { stop.read_volatile() } {
            break;
        }
        let (verdict, ctx, scenario) = execute(prop, || scenario_of(prop, seed, index));
        t.add(&ctx);
        if let Err(v) = verdict {
            let scenario = scenario.unwrap_or_else(|| {
                isolated(|| scenario_of(prop, seed, index)).unwrap_or_else(|d| fatal(&format!("generator died: {d:?}")))
            });
            t.violation = Some((index, v, scenario));
            unsafe {
                if index < stop.read_volatile() {
                    stop.write_volatile(index);
                }
            }
            break;
        }
        index += step;
    }
    t
}

fn run_all(prop: &Prop, seed: u64, total: u64, workers: u64, deadline: f64) -> Totals {
    let stop = sys::shared(4096) as *mut u64;
    unsafe { *stop = u64::MAX };
    let mut readers = Vec::new();
    for w in 0..workers {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(sys::pipe(fds.as_mut_ptr()), 0);
            let pid = sys::fork();
            assert!(pid >= 0);
            if pid == 0 {
                sys::prctl(1, 9, 0, 0, 0);
                sys::close(fds[0]);
                let t = share(prop, seed, w, workers, total, deadline, stop);
                sys::raw_write(fds[1], t.json().dump().as_bytes());
                sys::_exit(0);
            }
            sys::close(fds[1]);
            readers.push((pid, fds[0]));
        }
    }
    let mut all = Totals::default();
    for (pid, fd) in readers {
        let mut data = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        unsafe {
            loop {
                let n = sys::read(fd, buf.as_mut_ptr() as *mut _, buf.len());
                if n <= 0 {
                    break;
                }
                data.extend_from_slice(&buf[..n as usize]);
            }
            sys::close(fd);
            let mut status = 0;
            while sys::waitpid(pid, &mut status, 0) < 0 {}
            if status != 0 {
                fatal(&format!("worker ended with status {status:#x}"));
            }
        }
        all.merge(&J::parse(&String::from_utf8(data).unwrap()));
    }
    all
}

/// Greedy minimisation; the violation class must stay the same.
fn minimise(prop: &Prop, scenario: &J, v: &Violation, limit_s: f64) -> (J, Violation, u64) {
    let end = sys::real_time() + limit_s;
    let mut best = scenario.clone();
    let mut best_v = v.clone();
    let mut tried = 0;
    'outer: loop {
        for candidate in (prop.shrink)(&best) {
            if sys::real_time() > end {
                break 'outer;
            }
            if candidate == best {
                continue;
            }
            tried += 1;
            let c = candidate.clone();
            // A shrink step may make the scenario meaningless: any panic of the
            // simulator itself just rejects the candidate.
            let r = isolated(|| {
                let mut ctx = Ctx::default();
                match catch_unwind(AssertUnwindSafe(|| (prop.run)(&c, &mut ctx))) {
                    Ok(Err(v)) => json::obj(vec![("class", json::s(v.class)), ("detail", json::s(v.detail))]),
                    _ => J::Null,
                }
            });
            let nv = match r {
                Ok(J::Null) => None,
                Ok(j) => Some(Violation { class: j.get("class").str().into(), detail: j.get("detail").str().into() }),
                Err(d) => d.violation(),
            };
            if let Some(nv) = nv {
                if nv.class == v.class {
                    best = candidate;
                    best_v = nv;
                    continue 'outer;
                }
            }
        }
        break;
    }
    (best, best_v, tried)
}

pub fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|x| x.parse().ok()).unwrap_or(default)
}

fn replay_text(prop: &Prop, seed: u64, index: u64, v: &Violation, scenario: &J) -> String {
    json::obj(vec![
        ("property", json::s(prop.id)),
        ("seed", json::i(seed)),
        ("run", json::i(index)),
        ("class", json::s(v.class.clone())),
        ("detail", json::s(v.detail.clone())),
        ("scenario", scenario.clone()),
    ])
    .dump()
}

/// Known findings of this property: (what fails, class, scenario).
fn known(root: &str, id: &str) -> Vec<(String, String, J)> {
    let Ok(text) = std::fs::read_to_string(format!("{root}/known_findings.json")) else { return vec![] };
    let mut out = Vec::new();
    for f in J::parse(&text).get("findings").arr() {
        if f.get("property").str() == id {
            let path = format!("{root}/{}", f.get("replay").str());
            let text = std::fs::read_to_string(&path).unwrap_or_else(|e| fatal(&format!("{path}: {e}")));
            out.push((f.get("what").str().to_string(), f.get("class").str().to_string(), J::parse(&text).get("scenario").clone()));
        }
    }
    out
}

pub fn check(prop: &Prop, root: &str) -> i32 {
    let start = sys::real_time();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let total = env_u64("SIM_RUNS", if tier == Tier::Quick { prop.quick } else { prop.thorough });
    let workers = env_u64("SIM_WORKERS", 8);
    let limit = env_u64("SIM_SECONDS", if tier == Tier::Quick { 500 } else { 6 * 3600 });
    sys::print(&format!("{}: seed {seed}, {total} runs, {workers} workers", prop.id));

    // Listed findings first: they must fail exactly as listed.
    let mut findings = Vec::new();
    for (what, class, scenario) in known(root, prop.id) {
        let (verdict, _, _) = execute(prop, || scenario.clone());
        match verdict {
            Err(v) if v.class == class => {
                sys::print(&format!("KNOWN-FINDING: property={} {what}", prop.id));
                findings.push(what);
            }
            Err(v) => {
                return report(prop, root, seed, u64::MAX, v, scenario, start, tier, Totals::default());
            }
            Ok(()) => sys::print(&format!("note: listed finding no longer fails: {what}")),
        }
    }

    let mut totals = run_all(prop, seed, total, workers, start + limit as f64);
    if let Some((index, v, scenario)) = totals.violation.take() {
        return report(prop, root, seed, index, v, scenario, start, tier, totals);
    }

    // Determinism: a sample of runs again, in other processes.
    let mut repeated = 0;
    let mut differing = 0;
    let sample = (total / 50).clamp(8, 64).min(totals.runs.max(1));
    for k in 0..sample {
        let index = rng::derive(seed, "repeat", k) % totals.runs.max(1);
        let (_, a, _) = execute(prop, || scenario_of(prop, seed, index));
        let (_, b, _) = execute(prop, || scenario_of(prop, seed, index));
        repeated += 1;
        if a.log != b.log {
            differing += 1;
            sys::print(&format!("note: run {index} is not repeatable"));
        }
    }
    evidence(prop, root, seed, tier, &totals, sys::real_time() - start, 0, repeated, differing, &findings);
    sys::print(&format!(
        "{}: held on {} runs, {} evaluations, {} distinct cases, {:.1} s",
        prop.id,
        totals.runs,
        totals.evaluations,
        totals.cases.len(),
        sys::real_time() - start
    ));
    0
}

#[allow(clippy::too_many_arguments)]
fn report(prop: &Prop, root: &str, seed: u64, index: u64, v: Violation, scenario: J, start: f64, tier: Tier, totals: Totals) -> i32 {
    sys::print(&format!("{}: run {index} failed: {}: {}", prop.id, v.class, v.detail));
    let (small, small_v, tried) = minimise(prop, &scenario, &v, env_u64("SIM_SHRINK_SECONDS", 60) as f64);
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{}-{seed}-{}.json", prop.id, if index == u64::MAX { "listed".to_string() } else { index.to_string() });
    std::fs::write(&path, replay_text(prop, seed, index, &small_v, &small)).unwrap();
    sys::print(&format!("minimised with {tried} candidate runs: {}: {}", small_v.class, small_v.detail));
    // The replay file must fail the same way in a fresh process.
    let exe = std::env::current_exe().unwrap();
    for _ in 0..2 {
        let out = std::process::Command::new(&exe).args(["replay", &path]).output().unwrap();
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if out.status.code() != Some(1) || !text.contains(&format!("class: {}", small_v.class)) {
            sys::print(&format!("note: the replay did not reproduce the class {}: {text}", small_v.class));
        }
    }
    evidence(prop, root, seed, tier, &totals, sys::real_time() - start, 1, 2, 0, &[]);
    sys::print(&format!("VIOLATION property={} replay={path}", prop.id));
    1
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    prop: &Prop,
    root: &str,
    seed: u64,
    tier: Tier,
    t: &Totals,
    wall: f64,
    violations: u64,
    repeated: u64,
    differing: u64,
    findings: &[String],
) {
    let coverage_map = seams::COVERAGE.load(std::sync::atomic::Ordering::Relaxed);
    let edges_total = seams::EDGE_COUNT.load(std::sync::atomic::Ordering::Relaxed) as usize;
    let edges_hit = (1..=edges_total.min(seams::MAX_EDGES - 1)).filter(|&k| unsafe { *coverage_map.add(k) } != 0).count();
    let group = |prefix: &str| {
        J::Obj(
            t.counters
                .iter()
                .filter(|(k, _)| k.starts_with(prefix))
                .map(|(k, v)| (k[prefix.len()..].to_string(), json::i(*v)))
                .collect(),
        )
    };
    let samples: Vec<J> = (0..3u64)
        .filter(|k| *k < t.runs)
        .map(|k| {
            let j = isolated(|| scenario_of(prop, seed, k)).unwrap_or(J::Null);
            let text = j.dump();
            if text.len() > 6000 {
                json::s(format!("{}... ({} characters)", text.chars().take(6000).collect::<String>(), text.len()))
            } else {
                j
            }
        })
        .collect();
    let strs = |v: &[&str]| J::Arr(v.iter().map(|x| json::s(*x)).collect());
    let coverage = json::obj(vec![
        ("evaluations", json::i(t.evaluations)),
        ("distinct_nontrivial", json::i(t.cases.len() as u64)),
        ("rule", json::s(prop.rule)),
        ("samples", J::Arr(samples)),
        ("simulated_runs", json::i(t.runs)),
        ("runs_per_hour", json::i((t.runs as f64 / wall.max(0.001) * 3600.0) as u64)),
        ("seeds", json::s(format!("VERIF_SEED {seed}, run indices 0..{}; one derived seed per run", t.runs))),
        ("simulated_seconds", J::Num((t.sim_ns as f64 / 1e6).round() / 1e3)),
        ("faults_fired", group("fault.")),
        ("schedule_events", group("sched.")),
        ("probes", group("probe.")),
        ("outcomes", group("outcome.")),
        ("distinct_measure", json::s(prop.measure)),
        ("lunify_edges_executed", json::us(edges_hit)),
        ("lunify_edges_total", json::us(edges_total)),
        ("repeated_runs", json::i(repeated)),
        ("repeated_runs_that_differed", json::i(differing)),
        ("real_components", strs(prop.real)),
        ("stub_components", strs(prop.stub)),
        ("known_findings_reproduced", J::Arr(findings.iter().map(|x| json::s(x.clone())).collect())),
    ]);
    let e = json::obj(vec![
        ("property", json::s(prop.id)),
        ("tier", json::s(if tier == Tier::Quick { "quick" } else { "thorough" })),
        ("seed", json::i(seed)),
        ("level", json::s("exploration")),
        ("coverage", coverage),
        ("assumptions", strs(prop.assumptions)),
        ("wall_s", J::Num((wall * 100.0).round() / 100.0)),
        ("violations", json::i(violations)),
    ]);
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", prop.id), e.dump()).unwrap();
}

pub fn replay(props: &[Prop], path: &str) -> i32 {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| fatal(&format!("{path}: {e}")));
    let j = J::parse(&text);
    let id = j.get("property").str().to_string();
    let prop = props.iter().find(|p| p.id == id).unwrap_or_else(|| fatal("unknown property"));
    let (verdict, ctx, _) = execute(prop, || j.get("scenario").clone());
    sys::print(&format!("log hash {:016x}", ctx.log));
    match verdict {
        Ok(()) => {
            sys::print("held");
            0
        }
        Err(v) => {
            sys::print(&format!("class: {}\n{}", v.class, v.detail));
            sys::print(&format!("VIOLATION property={id} replay={path}"));
            1
        }
    }
}

/// Executes one run several times and prints the hashes of its logs.
pub fn repeat(prop: &Prop, seed: u64, index: u64) {
    for _ in 0..8 {
        let (_, ctx, _) = execute(prop, || scenario_of(prop, seed, index));
        sys::print(&format!("log hash {:016x}", ctx.log));
    }
}

pub fn show(prop: &Prop, seed: u64, index: u64) {
    let j = isolated(|| scenario_of(prop, seed, index)).unwrap();
    sys::print(&replay_text(prop, seed, index, &Violation { class: "".into(), detail: "".into() }, &j));
}

/// Development aid: every failure of many runs, grouped.
pub fn survey(prop: &Prop, seed: u64, total: u64) {
    let mut pids = Vec::new();
    for w in 0..8u64 {
        let mut fds = [0i32; 2];
        unsafe {
            sys::pipe(fds.as_mut_ptr());
            let pid = sys::fork();
            if pid == 0 {
                let mut lines = String::new();
                for index in (w..total).step_by(8) {
                    let (v, ctx, _) = execute(prop, || scenario_of(prop, seed, index));
                    if let Err(v) = v {
                        let d: String = v.detail.chars().filter(|c| *c != '\n').take(400).collect();
                        lines += &format!("{index}\t{}\t{d}\n", v.class);
                    }
                    for (k, n) in &ctx.counters {
                        lines += &format!("#{k}\t{n}\n");
                    }
                }
                sys::raw_write(fds[1], lines.as_bytes());
                sys::_exit(0);
            }
            sys::close(fds[1]);
            pids.push((pid, fds[0]));
        }
    }
    let mut groups: BTreeMap<String, (u64, u64, String)> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    for (_, fd) in pids {
        let mut data = Vec::new();
        let mut buf = vec![0u8; 1 << 16];
        loop {
            let n = unsafe { sys::read(fd, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n <= 0 {
                break;
            }
            data.extend_from_slice(&buf[..n as usize]);
        }
        for line in String::from_utf8_lossy(&data).lines() {
            let p: Vec<&str> = line.splitn(3, '\t').collect();
            if p[0].starts_with('#') {
                *counters.entry(p[0].to_string()).or_insert(0) += p[1].parse::<u64>().unwrap_or(0);
                continue;
            }
            if p.len() < 3 {
                continue;
            }
            let idx: u64 = p[0].parse().unwrap_or(0);
            let mut key: String = match p[2].find(" at /") {
                Some(k) => p[2][k..].to_string(),
                None => p[2].chars().filter(|c| !c.is_ascii_digit()).take(60).collect(),
            };
            key = format!("{}: {key}", p[1]);
            let e = groups.entry(key).or_insert((0, idx, p[2].to_string()));
            e.0 += 1;
            if idx <= e.1 {
                e.1 = idx;
                e.2 = p[2].to_string();
            }
        }
    }
    for (k, n) in counters {
        sys::print(&format!("{k} {n}"));
    }
    let mut g: Vec<_> = groups.into_iter().collect();
    g.sort_by_key(|x| std::cmp::Reverse(x.1 .0));
    for (k, (n, idx, d)) in g.iter().take(60) {
        sys::print(&format!("{n:6} x {k}\n         first {idx}: {}", d.chars().take(300).collect::<String>()));
    }
}
