//! Real Lua machines (vm/build.sh): one shared object per flush size.

use std::ffi::{c_char, c_int, c_void, CStr, CString};
use std::sync::Mutex;

use crate::json::{self, J};
use crate::rng::{self, Rng};
use crate::{engine, sys};

#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct HostFault {
    pub task: u64,
    pub index: u32,
    pub kind: i32,
}

#[repr(C)]
struct CScenario {
    seed: u64,
    schedule: *const u32,
    schedule_len: u64,
    faults: *const HostFault,
    fault_count: u64,
    kill_task: u64,
    kill_at: u64,
    memory_task: u64,
    fail_at: u64,
    fail_count: u64,
    budget: u64,
    gc_mode: u32,
    gc_period: u32,
    full_messages: u32,
    lines: u32,
    variables: u32,
    nesting: u32,
}

#[repr(C)]
struct CChunk {
    data: *const u8,
    len: u64,
}

#[repr(C)]
struct CResult {
    events: *mut u8,
    len: u64,
    instructions: u64,
    allocations: u64,
    collections: u64,
    host_calls: u64,
    switches: u64,
    killed: u64,
    memory_failures: u64,
    faults_fired: u64,
    out_of_budget: u64,
    refused_tasks: u64,
}

type RunFn = unsafe extern "C" fn(*const CScenario, *const CChunk, u64, *mut CResult);
type CompileFn = unsafe extern "C" fn(*const u8, u64, *const c_char, c_int, *mut u64, *mut c_int) -> *mut u8;

#[derive(Clone, Copy)]
pub struct Machine {
    run: RunFn,
    compile: CompileFn,
}

static LOADED: Mutex<Vec<(String, Machine)>> = Mutex::new(Vec::new());

/// Loads all machines; done before any run is forked.
pub fn load_all(root: &str) {
    let dir = format!("{root}/build/vm");
    let mut names: Vec<String> = std::fs::read_dir(&dir)
        .unwrap_or_else(|e| engine::fatal(&format!("{dir}: {e}")))
        .filter_map(|e| e.ok()?.file_name().into_string().ok())
        .filter_map(|n| n.strip_suffix(".so").map(str::to_string))
        .collect();
    names.sort();
    for name in names {
        unsafe {
            let path = CString::new(format!("{dir}/{name}.so")).unwrap();
            let h = sys::dlopen(path.as_ptr(), 2);
            if h.is_null() {
                engine::fatal(&format!("{name}: {:?}", CStr::from_ptr(sys::dlerror())));
            }
            let f = |n: &CStr| -> *mut c_void {
                let p = sys::dlsym(h, n.as_ptr());
                assert!(!p.is_null());
                p
            };
            let m = Machine { run: std::mem::transmute(f(c"vm_run")), compile: std::mem::transmute(f(c"vm_compile")) };
            LOADED.lock().unwrap().push((name, m));
        }
    }
}

pub fn machine(name: &str) -> Machine {
    LOADED.lock().unwrap().iter().find(|m| m.0 == name).unwrap_or_else(|| panic!("no machine {name}")).1
}

/// What surrounds the programs of one run.
#[derive(Clone, Debug)]
pub struct World {
    pub seed: u64,
    pub schedule: Vec<u32>,
    /// (task, n-th host call, kind)
    pub faults: Vec<(String, u32, i32)>,
    pub kill: Option<(String, u64)>,
    pub memory: Option<(String, u64, u64)>,
    pub gc_mode: u32,
    pub gc_period: u32,
    pub lines: bool,
    pub full_messages: bool,
    /// What the host sees of the caller's variables: 1 names, 2 and values.
    pub variables: u32,
}

pub const FAULT_KINDS: [&str; 5] = ["host_error_string", "host_error_number", "host_calls_back", "host_collects", "host_error_table"];

pub struct Outcome {
    pub events: Vec<String>,
    pub instructions: u64,
    pub collections: u64,
    pub host_calls: u64,
    pub switches: u64,
    pub killed: u64,
    pub memory_failures: u64,
    pub faults_fired: u64,
    pub out_of_budget: bool,
}

impl World {
    pub fn random(r: &mut Rng, programs: usize) -> World {
        let task = |r: &mut Rng| {
            let mut t = ((b'A' + r.usize(programs) as u8) as char).to_string();
            if r.chance(1, 5) {
                t += &format!(".{}", r.below(2));
            }
            t
        };
        let mut faults = Vec::new();
        if r.chance(1, 2) {
            for _ in 0..1 + r.below(4) {
                let span = if r.chance(1, 2) { 6 } else { 30 };
                faults.push((task(r), r.below(span) as u32, 1 + r.below(5) as i32));
            }
        }
        let log = |r: &mut Rng, bits: u64| {
            let b = 1 + r.below(bits);
            1 + r.below(1 << b)
        };
        let kill = r.chance(1, 6).then(|| (task(r), log(r, 11)));
        let memory = (kill.is_none() && r.chance(1, 6)).then(|| (task(r), log(r, 8), 1 + r.below(3)));
        let schedule = (0..r.below(60)).map(|_| r.below(1 << 16) as u32).collect();
        World {
            seed: r.u64(),
            schedule,
            faults,
            kill,
            memory,
            gc_mode: r.weighted(&[3, 1, 2, 1, 2]) as u32,
            gc_period: *r.pick(&[1u64, 2, 3, 7, 50, 200]) as u32,
            lines: true,
            full_messages: true,
            variables: 2,
        }
    }

    pub fn json(&self) -> J {
        json::obj(vec![
            ("seed", json::i(self.seed)),
            ("schedule", J::Arr(self.schedule.iter().map(|&x| json::i(x)).collect())),
            (
                "faults",
                J::Arr(
                    self.faults
                        .iter()
                        .map(|f| json::obj(vec![("task", json::s(f.0.clone())), ("call", json::i(f.1)), ("kind", json::s(FAULT_KINDS[f.2 as usize - 1]))]))
                        .collect(),
                ),
            ),
            (
                "kill",
                match &self.kill {
                    Some(k) => json::obj(vec![("task", json::s(k.0.clone())), ("instruction", json::i(k.1))]),
                    None => J::Null,
                },
            ),
            (
                "memory",
                match &self.memory {
                    Some(k) => json::obj(vec![("task", json::s(k.0.clone())), ("allocation", json::i(k.1)), ("count", json::i(k.2))]),
                    None => J::Null,
                },
            ),
            ("gc_mode", json::i(self.gc_mode)),
            ("gc_period", json::i(self.gc_period)),
            ("lines", J::Bool(self.lines)),
            ("full_messages", J::Bool(self.full_messages)),
            ("variables", json::i(self.variables)),
        ])
    }

    pub fn parse(j: &J) -> World {
        let opt = |k: &str| if j.get(k).is_null() { None } else { Some(j.get(k).clone()) };
        World {
            seed: j.get("seed").u64(),
            schedule: j.get("schedule").arr().iter().map(|x| x.u64() as u32).collect(),
            faults: j
                .get("faults")
                .arr()
                .iter()
                .map(|f| {
                    let kind = FAULT_KINDS.iter().position(|k| *k == f.get("kind").str()).unwrap();
                    (f.get("task").str().to_string(), f.get("call").u64() as u32, kind as i32 + 1)
                })
                .collect(),
            kill: opt("kill").map(|k| (k.get("task").str().to_string(), k.get("instruction").u64())),
            memory: opt("memory").map(|k| (k.get("task").str().to_string(), k.get("allocation").u64(), k.get("count").u64())),
            gc_mode: j.get("gc_mode").u64() as u32,
            gc_period: j.get("gc_period").u64() as u32,
            lines: j.get("lines").bool(),
            full_messages: j.get("full_messages").bool(),
            variables: if j.get("variables").is_null() { 0 } else { j.get("variables").u64() as u32 },
        }
    }

    /// Without what ends a task early.
    pub fn gentle(&self) -> World {
        World { kill: None, memory: None, ..self.clone() }
    }

    /// Smaller worlds.
    pub fn shrink(&self) -> Vec<World> {
        let mut v = Vec::new();
        if self.kill.is_some() || self.memory.is_some() {
            v.push(self.gentle());
        }
        for k in 0..self.faults.len() {
            let mut w = self.clone();
            w.faults.remove(k);
            v.push(w);
        }
        if !self.schedule.is_empty() {
            let mut w = self.clone();
            w.schedule.truncate(self.schedule.len() / 2);
            v.push(w);
            if self.schedule.iter().any(|&x| x != 0) {
                v.push(World { schedule: vec![0; self.schedule.len()], ..self.clone() });
            }
        }
        if self.gc_mode != 1 {
            v.push(World { gc_mode: 1, ..self.clone() });
        }
        if let Some(k) = &self.kill {
            for n in [k.1 / 2, k.1 - 1] {
                if n > 0 {
                    v.push(World { kill: Some((k.0.clone(), n)), ..self.clone() });
                }
            }
        }
        v
    }
}

fn task_hash(name: &str) -> u64 {
    name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

extern "C" {
    fn free(p: *mut c_void);
}

impl Machine {
    pub fn compile(&self, source: &str, strip: bool) -> Result<Vec<u8>, String> {
        let mut len = 0;
        let mut ok = 0;
        unsafe {
            let p = (self.compile)(source.as_ptr(), source.len() as u64, c"=program".as_ptr(), strip as c_int, &mut len, &mut ok);
            let v = std::slice::from_raw_parts(p, len as usize).to_vec();
            free(p as *mut c_void);
            if ok != 0 {
                Ok(v)
            } else {
                Err(String::from_utf8_lossy(&v).into_owned())
            }
        }
    }

    pub fn run(&self, world: &World, chunks: &[Vec<u8>], budget: u64) -> Outcome {
        self.run_nested(world, chunks, budget, 0)
    }

    /// The machines nest calls up to 200 deep (in C) or 20000 (in Lua); a run that
    /// exceeds `nesting` or 50 times `nesting` ends as if out of budget.
    pub fn run_nested(&self, world: &World, chunks: &[Vec<u8>], budget: u64, nesting: u32) -> Outcome {
        let faults: Vec<HostFault> = world.faults.iter().map(|f| HostFault { task: task_hash(&f.0), index: f.1, kind: f.2 }).collect();
        let kill = world.kill.as_ref();
        let memory = world.memory.as_ref();
        let s = CScenario {
            seed: world.seed,
            schedule: world.schedule.as_ptr(),
            schedule_len: world.schedule.len() as u64,
            faults: faults.as_ptr(),
            fault_count: faults.len() as u64,
            kill_task: kill.map_or(0, |k| task_hash(&k.0)),
            kill_at: kill.map_or(0, |k| k.1),
            memory_task: memory.map_or(0, |k| task_hash(&k.0)),
            fail_at: memory.map_or(0, |k| k.1),
            fail_count: memory.map_or(0, |k| k.2),
            budget,
            gc_mode: world.gc_mode,
            gc_period: world.gc_period,
            full_messages: world.full_messages as u32,
            lines: world.lines as u32,
            variables: world.variables,
            nesting,
        };
        let c: Vec<CChunk> = chunks.iter().map(|c| CChunk { data: c.as_ptr(), len: c.len() as u64 }).collect();
        unsafe {
            let mut r: CResult = std::mem::zeroed();
            (self.run)(&s, c.as_ptr(), c.len() as u64, &mut r);
            let text = if r.events.is_null() {
                String::new()
            } else {
                String::from_utf8_lossy(std::slice::from_raw_parts(r.events, r.len as usize)).into_owned()
            };
            free(r.events as *mut c_void);
            Outcome {
                events: text.lines().map(str::to_string).collect(),
                instructions: r.instructions,
                collections: r.collections,
                host_calls: r.host_calls,
                switches: r.switches,
                killed: r.killed,
                memory_failures: r.memory_failures,
                faults_fired: r.faults_fired,
                out_of_budget: r.out_of_budget != 0 || r.refused_tasks != 0,
            }
        }
    }
}

impl Outcome {
    pub fn hash(&self) -> u64 {
        self.events.iter().fold(1, |h, e| rng::mix(h ^ rng::hash_bytes(e.as_bytes())))
    }
    pub fn count(&self, ctx: &mut engine::Ctx, world: &World) {
        ctx.count("fault.task_killed", self.killed);
        ctx.count("fault.allocation_failed", self.memory_failures);
        ctx.count("fault.host_fault_fired", self.faults_fired);
        ctx.count("fault.collections", self.collections);
        ctx.count("sched.switches", self.switches);
        ctx.count("probe.host_calls", self.host_calls);
        let _ = world;
    }
}

fn task_of(event: &str) -> &str {
    event.split(' ').next().unwrap_or("")
}

fn family(task: &str) -> &str {
    task.split('.').next().unwrap_or("")
}

fn difference(what: &str, want: &[String], got: &[String]) -> Result<(), String> {
    for k in 0..want.len().max(got.len()) {
        if want.get(k) != got.get(k) {
            let show = |e: Option<&String>| e.map_or("(nothing)".to_string(), |e| e.chars().take(300).collect());
            return Err(format!("{what}, event {k}: original {}, converted {}", show(want.get(k)), show(got.get(k))));
        }
    }
    Ok(())
}

/// `want`: the undisturbed original; `got`: the converted programs in `world`.
pub fn compare(world: &World, want: &Outcome, got: &Outcome) -> Result<(), String> {
    let ended = got.events.iter().position(|e| e.ends_with(" killed") || e.ends_with(" starved"));
    let Some(end) = ended else { return difference("all tasks", &want.events, &got.events) };
    let _ = world;
    // Until the task ends nothing else differs.
    if want.events.len() < end {
        return Err(format!("converted shows {end} events before the task ends, original only {}", want.events.len()));
    }
    difference("before the end of the task", &want.events[..end], &got.events[..end])?;
    let dead = family(task_of(&got.events[end]));
    let mut names: Vec<&str> = want.events.iter().chain(&got.events).map(|e| task_of(e)).filter(|t| family(t) != dead).collect();
    names.sort();
    names.dedup();
    for name in names {
        let of = |o: &Outcome| -> Vec<String> { o.events.iter().filter(|e| task_of(e) == name).cloned().collect() };
        difference(&format!("task {name}"), &of(want), &of(got))?;
    }
    Ok(())
}

/// Smaller versions of a program: without some of its lines, or without some
/// list items of one line.
pub fn shrink_source(source: &str) -> Vec<String> {
    let lines: Vec<&str> = source.lines().collect();
    let mut out = Vec::new();
    let mut n = lines.len();
    while n > 0 {
        let mut at = 0;
        while at < lines.len() {
            let end = (at + n).min(lines.len());
            let mut v: Vec<&str> = lines[..at].to_vec();
            v.extend(&lines[end..]);
            out.push(v.join("\n") + "\n");
            at += n;
        }
        n = if n > 64 { n / 4 } else if n > 4 { n / 2 } else { n - 1 };
    }
    // Block heads with their ends.
    for at in 0..lines.len() {
        let deep = |l: &str| l.len() - l.trim_start().len();
        let d = deep(lines[at]);
        if let Some(end) = (at + 1..lines.len()).find(|&k| deep(lines[k]) <= d && lines[k].trim_start().starts_with("end")) {
            for keep in [false, true] {
                let mut v: Vec<&str> = lines[..at].to_vec();
                if keep {
                    v.extend(&lines[at + 1..end]);
                }
                v.extend(&lines[end + 1..]);
                out.push(v.join("\n") + "\n");
            }
        }
    }
    // Items: from one comma, bracket or brace to the next comma at the same depth.
    let b = source.as_bytes();
    let mut starts = Vec::new();
    for k in 0..b.len() {
        if matches!(b[k], b',' | b'{' | b'(') {
            starts.push(k + 1);
        }
    }
    let mut spans: Vec<(usize, usize)> = Vec::new();
    for &st in &starts {
        let mut depth = 0;
        for k in st..b.len() {
            match b[k] {
                b'(' | b'{' | b'[' => depth += 1,
                b')' | b'}' | b']' if depth == 0 => {
                    if k > st {
                        let from = if b[st - 1] == b',' { st - 1 } else { st };
                        spans.push((from, k));
                    }
                    break;
                }
                b')' | b'}' | b']' => depth -= 1,
                b',' if depth == 0 => {
                    spans.push((st, k + 1));
                    break;
                }
                _ => {}
            }
        }
    }
    spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
    for (from, to) in spans {
        out.push(format!("{}{}", &source[..from], &source[to..]));
        // an item by a constant
        let body = &source[from..to];
        if to - from > 3 && body.ends_with(',') {
            out.push(format!("{}7,{}", &source[..from], &source[to..]));
        } else if to - from > 3 && body.starts_with(',') {
            out.push(format!("{},7{}", &source[..from], &source[to..]));
        }
    }
    out
}
