//! Registry plumbing: properties -> scenarios, evidence, replay files, known findings.
use crate::explore::{self, Cx, Limits, Model, Report, State, Violation};
use crate::vm::Code;
use crate::world::{CodeKind, Env, NativeFn};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn root() -> PathBuf {
    // .../target/mc/release/mc -> the directory that holds target/
    let exe = std::env::current_exe().unwrap();
    exe.ancestors().nth(4).unwrap().to_path_buf()
}

pub struct Ctx {
    pub thorough: bool,
    pub prop: String,
    cache: Mutex<BTreeMap<String, Arc<CodeCell>>>,
}
struct CodeCell(Vec<u8>);

impl Ctx {
    pub fn new(prop: &str, thorough: bool) -> Ctx {
        Ctx { thorough, prop: prop.into(), cache: Default::default() }
    }
    pub fn wasm(&self, name: &str) -> Vec<u8> {
        let mut c = self.cache.lock().unwrap();
        c.entry(name.to_string())
            .or_insert_with(|| {
                let p = root().join("target/wasm").join(format!("{}.wasm", name));
                Arc::new(CodeCell(std::fs::read(&p).unwrap_or_else(|e| panic!("{}: {}", p.display(), e))))
            })
            .0
            .clone()
    }
    /// names: wasm files; natives: mock contracts
    pub fn env(&self, wasms: &[&str], natives: &[(&'static str, NativeFn)], storage_check: bool, min_stake: u128) -> Arc<Env> {
        let mut codes = vec![];
        for n in wasms {
            codes.push(CodeKind::Wasm(Code::new(n, &self.wasm(n)).unwrap_or_else(|e| panic!("{}: {}", n, e))));
        }
        for (n, f) in natives {
            codes.push(CodeKind::Native(n, *f));
        }
        Arc::new(Env { codes, storage_check, min_stake })
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
}

pub trait Scenario {
    fn name(&self) -> String;
    fn bound(&self) -> String;
    fn run(&self, prop: &str, wall: Duration, known: &(dyn Fn(&Violation) -> bool + Sync)) -> Report;
    fn replay(&self, init: usize, path: &[(usize, String)]) -> Result<Vec<Violation>, String>;
    fn weight(&self) -> u32;
}
pub struct Sc<M: Model> {
    pub m: M,
    pub depth: usize,
    pub weight: u32,
}
impl<M: Model> Scenario for Sc<M> {
    fn name(&self) -> String {
        self.m.name()
    }
    fn bound(&self) -> String {
        format!("operation sequences of length <= {}", self.depth)
    }
    fn run(&self, prop: &str, wall: Duration, known: &(dyn Fn(&Violation) -> bool + Sync)) -> Report {
        let threads = std::thread::available_parallelism().map_or(4, |x| x.get()).min(16);
        let lim = Limits { depth: self.depth, max_states: 12_000_000, wall, threads };
        explore::explore(&self.m, prop, &lim, known)
    }
    fn replay(&self, init: usize, path: &[(usize, String)]) -> Result<Vec<Violation>, String> {
        explore::replay(&self.m, init, path)
    }
    fn weight(&self) -> u32 {
        self.weight
    }
}
pub fn sc<M: Model + 'static>(m: M, depth: usize) -> Box<dyn Scenario> {
    Box::new(Sc { m, depth, weight: 1 })
}

/// A one-step model: a finite list of cases, each checked from the same initial state.
pub struct Cases<T, F> {
    pub name: String,
    pub start: crate::world::World,
    pub cases: Vec<T>,
    pub run: F,
}
impl<T, F> Model for Cases<T, F>
where
    T: Clone + std::fmt::Debug + Send + Sync,
    F: Fn(&mut crate::world::World, &T, &mut Cx) + Sync,
{
    type G = u64;
    type Op = (u64, T);
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<u64>> {
        vec![State { w: self.start.clone(), g: 0 }]
    }
    fn ops(&self, s: &State<u64>) -> Vec<(u64, T)> {
        if s.g > 0 {
            return vec![];
        }
        self.cases.iter().enumerate().map(|(i, c)| (i as u64 + 1, c.clone())).collect()
    }
    fn step(&self, s: &mut State<u64>, op: &(u64, T), cx: &mut Cx) {
        s.g = op.0;
        (self.run)(&mut s.w, &op.1, cx);
    }
    fn check(&self, _: &State<u64>, _: &mut Cx) {}
}

pub struct Check {
    pub prop: &'static str,
    pub contracts: &'static [&'static str],
    pub make: fn(&Ctx) -> Vec<Box<dyn Scenario>>,
    pub assumptions: &'static [&'static str],
}

fn known_keys(prop: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    let p = root().join("KNOWN_FINDINGS");
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let mut it = r.splitn(3, ' ');
                let (a, b, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if a == format!("property={}", prop) {
                    if let Some(k) = b.strip_prefix("key=") {
                        m.insert(k.to_string(), d.to_string());
                    }
                }
            }
        }
    }
    m
}

pub fn run_check(c: &Check, tier: &str) -> i32 {
    let t0 = std::time::Instant::now();
    let thorough = tier == "thorough";
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let cx = Ctx::new(c.prop, thorough);
    let known = known_keys(c.prop);
    let is_known = |v: &Violation| known.contains_key(&v.key);
    let budget = std::env::var("MC_WALL").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3000.0 } else { 400.0 });
    let scenarios = (c.make)(&cx);
    let mut reports = vec![];
    let mut code = 0;
    let mut nviol = 0;
    let total_w: u32 = scenarios.iter().map(|s| s.weight()).sum();
    let mut left_w = total_w;
    for s in &scenarios {
        let left: f64 = budget - t0.elapsed().as_secs_f64();
        let share = (left.max(1.0)) * s.weight() as f64 / left_w as f64;
        left_w -= s.weight();
        let r = s.run(c.prop, Duration::from_secs_f64(share.max(5.0)), &is_known);
        eprintln!(
            "[{}] {}: {} states, {} transitions, depth {}, {} comparisons, {:.1}s; {}",
            c.prop, r.model, r.states, r.transitions, r.depth, r.compared, r.wall, r.cap
        );
        if std::env::var("MC_VERBOSE").is_ok() {
            eprintln!("   outcomes {:?}", r.outcomes);
            if !r.other_props.is_empty() {
                eprintln!("   other properties' mismatches: {:?}", r.other_props);
            }
        }
        let mut printed_known = std::collections::BTreeSet::new();
        for (v, init, path) in &r.violations {
            let is_k = is_known(v);
            if is_k {
                if printed_known.insert(v.key.clone()) {
                    println!("KNOWN-FINDING: property={} {} ({})", c.prop, known[&v.key], v.key);
                }
                continue;
            }
            nviol += 1;
            if code == 0 {
                let dir = root().join("replays");
                std::fs::create_dir_all(&dir).unwrap();
                let p = dir.join(format!("{}.json", c.prop));
                let j = json!({
                    "property": c.prop, "scenario": s.name(), "tier": tier, "init": init,
                    "path": path.iter().map(|(i,l)| json!([i,l])).collect::<Vec<_>>(),
                    "violation": {"key": v.key, "message": v.msg},
                    "how": format!("bin/replay {}", p.display()),
                });
                std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap()).unwrap();
                println!("{}", v.msg);
                println!("history ({}):", s.name());
                for (_, l) in path {
                    println!("  {}", l);
                }
                println!("VIOLATION property={} replay={}", c.prop, p.display());
                code = 1;
            } else if nviol < 5 {
                println!("also: {} [{}]", v.msg, v.key);
            }
        }
        reports.push((s.bound(), r));
        if code != 0 {
            break;
        }
    }
    write_evidence(c, tier, seed, &reports, t0.elapsed().as_secs_f64(), nviol);
    if code == 0 {
        println!(
            "property={} held on everything explored ({} states, {} transitions)",
            c.prop,
            reports.iter().map(|r| r.1.states).sum::<u64>(),
            reports.iter().map(|r| r.1.transitions).sum::<u64>()
        );
    }
    code
}

fn write_evidence(c: &Check, tier: &str, seed: i64, reports: &[(String, Report)], wall: f64, nviol: usize) {
    let sum = |f: fn(&Report) -> u64| reports.iter().map(|r| f(&r.1)).sum::<u64>();
    let mut assumptions: Vec<Value> = [
        "NEAR runtime semantics as implemented in mc/src/world.rs: receipts between two accounts arrive in order, gas price zero, prepaid gas enforced with the public fee schedule",
        "contracts are executed as the wasm built from /repo's working tree by the repository's own recipe",
        "states are merged by a 128-bit hash of the complete canonical chain state",
    ]
    .iter()
    .map(|x| json!(x))
    .collect();
    assumptions.extend(c.assumptions.iter().map(|x| json!(x)));
    let j = json!({
        "property": c.prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(|r| r.states),
            "transitions": sum(|r| r.transitions),
            "traces_validated_against_impl": sum(|r| r.validated),
            "replayed_traces": sum(|r| r.replayed),
            "comparisons": sum(|r| r.compared),
            "exhaustive": reports.iter().all(|r| r.1.complete),
            "explanation": "every transition executes the real contract code (wasm); traces_validated_against_impl counts transitions in which the reference model's prediction was compared with the implementation; replayed_traces counts whole histories re-executed from the initial state that reached the identical state",
            "samples": reports.iter().flat_map(|r| r.1.samples.iter().take(2).map(|s| json!({"scenario": r.1.model, "history": s}))).take(12).collect::<Vec<_>>(),
            "scenarios": reports.iter().map(|(b, r)| json!({
                "name": r.model, "bound": b, "states": r.states, "transitions": r.transitions, "depth_completed": r.depth,
                "complete_within_bound": r.complete, "ended": r.cap, "distinct_outcomes": r.outcomes.len(),
                "outcomes": r.outcomes.iter().take(80).collect::<BTreeMap<_,_>>(), "wall_s": r.wall})).collect::<Vec<_>>(),
        },
        "assumptions": assumptions, "wall_s": wall, "violations": nviol,
    });
    let dir = root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(dir.join(format!("{}.json", c.prop)), serde_json::to_string_pretty(&j).unwrap()).unwrap();
}

pub fn run_replay(checks: &[Check], file: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let prop = j["property"].as_str().unwrap();
    let c = checks.iter().find(|c| c.prop == prop).unwrap();
    let cx = Ctx::new(prop, j["tier"] == "thorough");
    let name = j["scenario"].as_str().unwrap();
    let path: Vec<(usize, String)> = j["path"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_u64().unwrap() as usize, x[1].as_str().unwrap().to_string()))
        .collect();
    let scenarios = (c.make)(&cx);
    let s = scenarios.iter().find(|s| s.name() == name).expect("scenario");
    match s.replay(j["init"].as_u64().unwrap() as usize, &path) {
        Err(e) => {
            println!("{}", e);
            3
        }
        Ok(v) => {
            let mut code = 0;
            for x in v {
                if x.prop == prop {
                    code = 1;
                }
                println!("{} [{}]: {}", x.prop, x.key, x.msg);
            }
            code
        }
    }
}
