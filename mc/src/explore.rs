//! Exhaustive explicit-state exploration: level-synchronous parallel breadth-first search over the
//! operations a model enables in each state, with canonical-state merging.
use crate::world::World;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct State<G> {
    pub w: World,
    pub g: G,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    pub key: String,
    pub msg: String,
}

/// Collects what an operation or a state check found.
#[derive(Default)]
pub struct Cx {
    pub found: Vec<Violation>,
    /// distinct observed outcomes (label -> count), to show the exploration is not vacuous
    pub outcomes: BTreeMap<String, u64>,
    /// comparisons of the implementation against the reference model
    pub compared: u64,
}
impl Cx {
    /// `key` identifies the specific input / call site / history class (for known findings)
    pub fn fail(&mut self, prop: &str, key: &str, msg: String) {
        self.found.push(Violation { prop: prop.into(), key: key.into(), msg });
    }
    pub fn ensure(&mut self, prop: &str, key: &str, cond: bool, msg: impl FnOnce() -> String) {
        self.compared += 1;
        if !cond {
            self.fail(prop, key, msg());
        }
    }
    pub fn seen(&mut self, what: impl Into<String>) {
        *self.outcomes.entry(what.into()).or_insert(0) += 1;
    }
}

pub trait Model: Sync {
    type G: Clone + Hash + Send + Sync;
    type Op: Clone + std::fmt::Debug + Send + Sync;
    fn name(&self) -> String;
    fn init(&self) -> Vec<State<Self::G>>;
    fn ops(&self, s: &State<Self::G>) -> Vec<Self::Op>;
    fn step(&self, s: &mut State<Self::G>, op: &Self::Op, cx: &mut Cx);
    /// checked once in every distinct state
    fn check(&self, s: &State<Self::G>, cx: &mut Cx);
}

#[derive(Clone, Debug)]
pub struct Limits {

    pub depth: usize,
    pub max_states: usize,
    pub wall: Duration,
    pub threads: usize,
}

#[derive(Default, Debug)]
pub struct Report {
    pub model: String,
    pub states: u64,
    pub transitions: u64,
    pub depth: usize,
    pub complete: bool,
    pub cap: String,
    pub compared: u64,
    /// transitions in which at least one reference-model comparison was made
    pub validated: u64,
    /// paths re-executed from the initial state that reached the identical state
    pub replayed: u64,
    pub samples: Vec<Vec<String>>,
    pub outcomes: BTreeMap<String, u64>,
    pub violations: Vec<(Violation, usize, Vec<(usize, String)>)>,
    pub other_props: BTreeMap<String, u64>,
    pub wall: f64,
}

fn fp<G: Hash>(s: &State<G>) -> (u64, u64) {
    let (mut a, mut b) = (DefaultHasher::new(), DefaultHasher::new());
    b.write_u64(0x9e3779b97f4a7c15);
    s.w.fingerprint(&mut a, &mut b);
    s.g.hash(&mut a);
    s.g.hash(&mut b);
    (a.finish(), b.finish())
}

fn resident_gb() -> f64 {
    let s = std::fs::read_to_string("/proc/self/statm").unwrap_or_default();
    s.split(' ').nth(1).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) * 4096.0 / 1e9
}

struct Node {
    parent: usize,
    op: u32,
    fp: (u64, u64),
}

/// Explores `m` for violations of `prop` ("*": any). `known(v)` tells whether a violation is a listed
/// finding: it is recorded, the branch is cut, and the search goes on.
pub fn explore<M: Model>(m: &M, prop: &str, lim: &Limits, known: &(dyn Fn(&Violation) -> bool + Sync)) -> Report {
    let t0 = Instant::now();
    let mut rep = Report { model: m.name(), complete: true, ..Default::default() };
    let mut seen: HashSet<(u64, u64)> = HashSet::new();
    let mut nodes: Vec<Node> = vec![];
    let mut frontier: Vec<(usize, State<M::G>)> = vec![];
    let mut bad: Vec<(Violation, usize)> = vec![]; // violation, node whose state (or last op) shows it
    let mut known_seen: BTreeMap<String, bool> = BTreeMap::new();

    // mismatches that belong to other properties are counted, and the search goes on
    let other: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let inits = m.init();
    let n_init = inits.len();
    for (i, s) in inits.into_iter().enumerate() {
        nodes.push(Node { parent: usize::MAX, op: i as u32, fp: fp(&s) });
        let mut cx = Cx::default();
        m.check(&s, &mut cx);
        rep.compared += cx.compared;
        merge(&mut rep.outcomes, cx.outcomes);
        let mut cut = false;
        own(&mut cx.found, prop, &other);
        for v in cx.found {
            cut = true;
            note(&mut rep, &mut bad, &mut known_seen, v, i, known);
        }
        if seen.insert(fp(&s)) && !cut {
            frontier.push((i, s));
        }
    }
    rep.states = seen.len() as u64;
    let mut depth = 0;
    let stop = AtomicBool::new(false);
    while !frontier.is_empty() && depth < lim.depth {
        if bad.iter().any(|(v, _)| !known(v)) {
            break;
        }
        // expand in parallel, in blocks; results are merged in frontier order (deterministic)
        struct Succ<G> {
            op: u32,
            fp: (u64, u64),
            state: Option<State<G>>,
            found: Vec<Violation>,
        }
        let next = AtomicUsize::new(0);
        let block = 16;
        let mut next_frontier = vec![];
        let mut offset = 0;
        let chunk = 10_000;
        while offset < frontier.len() {
            let part = &frontier[offset..(offset + chunk).min(frontier.len())];
            next.store(0, Ordering::SeqCst);
            let results: Mutex<Vec<(usize, Vec<Succ<M::G>>)>> = Mutex::new(vec![]);
            let agg: Mutex<(u64, u64, BTreeMap<String, u64>, u64)> = Mutex::new((0, 0, BTreeMap::new(), 0));
            std::thread::scope(|sc| {
                for _ in 0..lim.threads {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, || {
                            let mut cx = Cx::default();
                            let (mut trans, mut valid) = (0u64, 0u64);
                            let mut mine = vec![];
                            let mut local: HashSet<(u64, u64)> = HashSet::new();
                            loop {
                                let a = next.fetch_add(block, Ordering::SeqCst);
                                if a >= part.len() || stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                if t0.elapsed() > lim.wall {
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                for (i, (_, s)) in part.iter().enumerate().skip(a).take(block) {
                                    let ops = m.ops(s);
                                    let mut out = Vec::with_capacity(ops.len());
                                    for (j, op) in ops.iter().enumerate() {
                                        let mut t = s.clone();
                                        t.w.clear_events();
                                        let cmp = cx.compared;
                                        m.step(&mut t, op, &mut cx);
                                        trans += 1;
                                        valid += (cx.compared > cmp) as u64;
                                        let f = fp(&t);
                                        let mut found = std::mem::take(&mut cx.found);
                                        own(&mut found, prop, &other);
                                        let dup = found.is_empty() && (seen.contains(&f) || !local.insert(f));
                                        if dup {
                                            continue;
                                        }
                                        t.w.clear_events();
                                        out.push(Succ { op: j as u32, fp: f, state: Some(t), found });
                                    }
                                    mine.push((i, out));
                                }
                            }
                            results.lock().unwrap().extend(mine);
                            let mut g = agg.lock().unwrap();
                            g.0 += trans;
                            g.1 += cx.compared;
                            merge(&mut g.2, cx.outcomes);
                            g.3 += valid;
                        })
                        .unwrap();
                }
            });
            let mut results = results.into_inner().unwrap();
            results.sort_by_key(|r| r.0);
            let (tr, cmp, outc, valid) = agg.into_inner().unwrap();
            rep.transitions += tr;
            rep.validated += valid;
            rep.compared += cmp;
            merge(&mut rep.outcomes, outc);
            // deduplicate in order
            let mut fresh: Vec<(usize, State<M::G>)> = vec![];
            for (i, succ) in results {
                let parent = part[i].0;
                for s in succ {
                    if !s.found.is_empty() {
                        nodes.push(Node { parent, op: s.op, fp: s.fp });
                        let n = nodes.len() - 1;
                        for v in s.found {
                            note(&mut rep, &mut bad, &mut known_seen, v, n, known);
                        }
                        continue;
                    }
                    if seen.insert(s.fp) {
                        nodes.push(Node { parent, op: s.op, fp: s.fp });
                        fresh.push((nodes.len() - 1, s.state.unwrap()));
                    }
                }
            }
            // check the new states in parallel
            next.store(0, Ordering::SeqCst);
            let found: Mutex<Vec<(usize, Vec<Violation>)>> = Mutex::new(vec![]);
            let agg: Mutex<(u64, BTreeMap<String, u64>)> = Mutex::new((0, BTreeMap::new()));
            std::thread::scope(|sc| {
                for _ in 0..lim.threads {
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, || {
                            let mut cx = Cx::default();
                            let mut mine = vec![];
                            loop {
                                let a = next.fetch_add(block, Ordering::SeqCst);
                                if a >= fresh.len() {
                                    break;
                                }
                                if t0.elapsed() > lim.wall {
                                    stop.store(true, Ordering::Relaxed);
                                    break;
                                }
                                for (i, (_, s)) in fresh.iter().enumerate().skip(a).take(block) {
                                    m.check(s, &mut cx);
                                    let mut f = std::mem::take(&mut cx.found);
                                    own(&mut f, prop, &other);
                                    if !f.is_empty() {
                                        mine.push((i, f));
                                    }
                                }
                            }
                            found.lock().unwrap().extend(mine);
                            let mut g = agg.lock().unwrap();
                            g.0 += cx.compared;
                            merge(&mut g.1, cx.outcomes);
                        })
                        .unwrap();
                }
            });
            let mut found = found.into_inner().unwrap();
            found.sort_by_key(|x| x.0);
            let (cmp, outc) = agg.into_inner().unwrap();
            rep.compared += cmp;
            merge(&mut rep.outcomes, outc);
            let mut cut = HashSet::new();
            for (i, vs) in found {
                cut.insert(i);
                for v in vs {
                    note(&mut rep, &mut bad, &mut known_seen, v, fresh[i].0, known);
                }
            }
            for (i, x) in fresh.into_iter().enumerate() {
                if !cut.contains(&i) {
                    next_frontier.push(x);
                }
            }
            if stop.load(Ordering::Relaxed) {
                rep.complete = false;
                rep.cap = format!("wall-clock cap of {:?} hit at depth {}", lim.wall, depth + 1);
                break;
            }
            if resident_gb() > 18.0 {
                rep.complete = false;
                rep.cap = format!("memory cap hit at depth {}", depth + 1);
                break;
            }
            if seen.len() > lim.max_states {
                rep.complete = false;
                rep.cap = format!("state cap {} hit at depth {}", lim.max_states, depth + 1);
                break;
            }
            if bad.iter().any(|(v, _)| !known(v)) {
                break;
            }
            offset += chunk;
        }
        if !rep.complete {
            break;
        }
        depth += 1;
        frontier = next_frontier;
        rep.depth = depth;
    }
    if rep.complete && frontier.is_empty() {
        rep.cap = "fixpoint: every reachable state was visited".into();
    } else if rep.complete {
        rep.cap = format!("every operation sequence of length <= {}", depth);
    }
    rep.states = seen.len() as u64;
    rep.other_props = other.into_inner().unwrap();
    // determinism: re-execute some of the deepest paths from scratch and compare the state reached
    let path_of = |n: usize| {
        let mut path = vec![];
        let mut i = n;
        while nodes[i].parent != usize::MAX {
            path.push(nodes[i].op as usize);
            i = nodes[i].parent;
        }
        path.reverse();
        (nodes[i].op as usize, path)
    };
    let bad_nodes: HashSet<usize> = bad.iter().map(|b| b.1).collect();
    let n = nodes.len();
    let mut picks: Vec<usize> = (0..12).map(|k| n - 1 - (k * (n / 3)) / 12).collect();
    picks.dedup();
    for k in picks {
        if bad_nodes.contains(&k) {
            continue;
        }
        let (init, path) = path_of(k);
        let (labels, f) = run_path(m, init, &path);
        assert!(f == nodes[k].fp, "nondeterminism: re-executing {:?} reached a different state", labels);
        rep.replayed += 1;
        if rep.samples.len() < 3 {
            rep.samples.push(labels.into_iter().map(|x| x.1).collect());
        }
    }
    bad.sort_by_key(|(v, _)| known(v));
    for (v, n) in bad {
        let (init, path) = path_of(n);
        debug_assert!(init < n_init);
        let labels = run_path(m, init, &path).0;
        rep.violations.push((v, init, labels));
    }
    rep.wall = t0.elapsed().as_secs_f64();
    rep
}

fn own(f: &mut Vec<Violation>, prop: &str, other: &Mutex<BTreeMap<String, u64>>) {
    if prop != "*" && f.iter().any(|v| v.prop != prop) {
        let mut o = other.lock().unwrap();
        for v in f.iter().filter(|v| v.prop != prop) {
            *o.entry(format!("{} {}", v.prop, v.key)).or_insert(0) += 1;
        }
        f.retain(|v| v.prop == prop);
    }
}

fn note(
    rep: &mut Report,
    bad: &mut Vec<(Violation, usize)>,
    known_seen: &mut BTreeMap<String, bool>,
    v: Violation,
    n: usize,
    known: &(dyn Fn(&Violation) -> bool + Sync),
) {
    if known(&v) {
        if known_seen.insert(v.key.clone(), true).is_none() {
            bad.push((v, n));
        }
    } else if bad.len() < 20 {
        bad.push((v, n));
    }
}

fn merge(a: &mut BTreeMap<String, u64>, b: BTreeMap<String, u64>) {
    for (k, v) in b {
        *a.entry(k).or_insert(0) += v;
    }
}

/// Re-executes a path (deterministically); returns the operation labels and the final fingerprint.
pub fn run_path<M: Model>(m: &M, init: usize, path: &[usize]) -> (Vec<(usize, String)>, (u64, u64)) {
    let mut s = m.init().into_iter().nth(init).unwrap();
    let mut out = vec![];
    for p in path {
        let ops = m.ops(&s);
        let op = ops[*p].clone();
        out.push((*p, format!("{:?}", op)));
        s.w.clear_events();
        m.step(&mut s, &op, &mut Cx::default());
    }
    s.w.clear_events();
    let f = fp(&s);
    (out, f)
}

/// Replays a recorded path, printing every step; returns the violations seen on the way.
pub fn replay<M: Model>(m: &M, init: usize, path: &[(usize, String)]) -> Result<Vec<Violation>, String> {
    let mut s = m.init().into_iter().nth(init).ok_or("no such initial state")?;
    let mut all = vec![];
    let mut cx = Cx::default();
    m.check(&s, &mut cx);
    all.append(&mut cx.found);
    for (p, l) in path {
        let ops = m.ops(&s);
        let op = ops.get(*p).ok_or_else(|| format!("step {} not enabled", l))?.clone();
        if format!("{:?}", op) != *l {
            return Err(format!("replay diverges: expected {}, have {:?}", l, op));
        }
        println!("* {:?}", op);
        s.w.clear_events();
        m.step(&mut s, &op, &mut cx);
        for e in &s.w.events {
            println!(
                "    {} -> {} {}{} : {}",
                e.predecessor,
                e.receiver,
                e.method(),
                if e.actions.actions.len() == 1 && e.method().is_empty() {
                    format!("{:?}", short(&e.actions.actions[0]))
                } else {
                    String::new()
                },
                match &e.result {
                    Ok(crate::world::Res::Value(v)) => format!("ok {}", crate::world::parse(v)),
                    Ok(_) => "ok".into(),
                    Err(x) => format!("FAILED {}", x),
                }
            );
        }
        m.check(&s, &mut cx);
        all.append(&mut cx.found);
    }
    Ok(all)
}
fn short(a: &crate::vm::Action) -> String {
    let s = format!("{:?}", a);
    s.chars().take(100).collect()
}
