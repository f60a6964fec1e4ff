//! Whitelist, voting and state-manipulation contracts.
use crate::check::*;
use crate::explore::*;
use crate::vm::Storage;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub fn checks() -> Vec<Check> {
    vec![
        Check { prop: "W01", contracts: &["whitelist"], make: w01, assumptions: &["three pool names and two factory names stand for all"] },
        Check { prop: "V01", contracts: &["voting"], make: voting, assumptions: &["three validators, stake tables with thresholds just met and just missed"] },
        Check { prop: "V02", contracts: &["voting"], make: voting, assumptions: &["three validators, stake tables with thresholds just met and just missed"] },
        Check { prop: "X01", contracts: &["state-manipulation"], make: x01, assumptions: &["three keys and three values stand for all; plus a list of long and binary ones"] },
        Check { prop: "X02", contracts: &["state-manipulation"], make: x02, assumptions: &[] },
    ]
}

// ------------------------------------------------------------------------------------- whitelist

struct Whitelist {
    start: World,
    who: Vec<&'static str>,
    targets: Vec<&'static str>,
}
#[derive(Clone, Hash, Default)]
struct Lists {
    pools: BTreeSet<&'static str>,
    factories: BTreeSet<&'static str>,
}
#[derive(Clone, Debug)]
struct WOp {
    who: &'static str,
    method: &'static str,
    target: &'static str,
    deposit: u128,
}
impl Model for Whitelist {
    type G = Lists;
    type Op = WOp;
    fn name(&self) -> String {
        "whitelist".into()
    }
    fn init(&self) -> Vec<State<Lists>> {
        vec![State { w: self.start.clone(), g: Lists::default() }]
    }
    fn ops(&self, _: &State<Lists>) -> Vec<WOp> {
        let mut v = vec![];
        for who in &self.who {
            for m in ["add_staking_pool", "remove_staking_pool", "add_factory", "remove_factory"] {
                for t in &self.targets {
                    v.push(WOp { who, method: m, target: t, deposit: 0 });
                }
                v.push(WOp { who, method: m, target: "Bad Name", deposit: 0 });
            }
            v.push(WOp { who, method: "new", target: "factory1.foundation", deposit: 0 });
            v.push(WOp { who, method: "new", target: "foundation", deposit: 0 });
        }
        // no method takes tokens
        for m in ["add_staking_pool", "remove_staking_pool", "add_factory", "remove_factory"] {
            v.push(WOp { who: "foundation", method: m, target: "pool1", deposit: 1 });
        }
        v
    }
    fn step(&self, s: &mut State<Lists>, op: &WOp, cx: &mut Cx) {
        let arg = match op.method {
            "new" => "foundation_account_id",
            m if m.contains("factory") => "factory_account_id",
            _ => "staking_pool_account_id",
        };
        let args = json!({ arg: op.target }).to_string();
        let before = s.w.acc("whitelist").unwrap().storage.clone();
        let out = s.w.call(op.who, "whitelist", op.method, &args, op.deposit);
        let g = &mut s.g;
        let found = op.who == "foundation";
        let valid = op.target != "Bad Name" && op.deposit == 0;
        let (allowed, expect) = match op.method {
            "add_staking_pool" => {
                let ok = valid && (found || g.factories.contains(op.who));
                (ok, ok && g.pools.insert(op.target))
            }
            "remove_staking_pool" => (found && valid, found && valid && g.pools.remove(op.target)),
            "add_factory" => (found && valid, found && valid && g.factories.insert(op.target)),
            "remove_factory" => (found && valid, found && valid && g.factories.remove(op.target)),
            _ => (false, false),
        };
        cx.seen(format!("{} {} {}", op.method, if found { "foundation" } else { "other" }, if out.is_err() { "rejected".into() } else { out.short() }));
        if allowed {
            cx.ensure("W01", "result", out == Out::Ok(Value::Bool(expect)), || format!("{:?}: expected {}, got {}", op, expect, out.short()));
        } else {
            cx.ensure("W01", "unauthorised", out.is_err(), || format!("{:?} must be rejected, got {}", op, out.short()));
            cx.ensure("W01", "effect", before == s.w.acc("whitelist").unwrap().storage, || format!("{:?} was rejected but changed the state", op));
        }
    }
    fn check(&self, s: &State<Lists>, cx: &mut Cx) {
        for t in self.targets.iter().chain(self.who.iter()) {
            let a = s.w.view("whitelist", "is_whitelisted", &json!({"staking_pool_account_id": t}).to_string());
            let b = s.w.view("whitelist", "is_factory_whitelisted", &json!({"factory_account_id": t}).to_string());
            cx.ensure("W01", "pools", a == Ok(Value::Bool(s.g.pools.contains(t))), || format!("is_whitelisted({}) = {:?}, expected {}", t, a, s.g.pools.contains(t)));
            cx.ensure("W01", "factories", b == Ok(Value::Bool(s.g.factories.contains(t))), || format!("is_factory_whitelisted({}) = {:?}, expected {}", t, b, s.g.factories.contains(t)));
        }
    }
}
fn w01(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let mut w = World::new(c.env(&["whitelist"], &[], true, 0));
    w.contract("whitelist", "whitelist", 100 * NEAR);
    for u in ["foundation", "factory1", "factory2", "pool1", "pool2", "factory1.foundation"] {
        w.user(u, 1000 * NEAR);
    }
    w.user("whitelist_owner", 10 * NEAR);
    w.signers = std::sync::Arc::new(vec![("factory1.foundation", "foundation"), ("factory1", "factory1.foundation"), ("factory2", "foundation"), ("pool1", "factory1")]);
    // uninitialised: everything must be rejected
    let un = w.clone();
    let mut cases = vec![];
    for who in ["foundation", "factory1.foundation"] {
        for m in ["add_staking_pool", "remove_staking_pool", "add_factory", "remove_factory"] {
            cases.push((who, m));
        }
    }
    let uninit = Cases {
        name: "whitelist before initialisation".into(),
        start: un,
        cases,
        run: |w: &mut World, (who, m): &(&'static str, &'static str), cx: &mut Cx| {
            let arg = if m.contains("factory") { "factory_account_id" } else { "staking_pool_account_id" };
            let o = w.call(who, "whitelist", m, &json!({ arg: "pool1" }).to_string(), 0);
            cx.ensure("W01", "uninit", o.is_err(), || format!("{} by {} before initialisation: {}", m, who, o.short()));
        },
    };
    w.must("factory1.foundation", "whitelist", "new", r#"{"foundation_account_id":"foundation"}"#, 0);
    w.clear_events();
    let m = Whitelist {
        start: w,
        who: vec!["foundation", "factory1", "factory2", "pool1", "factory1.foundation"],
        targets: c.pick(vec!["pool1", "factory1", "factory2"], vec!["pool1", "pool2", "factory1", "factory2", "foundation"]),
    };
    let names: Vec<String> = ["a", "A", "", "Bad Name", "x..y", "-a", "a-", "a.-b", "a__b", "aa", "a-b", "a.b", "1-2_3.4", "\u{e9}t\u{e9}"].iter().map(|x| x.to_string()).chain(["a".repeat(64), "a".repeat(65)]).collect();
    let mut ncases = vec![];
    for n in &names {
        for m in ["new", "add_staking_pool", "remove_staking_pool", "add_factory", "remove_factory", "is_whitelisted", "is_factory_whitelisted"] {
            ncases.push((n.clone(), m));
        }
    }
    let blank = uninit.start.clone();
    let valid = Cases {
        name: "whitelist, valid and invalid account ids".into(),
        start: m.start.clone(),
        cases: ncases,
        run: move |w: &mut World, (n, m): &(String, &'static str), cx: &mut Cx| {
            let ok = account_id_ok(n);
            let arg = match *m {
                "new" => "foundation_account_id",
                m if m.contains("factory") => "factory_account_id",
                _ => "staking_pool_account_id",
            };
            if *m == "new" {
                *w = blank.clone();
            }
            let before = w.acc("whitelist").unwrap().storage.clone();
            let o = w.call("foundation", "whitelist", m, &json!({ arg: n }).to_string(), 0);
            cx.seen(format!("{} {}", if ok { "valid" } else { "invalid" }, if o.ok() { "accepted" } else { "rejected" }));
            cx.ensure("W01", "names", o.ok() == ok && (ok || before == w.acc("whitelist").unwrap().storage), || format!("{}({:?}): {}", m, n, o.short()));
        },
    };
    vec![sc(m, 100), sc(uninit, 1), sc(valid, 1)]
}

/// the protocol's rule for account ids: 2 to 64 characters, lower case parts joined by single separators
pub fn account_id_ok(s: &str) -> bool {
    let sep = |c: u8| matches!(c, b'.' | b'-' | b'_');
    let b = s.as_bytes();
    (2..=64).contains(&b.len())
        && b.iter().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || sep(*c))
        && !sep(b[0])
        && !sep(b[b.len() - 1])
        && !b.windows(2).any(|p| sep(p[0]) && sep(p[1]))
}

// ---------------------------------------------------------------------------------------- voting

struct Voting {
    start: World,
    tables: Vec<Vec<u128>>,
    epochs: u64,
    ticks: u64,
}
/// the reference poll
#[derive(Clone, Hash, Default, Debug)]
pub struct Ballot {
    pub votes: BTreeMap<String, u128>,
    pub last: u64,
    pub result: Option<u64>,
}
impl Ballot {
    /// A vote (or with None a ping) arriving in the current block; false: it must be rejected.
    pub fn apply(&mut self, w: &World, who: &str, vote: Option<bool>) -> bool {
        let stake = |a: &str| w.validators.get(a).copied().unwrap_or(0);
        let total: u128 = w.validators.values().sum();
        if self.result.is_some() {
            return false;
        }
        let was = self.clone();
        let decide = |g: &mut Ballot| {
            if 3 * g.votes.values().sum::<u128>() > 2 * total {
                g.result = Some(w.ts);
            }
        };
        if self.last != w.epoch {
            self.votes = self.votes.keys().map(|k| (k.clone(), stake(k))).filter(|x| x.1 > 0).collect();
            decide(self);
            self.last = w.epoch;
        }
        match vote {
            Some(yes) if self.result.is_none() => {
                if yes {
                    if stake(who) == 0 {
                        *self = was;
                        return false;
                    }
                    self.votes.insert(who.to_string(), stake(who));
                    decide(self);
                } else {
                    self.votes.remove(who);
                }
            }
            _ => {}
        }
        true
    }
}
#[derive(Clone, Hash)]
struct Votes {
    b: Ballot,
    ticks: u64,
    epochs: u64,
}
#[derive(Clone, Debug)]
enum VOp {
    Vote(&'static str, bool),
    Ping(&'static str),
    New,
    Tick,
    Epoch(usize),
}
const VALS: [&str; 3] = ["val1", "val2", "val3"];
fn set_vals(w: &mut World, t: &[u128]) {
    w.validators = std::sync::Arc::new(VALS.iter().zip(t).filter(|x| *x.1 > 0).map(|(a, b)| (a.to_string(), *b)).collect());
}
impl Model for Voting {
    type G = Votes;
    type Op = VOp;
    fn name(&self) -> String {
        format!("voting, {} epochs, stake tables {:?}", self.epochs, self.tables)
    }
    fn init(&self) -> Vec<State<Votes>> {
        self.tables
            .iter()
            .map(|t| {
                let mut w = self.start.clone();
                set_vals(&mut w, t);
                State { w, g: Votes { b: Ballot::default(), ticks: 0, epochs: 0 } }
            })
            .collect()
    }
    fn ops(&self, s: &State<Votes>) -> Vec<VOp> {
        let mut v = vec![VOp::Ping("nobody"), VOp::New];
        for a in VALS.iter().chain(["nobody"].iter()) {
            v.push(VOp::Vote(a, true));
            v.push(VOp::Vote(a, false));
        }
        if s.g.ticks < self.ticks {
            v.push(VOp::Tick);
        }
        if s.g.epochs < self.epochs {
            for i in 0..self.tables.len() {
                v.push(VOp::Epoch(i));
            }
        }
        v
    }
    fn step(&self, s: &mut State<Votes>, op: &VOp, cx: &mut Cx) {
        let (who, method, args) = match op {
            VOp::Tick => {
                s.w.advance(1_000_000_007);
                s.g.ticks += 1;
                return;
            }
            VOp::Epoch(i) => {
                s.w.next_epoch(&|_| 0);
                set_vals(&mut s.w, &self.tables[*i]);
                s.g.epochs += 1;
                return;
            }
            VOp::Vote(a, b) => (*a, "vote", json!({ "is_vote": b }).to_string()),
            VOp::Ping(a) => (*a, "ping", "{}".to_string()),
            VOp::New => ("nobody", "new", "{}".to_string()),
        };
        // reference
        let mut g = s.g.clone();
        let ended = g.b.result.is_some();
        let ok = match op {
            VOp::Vote(a, yes) => g.b.apply(&s.w, a, Some(*yes)),
            VOp::Ping(a) => g.b.apply(&s.w, a, None),
            _ => false,
        };
        let before = s.w.acc("voting").unwrap().storage.clone();
        let out = s.w.call(who, "voting", method, &args, 0);
        cx.seen(format!("{} {}", method, if out.ok() { if g.b.result.is_some() { "ends the poll" } else { "accepted" } } else { "rejected" }));
        if ok {
            s.g = g;
            for p in ["V01", "V02"] {
                cx.ensure(p, "accept", out.ok(), || format!("{:?} must succeed: {}", op, out.short()));
            }
        } else {
            let p = if ended { "V01" } else { "V02" };
            cx.ensure(p, "reject", out.is_err() && before == s.w.acc("voting").unwrap().storage, || {
                format!("{:?} must be rejected without effect{}: {}", op, if ended { " after the poll ended" } else { "" }, out.short())
            });
        }
    }
    fn check(&self, s: &State<Votes>, cx: &mut Cx) {
        let r = s.w.view("voting", "get_result", "{}").unwrap_or(json!("failed"));
        let want = s.g.b.result.map_or(Value::Null, |x| json!(x.to_string()));
        cx.ensure("V01", "result", r == want, || {
            format!("get_result is {}, expected {} (votes {:?}, stakes {:?})", r, want, s.g.b.votes, s.w.validators)
        });
        let votes = s.w.view("voting", "get_votes", "{}").unwrap_or(json!("failed"));
        let wv: BTreeMap<String, String> = s.g.b.votes.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
        cx.ensure("V02", "votes", votes == json!(wv), || format!("get_votes is {}, expected {:?}", votes, wv));
        let t = s.w.view("voting", "get_total_voted_stake", "{}").unwrap_or(json!("failed"));
        let wt = json!([s.g.b.votes.values().sum::<u128>().to_string(), s.w.validators.values().sum::<u128>().to_string()]);
        cx.ensure("V02", "total", t == wt, || format!("get_total_voted_stake is {}, expected {}", t, wt));
    }
}
fn voting(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let mut w = World::new(c.env(&["voting_contract"], &[], true, 0));
    w.contract("voting", "voting_contract", 100 * NEAR);
    for u in ["val1", "val2", "val3", "nobody"] {
        w.user(u, 10 * NEAR);
    }
    w.signers = std::sync::Arc::new(vec![("val1", "val2"), ("val2", "val3"), ("val3", "val1"), ("nobody", "val1")]);
    w.must("nobody", "voting", "new", "{}", 0);
    w.clear_events();
    let mk = |tables: Vec<Vec<u128>>, epochs, ticks| Voting { start: w.clone(), tables, epochs, ticks };
    let b = 1_000_000 * NEAR;
    let mut v = vec![
        sc(mk(vec![vec![1, 1, 1], vec![2, 1, 1], vec![3, 2, 1], vec![5, 0, 2], vec![4, 4, 0], vec![3, 3, 2]], c.pick(2, 3), 1), 100),
        sc(mk(vec![vec![34 * b, 33 * b, 33 * b], vec![33 * b + 1, 33 * b + 1, 33 * b - 1], vec![33 * b, 33 * b + 1, 33 * b + 1], vec![0, 0, 7], vec![60 * b, 10 * b, 30 * b + 2]], c.pick(2, 3), 0), 100),
    ];
    v.push(electorate(&w));
    if c.thorough {
        v.push(sc(mk(vec![vec![4, 3, 2], vec![3, 3, 3], vec![0, 0, 0], vec![7, 1, 1], vec![1, 7, 4], vec![2, 0, 1]], 4, 0), 100));
    }
    v
}

/// Polls with many validators, who vote one after the other.
#[derive(Clone, Debug)]
struct Electorate {
    n: usize,
    /// stake of the i-th validator: 0 equal, 1 growing, 2 one of them large, 3 NEAR scale
    shape: usize,
    /// the epoch changes after this many votes; then the stakes are reversed, and some have none
    change: usize,
    /// every this many votes one vote is withdrawn (0: never)
    withdraw: usize,
}
fn electorate(w: &World) -> Box<dyn Scenario> {
    let mut cases = vec![];
    for n in [1usize, 2, 4, 5, 6, 7, 10, 16, 17, 33, 64, 100] {
        for shape in 0..4 {
            for change in [0, 1, n / 2, 2 * n / 3, 2 * n / 3 + 1, n] {
                for withdraw in [0, 2, 5] {
                    cases.push(Electorate { n, shape, change, withdraw });
                }
            }
        }
    }
    let run = |w: &mut World, k: &Electorate, cx: &mut Cx| {
        let name = |i: usize| format!("v{}.near", i);
        let stake = |i: usize| match k.shape {
            0 => 5,
            1 => i as u128 + 1,
            2 => if i == k.n / 2 { 2 * k.n as u128 } else { 1 },
            _ => (1_000_000 + 7919 * i as u128) * NEAR + 1,
        };
        for i in 0..k.n {
            w.user(&name(i), 10 * NEAR);
        }
        w.validators = std::sync::Arc::new((0..k.n).map(|i| (name(i), stake(i))).collect());
        let mut b = Ballot::default();
        let mut act = |w: &mut World, i: usize, vote: Option<bool>, cx: &mut Cx| {
            let ok = b.apply(w, &name(i), vote);
            let o = match vote {
                Some(yes) => w.call(&name(i), "voting", "vote", &json!({ "is_vote": yes }).to_string(), 0),
                None => w.call(&name(i), "voting", "ping", "{}", 0),
            };
            for p in ["V01", "V02"] {
                cx.ensure(p, "accept", o.ok() == ok, || format!("{:?}: vote {:?} of validator {}: expected {}, got {}", k, vote, i, ok, o.short()));
            }
            let r = w.view("voting", "get_result", "{}").unwrap_or(json!("failed"));
            cx.ensure("V01", "result", r == b.result.map_or(Value::Null, |x| json!(x.to_string())), || format!("{:?}: after vote {:?} of validator {}: get_result is {}, expected {:?}", k, vote, i, r, b.result));
            let votes = w.view("voting", "get_votes", "{}").unwrap_or(json!("failed"));
            let wv: BTreeMap<String, String> = b.votes.iter().map(|(k, v)| (k.clone(), v.to_string())).collect();
            cx.ensure("V02", "votes", votes == json!(wv), || format!("{:?}: after vote {:?} of validator {}: get_votes is {}, expected {:?}", k, vote, i, votes, wv));
            let t = w.view("voting", "get_total_voted_stake", "{}").unwrap_or(json!("failed"));
            let wt = json!([b.votes.values().sum::<u128>().to_string(), w.validators.values().sum::<u128>().to_string()]);
            cx.ensure("V02", "total", t == wt, || format!("{:?}: after vote {:?} of validator {}: get_total_voted_stake is {}, expected {}", k, vote, i, t, wt));
            b.result.is_some()
        };
        let mut ended = false;
        for i in 0..k.n {
            if i == k.change && i > 0 {
                w.next_epoch(&|_| 0);
                w.validators = std::sync::Arc::new((0..k.n).filter(|i| i % 5 != 3).map(|i| (name(i), stake(k.n - 1 - i))).collect());
                ended |= act(w, i, None, cx);
                if ended {
                    break;
                }
            }
            w.advance(1_000_000_007);
            ended |= act(w, i, Some(true), cx);
            if ended {
                break;
            }
            if k.withdraw > 0 && i % k.withdraw == 1 {
                ended |= act(w, i / 2, Some(false), cx);
            }
        }
        // nothing more once it has ended
        w.next_epoch(&|_| 0);
        act(w, 0, Some(false), cx);
        act(w, k.n - 1, Some(true), cx);
        cx.seen(if ended { "ended" } else { "open" });
    };
    sc(Cases { name: "many validators".into(), start: w.clone(), cases, run }, 1)
}

// --------------------------------------------------------------------------- state manipulation

struct StateMan {
    start: World,
    target: &'static str,
    keys: Vec<&'static [u8]>,
    vals: Vec<&'static [u8]>,
    len: usize,
    clean: bool,
    replace: bool,
    prop: &'static str,
}
#[derive(Clone)]
struct SOp {
    replace: bool,
    input: String,
    /// None: malformed
    effect: Option<Vec<(Vec<u8>, Option<Vec<u8>>)>>,
}
impl std::fmt::Debug for SOp {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{} {}", if self.replace { "replace" } else { "clean" }, self.input)
    }
}
fn b64(b: &[u8]) -> String {
    base64::encode(b)
}
fn lists<T: Clone>(xs: &[T], n: usize) -> Vec<Vec<T>> {
    let mut all = vec![vec![]];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        cur = cur.iter().flat_map(|l| xs.iter().map(move |x| { let mut l = l.clone(); l.push(x.clone()); l })).collect();
        all.extend(cur.clone());
    }
    all
}
impl Model for StateMan {
    type G = BTreeMap<Vec<u8>, Vec<u8>>;
    type Op = SOp;
    fn name(&self) -> String {
        format!("state-manipulation build {}, {} keys, {} values, lists up to {}", self.target, self.keys.len(), self.vals.len(), self.len)
    }
    fn init(&self) -> Vec<State<Self::G>> {
        vec![State { w: self.start.clone(), g: self.start.acc(self.target).unwrap().storage.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect() }]
    }
    fn ops(&self, _: &State<Self::G>) -> Vec<SOp> {
        let mut v = vec![];
        let entries: Vec<(&[u8], &[u8])> = self.keys.iter().flat_map(|k| self.vals.iter().map(move |x| (*k, *x))).collect();
        for l in lists(&entries, self.len) {
            v.push(SOp {
                replace: true,
                input: json!({"entries": l.iter().map(|(k, x)| json!([b64(k), b64(x)])).collect::<Vec<_>>()}).to_string(),
                effect: Some(l.iter().map(|(k, x)| (k.to_vec(), Some(x.to_vec()))).collect()),
            });
        }
        for l in lists(&self.keys, self.len + 1) {
            v.push(SOp {
                replace: false,
                input: json!({"keys": l.iter().map(|k| b64(k)).collect::<Vec<_>>()}).to_string(),
                effect: Some(l.iter().map(|k| (k.to_vec(), None)).collect()),
            });
        }
        let mut bad = |replace, input: Value| v.push(SOp { replace, input: input.to_string(), effect: None });
        let (k, x) = (b64(self.keys[1]), b64(self.vals[1]));
        let good = json!([k, x]);
        for wrong in [json!(["!!", x]), json!([k, "!!"]), json!([k]), json!([k, x, x]), json!(k), json!([1, x]), json!([k, null]), json!([k, "a"]), json!({})] {
            bad(true, json!({"entries": [wrong]}));
            bad(true, json!({"entries": [good, wrong]}));
            bad(true, json!({"entries": [wrong, good]}));
            bad(true, json!({"entries": [good, good, wrong, good]}));
        }
        for wrong in [json!("!!"), json!(7), json!(null), json!(["x"]), json!("a")] {
            bad(false, json!({"keys": [wrong]}));
            bad(false, json!({"keys": [k, wrong]}));
            bad(false, json!({"keys": [wrong, k]}));
        }
        for x in [json!({}), json!([]), json!({"entries": k}), json!({"keys": k}), json!(null)] {
            bad(true, x.clone());
            bad(false, x);
        }
        bad(true, json!({"keys": [k]}));
        bad(false, json!({"entries": [good]}));
        v.push(SOp { replace: true, input: "".into(), effect: None });
        v.push(SOp { replace: false, input: "{\"keys\":[".into(), effect: None });
        v
    }
    fn step(&self, s: &mut State<Self::G>, op: &SOp, cx: &mut Cx) {
        let m = if op.replace { "replace" } else { "clean" };
        let avail = if op.replace { self.replace } else { self.clean };
        let out = s.w.call("user", self.target, m, &op.input, 0);
        cx.seen(format!("{} {}", m, if out.ok() { "ok" } else { "failed" }));
        let p = if avail { self.prop } else { "X02" };
        match &op.effect {
            Some(e) if avail => {
                for (k, v) in e {
                    match v {
                        Some(v) => s.g.insert(k.clone(), v.clone()),
                        None => s.g.remove(k),
                    };
                }
                cx.ensure(p, "accept", out.ok(), || format!("{:?} failed: {}", op, out.short()));
            }
            _ => cx.ensure(p, "reject", out.is_err(), || format!("{:?} must fail: {}", op, out.short())),
        }
        let st: &Storage = &s.w.acc(self.target).unwrap().storage;
        let got: BTreeMap<Vec<u8>, Vec<u8>> = st.iter().map(|(k, v)| (k.to_vec(), v.to_vec())).collect();
        cx.ensure(p, "state", got == s.g, || format!("after {:?} the storage is {:?}, expected {:?}", op, show(&got), show(&s.g)));
    }
    fn check(&self, _: &State<Self::G>, _: &mut Cx) {}
}
fn show(m: &BTreeMap<Vec<u8>, Vec<u8>>) -> Vec<String> {
    m.iter().map(|(k, v)| format!("{:?}->{:?}", String::from_utf8_lossy(k), String::from_utf8_lossy(v))).collect()
}
fn sm_world(c: &Ctx) -> World {
    let mut w = World::new(c.env(&["state_all", "state_clean", "state_replace"], &[], false, 0));
    for n in ["state_all", "state_clean", "state_replace"] {
        w.contract(n, n, 100 * NEAR);
        w.edit(n, |a| {
            a.storage = std::sync::Arc::new([(bytes(b"keep"), bytes(b"kept")), (bytes(b"ab"), bytes(b"1"))].into_iter().collect());
        });
    }
    w.user("user", 10 * NEAR);
    w
}
const KEYS: [&[u8]; 3] = [b"", b"a", b"ab"];
const VALS_: [&[u8]; 3] = [b"", b"x", b"yy\xff"];
fn x01(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let w = sm_world(c);
    let big = Cases {
        name: "long and binary keys and values".into(),
        start: w.clone(),
        cases: {
            let mut v = vec![];
            for kl in [1usize, 2, 3, 63, 64, 65, 255, 256, 257, 1000, 2048] {
                for vl in [0usize, 1, 3, 255, 256, 1000, 5000, 20000] {
                    for b in [0u8, 0x41, 0x7f, 0x80, 0xff] {
                        v.push((kl, vl, b));
                    }
                }
            }
            v
        },
        run: |w: &mut World, &(kl, vl, b): &(usize, usize, u8), cx: &mut Cx| {
            let k: Vec<u8> = (0..kl).map(|i| b.wrapping_add((i % 7) as u8)).collect();
            let v: Vec<u8> = (0..vl).map(|i| b.wrapping_sub((i % 251) as u8)).collect();
            let base = w.acc("state_all").unwrap().storage.clone();
            let o = w.call("user", "state_all", "replace", &json!({"entries": [[b64(&k), b64(&v)]]}).to_string(), 0);
            let mut want = (*base).clone();
            want.insert(bytes(&k), bytes(&v));
            cx.ensure("X01", "big", o.ok() && *w.acc("state_all").unwrap().storage == want, || format!("replace of a {}-byte key with a {}-byte value: {}", kl, vl, o.short()));
            let o = w.call("user", "state_all", "clean", &json!({"keys": [b64(&k)]}).to_string(), 0);
            want.remove(&k[..]);
            cx.ensure("X01", "big", o.ok() && *w.acc("state_all").unwrap().storage == want, || format!("clean of a {}-byte key: {}", kl, o.short()));
        },
    };
    let long = Cases {
        name: "long lists".into(),
        start: w.clone(),
        cases: [3usize, 4, 5, 8, 9, 10, 16, 17, 31, 32, 33, 50, 64, 100, 150].iter().flat_map(|n| (0..3).map(move |dup| (*n, dup))).collect(),
        run: |w: &mut World, &(n, dup): &(usize, usize), cx: &mut Cx| {
            // dup: 0 no key twice, 1 every key twice, 2 the first key again at the end
            let key = |i: usize| -> Vec<u8> {
                let j = match dup {
                    1 => i / 2,
                    2 if i + 1 == n => 0,
                    _ => i,
                };
                format!("key {}", (j * 7919) % 1009).into_bytes()
            };
            let val = |i: usize| format!("value {}", i).into_bytes();
            let mut want = (*w.acc("state_all").unwrap().storage).clone();
            let e: Vec<Value> = (0..n).map(|i| json!([b64(&key(i)), b64(&val(i))])).collect();
            let o = w.call("user", "state_all", "replace", &json!({ "entries": e }).to_string(), 0);
            for i in 0..n {
                want.insert(bytes(&key(i)), bytes(&val(i)));
            }
            cx.ensure("X01", "long", o.ok() && *w.acc("state_all").unwrap().storage == want, || format!("replace of {} entries (kind {}): {}", n, dup, o.short()));
            // all but the last third
            let l: Vec<String> = (0..n - n / 3).map(|i| b64(&key(i))).collect();
            let o = w.call("user", "state_all", "clean", &json!({ "keys": l }).to_string(), 0);
            for i in 0..n - n / 3 {
                want.remove(&key(i)[..]);
            }
            cx.ensure("X01", "long", o.ok() && *w.acc("state_all").unwrap().storage == want, || format!("clean of {} keys (kind {}): {}", n - n / 3, dup, o.short()));
        },
    };
    vec![
        sc(long, 1),
        sc(StateMan { start: w.clone(), target: "state_all", keys: KEYS.to_vec(), vals: VALS_.to_vec(), len: c.pick(2, 3), clean: true, replace: true, prop: "X01" }, 100),
        sc(big, 1),
    ]
}
fn x02(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let w = sm_world(c);
    let exports: Vec<(&'static str, Vec<String>)> = w
        .env
        .codes
        .iter()
        .map(|k| match k {
            CodeKind::Wasm(x) => (["state_all", "state_clean", "state_replace"].into_iter().find(|n| *n == x.name).unwrap(), x.exports()),
            _ => unreachable!(),
        })
        .collect();
    let ex = Cases {
        name: "exported methods of each build".into(),
        start: w.clone(),
        cases: exports,
        run: |_: &mut World, (n, e): &(&'static str, Vec<String>), cx: &mut Cx| {
            let mut e = e.clone();
            e.sort();
            let want: Vec<&str> = match *n {
                "state_all" => vec!["clean", "replace"],
                "state_clean" => vec!["clean"],
                _ => vec!["replace"],
            };
            cx.ensure("X02", "exports", e == want, || format!("build {} exports {:?}, expected {:?}", n, e, want));
        },
    };
    let m = |t, clean, replace| StateMan { start: w.clone(), target: t, keys: KEYS.to_vec(), vals: VALS_.to_vec(), len: 2, clean, replace, prop: "X02" };
    vec![sc(ex, 1), sc(m("state_clean", true, false), 100), sc(m("state_replace", false, true), 100), sc(m("state_all", true, true), 100)]
}
