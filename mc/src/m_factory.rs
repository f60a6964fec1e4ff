//! The three factories: staking pools, lockups and multisigs, with the real created contracts.
use crate::check::*;
use crate::explore::*;
use crate::vm::{valid_account, Action};
use crate::world::*;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

const A: &[&str] = &[
    "the expected state of a created contract is that of the same contract initialised directly with the expected arguments",
    "the factory's completion callback itself does not run out of gas (decided by G01 and G02)",
];
pub fn checks() -> Vec<Check> {
    let c = |prop, contracts, make| Check { prop, contracts, make, assumptions: A };
    vec![
        c("F01", &["whitelist", "staking-pool-factory"] as &[_], sp as fn(&Ctx) -> Vec<Box<dyn Scenario>>),
        c("F02", &["whitelist", "staking-pool-factory"], sp),
        c("F03", &["lockup-factory"], lk),
        c("F04", &["lockup-factory"], lk),
        c("F05", &["multisig-factory"], ms),
    ]
}
#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Sp,
    Lk,
    Ms,
}
use Kind::*;
impl Kind {
    fn method(self) -> &'static str {
        match self {
            Sp => "create_staking_pool",
            _ => "create",
        }
    }
    fn code(self) -> &'static str {
        match self {
            Sp => "staking_pool",
            Lk => "lockup_contract",
            Ms => "multisig2",
        }
    }
    fn min(self) -> u128 {
        match self {
            Sp => 30 * NEAR,
            Lk => 3_500_000_000_000_000_000_000_000,
            Ms => 0,
        }
    }
    /// (created right, failed right)
    fn props(self) -> (&'static str, &'static str) {
        match self {
            Sp => ("F01", "F02"),
            Lk => ("F03", "F04"),
            Ms => ("F05", "F05"),
        }
    }
}

#[derive(Clone, Debug)]
struct Rq {
    label: String,
    /// arguments of the factory's method
    args: Value,
    /// the account to be created
    target: String,
    /// arguments the new contract must be initialised with; None: the factory must reject the request
    init: Option<Value>,
    deposit: u128,
}

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Create(&'static str, usize),
    /// deliver the head of a channel, optionally making the execution fail
    Deliver(usize, bool),
    /// the foundation adds or removes the factory
    Whitelist(bool),
    /// an outsider calls the completion callback
    Callback(&'static str, usize, usize),
    Reinit,
}
use Op::*;

#[derive(Clone, Hash, Default)]
struct G {
    /// requests under way, by target: requests (in order of submission)
    pending: BTreeMap<String, Vec<(usize, &'static str)>>,
    created: BTreeMap<String, (usize, &'static str)>,
    whitelisted: BTreeSet<String>,
    /// created pools whose listing was made to fail or refused by the whitelist
    unlisted: BTreeSet<String>,
    factory_ok: bool,
    failed: bool,
    open: u64,
    fails: u64,
}

struct Fac {
    name: String,
    kind: Kind,
    factory: String,
    rqs: Vec<Rq>,
    ops: Vec<Op>,
    inits: Vec<State<G>>,
    start: World,
    interleave: u64,
    max_fail: u64,
    /// the expected account of each request
    want: Vec<Result<Arc<Account>, String>>,
    others: Vec<String>,
}

fn scratch(start: &World, factory: &str, kind: Kind, rq: &Rq) -> Result<Arc<Account>, String> {
    let init = rq.init.as_ref().ok_or("rejected")?;
    let mut w = World::new(start.env.clone());
    w.block = start.block;
    w.ts = start.ts;
    w.epoch = start.epoch;
    w.user(factory, 1000 * NEAR);
    w.contract(&rq.target, kind.code(), rq.deposit);
    let rid = w.submit(factory, &rq.target, "new", &init.to_string(), 0);
    w.drain();
    if !w.first_ok(rid) {
        return Err(w.outcome(rid).short());
    }
    Ok(w.accounts[&id(&rq.target)].clone())
}
fn same(a: &Account, b: &Account) -> Option<String> {
    let mut d = vec![];
    if a.amount + a.locked != b.amount + b.locked {
        d.push(format!("funds {} instead of {}", a.amount + a.locked, b.amount + b.locked));
    }
    if a.locked != b.locked || a.stakes != b.stakes || a.stake_pk != b.stake_pk {
        d.push(format!("stake {:?} instead of {:?}", (a.locked, a.stakes), (b.locked, b.stakes)));
    }
    if a.code != b.code {
        d.push("different code".into());
    }
    if a.keys != b.keys {
        d.push(format!("access keys {:?} instead of {:?}", a.keys, b.keys));
    }
    if a.storage != b.storage {
        d.push("different contract state".into());
    }
    if d.is_empty() {
        None
    } else {
        Some(d.join(", "))
    }
}

impl Fac {
    fn deliver(&self, s: &mut State<G>, c: &Chan, fail: bool, cx: &mut Cx) {
        let x = s.w.peek(c);
        let (made, failed) = self.kind.props();
        if let Some((a, _)) = &x {
            let creates = a.actions.iter().any(|x| matches!(x, Action::CreateAccount));
            if creates && &*a.predecessor == self.factory.as_str() {
                let t = a.receiver.to_string();
                let exists = s.w.acc(&t).is_some();
                let dep = deposits(&a.actions);
                // the oldest pending request for this name
                let p = match s.g.pending.get_mut(&t) {
                    Some(v) if !v.is_empty() => v.remove(0),
                    _ => {
                        cx.fail(made, "unasked", format!("an account {} is created that nobody asked for", t));
                        s.w.deliver(c, fail);
                        return;
                    }
                };
                s.g.pending.retain(|_, v| !v.is_empty());
                cx.ensure(made, "deposit", dep == self.rqs[p.0].deposit, || format!("{} funded with {} instead of {}", t, dep, self.rqs[p.0].deposit));
                let ok = !exists && !fail && self.want[p.0].is_ok();
                let rid = a.id;
                s.w.deliver(c, fail);
                let did = s.w.first_ok(rid);
                cx.seen(format!("creation {}", if did { "succeeded" } else if fail { "made to fail" } else if exists { "failed: account exists" } else { "failed: initialisation" }));
                cx.ensure(made, "creation", did == ok, || format!("creation of {} for {}: {:?}, expected {:?}", t, self.rqs[p.0].label, s.w.event(rid).map(|e| e.result.clone()), self.want[p.0].as_ref().map(|_| ())));
                if did {
                    s.g.created.insert(t, p);
                } else {
                    s.g.failed = true;
                }
                return;
            }
            if &*a.receiver == "whitelist" && &*a.predecessor == self.factory.as_str() {
                if let [Action::Call { method, args, .. }] = a.actions.as_slice() {
                    let n = parse(args)["staking_pool_account_id"].as_str().unwrap_or("").to_string();
                    cx.ensure(failed, "whitelist-call", method == "add_staking_pool" && s.g.created.contains_key(&n), || format!("the factory calls {}({}) on the whitelist", method, n));
                    if !fail && s.g.factory_ok {
                        s.g.whitelisted.insert(n);
                    } else {
                        s.g.unlisted.insert(n);
                    }
                }
            }
        }
        s.w.deliver(c, fail);
    }
    /// what may be made to fail: the new account's creation and the whitelist's execution
    fn may_fail(&self, s: &State<G>, c: &Chan) -> bool {
        match s.w.peek(c) {
            Some((a, _)) => {
                &*a.predecessor == self.factory.as_str()
                    && (a.actions.iter().any(|x| matches!(x, Action::CreateAccount)) || &*a.receiver == "whitelist")
            }
            None => false,
        }
    }
    fn accept(&self, s: &State<G>, r: usize) -> bool {
        let rq = &self.rqs[r];
        rq.init.is_some()
            && rq.deposit >= self.kind.min()
            && (self.kind != Sp || !(s.g.pending.contains_key(&rq.target) || s.g.created.contains_key(&rq.target) || self.held(s, &rq.target)))
    }
    /// the name's creation has failed but the factory has not been told yet
    fn held(&self, s: &State<G>, target: &str) -> bool {
        s.w.postponed.values().any(|a| {
            a.actions.iter().any(|x| match x {
                Action::Call { method, args, .. } => method == "on_staking_pool_create" && parse(args)["staking_pool_account_id"] == *target,
                _ => false,
            })
        })
    }
}

impl Model for Fac {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<G>> {
        self.inits.clone()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        let mut v = vec![];
        for (i, c) in s.w.chans().iter().enumerate() {
            v.push(Deliver(i, false));
            if s.g.fails < self.max_fail && self.may_fail(s, c) {
                v.push(Deliver(i, true));
            }
        }
        if s.w.quiet() || (self.interleave > 0 && s.g.open < self.interleave) {
            v.extend(self.ops.iter().filter(|o| !(matches!(o, Whitelist(_)) && !s.w.quiet())).cloned());
        }
        v
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        s.w.clear_events();
        let (made, failed) = self.kind.props();
        let f = self.factory.as_str();
        match op {
            Create(u, r) => {
                let rq = &self.rqs[*r];
                let accept = self.accept(s, *r);
                let had = s.g.created.contains_key(&rq.target);
                let before = s.w.acc(f).unwrap().storage.clone();
                let rid = s.w.submit(u, f, self.kind.method(), &rq.args.to_string(), rq.deposit);
                s.g.open += 1;
                let c: Chan = (id(u), id(f));
                while s.w.queue.contains_key(&c) {
                    s.w.deliver(&c, false);
                }
                let ok = s.w.first_ok(rid);
                let e = || format!("{} by {} with {}: {:?}", rq.label, u, rq.deposit, s.w.event(rid).map(|e| e.result.clone()));
                if self.kind == Sp {
                    cx.ensure(made, "accepted", ok == accept, || format!("{}, expected {}", e(), if accept { "acceptance" } else { "rejection" }));
                } else if self.kind == Lk && !accept {
                    cx.ensure(made, "accepted", !ok, || format!("{}, expected rejection", e()));
                } else if accept {
                    cx.ensure(made, "accepted", ok || self.want[*r].is_err(), || format!("{}, expected acceptance", e()));
                }
                cx.seen(format!("request {}", if ok { "accepted" } else { "rejected" }));
                if ok {
                    s.g.pending.entry(rq.target.clone()).or_default().push((*r, u));
                } else {
                    cx.ensure(made, "effect", s.w.acc(f).unwrap().storage == before, || format!("{} was rejected but changed the state", e()));
                }
                if self.interleave == 0 {
                    while let Some(c) = s.w.next_chan() {
                        self.deliver(s, &c, false, cx);
                    }
                    if ok {
                        let did = !had && s.g.created.contains_key(&rq.target);
                        let o = s.w.outcome(rid);
                        if did && (self.kind != Sp || s.g.whitelisted.contains(&rq.target)) {
                            cx.ensure(made, "result", o == Out::Ok(json!(true)), || format!("{} returned {}", rq.label, o.short()));
                        } else if !did {
                            cx.ensure(failed, "result", o == Out::Ok(json!(false)), || format!("{} failed and returned {}", rq.label, o.short()));
                        }
                    }
                }
            }
            Deliver(i, fail) => {
                let c = s.w.chans()[*i].clone();
                if *fail {
                    s.g.fails += 1;
                }
                self.deliver(s, &c, *fail, cx);
            }
            Whitelist(on) => {
                let m = if *on { "add_factory" } else { "remove_factory" };
                s.w.must("foundation", "whitelist", m, &json!({"factory_account_id": f}).to_string(), 0);
                s.g.factory_ok = *on;
            }
            Callback(u, r, k) => {
                let rq = &self.rqs[*r];
                let (m, key) = match self.kind {
                    Sp => ("on_staking_pool_create", "staking_pool_account_id"),
                    Lk => ("on_lockup_create", "lockup_account_id"),
                    Ms => ("on_multisig_create", "multisig_account_id"),
                };
                let before = s.w.acc(f).unwrap().storage.clone();
                let total = s.w.amount(f);
                let rid = s.w.submit_after(u, f, m, &json!({key: rq.target, "attached_deposit": (50 * NEAR).to_string(), "predecessor_account_id": u}).to_string(), 0, given(*k));
                let c: Chan = (id(u), id(f));
                while s.w.queue.contains_key(&c) {
                    s.w.deliver(&c, false);
                }
                cx.ensure(failed, "callback", !s.w.first_ok(rid) && s.w.acc(f).unwrap().storage == before && s.w.amount(f) == total, || format!("{} called the completion callback: {}", u, s.w.outcome(rid).short()));
            }
            Reinit => {
                let args = match self.kind {
                    Sp => json!({"staking_pool_whitelist_account_id": "alice"}),
                    Lk => json!({"whitelist_account_id": "alice", "foundation_account_id": "alice"}),
                    Ms => json!({}),
                };
                let before = s.w.acc(f).unwrap().storage.clone();
                s.w.call("alice", f, "new", &args.to_string(), 0);
                cx.ensure(made, "reinit", s.w.acc(f).unwrap().storage == before, || "the factory was initialised again".into());
            }
        }
        if s.w.quiet() {
            s.g.open = 0;
        }
    }
    fn check(&self, s: &State<G>, cx: &mut Cx) {
        let (made, failed) = self.kind.props();
        // an existing account is never affected, not even for a moment
        for n in &self.others {
            let same = s.w.acc(n).map(|a| (a.storage.clone(), a.amount, a.keys.clone(), a.code.clone())) == self.start.acc(n).map(|a| (a.storage.clone(), a.amount, a.keys.clone(), a.code.clone()));
            cx.ensure(failed, "existing", same, || format!("the existing account {} was changed", n));
        }
        // what is whitelisted was really created
        if self.kind == Sp {
            for rq in &self.rqs {
                let v = s.w.view("whitelist", "is_whitelisted", &json!({"staking_pool_account_id": rq.target}).to_string());
                let e = s.g.whitelisted.contains(&rq.target);
                cx.ensure(made, "whitelisted", v.as_ref().map_or(!e, |v| *v == json!(e)), || format!("{} whitelisted: {:?}, expected {}", rq.target, v, e));
                if !e {
                    cx.ensure(failed, "whitelisted", v.as_ref().map_or(true, |v| *v == json!(false)), || format!("{} is whitelisted without a completed creation", rq.target));
                }
            }
        }
        if !s.w.quiet() {
            return;
        }
        for u in ["alice", "bob"] {
            let spent: u128 = s.g.created.values().filter(|(_, x)| *x == u).map(|(r, _)| self.rqs[*r].deposit).sum();
            let (got, exp) = (s.w.amount(u), self.start.amount(u) - spent);
            let p = if s.g.failed { failed } else { made };
            cx.ensure(p, "refund", got == exp, || format!("{} has {}, expected {}", u, got, exp));
        }
        let f = s.w.amount(&self.factory);
        let p = if s.g.failed { failed } else { made };
        cx.ensure(p, "factory-funds", f == self.start.amount(&self.factory), || format!("the factory has {}, expected {}", f, self.start.amount(&self.factory)));
        if self.kind == Sp {
            for t in s.g.created.keys() {
                let sent = s.g.whitelisted.contains(t) || s.g.unlisted.contains(t);
                cx.ensure(made, "listing", sent, || format!("{} was created, but the factory never asked the whitelist to list it", t));
            }
            let v = s.w.view(&self.factory, "get_number_of_staking_pools_created", "{}");
            for p in if s.g.failed { vec![made, failed] } else { vec![made] } {
                cx.ensure(p, "count", v == Ok(json!(s.g.created.len())), || format!("count {:?}, expected {}", v, s.g.created.len()));
            }
        }
        let mut expect: BTreeSet<String> = self.start.existing();
        for (t, (r, _)) in &s.g.created {
            expect.insert(t.clone());
            if let (Some(a), Ok(b)) = (s.w.acc(t), &self.want[*r]) {
                let d = same(a, b);
                cx.ensure(made, "terms", d.is_none(), || format!("{} created by {}: {}", t, self.rqs[*r].label, d.unwrap()));
            }
        }
        let now = s.w.existing();
        cx.ensure(made, "accounts", now == expect, || format!("accounts {:?}, expected {:?}", now, expect));
        if s.g.failed {
            cx.ensure(failed, "accounts", now == expect, || format!("accounts {:?}, expected {:?}", now, expect));
        }
    }
}

fn build(name: &str, kind: Kind, factory: &str, start: &World, rqs: Vec<Rq>, ops: Vec<Op>, il: u64, fails: u64) -> Fac {
    let want: Vec<_> = rqs.iter().map(|r| scratch(start, factory, kind, r)).collect();
    let g = G { factory_ok: true, ..Default::default() };
    Fac {
        name: name.into(),
        kind,
        factory: factory.into(),
        rqs,
        ops,
        inits: vec![State { w: start.clone(), g }],
        start: start.clone(),
        interleave: il,
        max_fail: fails,
        want,
        others: vec![format!("taken.{}", factory), "alice2".into()],
    }
}
pub fn base(c: &Ctx, wasm: &str, code: &str, factory: &str) -> World {
    let mut w = World::new(c.env(&["whitelist", wasm, code], &[], true, 0));
    w.contract("whitelist", "whitelist", 100 * NEAR);
    w.contract(factory, wasm, 100 * NEAR);
    for u in ["alice", "bob", "foundation", "alice2"] {
        w.user(u, 10_000 * NEAR);
    }
    w.signers = std::sync::Arc::new(vec![("alice", "bob"), ("bob", "alice2"), ("foundation", "alice"), ("alice2", "foundation")]);
    w.must("foundation", "whitelist", "new", &json!({"foundation_account_id": "foundation"}).to_string(), 0);
    w.must("foundation", "whitelist", "add_factory", &json!({ "factory_account_id": factory }).to_string(), 0);
    // an account that already has the name
    w.user(&format!("taken.{}", factory), 7 * NEAR);
    w.clear_events();
    w
}

fn sp(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let f = "factory";
    let mut w = base(c, "staking_pool_factory", "staking_pool", f);
    let un = w.clone();
    w.must("foundation", f, "new", &json!({"staking_pool_whitelist_account_id": "whitelist"}).to_string(), 0);
    w.clear_events();
    let rq = |pid: &str, owner: &str, key: String, fee: (u32, u32), deposit: u128| {
        let target = format!("{}.{}", pid, f);
        let ok = bs58::decode(key.trim_start_matches("ed25519:")).into_vec().map_or(false, |k| k.len() >= 32) && !pid.contains('.') && valid_account(&target) && valid_account(owner) && fee.1 > 0 && fee.0 <= fee.1;
        let fee = json!({"numerator": fee.0, "denominator": fee.1});
        Rq {
            label: format!("create_staking_pool({}, {}, {}, {})", pid, owner, key, fee),
            args: json!({"staking_pool_id": pid, "owner_id": owner, "stake_public_key": key, "reward_fee_fraction": fee}),
            target,
            init: if ok { Some(json!({"owner_id": owner, "stake_public_key": key, "reward_fee_fraction": fee})) } else { None },
            deposit,
        }
    };
    // every combination of arguments
    let long = "x".repeat(57);
    let longer = "x".repeat(56);
    let names = ["pool1", "p_2-a", "taken", "", "Bad", "a.b", "-x", &long, &longer, "pool1.factory"];
    let owners = ["alice", "some.owner.near", "Bad Owner", "", "x"];
    let short = format!("ed25519:{}", bs58::encode(&[1u8; 20]).into_string());
    let keys = [pk_bs58(1), pk_bs58(2), short.clone(), pk_bs58(UNSUITABLE)];
    let fees = [(10, 100), (0, 1), (1, 1), (101, 100), (0, 0), (1, 0), (u32::MAX, u32::MAX)];
    let min = 30 * NEAR;
    let mut rqs = vec![];
    for n in names {
        for o in owners {
            for (i, k) in keys.iter().enumerate() {
                for fee in fees {
                    for d in [0, min - 1, min, min + 123, 5000 * NEAR] {
                        let odd = !(n == "pool1") as u32 + !(o == "alice") as u32 + (i > 0) as u32 + (fee != (10, 100)) as u32 + (d != min) as u32;
                        if odd <= c.pick(2, 5) {
                            rqs.push(rq(n, o, k.clone(), fee, d));
                        }
                    }
                }
            }
        }
    }
    let ops: Vec<Op> = (0..rqs.len()).map(|i| Create("alice", i)).collect();
    let all = build("staking pool factory, all arguments", Sp, f, &w, rqs, ops, 0, 0);
    // histories: repeated requests, a factory that is not whitelisted, outsiders
    let mk = || {
        vec![
            rq("p1", "alice", pk_bs58(1), (10, 100), min),
            rq("p1", "bob", pk_bs58(2), (5, 100), min + 9),
            rq("p2", "bob", pk_bs58(2), (0, 1), 2 * min),
            rq("p1", "alice", pk_bs58(UNSUITABLE), (10, 100), min),
            rq("taken", "alice", pk_bs58(1), (1, 3), min),
            rq("p2", "bob", pk_bs58(2), (7, 1), min),
            rq("p2", "bob", pk_bs58(2), (1, 3), min - 1),
        ]
    };
    let mut ops = vec![Whitelist(true), Whitelist(false), Reinit];
    for u in ["alice", "bob"] {
        for i in 0..7 {
            ops.push(Create(u, i));
        }
        for k in 0..GIVEN {
            ops.push(Callback(u, 0, k));
            ops.push(Callback(u, 4, k));
        }
    }
    let seq = build("staking pool factory, histories", Sp, f, &w, mk(), ops, 0, 0);
    let mut ops = vec![Whitelist(false), Callback("alice", 0, 1)];
    for i in [0, 3, 4] {
        ops.push(Create("alice", i));
    }
    for i in [1, 2] {
        ops.push(Create("bob", i));
    }
    let il = build("staking pool factory, overlapping requests and failures", Sp, f, &w, mk(), ops, c.pick(2, 3), c.pick(1, 2));
    let mut ops = vec![Create("alice", 0)];
    for k in 0..GIVEN {
        ops.push(Callback("alice", 0, k));
    }
    let un = build("staking pool factory before initialisation", Sp, f, &un, vec![rq("Bad", "alice", pk_bs58(1), (10, 100), min)], ops, 0, 0);
    let un = NoViews(un);
    vec![sc(un, 1), sc(all, 1), sc(seq, c.pick(3, 4)), sc(il, c.pick(12, 18))]
}

/// the same operations on an uninitialised factory: everything must be rejected
struct NoViews(Fac);
impl Model for NoViews {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.0.name()
    }
    fn init(&self) -> Vec<State<G>> {
        self.0.init()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        self.0.ops(s)
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        self.0.step(s, op, cx)
    }
    fn check(&self, s: &State<G>, cx: &mut Cx) {
        let (made, failed) = self.0.kind.props();
        for p in [made, failed] {
            cx.ensure(p, "uninitialised", s.w.existing() == self.0.start.existing() && s.w.amount("alice") == self.0.start.amount("alice"), || "an uninitialised factory acted".into());
        }
    }
}

fn lk(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let f = "abcdefghij.lockup.near1"; // 23 characters, the longest allowed
    let mut w = base(c, "lockup_factory", "lockup_contract", f);
    let un = w.clone();
    w.must("foundation", f, "new", &json!({"whitelist_account_id": "whitelist", "foundation_account_id": "foundation"}).to_string(), 0);
    w.clear_events();
    let addr = |o: &str| format!("{}.{}", hex::encode(&Sha256::digest(o.as_bytes())[..20]), f);
    w.user(&addr("taken"), 7 * NEAR);
    let rq = |o: &str, dur: &str, ts: Option<&str>, vest: Option<Value>, rel: Option<&str>, wl: Option<&str>, deposit: u128| {
        let ok = valid_account(o) && wl.map_or(true, valid_account) && dur.parse::<u64>().is_ok();
        Rq {
            label: format!("create({}, {}, {:?}, {}, {:?}, {:?})", o, dur, ts, vest.clone().unwrap_or(Value::Null), rel, wl),
            args: json!({"owner_account_id": o, "lockup_duration": dur, "lockup_timestamp": ts, "vesting_schedule": vest, "release_duration": rel, "whitelist_account_id": wl}),
            target: addr(o),
            init: if ok {
                Some(json!({"owner_account_id": o, "lockup_duration": dur, "lockup_timestamp": ts,
                    "transfers_information": {"TransfersEnabled": {"transfers_timestamp": "1602614338293769340"}},
                    "vesting_schedule": vest, "release_duration": rel,
                    "staking_pool_whitelist_account_id": wl.unwrap_or("whitelist"),
                    "foundation_account_id": vest.as_ref().map(|_| "foundation")}))
            } else {
                None
            },
            deposit,
        }
    };
    let sched = |a: &str, b: &str, e: &str| Some(json!({"VestingSchedule": {"start_timestamp": a, "cliff_timestamp": b, "end_timestamp": e}}));
    let hash = Some(json!({"VestingHash": base64::encode(&[7u8; 32])}));
    let good = sched("1500000000000000000", "1550000000000000000", "1700000000000000000");
    let bad = sched("1550000000000000000", "1500000000000000000", "1700000000000000000");
    let min = Lk.min();
    let o64 = "a".repeat(64);
    let mut rqs = vec![];
    for o in ["alice", "bob.near", "taken", "Bad Owner", &o64] {
        for dur in ["0", "63036000000000000", "18446744073709551615", "x"] {
            for ts in [None, Some("0"), Some("1700000000000000000")] {
                for vest in [None, hash.clone(), good.clone(), bad.clone()] {
                    for rel in [None, Some("0"), Some("126230400000000000")] {
                        for wl in [None, Some("whitelist2.near"), Some("Bad WL")] {
                            for d in [0, min - 1, min, min + 1, 1000 * NEAR] {
                                let odd = (o != "alice") as u32 + (dur != "63036000000000000") as u32 + ts.is_some() as u32 + vest.is_some() as u32 + rel.is_some() as u32 + wl.is_some() as u32 + (d != 1000 * NEAR) as u32;
                                if odd <= c.pick(3, 7) {
                                    rqs.push(rq(o, dur, ts, vest.clone(), rel, wl, d));
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    let ops: Vec<Op> = (0..rqs.len()).map(|i| Create("alice", i)).collect();
    let mut all = build("lockup factory, all arguments", Lk, f, &w, rqs, ops, 0, 0);
    all.others.push(addr("taken"));
    let mk = || {
        vec![
            rq("alice", "0", None, None, None, None, 50 * NEAR),
            rq("alice", "1000", None, good.clone(), Some("5"), None, 60 * NEAR),
            rq("bob", "0", Some("77"), hash.clone(), None, Some("wl2"), min),
            rq("taken", "0", None, None, None, None, 20 * NEAR),
            rq("bob", "0", None, None, None, None, min - 1),
        ]
    };
    let mut ops = vec![Reinit];
    for u in ["alice", "bob"] {
        for i in 0..5 {
            ops.push(Create(u, i));
        }
        for k in 0..GIVEN {
            ops.push(Callback(u, 0, k));
            ops.push(Callback(u, 3, k));
        }
    }
    let mut seq = build("lockup factory, histories", Lk, f, &w, mk(), ops, 0, 0);
    seq.others.push(addr("taken"));
    let mut ops = vec![Callback("alice", 0, 1)];
    for i in 0..4 {
        ops.push(Create("alice", i));
        ops.push(Create("bob", i));
    }
    let mut il = build("lockup factory, overlapping requests and failures", Lk, f, &w, mk(), ops, c.pick(2, 4), c.pick(1, 2));
    il.others.push(addr("taken"));
    let un = NoViews(build("lockup factory before initialisation", Lk, f, &un, vec![rq("Bad Owner", "0", None, None, None, None, 50 * NEAR)], vec![Create("alice", 0), Callback("alice", 0, 0), Callback("alice", 0, 1)], 0, 0));
    vec![sc(un, 1), sc(all, 1), sc(seq, c.pick(3, 4)), sc(il, c.pick(12, 16))]
}

fn ms(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let f = "factory";
    let w = base(c, "multisig_factory", "multisig2", f);
    let key = |n: u8| json!({"public_key": pk_bs58(n)});
    let acc = |n: &str| json!({ "account_id": n });
    let rq = |n: &str, m: &[Value], k: u64, deposit: u128| {
        let target = format!("{}.{}", n, f);
        let ok = valid_account(&target) && !n.contains('.');
        let init = json!({"members": m, "num_confirmations": k});
        Rq {
            label: format!("create({}, {}, {})", n, Value::from(m.to_vec()), k),
            args: json!({"name": n, "members": m, "num_confirmations": k}),
            target,
            init: if ok { Some(init) } else { None },
            deposit,
        }
    };
    let pool = [key(1), key(2), acc("alice"), acc("bob.near")];
    let mut lists: Vec<Vec<Value>> = vec![vec![]];
    let mut last = lists.clone();
    for _ in 0..3 {
        let mut next = vec![];
        for l in &last {
            for m in &pool {
                let mut l = l.clone();
                l.push(m.clone());
                next.push(l);
            }
        }
        lists.extend(next.clone());
        last = next;
    }
    let crowd: Vec<Value> = (1..=16).map(|n| if n % 3 == 0 { acc(&format!("member{}.near", n)) } else { key(n) }).collect();
    for n in [4, 5, 8, 9, 16] {
        lists.push(crowd[..n].to_vec());
    }
    lists.push(vec![acc("Bad Name")]);
    lists.push(vec![key(1), json!({"public_key": "nonsense"})]);
    lists.push(vec![json!({})]);
    let mut rqs = vec![];
    for l in &lists {
        for k in [0u64, 1, 2, 3, 4, l.len() as u64, l.len() as u64 + 1, 1 << 32, (1 << 32) + 1] {
            if (k <= l.len() as u64 + 1 || l.len() == 2) && (k < 3 || l.len() < 4 || k > 4) {
                rqs.push(rq("ms1", l, k, 50 * NEAR));
            }
        }
    }
    let l = [key(1), acc("alice")];
    for n in ["ms2", "taken", "", "Bad", "a.b", "-x", &"x".repeat(56), &"x".repeat(57), "alice", "ms1.factory"] {
        for d in [0, 1, NEAR, 50 * NEAR, 1000 * NEAR + 1] {
            rqs.push(rq(n, &l, 2, d));
        }
    }
    let ops: Vec<Op> = (0..rqs.len()).map(|i| Create("alice", i)).collect();
    let all = build("multisig factory, all arguments", Ms, f, &w, rqs, ops, 0, 0);
    let mk = || {
        vec![
            rq("ms1", &l, 2, 50 * NEAR),
            rq("ms1", &[key(2), acc("bob")], 1, 60 * NEAR),
            rq("ms2", &[acc("bob")], 1, 40 * NEAR),
            rq("ms2", &[acc("bob")], 2, 40 * NEAR),
            rq("taken", &l, 1, 40 * NEAR),
        ]
    };
    let mut ops = vec![];
    for u in ["alice", "bob"] {
        for i in 0..5 {
            ops.push(Create(u, i));
        }
        for k in 0..GIVEN {
            ops.push(Callback(u, 0, k));
            ops.push(Callback(u, 4, k));
        }
    }
    let il = build("multisig factory, overlapping requests and failures", Ms, f, &w, mk(), ops, c.pick(2, 3), c.pick(1, 2));
    // who gets the deposit of a failed creation
    let mut cases = vec![];
    for (why, r) in [("name-in-use", mk()[4].clone()), ("initialisation-fails", mk()[3].clone())] {
        cases.push((why, r));
    }
    let refund = Cases {
        name: "multisig factory, deposit of a failed creation".into(),
        start: w,
        cases,
        run: |w: &mut World, (why, r): &(&'static str, Rq), cx: &mut Cx| {
            let before = w.amount("alice");
            w.call("alice", "factory", "create", &r.args.to_string(), r.deposit);
            let got = w.amount("alice");
            cx.ensure("F05", &format!("refund-{}", why), got == before, || format!("{} fails ({}), and {} of the attached {} are not returned to the caller", r.label, why, before - got, r.deposit));
        },
    };
    vec![sc(refund, 1), sc(all, 1), sc(il, c.pick(12, 16))]
}
