//! The chain of trust behind locked tokens: the foundation approves factories and pools on the whitelist,
//! approved factories list what they create, lockups send tokens only where the whitelist vouched.
use crate::check::*;
use crate::explore::*;
use crate::vm::{Action, PromiseResult};
use crate::world::*;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeSet;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    vec![Check {
        prop: "G04",
        contracts: &["whitelist", "staking-pool-factory", "lockup-factory"],
        make: g04,
        assumptions: &["one lockup made by the lockup factory, two pool factories (one of them a stranger's copy) and one account a stranger equipped with pool code; the foundation lists only existing pools", "user transactions are executed when submitted, contract receipts in every order; failures are injected into calls of the whitelist and deposits into pools"],
    }]
}
struct Chain {
    name: String,
    inits: Vec<State<G>>,
    lockup: String,
    /// finish everything after each transaction
    atomic: bool,
    max_open: usize,
    fails: u64,
    epochs: u64,
}
#[derive(Clone, Hash, Default)]
struct G {
    factories: BTreeSet<String>,
    listed: BTreeSet<String>,
    selected: Option<String>,
    /// accounts the whitelist has vouched for to the lockup
    vouched: BTreeSet<String>,
    fails: u64,
    epochs: u64,
    /// tokens sent to pools and not yet returned
    out: u128,
}
#[derive(Clone, Debug)]
enum Op {
    Create(&'static str, &'static str),
    /// by whom, method, account
    List(&'static str, &'static str, &'static str),
    Select(&'static str, &'static str),
    Unselect,
    Stake,
    UnstakeAll,
    WithdrawAll,
    /// a stranger creates the owner's lockup again, with a whitelist of its own
    Relock,
    Epoch,
    Deliver(usize),
    Lose(usize),
}
use Op::*;
const POOLS: [&str; 3] = ["p1.pf", "p1.pf2", "evil"];
const LOCKED: u128 = 50 * NEAR;
const STAKE: u128 = 20 * NEAR;

fn arg(a: &Value, k: &str) -> String {
    a[k].as_str().unwrap_or("?").to_string()
}
fn is_pool(w: &World, a: &str) -> bool {
    w.acc(a).map_or(false, |x| x.code == Some(CodeRef::Known(w.env.code("staking_pool"))))
}
impl Chain {
    fn deliver(&self, s: &mut State<G>, c: &Chan, fail: bool, cx: &mut Cx) {
        let head = s.w.peek(c);
        s.w.deliver(c, fail);
        let Some((a, results)) = head else { return };
        let Some(ev) = s.w.events.iter().find(|e| e.id == a.id).cloned() else { return };
        let dep = deposits(&a.actions);
        let l = &*self.lockup;
        if &*a.predecessor == l && dep > 0 {
            cx.ensure("G04", "paid", &*a.receiver == "owner" || s.g.vouched.contains(&*a.receiver) && s.g.selected.as_deref() == Some(&*a.receiver), || format!("the lockup sends {} to {} ({:?}), selected {:?}, vouched for {:?}", dep, a.receiver, a.actions, s.g.selected, s.g.vouched));
            if s.g.vouched.contains(&*a.receiver) && ev.ok() {
                s.g.out += dep;
            }
        }
        if &*a.receiver == l && ev.ok() && s.g.vouched.contains(&*a.predecessor) {
            s.g.out -= dep;
        }
        let Some((method, args)) = a.actions.iter().find_map(|x| if let Action::Call { method, args, .. } = x { Some((method.clone(), parse(args))) } else { None }) else { return };
        if &*a.receiver == "wl" {
            let p = &*a.predecessor;
            let g = &mut s.g;
            // what the call must answer; None: rejected
            let want: Option<Value> = match &*method {
                "add_staking_pool" if p == "foundation" || g.factories.contains(p) => {
                    let n = arg(&args, "staking_pool_account_id");
                    Some(json!(!g.listed.contains(&n)))
                }
                "remove_staking_pool" if p == "foundation" => Some(json!(g.listed.contains(&arg(&args, "staking_pool_account_id")))),
                "add_factory" if p == "foundation" => Some(json!(!g.factories.contains(&arg(&args, "factory_account_id")))),
                "remove_factory" if p == "foundation" => Some(json!(g.factories.contains(&arg(&args, "factory_account_id")))),
                "is_whitelisted" => Some(json!(g.listed.contains(&arg(&args, "staking_pool_account_id")))),
                _ => None,
            };
            let want = if fail { None } else { want };
            let got = match &ev.result {
                Ok(Res::Value(v)) => Some(parse(v)),
                Ok(_) => Some(Value::Null),
                Err(_) => None,
            };
            cx.ensure("G04", "whitelist", got == want, || format!("{} by {} with {}: answered {:?}, expected {:?}", method, p, args, got, want));
            if got.is_some() {
                let n = arg(&args, "staking_pool_account_id");
                let f = arg(&args, "factory_account_id");
                match &*method {
                    "add_staking_pool" => {
                        if p.starts_with("pf") {
                            cx.seen("a factory lists a pool");
                            cx.ensure("G04", "listed", n.ends_with(&format!(".{}", p)) && is_pool(&s.w, &n), || format!("factory {} has {} listed, which is not a pool it created", p, n));
                        }
                        s.g.listed.insert(n);
                    }
                    "remove_staking_pool" => {
                        s.g.listed.remove(&n);
                    }
                    "add_factory" => {
                        s.g.factories.insert(f);
                    }
                    "remove_factory" => {
                        s.g.factories.remove(&f);
                    }
                    _ => {}
                }
            }
        } else if &*a.receiver == l && method == "on_whitelist_is_whitelisted" {
            let yes = matches!(results.first(), Some(PromiseResult::Ok(v)) if parse(v) == json!(true));
            cx.seen(format!("asked about a pool: {}", if yes { "listed" } else { "not listed" }));
            if yes && s.g.selected.is_none() {
                let n = arg(&args, "staking_pool_account_id");
                s.g.vouched.insert(n.clone());
                s.g.selected = Some(n);
            }
        } else if &*a.receiver == l && method == "unselect_staking_pool" && ev.ok() {
            cx.ensure("G04", "left behind", s.g.out == 0, || format!("the lockup drops {:?} with {} tokens there", s.g.selected, s.g.out));
            s.g.selected = None;
        }
    }
    fn drain(&self, s: &mut State<G>, cx: &mut Cx) {
        while let Some(c) = s.w.next_chan() {
            self.deliver(s, &c, false, cx);
        }
    }
    fn user(&self, s: &mut State<G>, who: &str, to: &str, method: &str, args: Value, dep: u128, cx: &mut Cx) -> bool {
        let rid = s.w.submit(who, to, method, &args.to_string(), dep);
        let c = (id(who), id(to));
        while s.w.queue.contains_key(&c) {
            self.deliver(s, &c, false, cx);
        }
        if self.atomic {
            self.drain(s, cx);
        }
        s.w.first_ok(rid)
    }
    fn selected(&self, w: &World) -> Value {
        w.view(&self.lockup, "get_staking_pool_account_id", "{}").unwrap_or(json!("failed"))
    }
    fn may_fail(&self, s: &State<G>, c: &Chan) -> bool {
        let Some((a, _)) = s.w.peek(c) else { return false };
        let m = a.actions.iter().find_map(|x| if let Action::Call { method, .. } = x { Some(method.clone()) } else { None });
        &*a.receiver == "wl" || POOLS.contains(&&*a.receiver) && m.as_deref() == Some("deposit_and_stake")
    }
}
fn create_args(name: &str, n: u8) -> Value {
    json!({"staking_pool_id": name, "owner_id": "alice", "stake_public_key": pk_bs58(n), "reward_fee_fraction": {"numerator": 1, "denominator": 10}})
}
fn lock_args(w: Option<&str>, ts: u64) -> Value {
    json!({"owner_account_id": "owner", "lockup_duration": "0", "lockup_timestamp": ts.to_string(), "vesting_schedule": null, "release_duration": null, "whitelist_account_id": w})
}
impl Model for Chain {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<G>> {
        self.inits.clone()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        let n = s.w.chans().len();
        let mut v: Vec<Op> = (0..n).map(Deliver).collect();
        if s.g.fails < self.fails {
            let ch = s.w.chans();
            v.extend((0..n).filter(|i| self.may_fail(s, &ch[*i])).map(Lose));
        }
        if n < self.max_open.max(1) {
            v.push(Create("pf", "p1"));
            v.push(Create("pf2", "p1"));
            for m in ["add_factory", "remove_factory"] {
                for a in ["pf", "pf2"] {
                    v.push(List("foundation", m, a));
                }
            }
            for p in POOLS {
                v.push(List("foundation", "remove_staking_pool", p));
                v.push(Select("owner", p));
            }
            v.push(List("foundation", "add_staking_pool", "evil"));
            if is_pool(&s.w, "p1.pf") {
                v.push(List("foundation", "add_staking_pool", "p1.pf"));
            }
            for (w, m, a) in [("mallory", "add_staking_pool", "evil"), ("mallory", "add_factory", "pf2"), ("mallory", "remove_staking_pool", "p1.pf"), ("alice", "add_staking_pool", "p1.pf2"), ("owner", "add_staking_pool", "evil")] {
                v.push(List(w, m, a));
            }
            v.push(Select("mallory", "p1.pf"));
            v.extend([Unselect, Stake, UnstakeAll, WithdrawAll, Relock]);
            if s.g.epochs < self.epochs {
                v.push(Epoch);
            }
        }
        v
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        s.w.clear_events();
        match op {
            Deliver(i) | Lose(i) => {
                let c = s.w.chans()[*i].clone();
                let f = matches!(op, Lose(_));
                s.g.fails += f as u64;
                self.deliver(s, &c, f, cx);
            }
            Epoch => {
                for _ in 0..4 {
                    s.w.next_epoch(&|_| 0);
                }
                s.g.epochs += 1;
            }
            Create(f, n) => {
                self.user(s, "alice", f, "create_staking_pool", create_args(n, 1), 31 * NEAR, cx);
            }
            List(who, m, a) => {
                let k = if m.ends_with("factory") { "factory_account_id" } else { "staking_pool_account_id" };
                let ok = self.user(s, who, "wl", m, json!({ k: a }), 0, cx);
                cx.ensure("G04", "who lists", ok == (*who == "foundation"), || format!("{:?}: {}", op, if ok { "accepted" } else { "rejected" }));
            }
            Select(who, p) => {
                let ok = self.user(s, who, &self.lockup, "select_staking_pool", json!({ "staking_pool_account_id": p }), 0, cx);
                cx.ensure("G04", "who selects", !ok || *who == "owner", || format!("{:?} accepted", op));
            }
            Unselect => {
                self.user(s, "owner", &self.lockup, "unselect_staking_pool", json!({}), 0, cx);
            }
            Stake => {
                self.user(s, "owner", &self.lockup, "deposit_and_stake", json!({ "amount": STAKE.to_string() }), 0, cx);
            }
            UnstakeAll => {
                self.user(s, "owner", &self.lockup, "unstake_all", json!({}), 0, cx);
            }
            WithdrawAll => {
                self.user(s, "owner", &self.lockup, "withdraw_all_from_staking_pool", json!({}), 0, cx);
            }
            Relock => {
                let before = s.w.acc(&self.lockup).cloned();
                self.user(s, "mallory", "lf", "create", lock_args(Some("mwl"), 5), 40 * NEAR, cx);
                if self.atomic {
                    let (b, a) = (before.unwrap(), s.w.acc(&self.lockup).unwrap().clone());
                    cx.ensure("G04", "relock", b.storage == a.storage && b.code == a.code && b.amount == a.amount, || "a second creation changed the lockup".into());
                }
            }
        }
    }
    fn check(&self, s: &State<G>, cx: &mut Cx) {
        let want = json!(s.g.selected);
        let got = self.selected(&s.w);
        cx.ensure("G04", "selected", got == want, || format!("the lockup uses {}, the whitelist last vouched for {}", got, want));
        for p in POOLS {
            let got = s.w.view("wl", "is_whitelisted", &json!({ "staking_pool_account_id": p }).to_string()).unwrap_or(json!("failed"));
            cx.ensure("G04", "is listed", got == json!(s.g.listed.contains(p)), || format!("is_whitelisted({}) is {}, listed: {:?}", p, got, s.g.listed));
            if !s.g.vouched.contains(p) && is_pool(&s.w, p) {
                let got = s.w.view(p, "get_account_total_balance", &json!({ "account_id": self.lockup }).to_string()).unwrap_or(json!("failed"));
                cx.ensure("G04", "unvouched", got == json!("0"), || format!("{} holds {} of the lockup and was never vouched for", p, got));
            }
        }
        for f in ["pf", "pf2"] {
            let got = s.w.view("wl", "is_factory_whitelisted", &json!({ "factory_account_id": f }).to_string()).unwrap_or(json!("failed"));
            cx.ensure("G04", "is approved", got == json!(s.g.factories.contains(f)), || format!("is_factory_whitelisted({}) is {}, approved: {:?}", f, got, s.g.factories));
        }
        if !s.w.quiet() {
            return;
        }
        // settled: whatever is out comes back, and the lockup can go to any listed pool and to no other
        let full = s.w.amount(&self.lockup) + s.g.out;
        cx.ensure("G04", "lost", full == LOCKED, || format!("the lockup has {} and {} out, it had {}", s.w.amount(&self.lockup), s.g.out, LOCKED));
        let mut t = State { w: s.w.clone(), g: s.g.clone() };
        let call = |t: &mut State<G>, m: &str, a: Value, cx: &mut Cx| {
            t.w.clear_events();
            let r = t.w.submit("owner", &self.lockup, m, &a.to_string(), 0);
            self.drain(t, cx);
            t.w.outcome(r)
        };
        if t.g.selected.is_some() {
            // more than was deposited never comes back here, as there are no rewards
            if t.g.out > 0 {
                call(&mut t, "unstake_all", json!({}), cx);
                for _ in 0..4 {
                    t.w.next_epoch(&|_| 0);
                }
                call(&mut t, "withdraw_all_from_staking_pool", json!({}), cx);
                cx.seen(format!("brought back from a {} pool", if s.g.listed.contains(s.g.selected.as_ref().unwrap()) { "listed" } else { "delisted" }));
            }
            let o = call(&mut t, "unselect_staking_pool", json!({}), cx);
            cx.ensure("G04", "brought back", o.ok() && t.g.out == 0 && t.w.amount(&self.lockup) == LOCKED, || format!("{} remain at {:?}, the lockup has {}, unselecting: {}", t.g.out, t.g.selected, t.w.amount(&self.lockup), o.short()));
        }
        for p in POOLS {
            let mut u = State { w: t.w.clone(), g: t.g.clone() };
            let o = call(&mut u, "select_staking_pool", json!({ "staking_pool_account_id": p }), cx);
            let want = s.g.listed.contains(p);
            cx.ensure("G04", "usable", (self.selected(&u.w) == json!(p)) == want && o.ok() == want, || format!("listed pools are {:?}, selecting {} answers {}, the lockup then uses {}", s.g.listed, p, o.short(), self.selected(&u.w)));
            if want && is_pool(&u.w, p) {
                let o = call(&mut u, "deposit_and_stake", json!({ "amount": STAKE.to_string() }), cx);
                cx.ensure("G04", "stake", o.val() == Some(&json!(true)) && u.g.out == STAKE, || format!("staking with {}: {}, {} tokens out", p, o.short(), u.g.out));
            }
        }
    }
}
fn g04(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let mut w = World::new(c.env(&["whitelist", "staking_pool_factory", "lockup_factory", "staking_pool", "lockup_contract"], &[], false, 0));
    for u in ["foundation", "alice", "mallory", "owner"] {
        w.user(u, 100_000 * NEAR);
    }
    w.signers = Arc::new(vec![("foundation", "alice"), ("alice", "foundation"), ("mallory", "foundation"), ("owner", "mallory")]);
    for (n, f) in [("wl", "foundation"), ("mwl", "mallory")] {
        w.contract(n, "whitelist", 100 * NEAR);
        w.must("alice", n, "new", &json!({ "foundation_account_id": f }).to_string(), 0);
    }
    w.must("foundation", "wl", "add_factory", r#"{"factory_account_id":"pf"}"#, 0);
    w.must("mallory", "mwl", "add_staking_pool", r#"{"staking_pool_account_id":"evil"}"#, 0);
    for n in ["pf", "pf2"] {
        w.contract(n, "staking_pool_factory", 100 * NEAR);
        w.must("alice", n, "new", r#"{"staking_pool_whitelist_account_id":"wl"}"#, 0);
    }
    w.contract("lf", "lockup_factory", 100 * NEAR);
    w.must("alice", "lf", "new", r#"{"whitelist_account_id":"wl","foundation_account_id":"foundation"}"#, 0);
    w.contract("evil", "staking_pool", 100 * NEAR);
    w.must("mallory", "evil", "new", &crate::m_pool::new_args("mallory", 1, 1, 10), 0);
    w.must("alice", "lf", "create", &lock_args(None, 2_000_000_000_000_000_000).to_string(), LOCKED);
    let lockup = format!("{}.lf", hex::encode(&Sha256::digest(b"owner")[..20]));
    assert_eq!(w.amount(&lockup), LOCKED);
    w.ts = 1_700_000_000_000_000_000;
    w.clear_events();
    let mut g = G::default();
    g.factories.insert("pf".into());
    let start = State { w, g };
    let one = Chain { name: "approve, create, select, stake (run to completion between)".into(), inits: vec![start.clone()], lockup, atomic: true, max_open: 1, fails: 0, epochs: 1 };
    let after = |ops: &[Op]| {
        let mut s = start.clone();
        for o in ops {
            one.step(&mut s, o, &mut Cx::default());
        }
        s.w.clear_events();
        s
    };
    // nothing yet; a pool created; it is the lockup's; tokens staked with it
    let inits = (0..=3).map(|k| after(&[Create("pf", "p1"), Select("owner", "p1.pf"), Stake][..k])).collect();
    let many = Chain { name: "receipts in every order".into(), inits, lockup: one.lockup.clone(), atomic: false, max_open: c.pick(2, 3), fails: 1, epochs: c.pick(0, 1) };
    vec![sc(one, c.pick(10, 14)), sc(many, c.pick(8, 10))]
}
