//! Properties of several contracts together, and properties all contracts share.
use crate::check::*;
use crate::explore::*;
use crate::m_pool::new_args;
use crate::m_simple::Ballot;
use crate::vm::{Action, Bytes, PromiseResult};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::Arc;

pub fn checks() -> Vec<Check> {
    let shared = |prop, make| Check {
        prop,
        contracts: &["whitelist", "staking-pool", "lockup", "voting", "w-near", "multisig2", "multisig", "staking-pool-factory", "lockup-factory", "multisig-factory"],
        make,
        assumptions: &["one prepared state per operation in which it succeeds; gas costs by the public fee schedule (gas price zero)"],
    };
    vec![shared("G02", g02), shared("G03", g03), shared("G05", g05), shared("G06", g06), shared("G07", g07), shared("G08", g08), shared("G09", g09), shared("G10", g10), Check {
        prop: "V03",
        contracts: &["whitelist", "staking-pool", "lockup", "voting"],
        make: v03,
        assumptions: &["three staking pools are the network's validators, each at the stake the network has locked for it when the epoch starts", "one lockup account whose transfers wait for the poll; user transactions are executed when submitted, contract receipts in every order"],
    }]
}

// ------------------------------------------------------------------ transfers voted in, end to end

const POOLS: [&str; 3] = ["pool1", "pool2", "pool3"];
const OWNERS: [&str; 3] = ["own1", "own2", "own3"];
struct Sys {
    name: String,
    inits: Vec<World>,
    epochs: u64,
    ticks: u64,
    max_open: usize,
    fails: u64,
    pauses: u64,
}
#[derive(Clone, Hash, Default)]
struct SysG {
    b: Ballot,
    enabled: Option<u64>,
    /// the answers on their way to the lockup, by the callback's receipt
    epochs: u64,
    ticks: u64,
    fails: u64,
    paid: u128,
    pauses: u64,
    paused: bool,
    /// votes on their way
    sent: Vec<(usize, bool)>,
}
#[derive(Clone, Debug)]
enum SOp {
    /// a pool votes, asked by this account
    Vote(usize, &'static str, bool),
    /// a vote cast directly
    Direct(&'static str, bool),
    Ping,
    Ask(&'static str),
    Transfer,
    /// the third pool's owner pauses or resumes its staking
    Pause,
    /// the next epoch, pool rewarded
    Epoch(usize),
    Tick,
    Deliver(usize),
    Lose(usize),
}
use SOp::*;
const REWARD: u128 = 20_000_000 * NEAR;
const WAIT: u64 = 1_500_000_000;

fn validators(w: &mut World) {
    w.validators = Arc::new(POOLS.iter().map(|p| (p.to_string(), w.acc(p).unwrap().locked)).filter(|x| x.1 > 0).collect());
}
impl Sys {
    fn deliver(&self, s: &mut State<SysG>, c: &Chan, fail: bool, cx: &mut Cx) {
        let head = s.w.peek(c);
        s.w.deliver(c, fail);
        let Some((a, results)) = head else { return };
        let Some(ev) = s.w.events.iter().find(|e| e.id == a.id).cloned() else { return };
        let Some((method, args)) = a.actions.iter().find_map(|x| if let Action::Call { method, args, .. } = x { Some((method.clone(), parse(args))) } else { None }) else { return };
        match (&*a.receiver, &*method) {
            ("voting", "vote") => {
                if let Some(i) = POOLS.iter().position(|p| *p == &*a.predecessor) {
                    let k = s.g.sent.iter().position(|x| x.0 == i);
                    let asked = k.map(|k| s.g.sent.remove(k).1);
                    cx.ensure("V03", "forwarded", asked.is_some() && asked == args["is_vote"].as_bool(), || format!("{} sends the vote {}, its owner asked for {:?}", a.predecessor, args, asked));
                }
                if fail {
                    return;
                }
                let mut b = s.g.b.clone();
                let ok = b.apply(&s.w, &a.predecessor, args["is_vote"].as_bool());
                cx.ensure("V03", "vote", ev.ok() == ok, || format!("vote {} of {} {}: {:?}", args, a.predecessor, if ok { "must count" } else { "must be rejected" }, ev.result));
                if ok {
                    if b.result.is_some() && s.g.b.result.is_none() {
                        cx.seen("a vote ends the poll");
                    }
                    s.g.b = b;
                }
            }
            ("voting", "get_result") => {
                let want = s.g.b.result.map_or(Value::Null, |t| json!(t.to_string()));
                let got = match &ev.result {
                    Ok(Res::Value(v)) => parse(v),
                    _ => json!("failed"),
                };
                cx.ensure("V03", "answer", fail || got == want, || format!("the poll answered {}, expected {}", got, want));
            }
            ("lockup", "on_get_result_from_transfer_poll") => {
                let told = match results.first() {
                    Some(PromiseResult::Ok(v)) => parse(v).as_str().and_then(|x| x.parse::<u64>().ok()),
                    _ => None,
                };
                if s.g.enabled.is_none() && told.is_some() {
                    s.g.enabled = told;
                    cx.seen("transfers enabled");
                    cx.ensure("V03", "early", told == s.g.b.result, || format!("transfers enabled as of {:?} but the poll's result is {:?}", told, s.g.b.result));
                } else {
                    cx.seen("transfers not enabled by a reply");
                }
            }
            _ => {}
        }
    }
    fn user(&self, s: &mut State<SysG>, who: &str, to: &str, method: &str, args: Value, cx: &mut Cx) -> bool {
        let rid = s.w.submit(who, to, method, &args.to_string(), 0);
        let c = (id(who), id(to));
        while s.w.queue.contains_key(&c) {
            self.deliver(s, &c, false, cx);
        }
        s.w.first_ok(rid)
    }
}
impl Model for Sys {
    type G = SysG;
    type Op = SOp;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<SysG>> {
        self.inits.iter().map(|w| State { w: w.clone(), g: SysG::default() }).collect()
    }
    fn ops(&self, s: &State<SysG>) -> Vec<SOp> {
        let n = s.w.chans().len();
        let mut v: Vec<SOp> = (0..n).map(Deliver).collect();
        if s.g.fails < self.fails {
            v.extend((0..n).filter(|i| matches!(s.w.head(&s.w.chans()[*i]).body, Body::Act(_))).map(Lose));
        }
        if n < self.max_open.max(1) {
            for i in 0..3 {
                v.push(Vote(i, OWNERS[i], true));
                v.push(Vote(i, OWNERS[i], false));
            }
            v.push(Vote(0, "own2", true));
            v.push(Vote(0, "bank", true));
            v.push(Direct("own1", true));
            v.push(Direct("bank", false));
            v.push(Ping);
            v.push(Ask("owner"));
            v.push(Ask("bank"));
            if s.g.pauses < self.pauses {
                v.push(Pause);
            }
        }
        v.push(Transfer);
        if s.g.ticks < self.ticks {
            v.push(Tick);
        }
        if s.g.epochs < self.epochs {
            v.extend([Epoch(1), Epoch(2), Epoch(9)]);
        }
        v
    }
    fn step(&self, s: &mut State<SysG>, op: &SOp, cx: &mut Cx) {
        s.w.clear_events();
        match op {
            Deliver(i) | Lose(i) => {
                let c = s.w.chans()[*i].clone();
                let f = matches!(op, Lose(_));
                s.g.fails += f as u64;
                self.deliver(s, &c, f, cx);
            }
            Epoch(k) => {
                s.w.next_epoch(&|n| if POOLS.get(*k) == Some(&n) { REWARD } else { 0 });
                validators(&mut s.w);
                s.g.epochs += 1;
            }
            Tick => {
                s.w.advance(WAIT - 500_000_000);
                s.g.ticks += 1;
            }
            Vote(p, who, yes) => {
                if *who == OWNERS[*p] {
                    s.g.sent.push((*p, *yes));
                }
                let ok = self.user(s, who, POOLS[*p], "vote", json!({"voting_account_id": "voting", "is_vote": yes}), cx);
                cx.ensure("V03", "pool vote", ok == (*who == OWNERS[*p]), || format!("{:?}: {}", op, if ok { "accepted" } else { "rejected" }));
            }
            Pause => {
                let m = if s.g.paused { "resume_staking" } else { "pause_staking" };
                let ok = self.user(s, "own3", "pool3", m, json!({}), cx);
                // the pool's own stake action
                let c = (id("pool3"), id("pool3"));
                while s.w.queue.contains_key(&c) {
                    self.deliver(s, &c, false, cx);
                }
                cx.ensure("V03", "pause", ok, || format!("{} rejected", m));
                s.g.pauses += 1;
                s.g.paused = !s.g.paused;
            }
            Direct(who, yes) => {
                self.user(s, who, "voting", "vote", json!({ "is_vote": yes }), cx);
            }
            Ping => {
                let mut b = s.g.b.clone();
                let want = b.apply(&s.w, "bank", None);
                let ok = self.user(s, "bank", "voting", "ping", json!({}), cx);
                cx.ensure("V03", "ping", ok == want, || format!("ping {}", if ok { "accepted" } else { "rejected" }));
                if ok {
                    if b.result.is_some() && s.g.b.result.is_none() {
                        cx.seen("a ping ends the poll");
                    }
                    s.g.b = b;
                }
            }
            Ask(who) => {
                let ok = self.user(s, who, "lockup", "check_transfers_vote", json!({}), cx);
                let want = *who == "owner" && s.g.enabled.is_none();
                cx.ensure("V03", "check", ok == want, || format!("{:?} with transfers enabled {:?}: {}", op, s.g.enabled, if ok { "accepted" } else { "rejected" }));
            }
            Transfer => {
                let before = s.w.amount("bank");
                let ok = self.user(s, "owner", "lockup", "transfer", json!({"amount": NEAR.to_string(), "receiver_id": "bank"}), cx);
                let c = (id("lockup"), id("bank"));
                while s.w.queue.contains_key(&c) {
                    self.deliver(s, &c, false, cx);
                }
                let want = s.g.enabled.map_or(false, |t| s.w.ts >= t + WAIT);
                let got = s.w.amount("bank") - before;
                cx.seen(format!("transfer {}", if ok { "made" } else { "refused" }));
                cx.ensure("V03", "transfer", ok == want && got == if want { NEAR } else { 0 }, || format!("at {} with transfers enabled as of {:?} and a lockup of {}: transfer {}, {} arrived", s.w.ts, s.g.enabled, WAIT, if ok { "accepted" } else { "rejected" }, got));
                if ok {
                    s.g.paid += NEAR;
                }
            }
        }
    }
    fn check(&self, s: &State<SysG>, cx: &mut Cx) {
        let mut same = |key: &str, acc: &str, m: &str, want: Value| {
            let got = s.w.view(acc, m, "{}").unwrap_or(json!("failed"));
            cx.ensure("V03", key, got == want, || format!("{}.{} is {}, expected {}", acc, m, got, want));
        };
        same("result", "voting", "get_result", s.g.b.result.map_or(Value::Null, |x| json!(x.to_string())));
        let v: BTreeMap<&String, String> = s.g.b.votes.iter().map(|(k, v)| (k, v.to_string())).collect();
        same("votes", "voting", "get_votes", json!(v));
        same("enabled", "lockup", "are_transfers_enabled", json!(s.g.enabled.is_some()));
        let open = s.g.enabled.map_or(false, |t| s.w.ts >= t + WAIT);
        same("locked", "lockup", "get_locked_amount", json!(if open { 0 } else { LOCKED }.to_string()));
    }
}
const LOCKED: u128 = 50 * NEAR;
fn v03(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let mut w = World::new(c.env(&["voting_contract", "staking_pool", "lockup_contract", "whitelist"], &[], false, 0));
    for u in ["own1", "own2", "own3", "owner", "bank"] {
        w.user(u, 1000 * NEAR);
    }
    // 40, 35 and 25 of 100; no two-thirds without pool1; a reward moves the balance
    for ((p, o), st) in POOLS.iter().zip(OWNERS).zip([40, 35, 25]) {
        w.contract(p, "staking_pool", st * 1_000_000 * NEAR);
        w.must(o, p, "new", &new_args(o, 1, 1, 10), 0);
    }
    validators(&mut w);
    w.contract("whitelist", "whitelist", 100 * NEAR);
    w.must("bank", "whitelist", "new", r#"{"foundation_account_id":"bank"}"#, 0);
    w.contract("voting", "voting_contract", 100 * NEAR);
    w.must("bank", "voting", "new", "{}", 0);
    w.contract("lockup", "lockup_contract", LOCKED);
    let args = json!({
        "owner_account_id": "owner",
        "lockup_duration": WAIT.to_string(),
        "lockup_timestamp": null,
        "transfers_information": {"TransfersDisabled": {"transfer_poll_account_id": "voting"}},
        "vesting_schedule": null,
        "release_duration": null,
        "staking_pool_whitelist_account_id": "whitelist",
        "foundation_account_id": null,
    });
    w.must("bank", "lockup", "new", &args.to_string(), 0);
    w.signers = Arc::new(vec![("own1", "own2"), ("own2", "own1"), ("bank", "owner"), ("owner", "bank")]);
    w.clear_events();
    let two = {
        // two of the three have voted, short of two thirds after pool3 grew
        let mut w = w.clone();
        w.next_epoch(&|n| if n == "pool3" { 3 * REWARD } else { 0 });
        validators(&mut w);
        w
    };
    vec![
        sc(Sys { name: "pools vote, a lockup asks (run to completion between)".into(), inits: vec![w.clone(), two.clone()], epochs: c.pick(1, 2), ticks: c.pick(2, 3), max_open: 0, fails: 0, pauses: c.pick(1, 2) }, c.pick(10, 13)),
        sc(Sys { name: "overlapping votes and queries".into(), inits: vec![w, two], epochs: 1, ticks: c.pick(1, 2), max_open: c.pick(2, 3), fails: 1, pauses: c.pick(0, 1) }, c.pick(7, 11)),
    ]
}

// ------------------------------------------------------------------------- every operation, any gas

/// an operation that succeeds in the prepared state
#[derive(Clone)]
struct Entry {
    w: Arc<World>,
    who: &'static str,
    key: Bytes,
    to: String,
    method: &'static str,
    args: String,
    deposit: u128,
    payable: bool,
    /// other arguments whose full-gas outcome is acceptable as well
    or: Vec<String>,
}
impl std::fmt::Debug for Entry {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}.{}({}) by {} with {}", self.to, self.method, self.args.chars().take(200).collect::<String>(), self.who, self.deposit)
    }
}
impl Entry {
    fn run(&self, w: &mut World, args: &str, deposit: u128, gas: u64) -> Out {
        w.clear_events();
        let a = Action::Call { method: self.method.into(), args: bytes(args.as_bytes()), gas, deposit };
        let rid = w.tx_from(self.who, &self.key, self.who, &self.key, &self.to, vec![a]).unwrap_or_else(|e| panic!("{:?}: {}", self, e));
        w.drain();
        w.outcome(rid)
    }
}
/// everything observable of the chain
fn image(w: &World) -> BTreeMap<String, String> {
    w.accounts
        .iter()
        .map(|(n, a)| {
            let st: Vec<String> = a.storage.iter().map(|(k, v)| format!("{:?}={:?}", k, v)).collect();
            (n.to_string(), format!("{} {} {:?} {:?} {:?} {:?}", a.amount, a.locked, a.stakes, a.code, a.keys, st))
        })
        .collect()
}
fn differ(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<String> {
    a.keys().chain(b.keys()).filter(|k| a.get(*k) != b.get(*k)).cloned().collect::<std::collections::BTreeSet<_>>().into_iter().collect()
}

fn entries(c: &Ctx) -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    fn add(v: &mut Vec<Entry>, w: &Arc<World>, who: &'static str, to: &str, method: &'static str, args: Value, deposit: u128) {
        v.push(Entry { w: w.clone(), who, key: default_pk(), to: to.into(), method, args: args.to_string(), deposit, payable: deposit > 0, or: vec![] });
    }
    let e = || json!({});
    // whitelist
    let mut w = World::new(c.env(&["whitelist", "voting_contract"], &[], true, 0));
    w.contract("whitelist", "whitelist", 100 * NEAR);
    w.contract("voting", "voting_contract", 100 * NEAR);
    w.user("foundation", 1000 * NEAR);
    let blank = Arc::new(w.clone());
    add(&mut v, &blank, "foundation", "whitelist", "new", json!({"foundation_account_id": "foundation"}), 0);
    add(&mut v, &blank, "foundation", "voting", "new", e(), 0);
    w.must("foundation", "whitelist", "new", r#"{"foundation_account_id":"foundation"}"#, 0);
    for (m, a) in [("add_staking_pool", "staking_pool_account_id"), ("add_factory", "factory_account_id")] {
        w.must("foundation", "whitelist", m, &json!({ a: "old" }).to_string(), 0);
    }
    w.must("foundation", "voting", "new", "{}", 0);
    w.validators = Arc::new([("foundation".to_string(), 2), ("other".to_string(), 2)].into_iter().collect());
    w.must("foundation", "voting", "vote", r#"{"is_vote":true}"#, 0);
    w.next_epoch(&|_| 0);
    w.validators = Arc::new([("foundation".to_string(), 5), ("other".to_string(), 2)].into_iter().collect());
    let a = Arc::new(w);
    for (m, k) in [("add_staking_pool", "staking_pool_account_id"), ("add_factory", "factory_account_id")] {
        add(&mut v, &a, "foundation", "whitelist", m, json!({ k: "fresh" }), 0);
    }
    for (m, k) in [("remove_staking_pool", "staking_pool_account_id"), ("remove_factory", "factory_account_id")] {
        add(&mut v, &a, "foundation", "whitelist", m, json!({ k: "old" }), 0);
    }
    add(&mut v, &a, "foundation", "voting", "vote", json!({"is_vote": true}), 0);
    add(&mut v, &a, "foundation", "voting", "vote", json!({"is_vote": false}), 0);
    add(&mut v, &a, "foundation", "voting", "ping", e(), 0);
    // votes of an earlier epoch that would be enough for today's total, but are less today
    let mut w = (*a).clone();
    w.edit("voting", |a| a.storage = Default::default());
    w.must("foundation", "voting", "new", "{}", 0);
    w.validators = Arc::new([("foundation".to_string(), 5), ("other".to_string(), 5)].into_iter().collect());
    w.must("foundation", "voting", "vote", r#"{"is_vote":true}"#, 0);
    w.next_epoch(&|_| 0);
    w.validators = Arc::new([("foundation".to_string(), 1), ("other".to_string(), 4)].into_iter().collect());
    add(&mut v, &Arc::new(w), "foundation", "voting", "ping", e(), 0);

    // staking pool: something staked, something unlocked, a reward to credit
    let w = crate::m_pool::pool_world(c.env(&["staking_pool"], &[("recorder", crate::m_pool::recorder)], true, 0), 100 * NEAR, 10_000 * NEAR, (1, 10));
    let mut w0 = w.clone();
    w0.edit("pool", |a| {
        a.storage = Default::default();
        a.amount += a.locked;
        a.locked = 0;
        a.stakes = [0; 3];
    });
    let w0 = Arc::new(w0);
    add(&mut v, &w0, "owner", "pool", "new", parse(new_args("owner", 1, 1, 10).as_bytes()), 0);
    let mut w = w;
    w.must("alice", "pool", "deposit_and_stake", "{}", 1000 * NEAR);
    w.must("alice", "pool", "unstake", &json!({"amount": (200 * NEAR).to_string()}).to_string(), 0);
    w.must("alice", "pool", "deposit", "{}", 100 * NEAR);
    for _ in 0..4 {
        w.next_epoch(&|_| 0);
    }
    w.must("bob", "pool", "ping", "{}", 0);
    w.next_epoch(&|_| 7 * NEAR + 1);
    let run = Arc::new(w.clone());
    w.must("owner", "pool", "pause_staking", "{}", 0);
    w.next_epoch(&|_| 3 * NEAR);
    let paused = Arc::new(w);
    let am = |x: u128| json!({"amount": x.to_string()});
    for s in [&run, &paused] {
        for (m, a, d) in [
            ("deposit", e(), NEAR),
            ("deposit_and_stake", e(), 5 * NEAR),
            ("stake", am(50 * NEAR), 0),
            ("stake_all", e(), 0),
            ("unstake", am(30 * NEAR), 0),
            ("unstake_all", e(), 0),
            ("withdraw", am(10 * NEAR), 0),
            ("withdraw_all", e(), 0),
            ("ping", e(), 0),
        ] {
            add(&mut v, s, "alice", "pool", m, a, d);
        }
        add(&mut v, s, "owner", "pool", "update_staking_key", json!({"stake_public_key": pk_str(3)}), 0);
        add(&mut v, s, "owner", "pool", "update_reward_fee_fraction", json!({"reward_fee_fraction": {"numerator": 1, "denominator": 3}}), 0);
        add(&mut v, s, "owner", "pool", "vote", json!({"voting_account_id": "voting", "is_vote": true}), 0);
    }
    add(&mut v, &run, "owner", "pool", "pause_staking", e(), 0);
    add(&mut v, &paused, "owner", "pool", "resume_staking", e(), 0);

    // lockup with a real pool and whitelist
    let lw = crate::m_lockup::base_world(c);
    let cf = crate::m_lockup::cfgs();
    let wl = json!({"staking_pool_account_id": "pool"});
    let lk = |cfg: &str| crate::m_lockup::with(&lw, &cf[cfg]).w;
    let mut w = lw.clone();
    w.contract("lockup", "lockup_contract", 50 * NEAR);
    add(&mut v, &Arc::new(w), "owner", "lockup", "new", cf["open"].args(), 0);
    let mut w = lk("open");
    let none = Arc::new(w.clone());
    add(&mut v, &none, "owner", "lockup", "select_staking_pool", wl.clone(), 0);
    add(&mut v, &none, "owner", "lockup", "transfer", json!({"amount": NEAR.to_string(), "receiver_id": "bank"}), 0);
    add(&mut v, &none, "owner", "lockup", "add_full_access_key", json!({"new_public_key": pk_str(5)}), 0);
    w.must("owner", "lockup", "select_staking_pool", &wl.to_string(), 0);
    add(&mut v, &Arc::new(w.clone()), "owner", "lockup", "unselect_staking_pool", e(), 0);
    add(&mut v, &Arc::new(w.clone()), "owner", "lockup", "deposit_to_staking_pool", am(10 * NEAR), 0);
    add(&mut v, &Arc::new(w.clone()), "owner", "lockup", "deposit_and_stake", am(10 * NEAR), 0);
    let mut stake = |w: &mut World| {
        w.must("owner", "lockup", "deposit_and_stake", &am(60 * NEAR).to_string(), 0);
        w.must("owner", "lockup", "deposit_to_staking_pool", &am(7 * NEAR).to_string(), 0);
        w.must("owner", "lockup", "unstake", &am(20 * NEAR).to_string(), 0);
        for _ in 0..4 {
            w.next_epoch(&|_| NEAR);
        }
    };
    stake(&mut w);
    let st = Arc::new(w);
    for (m, a) in [
        ("deposit_to_staking_pool", am(3 * NEAR)),
        ("deposit_and_stake", am(3 * NEAR)),
        ("refresh_staking_pool_balance", e()),
        ("withdraw_from_staking_pool", am(5 * NEAR)),
        ("withdraw_all_from_staking_pool", e()),
        ("stake", am(5 * NEAR)),
        ("unstake", am(5 * NEAR)),
        ("unstake_all", e()),
        ("transfer", json!({"amount": NEAR.to_string(), "receiver_id": "bank"})),
    ] {
        add(&mut v, &st, "owner", "lockup", m, a, 0);
    }
    let mut w = lk("disabled");
    crate::m_lockup::set_poll(&mut w, 1);
    add(&mut v, &Arc::new(w), "owner", "lockup", "check_transfers_vote", e(), 0);
    let mut w = lk("vesting");
    w.must("owner", "lockup", "select_staking_pool", &wl.to_string(), 0);
    stake(&mut w);
    let none = json!({"vesting_schedule_with_salt": null});
    add(&mut v, &Arc::new(w.clone()), "foundation", "lockup", "terminate_vesting", e(), 0);
    w.must("foundation", "lockup", "terminate_vesting", &none.to_string(), 0);
    add(&mut v, &Arc::new(w.clone()), "foundation", "lockup", "termination_prepare_to_withdraw", e(), 0);
    w.must("foundation", "lockup", "termination_prepare_to_withdraw", "{}", 0);
    for _ in 0..4 {
        w.next_epoch(&|_| 0);
    }
    add(&mut v, &Arc::new(w.clone()), "foundation", "lockup", "termination_prepare_to_withdraw", e(), 0);
    w.must("foundation", "lockup", "termination_prepare_to_withdraw", "{}", 0);
    add(&mut v, &Arc::new(w.clone()), "foundation", "lockup", "termination_withdraw", json!({"receiver_id": "fund"}), 0);

    // wrapped NEAR
    let mut w = World::new(c.env(&["w_near"], &[("receiver", crate::m_ft::receiver)], true, 0));
    w.contract("wrap", "w_near", 100 * NEAR);
    for u in ["alice", "bob", "carol", "rcv"] {
        w.user(u, 1000 * NEAR);
    }
    let code = w.env.code("receiver");
    w.edit("rcv", |a| a.code = Some(CodeRef::Known(code)));
    add(&mut v, &Arc::new(w.clone()), "alice", "wrap", "new", e(), 0);
    w.must("alice", "wrap", "new", "{}", 0);
    for u in ["alice", "bob", "rcv"] {
        w.must(u, "wrap", "near_deposit", "{}", 5 * NEAR);
    }
    w.must("carol", "wrap", "storage_deposit", "{}", NEAR);
    let w = Arc::new(w);
    add(&mut v, &w, "alice", "wrap", "near_deposit", e(), NEAR);
    add(&mut v, &w, "alice", "wrap", "near_withdraw", am(NEAR), 1);
    add(&mut v, &w, "alice", "wrap", "ft_transfer", json!({"receiver_id": "bob", "amount": "5"}), 1);
    let call = |m: Value| json!({"receiver_id": "rcv", "amount": "5", "msg": m.to_string()});
    for m in [json!({"a": "\"0\""}), json!({"a": "\"3\""}), json!({"a": null}), json!({"do": "spend 4", "a": "\"2\""})] {
        add(&mut v, &w, "alice", "wrap", "ft_transfer_call", call(m), 1);
        v.last_mut().unwrap().or = vec![call(json!({"a": null})).to_string(), call(json!({"do": "spend 4", "a": null})).to_string()];
    }
    add(&mut v, &w, "alice", "wrap", "storage_deposit", json!({"account_id": "dave"}), NEAR);
    add(&mut v, &w, "alice", "wrap", "storage_withdraw", e(), 1);
    add(&mut v, &w, "carol", "wrap", "storage_unregister", e(), 1);
    add(&mut v, &w, "alice", "wrap", "storage_unregister", json!({"force": true}), 1);

    // factories
    let mut w = crate::m_factory::base(c, "staking_pool_factory", "staking_pool", "factory");
    add(&mut v, &Arc::new(w.clone()), "foundation", "factory", "new", json!({"staking_pool_whitelist_account_id": "whitelist"}), 0);
    w.must("foundation", "factory", "new", r#"{"staking_pool_whitelist_account_id":"whitelist"}"#, 0);
    let sp = |n: &str, k: String| json!({"staking_pool_id": n, "owner_id": "alice", "stake_public_key": k, "reward_fee_fraction": {"numerator": 1, "denominator": 10}});
    let a = Arc::new(w);
    add(&mut v, &a, "alice", "factory", "create_staking_pool", sp("pool", pk_bs58(1)), 31 * NEAR);
    // one that must fail and be refunded
    add(&mut v, &a, "alice", "factory", "create_staking_pool", sp("taken", pk_bs58(1)), 31 * NEAR);
    let mut w = crate::m_factory::base(c, "lockup_factory", "lockup_contract", "factory");
    let n = json!({"whitelist_account_id": "whitelist", "foundation_account_id": "foundation"});
    add(&mut v, &Arc::new(w.clone()), "foundation", "factory", "new", n.clone(), 0);
    w.must("foundation", "factory", "new", &n.to_string(), 0);
    let lk = |o: &str| json!({"owner_account_id": o, "lockup_duration": "0", "lockup_timestamp": "5", "release_duration": "7"});
    add(&mut v, &Arc::new(w.clone()), "alice", "factory", "create", lk("alice"), 50 * NEAR);
    w.must("alice", "factory", "create", &lk("bob").to_string(), 50 * NEAR);
    add(&mut v, &Arc::new(w), "alice", "factory", "create", lk("bob"), 50 * NEAR);
    let w = crate::m_factory::base(c, "multisig_factory", "multisig2", "factory");
    let a = Arc::new(w);
    for n in ["fresh", "taken"] {
        let call = |k: u32| json!({"name": n, "members": [{"account_id": "alice"}, {"public_key": pk_bs58(1)}], "num_confirmations": k});
        add(&mut v, &a, "alice", "factory", "create", call(2), 50 * NEAR);
        // too little for the creation is a failed creation: the deposit comes back
        v.last_mut().unwrap().or = vec![call(5).to_string()];
    }

    // multisigs: one confirmation left, several kinds of requests
    for two in [false, true] {
        let mut w = crate::m_multisig::base(c, two);
        let init = if two { json!({"members": [{"public_key": pk_str(1)}, {"public_key": pk_str(2)}, {"account_id": "alice"}], "num_confirmations": 2}) } else { json!({"num_confirmations": 2}) };
        add(&mut v, &Arc::new(w.clone()), "alice.ms", "ms", "new", init.clone(), 0);
        w.must("alice.ms", "ms", "new", &init.to_string(), 0);
        if !two {
            w.edit("ms", |a| {
                a.keys = Arc::new([1, 2].iter().map(|n| (pk(*n), crate::vm::KeyPerm::Call { receiver: "ms".into(), methods: vec![], allowance: 0 })).collect());
            });
        }
        let del = if two { json!({"type": "DeleteMember", "member": {"public_key": pk_str(1)}}) } else { json!({"type": "DeleteKey", "public_key": pk_str(1)}) };
        let ad = if two { json!({"type": "AddMember", "member": {"public_key": pk_str(4)}}) } else { json!({"type": "AddKey", "public_key": pk_str(4)}) };
        let call = |g: u64| json!({"type": "FunctionCall", "method_name": "vote", "args": base64::encode("{\"x\":1}"), "deposit": NEAR.to_string(), "gas": (g * TGAS).to_string()});
        let reqs = [
            ("bob", vec![json!({"type": "Transfer", "amount": NEAR.to_string()})]),
            ("rec", vec![call(20)]),
            ("rec", vec![call(60), call(70)]),
            ("ms", vec![del]),
            ("ms", vec![ad]),
            ("ms", vec![json!({"type": "SetNumConfirmations", "num_confirmations": 1})]),
            ("sub.ms", vec![json!({"type": "CreateAccount"}), json!({"type": "Transfer", "amount": NEAR.to_string()})]),
        ];
        let rq = |i: usize| json!({"request": {"receiver_id": reqs[i].0, "actions": reqs[i].1}});
        let keyed = |v: &mut Vec<Entry>, w: &Arc<World>, n: u8, m: &'static str, a: Value| {
            v.push(Entry { w: w.clone(), who: "ms", key: pk(n), to: "ms".into(), method: m, args: a.to_string(), deposit: 0, payable: false, or: vec![] });
        };
        let empty = Arc::new(w.clone());
        keyed(&mut v, &empty, 1, "add_request", rq(0));
        keyed(&mut v, &empty, 1, "add_request_and_confirm", rq(1));
        for i in 0..reqs.len() {
            w.call_key("ms", &pk(1), "ms", "add_request_and_confirm", &rq(i).to_string(), 0, MAX_GAS).unwrap();
            w.drain();
        }
        w.advance(2_000_000_000_000);
        let full = Arc::new(w);
        for i in 0..reqs.len() {
            keyed(&mut v, &full, 2, "confirm", json!({"request_id": i}));
        }
        keyed(&mut v, &full, 2, "delete_request", json!({"request_id": 0}));
        if two {
            add(&mut v, &full, "alice", "ms", "confirm", json!({"request_id": 1}), 0);
            add(&mut v, &full, "alice", "ms", "add_request", rq(0), 0);
            add(&mut v, &full, "alice", "ms", "delete_request", json!({"request_id": 0}), 0);
        }
    }
    for e in &mut v {
        let mut w = (*e.w).clone();
        w.clear_events();
        e.w = Arc::new(w);
    }
    v
}

fn g02(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v = entries(c);
    let mut gas: Vec<u64> = (1..=300u64).map(|g| g * TGAS).collect();
    let step = c.pick(TGAS / 4, TGAS / 20);
    gas.extend((1..c.pick(30, 300) * TGAS / step).map(|k| k * step));
    gas.sort();
    gas.dedup();
    let n = gas.len();
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("{} operations, {} amounts of attached gas each", v.len(), n),
            start,
            cases: v,
            run: move |w: &mut World, e: &Entry, cx: &mut Cx| {
                let before = image(&e.w);
                let full = |args: &str| {
                    let mut x = (*e.w).clone();
                    let o = e.run(&mut x, args, e.deposit, MAX_GAS);
                    (image(&x), o)
                };
                let (want, o) = full(&e.args);
                cx.ensure("G02", "works", o.ok() || want != before || e.args.contains("taken") || e.args.contains("bob"), || format!("{:?} does not work with 300 Tgas: {}", e, o.short()));
                let alt: Vec<_> = e.or.iter().map(|a| full(a).0).collect();
                let mut least = 0;
                for g in &gas {
                    let mut x = (*e.w).clone();
                    let o = e.run(&mut x, &e.args, e.deposit, *g);
                    let got = image(&x);
                    let kind = if got == want {
                        if least == 0 {
                            least = *g;
                        }
                        "full effect"
                    } else if got == before {
                        "no effect"
                    } else if alt.contains(&got) {
                        "refunded"
                    } else {
                        "partial"
                    };
                    cx.seen(kind);
                    cx.ensure("G02", "partial", kind != "partial", || format!("{:?} with {} gas: {}; neither all nor nothing: {:?} differ from full gas, {:?} from no call", e, g, o.short(), differ(&got, &want), differ(&got, &before)));
                }
                cx.seen(format!("{} of {} needs {} Tgas", e.method, e.to, (least + TGAS - 1) / TGAS));
                w.clear_events();
            },
        },
        1,
    )]
}

/// The factories' documented calls with the gas their documentation gives them (G01).
pub fn documented_gas(c: &Ctx) -> Box<dyn Scenario> {
    let mut v: Vec<(Entry, u64)> = vec![];
    let entry = |w: &Arc<World>, args: Value| Entry { w: w.clone(), who: "alice", key: default_pk(), to: "factory".into(), method: "create", args: args.to_string(), deposit: 50 * NEAR, payable: true, or: vec![] };
    let mut w = crate::m_factory::base(c, "lockup_factory", "lockup_contract", "factory");
    w.must("foundation", "factory", "new", r#"{"whitelist_account_id":"whitelist","foundation_account_id":"foundation"}"#, 0);
    w.clear_events();
    let w = Arc::new(w);
    let sched = json!({"VestingSchedule": {"start_timestamp": "1535760000000000000", "cliff_timestamp": "1567296000000000000", "end_timestamp": "1661990400000000000"}});
    for ts in [None, Some("1535760000000000000")] {
        for rel in [None, Some("126230400000000000")] {
            for vest in [Value::Null, sched.clone(), json!({"VestingHash": base64::encode(&[7u8; 32])})] {
                for wl in [None, Some("another-whitelist.near")] {
                    let a = json!({"owner_account_id": "lockup_owner.testnet", "lockup_duration": "31536000000000000", "lockup_timestamp": ts, "release_duration": rel, "vesting_schedule": vest, "whitelist_account_id": wl});
                    v.push((entry(&w, a), 110 * TGAS));
                }
            }
        }
    }
    let w = Arc::new(crate::m_factory::base(c, "multisig_factory", "multisig2", "factory"));
    for name in ["test", "taken"] {
        for accounts in 0..=4 {
            for keys in 0..=4u8 {
                for k in [1, accounts + keys as usize] {
                    let m: Vec<Value> = (0..accounts).map(|i| json!({"account_id": format!("member{}.testnet", i)})).chain((1..=keys).map(|i| json!({"public_key": pk_bs58(i)}))).collect();
                    v.push((entry(&w, json!({"name": name, "members": m, "num_confirmations": k})), 100 * TGAS));
                }
            }
        }
    }
    sc(
        Cases {
            name: format!("documented gas of the factories, {} creations", v.len()),
            start: World::new(c.env(&[], &[], true, 0)),
            cases: v,
            run: |_: &mut World, (e, gas): &(Entry, u64), cx: &mut Cx| {
                let (mut a, mut b) = ((*e.w).clone(), (*e.w).clone());
                let x = e.run(&mut a, &e.args, e.deposit, MAX_GAS);
                let y = e.run(&mut b, &e.args, e.deposit, *gas);
                cx.seen(format!("{:?}", y.val()));
                cx.ensure("G01", "factory", x == y && image(&a) == image(&b), || format!("{:?}: with the documented {} gas {}, with more {}", e, gas, y.short(), x.short()));
            },
        },
        1,
    )
}

fn g03(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v = entries(c);
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("{} operations with unexpected tokens attached", v.len()),
            start,
            cases: v,
            run: move |_: &mut World, e: &Entry, cx: &mut Cx| {
                let mut x = (*e.w).clone();
                let o = e.run(&mut x, &e.args, e.deposit, MAX_GAS);
                cx.seen(format!("{} {}", e.method, o.ok()));
                let one = ["near_withdraw", "ft_transfer", "ft_transfer_call", "storage_withdraw", "storage_unregister"].contains(&e.method);
                if e.payable && !one {
                    return;
                }
                let before = image(&e.w);
                for d in if one { [0, 2, NEAR] } else { [1, NEAR, 5 * NEAR] } {
                    let mut e = e.clone();
                    let mut w = (*e.w).clone();
                    // a full access key, as function-call keys cannot attach tokens
                    if e.who == "ms" {
                        w.edit("ms", |a| {
                            let mut k = (*a.keys).clone();
                            k.insert(e.key.clone(), crate::vm::KeyPerm::Full);
                            a.keys = Arc::new(k);
                        });
                    }
                    let before = if e.who == "ms" { image(&w) } else { before.clone() };
                    e.w = Arc::new(w);
                    let mut x = (*e.w).clone();
                    let o = e.run(&mut x, &e.args, d, MAX_GAS);
                    let got = image(&x);
                    cx.ensure("G03", "kept", o.is_err() && got == before, || format!("{:?} with {} yocto attached: {}; changed accounts: {:?}", e, d, o.short(), differ(&got, &before)));
                }
            },
        },
        1,
    )]
}

// ------------------------------------------------------- the cost of an operation and other users

/// what a contract account of the prepared worlds is
/// the contract an account runs ("" for none or a stand-in)
fn kind(w: &World, a: &str) -> String {
    match &w.acc(a).unwrap().code {
        Some(CodeRef::Known(i)) => match &w.env.codes[*i as usize] {
            CodeKind::Wasm(c) => c.name.clone(),
            CodeKind::Native(..) => String::new(),
        },
        _ => String::new(),
    }
}

/// n others use what the operation uses
fn populate(w: &mut World, e: &Entry, n: usize) -> usize {
    let k = kind(w, &e.to);
    let user = |i: usize| format!("other{:04}.users", (i * 7919) % 10_007);
    let pool = |w: &mut World, n: usize| {
        for i in 0..n {
            w.user(&user(i), 100 * NEAR);
            w.must(&user(i), "pool", if i % 2 == 0 { "deposit" } else { "deposit_and_stake" }, "{}", 3 * NEAR + i as u128);
        }
        w.clear_events();
    };
    let done = match k.as_str() {
        "staking_pool" => {
            pool(w, n);
            n
        }
        "lockup_contract" => {
            pool(w, n);
            for i in 0..n {
                w.must("foundation", "whitelist", "add_staking_pool", &json!({"staking_pool_account_id": user(i)}).to_string(), 0);
            }
            n
        }
        "whitelist" => {
            for i in 0..n {
                w.must("foundation", "whitelist", "add_staking_pool", &json!({"staking_pool_account_id": user(i)}).to_string(), 0);
                w.must("foundation", "whitelist", "add_factory", &json!({"factory_account_id": user(i)}).to_string(), 0);
            }
            n
        }
        "w_near" => {
            for i in 0..n {
                w.user(&user(i), 100 * NEAR);
                w.must(&user(i), "wrap", "near_deposit", "{}", NEAR + i as u128);
            }
            n
        }
        "staking_pool_factory" => {
            let n = n.min(250);
            for i in 0..n {
                let a = json!({"staking_pool_id": format!("other{}", i), "owner_id": user(i), "stake_public_key": pk_bs58(2), "reward_fee_fraction": {"numerator": 1, "denominator": 7}});
                w.must("bob", "factory", "create_staking_pool", &a.to_string(), 31 * NEAR);
            }
            n
        }
        "multisig" | "multisig2" => {
            let n = n.min(11);
            let rq = json!({"request": {"receiver_id": "bob", "actions": [{"type": "Transfer", "amount": "1"}]}}).to_string();
            for _ in 0..n {
                w.call_key("ms", &pk(2), "ms", "add_request_and_confirm", &rq, 0, MAX_GAS).unwrap();
                w.drain();
            }
            n
        }
        _ => 0,
    };
    w.next_epoch(&|_| NEAR);
    w.clear_events();
    done
}

fn g05(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    // initialisers have no others; removing a member goes through the pending requests, whose number is limited;
    // the votes are counted again at each turn of an epoch, their number is that of the validators
    let v: Vec<Entry> = entries(c).into_iter().filter(|e| e.method != "new" && e.to != "voting" && !e.args.contains("Delete") && !(e.to == "ms" && e.args == json!({"request_id": 3}).to_string())).collect();
    let sizes: Vec<usize> = if c.thorough { vec![1, 2, 9, 10, 11, 60, 100, 300, 1000, 3000] } else { vec![1, 10, 60, 250] };
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("{} operations with up to {} other users", v.len(), sizes[sizes.len() - 1]),
            start,
            cases: v,
            run: move |_: &mut World, e: &Entry, cx: &mut Cx| {
                let cost = |n: usize| {
                    let mut x = (*e.w).clone();
                    let n = populate(&mut x, e, n);
                    let views: Vec<_> = readings(&x, &e.to).into_iter().filter(|(m, _)| *m != "get_votes").map(|(m, a)| (m, x.view(&e.to, m, &a).is_ok())).collect();
                    let o = e.run(&mut x, &e.args, e.deposit, MAX_GAS);
                    let gas: u64 = x.events.iter().map(|e| e.gas_burnt).sum();
                    (n, o, gas, views)
                };
                let (_, o0, g0, v0) = cost(0);
                let mut last = 0;
                for n in &sizes {
                    let (n, o, g, v) = cost(*n);
                    if n == last {
                        continue;
                    }
                    last = n;
                    cx.ensure("G05", "works", o.ok() == o0.ok(), || format!("{:?}: {} without others, {} with {} others", e, o0.short(), o.short(), n));
                    for ((m, b), (_, b0)) in v.iter().zip(&v0) {
                        // requests of others make some of the answers possible
                        cx.ensure("G05", "read", *b || !b0, || format!("{}.{} answers without others, not with {} others", e.to, m, n));
                    }
                    cx.ensure("G05", "cost", g <= g0 + 3 * TGAS, || format!("{:?} burns {:.1} Tgas without others, {:.1} Tgas with {} others", e, g0 as f64 / 1e12, g as f64 / 1e12, n));
                }
                cx.seen(format!("{} of {}, {} others", e.method, e.to, if last == 0 { "no" } else if last > 60 { "many" } else { "some" }));
            },
        },
        1,
    )]
}

// ----------------------------------------------------------------------------------------- reading

fn readings(w: &World, a: &str) -> Vec<(&'static str, String)> {
    let e = || json!({});
    let vs = json!({"vesting_schedule": {"start_timestamp": "5", "cliff_timestamp": "6", "end_timestamp": "18446744073709551615"}});
    let k = kind(w, a);
    let v: Vec<(&'static str, Value)> = match k.as_str() {
        "whitelist" => ["old", "fresh", "foundation"].iter().flat_map(|x| vec![("is_whitelisted", json!({ "staking_pool_account_id": x })), ("is_factory_whitelisted", json!({ "factory_account_id": x }))]).collect(),
        "voting_contract" => vec![("get_result", e()), ("get_total_voted_stake", e()), ("get_votes", e())],
        "staking_pool" => {
            let mut v = vec![("get_total_staked_balance", e()), ("get_owner_id", e()), ("get_reward_fee_fraction", e()), ("get_staking_key", e()), ("is_staking_paused", e()), ("get_number_of_accounts", e())];
            for (f, l) in [(0, 10), (1, 1), (5, 0)] {
                v.push(("get_accounts", json!({"from_index": f, "limit": l})));
            }
            for u in ["alice", "owner", "lockup", "nobody"] {
                for m in ["get_account", "get_account_unstaked_balance", "get_account_staked_balance", "get_account_total_balance", "is_account_unstaked_balance_available"] {
                    v.push((m, json!({ "account_id": u })));
                }
            }
            v
        }
        "lockup_contract" => {
            let mut v: Vec<_> = ["get_owner_account_id", "get_staking_pool_account_id", "get_known_deposited_balance", "get_termination_status", "get_terminated_unvested_balance", "get_terminated_unvested_balance_deficit", "get_locked_amount", "get_vesting_information", "get_owners_balance", "get_balance", "get_liquid_owners_balance", "are_transfers_enabled"].iter().map(|m| (*m, e())).collect();
            v.extend([("get_unvested_amount", vs.clone()), ("get_locked_vested_amount", vs)]);
            v
        }
        "w_near" => {
            let mut v = vec![("ft_total_supply", e()), ("ft_metadata", e()), ("storage_balance_bounds", e()), ("storage_minimum_balance", e())];
            for u in ["alice", "carol", "rcv", "nobody"] {
                v.extend([("ft_balance_of", json!({ "account_id": u })), ("storage_balance_of", json!({ "account_id": u }))]);
            }
            v
        }
        "staking_pool_factory" => vec![("get_min_attached_balance", e()), ("get_number_of_staking_pools_created", e())],
        "lockup_factory" => vec![("get_foundation_account_id", e()), ("get_lockup_master_account_id", e()), ("get_min_attached_balance", e())],
        "multisig" | "multisig2" => {
            let mut v = vec![("list_request_ids", e()), ("get_num_confirmations", e()), ("get_request_nonce", e())];
            for i in [0, 1, 3, 99] {
                v.extend([("get_request", json!({ "request_id": i })), ("get_confirmations", json!({ "request_id": i }))]);
            }
            for n in [1, 2, 9] {
                v.push(if k == "multisig" { ("get_num_requests_pk", json!({"public_key": pk_str(n)})) } else { ("get_num_requests_per_member", json!({"member": {"public_key": pk_str(n)}})) });
            }
            if k == "multisig2" {
                v.extend([("get_members", e()), ("get_num_requests_per_member", json!({"member": {"account_id": "alice"}}))]);
            }
            v
        }
        _ => vec![],
    };
    v.into_iter().map(|(m, a)| (m, a.to_string())).collect()
}

/// every view of every contract, read-only and within a transaction by several callers
fn read_all(w: &World, e: &Entry, cx: &mut Cx) {
    let mut x = w.clone();
    x.user("reader.users", NEAR);
    x.edit(e.who, |a| drop(Arc::make_mut(&mut a.keys).insert(default_pk(), crate::vm::KeyPerm::Full)));
    let before = image(&x);
    let contracts: Vec<String> = x.existing().into_iter().filter(|a| !kind(&x, a).is_empty()).collect();
    for a in &contracts {
        for (m, args) in readings(&x, a) {
            let view = x.view(a, m, &args);
            let again = x.view(a, m, &args);
            cx.ensure("G06", "same", view == again, || format!("{:?}: {}.{}({}) answers {:?}, then {:?}", e, a, m, args, view, again));
            cx.seen(if view.is_ok() { "answered" } else { "refused" });
            for who in ["reader.users", e.who] {
                if x.queue.contains_key(&(id(who), id(a))) {
                    continue; // receipts between the two are delivered in order
                }
                let mut y = x.clone();
                y.clear_events();
                let rid = y.submit(who, a, m, &args, 0);
                let ch = (id(who), id(a));
                while y.events.iter().all(|v| v.id != rid) && y.queue.contains_key(&ch) {
                    y.deliver(&ch, false);
                }
                let Some(ev) = y.events.iter().find(|v| v.id == rid).cloned() else {
                    cx.ensure("G06", "harness", false, || format!("the call of {} is not delivered", m));
                    continue;
                };
                let got = match &ev.result {
                    Ok(Res::Value(v)) => Some(parse(v)),
                    Ok(_) => Some(json!("something else")),
                    Err(_) => None,
                };
                cx.ensure("G06", "answer", got == view.clone().ok(), || format!("{:?}: {}.{}({}) by {} in a transaction: {:?} ({:?}), read-only: {:?}", e, a, m, args, who, got, ev.result, view));
                if y.queue.keys().all(|k| x.queue.contains_key(k)) {
                    let after = image(&y);
                    cx.ensure("G06", "unchanged", after == before && ev.children.is_empty(), || format!("{:?}: reading {}.{}({}) changes {:?}", e, a, m, args, differ(&after, &before)));
                } else {
                    cx.ensure("G06", "unchanged", false, || format!("{:?}: reading {}.{}({}) sends something", e, a, m, args));
                }
            }
        }
    }
}

fn g06(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v = entries(c);
    let n = v.len();
    let start = World::new(c.env(&[], &[], true, 0));
    let others: &[usize] = if c.thorough { &[0, 1, 12, 130, 1000] } else { &[0, 1, 12] };
    let cases: Vec<(Entry, usize)> = v.into_iter().flat_map(|e| others.iter().map(|n| (e.clone(), *n)).collect::<Vec<_>>()).filter(|(e, n)| *n == 0 || e.method != "new").collect();
    vec![sc(
        Cases {
            name: format!("every view before, during and after each of {} operations, alone and with others", n),
            start,
            cases,
            run: move |_: &mut World, (e, others): &(Entry, usize), cx: &mut Cx| {
                let mut w = (*e.w).clone();
                if *others > 0 && !(e.to == "ms" && e.args == json!({"request_id": 3}).to_string()) {
                    populate(&mut w, e, *others);
                }
                read_all(&w, e, cx);
                w.clear_events();
                let a = Action::Call { method: e.method.into(), args: bytes(e.args.as_bytes()), gas: MAX_GAS, deposit: e.deposit };
                w.tx_from(e.who, &e.key, e.who, &e.key, &e.to, vec![a]).unwrap();
                let mut n = 0;
                while let Some(ch) = w.next_chan() {
                    w.deliver(&ch, false);
                    n += 1;
                    if n < 40 {
                        read_all(&w, e, cx);
                    }
                }
                cx.seen(format!("{} receipts", n));
            },
        },
        1,
    )]
}

// -------------------------------------------------------------------------------- initialisation

fn g07(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v: Vec<Entry> = entries(c).into_iter().filter(|e| kind(&e.w, &e.to) != "multisig_factory").collect();
    // valid initialisations, by contract
    let mut news: BTreeMap<String, String> = BTreeMap::new();
    let mut theirs = news.clone();
    for e in v.iter().filter(|e| e.method == "new") {
        let mut a = parse(e.args.as_bytes());
        for (k, v) in a.as_object_mut().unwrap() {
            if k.ends_with("account_id") || k == "owner_id" {
                *v = json!("stranger.users");
            } else if k == "members" {
                *v = json!([{"account_id": "stranger.users"}]);
            } else if k == "num_confirmations" {
                *v = json!(1);
            }
        }
        theirs.insert(kind(&e.w, &e.to), a.to_string());
        news.insert(kind(&e.w, &e.to), e.args.clone());
    }
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("{} operations before initialisation, and a second initialisation after each", v.len()),
            start,
            cases: v,
            run: move |_: &mut World, e: &Entry, cx: &mut Cx| {
                let k = kind(&e.w, &e.to);
                let callers = |w: &mut World| {
                    w.user("stranger.users", 100 * NEAR);
                    let mut v = vec!["stranger.users".to_string(), e.who.to_string(), e.to.clone()];
                    v.extend(["foundation", "owner"].iter().filter(|a| w.acc(a).is_some()).map(|a| a.to_string()));
                    v.dedup();
                    for a in &v {
                        w.edit(a, |a| drop(Arc::make_mut(&mut a.keys).insert(default_pk(), crate::vm::KeyPerm::Full)));
                    }
                    v
                };
                if e.method != "new" {
                    // the same contract, not initialised
                    let mut w = (*e.w).clone();
                    callers(&mut w);
                    w.edit(&e.to, |a| a.storage = Default::default());
                    let before = image(&w);
                    let run = |w: &mut World, by: Option<&str>| match by {
                        None => e.run(w, &e.args, e.deposit, MAX_GAS),
                        Some(by) => w.call(by, &e.to, e.method, &e.args, e.deposit),
                    };
                    for by in [None, Some(e.to.as_str()), Some("stranger.users")] {
                        let mut x = w.clone();
                        let o = run(&mut x, by);
                        let after = image(&x);
                        cx.ensure("G07", "before", o.is_err() && after == before, || format!("{:?} (by {:?}) on a contract that is not initialised: {}; changed: {:?}", e, by, o.short(), differ(&after, &before)));
                    }
                    cx.seen("refused before initialisation");
                }
                // initialising again, before, during and after the operation
                let mut w = (*e.w).clone();
                let who = callers(&mut w);
                w.clear_events();
                let again = |w: &World, when: &str, cx: &mut Cx| {
                    if w.acc(&e.to).unwrap().storage.is_empty() {
                        return;
                    }
                    for by in &who {
                        if w.queue.contains_key(&(id(by), id(&e.to))) {
                            continue;
                        }
                        for args in [news[&k].as_str(), theirs[&k].as_str()] {
                            let mut x = w.clone();
                            let before = image(&x);
                            let rid = x.submit(by, &e.to, "new", args, 0);
                            let ch = (id(by), id(&e.to));
                            while x.events.iter().all(|v| v.id != rid) && x.queue.contains_key(&ch) {
                                x.deliver(&ch, false);
                            }
                            let bad = x.first_ok(rid);
                            let after = image(&x);
                            cx.ensure("G07", "again", !bad && after == before, || format!("{} the operation {:?}: a second initialisation by {} with {} {}; changed: {:?}", when, e, by, args, if bad { "is accepted" } else { "is refused" }, differ(&after, &before)));
                        }
                    }
                };
                again(&w, "before", cx);
                let a = Action::Call { method: e.method.into(), args: bytes(e.args.as_bytes()), gas: MAX_GAS, deposit: e.deposit };
                w.tx_from(e.who, &e.key, e.who, &e.key, &e.to, vec![a]).unwrap();
                while let Some(ch) = w.next_chan() {
                    w.deliver(&ch, false);
                    again(&w, if w.quiet() { "after" } else { "during" }, cx);
                }
                for _ in 0..4 {
                    w.next_epoch(&|_| NEAR);
                }
                again(&w, "four epochs after", cx);
                cx.seen("second initialisation refused");
            },
        },
        1,
    )]
}

// --------------------------------------------------------------------------------- authority

fn g08(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v = entries(c);
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("{} operations in transactions signed by others", v.len()),
            start,
            cases: v,
            run: move |_: &mut World, e: &Entry, cx: &mut Cx| {
                let mut w = (*e.w).clone();
                let stranger = "stranger.users";
                w.user(stranger, 1000 * NEAR);
                w.edit(stranger, |a| drop(Arc::make_mut(&mut a.keys).insert(pk(9), crate::vm::KeyPerm::Full)));
                let go = |who: &str, key: &Bytes, by: &str, by_key: &Bytes| {
                    let mut x = w.clone();
                    let a = Action::Call { method: e.method.into(), args: bytes(e.args.as_bytes()), gas: MAX_GAS, deposit: e.deposit };
                    x.clear_events();
                    let rid = x.tx_from(who, key, by, by_key, &e.to, vec![a]).unwrap_or_else(|m| panic!("{:?}: {}", e, m));
                    x.drain();
                    (x.outcome(rid), image(&x))
                };
                // whoever signed for it, the caller's call does the same; a key is the authority of a multisig's member
                let direct = go(e.who, &e.key, e.who, &e.key);
                for by in [stranger, "owner", "foundation", e.to.as_str(), "nobody.users"] {
                    let key = if e.who == "ms" { e.key.clone() } else { pk(9) };
                    let (o, got) = go(e.who, &e.key, by, &key);
                    cx.ensure("G08", "caller", o == direct.0 && got == direct.1, || format!("{:?}: {}, but {} in a transaction that {} signed; different: {:?}", e, direct.0.short(), o.short(), by, differ(&got, &direct.1)));
                }
                // a stranger's call does the same, whoever signed for it
                let alone = go(stranger, &pk(9), stranger, &pk(9));
                cx.seen(format!("stranger {}", if alone.0.ok() { "may" } else { "may not" }));
                for (by, key) in [(e.who, &e.key), (e.who, &default_pk()), ("owner", &default_pk()), ("foundation", &default_pk()), (e.to.as_str(), &e.key), ("alice", &default_pk())] {
                    let (o, got) = go(stranger, &pk(9), by, key);
                    cx.ensure("G08", "stranger", o == alone.0 && got == alone.1, || format!("{:?}, called by a stranger's contract: {}, but {} in a transaction that {} signed; different: {:?}", e, alone.0.short(), o.short(), by, differ(&got, &alone.1)));
                }
            },
        },
        1,
    )]
}

// --------------------------------------------------------------------------------- arguments

/// every place in the arguments, as a path
fn places(v: &Value, at: Vec<String>, out: &mut Vec<Vec<String>>) {
    if !at.is_empty() {
        out.push(at.clone());
    }
    let sub = |k: String| {
        let mut p = at.clone();
        p.push(k);
        p
    };
    match v {
        Value::Object(m) => m.iter().for_each(|(k, v)| places(v, sub(k.clone()), out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, v)| places(v, sub(i.to_string()), out)),
        _ => {}
    }
}
fn place<'a>(v: &'a mut Value, p: &[String]) -> &'a mut Value {
    p.iter().fold(v, |v, k| match v {
        Value::Array(a) => &mut a[k.parse::<usize>().unwrap()],
        v => &mut v[k.as_str()],
    })
}
/// documented as optional: absent and null mean the same
const OPTIONAL: [&str; 13] = [
    "lockup.new.lockup_timestamp",
    "lockup.new.release_duration",
    "lockup.new.vesting_schedule",
    "lockup.new.staking_pool_whitelist_account_id",
    "lockup.new.foundation_account_id",
    "lockup.terminate_vesting.vesting_schedule_with_salt",
    "factory.create.lockup_timestamp",
    "factory.create.release_duration",
    "factory.create.vesting_schedule",
    "wrap.storage_deposit.account_id",
    "wrap.storage_deposit.registration_only",
    "wrap.storage_withdraw.amount",
    "wrap.storage_unregister.force",
];

fn g09(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v: Vec<Entry> = entries(c).into_iter().filter(|e| e.args != "{}").collect();
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("{} operations with malformed arguments", v.len()),
            start,
            cases: v,
            run: move |_: &mut World, e: &Entry, cx: &mut Cx| {
                let before = image(&e.w);
                let good = parse(e.args.as_bytes());
                let mut bad: Vec<(String, String)> = vec![];
                let mut ps = vec![];
                places(&good, vec![], &mut ps);
                let big = (u128::MAX).to_string();
                for p in &ps {
                    let path = p.join(".");
                    let optional = OPTIONAL.contains(&format!("{}.{}.{}", e.to, e.method, path).as_str());
                    let (last, up) = p.split_last().unwrap();
                    let mut other = |what: &str, f: &mut dyn FnMut(&mut Value)| {
                        let mut a = good.clone();
                        f(place(&mut a, up));
                        bad.push((format!("{} {}", path, what), a.to_string()));
                    };
                    let mut set = |x: Value| {
                        let what = format!("= {}", x);
                        other(&what, &mut |up| *place(up, std::slice::from_ref(last)) = x.clone())
                    };
                    let was = place(&mut good.clone(), p).clone();
                    let kind = |v: &Value| std::mem::discriminant(v);
                    for x in [Value::Null, json!(true), json!(7), json!("x"), json!([]), json!({})] {
                        // null is a value of an optional argument; an empty list may be one of a list
                        if kind(&x) != kind(&was) && !(optional && x.is_null()) {
                            set(x);
                        }
                    }
                    match &was {
                        Value::Number(_) => [json!(-1), json!(1.5), json!(1e30)].into_iter().for_each(&mut set),
                        Value::String(s) if s.chars().all(|c| c.is_ascii_digit()) => {
                            for x in [format!("{}0", big), format!("-{}", s), format!("{}.5", s), format!(" {}", s), format!("{} ", s), format!("{}e1", s), format!("0x{}", s), String::new()] {
                                set(json!(x));
                            }
                        }
                        _ => {}
                    }
                    if !optional {
                        other("absent", &mut |up| {
                            if let Value::Object(m) = up {
                                m.remove(last);
                            }
                        });
                    }
                }
                bad.retain(|(_, a)| *a != e.args);
                for x in ["", "null", "[]", "7", "\"x\"", "{", &e.args[..e.args.len() - 1], &format!("{}x", e.args), &format!("[{}]", e.args)] {
                    bad.push(("all".into(), x.to_string()));
                }
                for k in good.as_object().unwrap().keys() {
                    bad.push((format!("{} twice", k), format!("{{\"{}\":{},{}", k, good[k], &e.args[1..])));
                }
                for (what, a) in bad {
                    let mut x = (*e.w).clone();
                    let o = e.run(&mut x, &a, e.deposit, MAX_GAS);
                    let got = image(&x);
                    cx.ensure("G09", "malformed", o.is_err() && got == before, || format!("{:?} with malformed arguments ({}): {}; changed: {:?}", e, what, o.short(), differ(&got, &before)));
                    cx.seen("malformed arguments refused");
                }
            },
        },
        1,
    )]
}

// --------------------------------------------------------------------------- methods that are not for others

/// the documented methods anybody may call
fn public(kind: &str) -> Vec<&'static str> {
    let s = match kind {
        "whitelist" => "new is_whitelisted is_factory_whitelisted add_staking_pool remove_staking_pool add_factory remove_factory",
        "voting_contract" => "new ping vote get_result get_total_voted_stake get_votes",
        "staking_pool" => "new ping deposit deposit_and_stake withdraw_all withdraw stake_all stake unstake_all unstake get_account_unstaked_balance get_account_staked_balance get_account_total_balance is_account_unstaked_balance_available get_total_staked_balance get_owner_id get_reward_fee_fraction get_staking_key is_staking_paused get_account get_number_of_accounts get_accounts update_staking_key update_reward_fee_fraction vote pause_staking resume_staking",
        "lockup_contract" => "new terminate_vesting termination_prepare_to_withdraw termination_withdraw get_owner_account_id get_staking_pool_account_id get_known_deposited_balance get_termination_status get_terminated_unvested_balance get_terminated_unvested_balance_deficit get_locked_amount get_locked_vested_amount get_unvested_amount get_vesting_information get_owners_balance get_balance get_liquid_owners_balance are_transfers_enabled select_staking_pool unselect_staking_pool deposit_to_staking_pool deposit_and_stake refresh_staking_pool_balance withdraw_from_staking_pool withdraw_all_from_staking_pool stake unstake unstake_all check_transfers_vote transfer add_full_access_key",
        "w_near" => "new storage_minimum_balance near_deposit near_withdraw ft_transfer ft_transfer_call ft_total_supply ft_balance_of storage_deposit storage_withdraw storage_unregister storage_balance_bounds storage_balance_of ft_metadata",
        "staking_pool_factory" => "new get_min_attached_balance get_number_of_staking_pools_created create_staking_pool",
        "lockup_factory" => "new get_foundation_account_id get_lockup_master_account_id get_min_attached_balance create",
        "multisig_factory" => "create",
        "multisig" => "new add_request add_request_and_confirm delete_request confirm get_request get_num_requests_pk list_request_ids get_confirmations get_num_confirmations get_request_nonce",
        "multisig2" => "new add_request add_request_and_confirm delete_request confirm get_members get_request get_num_requests_per_member list_request_ids get_confirmations get_num_confirmations get_request_nonce",
        _ => "",
    };
    s.split(' ').collect()
}

/// arguments the method understands, found from its own complaints about missing ones
fn shapes(w: &World, by: &str, to: &str, method: &str) -> Vec<String> {
    let values = || vec![json!("1"), json!((5 * NEAR).to_string()), json!("stranger.users"), json!("alice"), json!(by), json!(pk_str(3)), json!(1), json!(true), Value::Null, json!([]), json!({})];
    let mut open = vec![json!({})];
    let mut done = vec![];
    while let Some(a) = open.pop() {
        if done.len() >= 400 {
            break;
        }
        let mut x = w.clone();
        let o = x.call(by, to, method, &a.to_string(), 0);
        let Out::Err(m) = &o else {
            done.push(a.to_string());
            continue;
        };
        if let Some(f) = m.split("missing field `").nth(1).and_then(|s| s.split('`').next()) {
            if a.as_object().unwrap().len() < 5 {
                for v in values() {
                    let mut b = a.clone();
                    b[f] = v;
                    open.push(b);
                }
            }
        } else if !m.contains("Failed to deserialize") {
            done.push(a.to_string());
        }
    }
    done
}

fn g10(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let v: Vec<Entry> = entries(c).into_iter().filter(|e| e.method != "new").collect();
    let start = World::new(c.env(&[], &[], true, 0));
    vec![sc(
        Cases {
            name: format!("exported methods that are not documented, in {} states", v.len()),
            start,
            cases: v,
            run: move |_: &mut World, e: &Entry, cx: &mut Cx| {
                let mut w = (*e.w).clone();
                w.user("stranger.users", 1000 * NEAR);
                w.clear_events();
                let k = kind(&w, &e.to);
                let known = public(&k);
                let code = match &w.acc(&e.to).unwrap().code {
                    Some(CodeRef::Known(i)) => match &w.env.codes[*i as usize] {
                        CodeKind::Wasm(c) => c.exports(),
                        _ => vec![],
                    },
                    _ => vec![],
                };
                let mut who = vec!["stranger.users"];
                who.extend(["alice", "owner", "foundation"].iter().filter(|a| w.acc(a).map_or(false, |a| a.keys.contains_key(&default_pk()))));
                let methods: Vec<(&String, Vec<String>)> = code.iter().filter(|m| !known.contains(&m.as_str()) && !m.starts_with("__")).map(|m| (m, shapes(&w, "stranger.users", &e.to, m))).collect();
                for (m, args) in &methods {
                    cx.seen(format!("{}.{} takes {} arguments", k, m, args.first().map_or(0, |a| parse(a.as_bytes()).as_object().unwrap().len())));
                }
                // before, between and after the receipts of the operation: what it leads to stays the same
                let attack = |w: &World, when: &str, cx: &mut Cx| {
                    let mut y = w.clone();
                    y.drain();
                    let want = image(&y);
                    for (m, args) in &methods {
                        for a in args {
                            for by in &who {
                                if w.queue.contains_key(&(id(by), id(&e.to))) {
                                    continue;
                                }
                                for (d, given) in [(0, vec![]), (0, vec![PromiseResult::Ok(bytes(b"true"))]), (0, vec![PromiseResult::Ok(bytes(b"\"7\""))]), (0, vec![PromiseResult::Failed]), (NEAR, vec![])] {
                                    let mut x = w.clone();
                                    let rid = x.submit_after(by, &e.to, m, a, d, given.clone());
                                    let ch = (id(by), id(&e.to));
                                    while x.queue.contains_key(&ch) {
                                        x.deliver(&ch, false);
                                    }
                                    x.drain();
                                    let got = image(&x);
                                    cx.ensure("G10", "effect", got == want, || format!("{} {:?}: {} calls {}.{}({}) with {} yocto, promise results {:?}: {}; changed: {:?}", when, e, by, e.to, m, a, d, given, x.outcome(rid).short(), differ(&got, &want)));
                                }
                            }
                        }
                    }
                };
                attack(&w, "before", cx);
                let a = Action::Call { method: e.method.into(), args: bytes(e.args.as_bytes()), gas: MAX_GAS, deposit: e.deposit };
                w.tx_from(e.who, &e.key, e.who, &e.key, &e.to, vec![a]).unwrap();
                while let Some(ch) = w.next_chan() {
                    w.deliver(&ch, false);
                    attack(&w, if w.quiet() { "after" } else { "during" }, cx);
                }
            },
        },
        1,
    )]
}
