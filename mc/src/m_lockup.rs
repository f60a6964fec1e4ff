//! The lockup contract, with the real staking pool and whitelist: schedules, staking, termination.
use crate::check::*;
use crate::explore::*;
use crate::m_pool::{new_args, FUND};
use crate::vm::{valid_account, Action, Input, KeyPerm, NewReceipt, Output, PromiseResult, Ret, Storage};
use crate::world::*;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::collections::BTreeMap;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

const A_LK: &[&str] = &[
    "one lockup account with owner, foundation and strangers, the real whitelist and two real staking pools; the transfer poll is a stand-in that reports or withholds a result",
    "amounts at NEAR scale from a small set, including amounts computed from the state (the whole liquid balance, one yocto more, ...)",
    "failures are injected into everything the lockup calls except the pools' balance views, whose failure is a listed finding",
    "a staking pool's internal staking receipts are delivered as soon as they exist",
];
pub fn checks() -> Vec<Check> {
    let c = &["lockup", "staking-pool", "whitelist"];
    let l = &["lockup"];
    vec![
        Check { prop: "L01", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L02", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L03", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L04", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L05", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L06", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L07", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L08", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L09", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L10", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L11", contracts: l, make: init_cases, assumptions: &[] },
        Check { prop: "L12", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "L13", contracts: c, make: lockup, assumptions: A_LK },
        Check { prop: "G01", contracts: &["lockup", "staking-pool", "whitelist", "lockup-factory", "multisig-factory"], make: lockup, assumptions: A_LK },
    ]
}

const E: u64 = EPOCH_NS;
const T0: u64 = 1_600_000_000_000_000_000;
const RESERVE: u128 = 3_500_000_000_000_000_000_000_000;
/// share rounding: a few yocto per staking operation
const DUST: u128 = 1000;

// ------------------------------------------------------------------------------------ the schedule

pub type Sched = (u64, u64, u64);
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum V0 {
    None,
    Hash(Sched, Vec<u8>),
    /// the first bytes of such a hash
    Cut(Sched, Vec<u8>, usize),
    Sched(Sched),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cfg {
    amount: u128,
    enabled: Option<u64>,
    duration: u64,
    lts: Option<u64>,
    release: Option<u64>,
    vest: V0,
}
fn sched_json(s: &Sched) -> Value {
    json!({"start_timestamp": s.0.to_string(), "cliff_timestamp": s.1.to_string(), "end_timestamp": s.2.to_string()})
}
fn sched_hash(s: &Sched, salt: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    for x in [s.0, s.1, s.2] {
        v.extend(x.to_le_bytes());
    }
    v.extend((salt.len() as u32).to_le_bytes());
    v.extend(salt);
    Sha256::digest(&v).to_vec()
}
fn salted(s: &Sched, salt: &[u8]) -> Value {
    json!({"vesting_schedule": sched_json(s), "salt": base64::encode(salt)})
}
impl Cfg {
    pub fn args(&self) -> Value {
        json!({
            "owner_account_id": "owner",
            "lockup_duration": self.duration.to_string(),
            "lockup_timestamp": self.lts.map(|x| x.to_string()),
            "transfers_information": match self.enabled {
                Some(t) => json!({"TransfersEnabled": {"transfers_timestamp": t.to_string()}}),
                None => json!({"TransfersDisabled": {"transfer_poll_account_id": "poll"}}),
            },
            "vesting_schedule": match &self.vest {
                V0::None => Value::Null,
                V0::Hash(s, salt) => json!({"VestingHash": base64::encode(sched_hash(s, salt))}),
                V0::Cut(s, salt, n) => json!({"VestingHash": base64::encode(&sched_hash(s, salt)[..*n])}),
                V0::Sched(s) => json!({"VestingSchedule": sched_json(s)}),
            },
            "release_duration": self.release.map(|x| x.to_string()),
            "staking_pool_whitelist_account_id": "whitelist",
            "foundation_account_id": if self.vest == V0::None { Value::Null } else { json!("foundation") },
        })
    }
}
/// floor(a * b / c) for b <= c
fn part(a: u128, b: u64, c: u64) -> u128 {
    // a = q*c + r;  a*b/c = q*b + r*b/c, and r*b < c*c < 2^128
    let (b, c) = (b as u128, c as u128);
    (a / c) * b + (a % c) * b / c
}
fn unvested_by(s: &Sched, amount: u128, now: u64) -> u128 {
    if now < s.1 {
        amount
    } else if now >= s.2 {
        0
    } else {
        part(amount, s.2 - now, s.2 - s.0)
    }
}

const DEFICIT: u8 = 0;
const UNSTAKING: u8 = 1;
const UNSTAKED: u8 = 2;
const WITHDRAWING: u8 = 3;
const READY: u8 = 4;
const PAYING: u8 = 5;
const STATUS: [&str; 6] =
    ["VestingTerminatedWithDeficit", "UnstakingInProgress", "EverythingUnstaked", "WithdrawingFromStakingPoolInProgress", "ReadyToWithdraw", "WithdrawingFromAccountInProgress"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Vest {
    None,
    Hash,
    Sched,
    Term { unv: u128, st: u8 },
}
/// reference state of the contract
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct L {
    amount: u128,
    paid: u128,
    enabled: Option<u64>,
    vest: Vest,
    pool: Option<&'static str>,
    busy: bool,
    d: u128,
    foundation: bool,
}
/// what a callback under way will do
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Pend {
    Select(&'static str),
    Stake,
    Add(u128),
    Sub(u128),
    Refresh,
    WithdrawAll,
    Vote,
    TermStaked,
    TermUnstake,
    TermUnstaked,
    TermWithdraw(u128),
    Pay(u128),
    Done,
}

#[derive(Clone)]
pub struct G {
    cfg: Arc<Cfg>,
    l: L,
    pend: BTreeMap<u64, Pend>,
    /// staked, unstaked, total: what the pool's last answer must have been
    snap: (u128, u128, u128),
    epochs: u64,
    gifts: u64,
    fails: u64,
    polls: u64,
    /// all that belongs to the lockup: initial balance and gifts; what it paid out; rewards added to the pools
    put: u128,
    out: u128,
    rewards: u128,
    keys: Vec<u8>,
}
impl Hash for G {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (&self.cfg, &self.l, self.snap, self.epochs, self.gifts, self.fails, self.polls).hash(h);
        (self.put, self.out, self.rewards, &self.keys).hash(h);
    }
}
impl G {
    fn locked(&self, now: u64) -> u128 {
        let (c, l) = (&self.cfg, &self.l);
        if let Some(t) = l.enabled {
            let start = t.saturating_add(c.duration).max(c.lts.unwrap_or(0));
            if now >= start {
                let held = match c.release {
                    None => 0,
                    Some(r) => {
                        let end = start.saturating_add(r);
                        if now >= end {
                            0
                        } else {
                            part(l.amount, end - now, r)
                        }
                    }
                };
                let unv = match (&l.vest, &c.vest) {
                    (Vest::Term { unv, .. }, _) => *unv,
                    (Vest::Sched, V0::Sched(s)) => unvested_by(s, l.amount, now),
                    _ => 0,
                };
                return held.saturating_sub(l.paid).max(unv);
            }
        }
        l.amount - l.paid
    }
    /// get_unvested_amount(s)
    fn unvested(&self, s: &Sched, now: u64) -> u128 {
        match &self.l.vest {
            Vest::Term { unv, .. } => *unv,
            Vest::None => 0,
            _ => unvested_by(s, self.l.amount, now),
        }
    }
    fn owners(&self, w: &World) -> u128 {
        (w.amount("lockup") + self.l.d).saturating_sub(self.locked(w.ts))
    }
    fn liquid(&self, w: &World) -> u128 {
        self.owners(w).min(w.amount("lockup").saturating_sub(RESERVE))
    }
    fn terminating(&self) -> bool {
        matches!(self.l.vest, Vest::Term { .. })
    }
}

// -------------------------------------------------------------------------------------- operations

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Am {
    X(u128),
    /// the liquid balance plus this many yocto
    Liquid(i8),
    /// the balance above the reserve plus this many yocto
    Account(i8),
    /// half of the known deposit
    Half,
    /// the lockup's unstaked balance in the pool plus this many yocto
    Unstaked(i8),
}
use Am::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Select(&'static str),
    Unselect,
    Deposit(Am),
    DepositStake(Am),
    Refresh,
    Withdraw(Am),
    WithdrawAll,
    Stake(Am),
    Unstake(Am),
    UnstakeAll,
    Vote,
    Transfer(Am, &'static str),
    Key(u8),
    /// 0: no argument, 1: the committed schedule and salt, 2..: something else
    Terminate(u8),
    Prepare,
    Pay(&'static str),
    /// a callback, with the k-th kind of promise results
    Callback(usize, usize),
    New,
}
use Act::*;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    By(&'static str, Act, u128),
    Deliver(usize, bool),
    Epoch(u128),
    Skip(u64),
    At(u64),
    Gift(u128),
    Poll(u8),
    /// the books of the other pool are changed
    Books(u8),
    List(&'static str, bool),
}
use Op::*;
fn o(a: Act) -> Op {
    By("owner", a, 0)
}
fn f(a: Act) -> Op {
    By("foundation", a, 0)
}
const CALLBACKS: [(&str, &str); 15] = [
    ("on_whitelist_is_whitelisted", r#"{"staking_pool_account_id":"pool"}"#),
    ("on_staking_pool_deposit", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_staking_pool_deposit_and_stake", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_staking_pool_withdraw", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_staking_pool_stake", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_staking_pool_unstake", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_staking_pool_unstake_all", "{}"),
    ("on_get_result_from_transfer_poll", "{}"),
    ("on_get_account_total_balance", "{}"),
    ("on_get_account_unstaked_balance_to_withdraw_by_owner", "{}"),
    ("on_get_account_staked_balance_to_unstake", "{}"),
    ("on_staking_pool_unstake_for_termination", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_get_account_unstaked_balance_to_withdraw", "{}"),
    ("on_staking_pool_withdraw_for_termination", r#"{"amount":"1000000000000000000000000"}"#),
    ("on_withdraw_unvested_amount", r#"{"amount":"1000000000000000000000000","receiver_id":"foundation"}"#),
];
fn num(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX)
}
fn pool_views(w: &World, pool: &str) -> (u128, u128, u128) {
    let a = json!({"account_id": "lockup"}).to_string();
    let g = |m: &str| w.view(pool, m, &a).map(|v| num(&v)).unwrap_or(0);
    (g("get_account_staked_balance"), g("get_account_unstaked_balance"), g("get_account_total_balance"))
}
/// the stand-in for the transfer poll: reports the result in its state
fn poll(method: &str, inp: &Input, st: &Storage) -> Output {
    let v = st.values().next().cloned().unwrap_or_else(|| bytes(b"null"));
    let ret = if method == "get_result" { Ok(Ret::Value(v)) } else { Err("MethodNotFound".into()) };
    native_out(inp, st, ret)
}
const POLL: [&str; 5] = ["null", "\"1600043200000000000\"", "\"1599000000000000000\"", "\"0\"", "\"18446744073709551615\""];

/// A staking pool of another make: its books for the lockup are changed at will (by `Books`).
/// State: the staked and the unstaked balance of the lockup.
fn vault(method: &str, inp: &Input, st: &Storage) -> Output {
    let mut o = native_out(inp, st, Ok(Ret::None));
    let (mut s, mut u) = books(st);
    let a = num(&parse(inp.input)["amount"]);
    let answer = |x: u128| Ok(Ret::Value(bytes(json!(x.to_string()).to_string().as_bytes())));
    match method {
        "ping" => {}
        "get_account_staked_balance" => o.ret = answer(s),
        "get_account_unstaked_balance" => o.ret = answer(u),
        "get_account_total_balance" => o.ret = answer(s + u),
        _ if inp.predecessor != "lockup" => o.ret = Err("only for the lockup".into()),
        "deposit" => u += inp.attached,
        "deposit_and_stake" => s += inp.attached,
        "stake" if a <= u => {
            u -= a;
            s += a;
        }
        "unstake" if a <= s => {
            s -= a;
            u += a;
        }
        "unstake_all" => {
            u += s;
            s = 0;
        }
        "withdraw" if a <= u && a <= inp.balance => {
            u -= a;
            o.balance -= a;
            o.receipts.push(NewReceipt { receiver: inp.predecessor.into(), deps: vec![], actions: vec![Action::Transfer(a)] });
        }
        _ => o.ret = Err("not possible".into()),
    }
    o.storage = keep(s, u);
    o
}
fn keep(s: u128, u: u128) -> Storage {
    [(bytes(b"b"), bytes(format!("{} {}", s, u).as_bytes()))].into_iter().collect()
}
fn books(st: &Storage) -> (u128, u128) {
    let v = st.values().next().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_default();
    let mut n = v.split(' ').map(|x| x.parse().unwrap_or(0));
    (n.next().unwrap_or(0), n.next().unwrap_or(0))
}

/// schedules that differ from the committed one, and wrong salts
fn terminate_arg(c: &Cfg, k: u8) -> Value {
    let (s, salt) = match &c.vest {
        V0::Hash(s, salt) | V0::Cut(s, salt, _) => (*s, salt.clone()),
        V0::Sched(s) => (*s, vec![1, 2, 3]),
        V0::None => ((T0, T0, T0 + E), vec![1, 2, 3]),
    };
    let mut longer = salt.clone();
    longer.push(0);
    match k {
        0 => Value::Null,
        1 => salted(&s, &salt),
        2 => salted(&s, &[9, 9]),
        3 => salted(&(s.0, s.1, s.2.saturating_add(1)), &salt),
        4 => salted(&(s.0, s.1 + 1, s.2), &salt),
        5 => salted(&(s.0 - 1, s.1, s.2), &salt),
        6 => salted(&s, &longer),
        7 => salted(&s, &[]),
        8 => salted(&s, &salt[..salt.len().saturating_sub(1)]),
        9 => {
            let n = salt.len().max(1);
            longer.resize(n, 0);
            longer[n - 1] ^= 1;
            salted(&s, &longer)
        }
        _ => salted(&(s.1, s.0, s.2), &salt),
    }
}
impl Act {
    fn resolve(self, s: &State<G>) -> Act {
        let acc = s.w.amount("lockup").saturating_sub(RESERVE);
        let add = |x: u128, k: i8| (x as i128 + k as i128).max(0) as u128;
        let r = |a: Am| match a {
            X(x) => X(x),
            Liquid(k) => X(add(s.g.liquid(&s.w), k)),
            Account(k) => X(add(acc, k)),
            Half => X(s.g.l.d / 2),
            Unstaked(k) => X(add(s.g.l.pool.map_or(0, |p| pool_views(&s.w, p).1), k)),
        };
        match self {
            Deposit(a) => Deposit(r(a)),
            DepositStake(a) => DepositStake(r(a)),
            Withdraw(a) => Withdraw(r(a)),
            Stake(a) => Stake(r(a)),
            Unstake(a) => Unstake(r(a)),
            Transfer(a, t) => Transfer(r(a), t),
            x => x,
        }
    }
    fn am(&self) -> u128 {
        match self {
            Deposit(X(x)) | DepositStake(X(x)) | Withdraw(X(x)) | Stake(X(x)) | Unstake(X(x)) | Transfer(X(x), _) => *x,
            _ => 0,
        }
    }
    /// method, arguments, documented gas
    fn call(&self, c: &Cfg) -> (&'static str, Value, u64) {
        let am = json!({"amount": self.am().to_string()});
        let e = json!({});
        let (m, a, g) = match self {
            Select(p) => ("select_staking_pool", json!({"staking_pool_account_id": p}), 75),
            Unselect => ("unselect_staking_pool", e, 25),
            Deposit(_) => ("deposit_to_staking_pool", am, 100),
            DepositStake(_) => ("deposit_and_stake", am, 125),
            Refresh => ("refresh_staking_pool_balance", e, 75),
            Withdraw(_) => ("withdraw_from_staking_pool", am, 125),
            WithdrawAll => ("withdraw_all_from_staking_pool", e, 175),
            Stake(_) => ("stake", am, 125),
            Unstake(_) => ("unstake", am, 125),
            UnstakeAll => ("unstake_all", e, 125),
            Vote => ("check_transfers_vote", e, 75),
            Transfer(_, t) => ("transfer", json!({"amount": self.am().to_string(), "receiver_id": t}), 50),
            Key(k) => ("add_full_access_key", json!({"new_public_key": pk_str(*k)}), 50),
            Terminate(0) => ("terminate_vesting", e, 25),
            Terminate(k) => ("terminate_vesting", json!({"vesting_schedule_with_salt": terminate_arg(c, *k)}), 25),
            Prepare => ("termination_prepare_to_withdraw", e, 175),
            Act::Pay(t) => ("termination_withdraw", json!({"receiver_id": t}), 75),
            Callback(i, _) => (CALLBACKS[*i].0, parse(CALLBACKS[*i].1.as_bytes()), 300),
            New => ("new", c.args(), 25),
        };
        (m, a, g * TGAS)
    }
    /// properties that a wrong rejection of this call breaks
    fn owed(&self, g: &G) -> &'static [&'static str] {
        match self {
            Select(_) | Unselect => &["L05"],
            Deposit(_) | DepositStake(_) | Refresh | Withdraw(_) | WithdrawAll | Stake(_) | Unstake(_) | UnstakeAll => &["L06", "L12"],
            Vote => &["L10"],
            Transfer(..) => &["L02", "L12"],
            Key(_) => &["L08"],
            Terminate(_) => if matches!(g.l.vest, Vest::Hash) { &["L13", "L03"] } else { &["L03"] },
            Prepare => &["L04"],
            Act::Pay(_) => &["L03", "L04"],
            Callback(..) => &["L09"],
            New => &["L11"],
        }
    }
    /// properties that a wrong action of this call breaks
    fn about(&self) -> &'static [&'static str] {
        match self {
            Select(_) | Unselect => &["L05"],
            Deposit(_) | DepositStake(_) | Withdraw(_) | Stake(_) | Unstake(_) | UnstakeAll => &["L05", "L12"],
            Refresh | WithdrawAll => &["L07", "L12"],
            Vote => &["L10"],
            Transfer(..) => &["L02"],
            Key(_) => &["L08"],
            Terminate(_) => &["L03"],
            Prepare => &["L04"],
            Act::Pay(_) => &["L03"],
            Callback(..) => &["L09"],
            New => &["L11"],
        }
    }
}
type Outs = Vec<(String, String)>;

/// What must happen: the new reference state, the receipts sent out, what the callback will do.
struct Eff {
    l: L,
    outs: Outs,
    pend: Option<Pend>,
}
fn predict(w: &World, g: &G, who: &str, act: &Act, dep: u128) -> Result<Eff, Vec<&'static str>> {
    let mut why: Vec<&'static str> = vec![];
    let l = &g.l;
    let acct = w.amount("lockup").saturating_sub(RESERVE);
    if dep > 0 {
        why.push("L09");
    }
    let mut no = |c: bool, p: &'static str| {
        if c && !why.contains(&p) {
            why.push(p)
        }
    };
    match act {
        Terminate(_) | Prepare | Act::Pay(_) => no(who != "foundation" || !l.foundation, "L09"),
        Callback(..) => no(true, "L09"),
        New => no(true, "L11"),
        _ => {
            no(who != "owner", "L09");
            no(g.terminating(), "L04");
        }
    }
    let x = act.am();
    let mut n = l.clone();
    let mut outs: Outs = vec![];
    let mut pend = None;
    let mut to_pool = |m: &str, dep: u128| {
        let arg = if m == "deposit" || m == "deposit_and_stake" || m == "unstake_all" { String::new() } else { x.to_string() };
        outs.push((l.pool.unwrap_or("").to_string(), format!("{}({}) +{}", m, arg, dep)));
    };
    match act {
        Select(p) => {
            no(l.pool.is_some() || !valid_account(p), "L05");
            pend = Some(Pend::Select(p));
        }
        Unselect => {
            no(l.pool.is_none() || l.d > 0, "L05");
            no(l.busy, "L06");
            n.pool = None;
            n.d = 0;
        }
        Deposit(_) | DepositStake(_) | Refresh | Withdraw(_) | WithdrawAll | Stake(_) | Unstake(_) | UnstakeAll => {
            no(l.pool.is_none(), "L05");
            no(l.busy, "L06");
            no(x == 0 && !matches!(act, Refresh | WithdrawAll | UnstakeAll), "L06");
            if matches!(act, Deposit(_) | DepositStake(_)) {
                no(x > acct, "L02");
            }
            n.busy = true;
            pend = Some(match act {
                Deposit(_) => {
                    to_pool("deposit", x);
                    Pend::Add(x)
                }
                DepositStake(_) => {
                    to_pool("deposit_and_stake", x);
                    Pend::Add(x)
                }
                Withdraw(_) => {
                    to_pool("withdraw", 0);
                    Pend::Sub(x)
                }
                Stake(_) => {
                    to_pool("stake", 0);
                    Pend::Stake
                }
                Unstake(_) => {
                    to_pool("unstake", 0);
                    Pend::Stake
                }
                UnstakeAll => {
                    to_pool("unstake_all", 0);
                    Pend::Stake
                }
                Refresh => Pend::Refresh,
                _ => Pend::WithdrawAll,
            });
        }
        Vote => {
            no(l.enabled.is_some(), "L10");
            pend = Some(Pend::Vote);
        }
        Transfer(_, to) => {
            no(x == 0 || !valid_account(to), "L02");
            no(l.enabled.is_none(), "L10");
            no(l.pool.is_some() && l.busy, "L06");
            no(x > g.liquid(w), "L02");
            outs.push((to.to_string(), format!("transfer {}", x)));
        }
        Key(k) => {
            no(l.enabled.is_none(), "L08");
            no(l.enabled.is_none(), "L10");
            no(l.pool.is_some() && l.busy, "L06");
            no(g.terminating(), "L08");
            no(g.locked(w.ts) > 0, "L08");
            outs.push(("lockup".into(), format!("key {} {:?}", hex::encode(pk(*k)), KeyPerm::Full)));
        }
        Terminate(k) => {
            let s = match (&l.vest, &g.cfg.vest) {
                (Vest::Sched, V0::Sched(s)) => {
                    no(*k != 0, "L13");
                    Some(s)
                }
                (Vest::Hash, V0::Hash(s, salt)) => {
                    let a = terminate_arg(&g.cfg, *k);
                    no(a != salted(s, salt), "L13");
                    Some(s)
                }
                _ => None,
            };
            match s {
                None => no(true, "L03"),
                Some(s) => {
                    let unv = unvested_by(s, l.amount, w.ts);
                    no(unv == 0, "L03");
                    let st = if unv > acct && l.pool.is_some() { DEFICIT } else { READY };
                    n.vest = Vest::Term { unv, st };
                }
            }
        }
        Prepare => {
            no(l.pool.is_none(), "L04");
            no(l.pool.is_some() && l.busy, "L06");
            match l.vest {
                Vest::Term { unv, st: DEFICIT } => {
                    n.vest = Vest::Term { unv, st: UNSTAKING };
                    pend = Some(Pend::TermStaked);
                }
                Vest::Term { unv, st: UNSTAKED } => {
                    n.vest = Vest::Term { unv, st: WITHDRAWING };
                    pend = Some(Pend::TermUnstaked);
                }
                _ => no(true, "L04"),
            }
            n.busy = true;
        }
        Act::Pay(to) => {
            no(!valid_account(to), "L03");
            match l.vest {
                Vest::Term { unv, st: READY } => {
                    let am = unv.min(acct);
                    no(am == 0, "L03");
                    n.vest = Vest::Term { unv, st: PAYING };
                    outs.push((to.to_string(), format!("transfer {}", am)));
                    pend = Some(Pend::Pay(am));
                }
                _ => no(true, "L03"),
            }
        }
        Callback(..) | New => {}
    }
    if why.is_empty() {
        Ok(Eff { l: n, outs, pend })
    } else {
        Err(why)
    }
}
/// What a callback must do: effect, expected boolean answer (None: it may fail or answer anything).
fn reply(g: &G, p: &Pend, results: &[PromiseResult]) -> (Eff, Option<bool>) {
    let ok = results.iter().all(|r| matches!(r, PromiseResult::Ok(_)));
    let val = match results.first() {
        Some(PromiseResult::Ok(b)) => parse(b),
        _ => Value::Null,
    };
    let l = &g.l;
    let mut n = l.clone();
    let mut outs: Outs = vec![];
    let mut pend = None;
    let mut ans = None;
    let pool = l.pool.unwrap_or("").to_string();
    let set = |n: &mut L, s: u8| {
        if let Vest::Term { st, .. } = &mut n.vest {
            *st = s;
        }
    };
    let (staked, unstaked, total) = g.snap;
    match p {
        Pend::Select(p) => {
            if ok && val == json!(true) && l.pool.is_none() && !g.terminating() {
                n.pool = Some(p);
                n.busy = false;
                n.d = 0;
                ans = Some(true);
            }
        }
        Pend::Stake | Pend::Add(_) | Pend::Sub(_) => {
            n.busy = false;
            ans = Some(ok);
            match p {
                Pend::Add(x) if ok => n.d += x,
                Pend::Sub(x) if ok => n.d = n.d.saturating_sub(*x),
                _ => {}
            }
        }
        Pend::Refresh => {
            if ok {
                n.busy = false;
                n.d = total;
            }
        }
        Pend::WithdrawAll => {
            if ok && unstaked > 0 {
                outs.push((pool, format!("withdraw({}) +0", unstaked)));
                pend = Some(Pend::Sub(unstaked));
            } else if ok {
                n.busy = false;
                ans = Some(true);
            }
        }
        Pend::Vote => {
            if let (true, Some(t), None) = (ok, val.as_str().and_then(|s| s.parse().ok()), l.enabled) {
                n.enabled = Some(t);
                ans = Some(true);
            }
        }
        Pend::TermStaked => {
            if ok && staked > 0 {
                outs.push((pool, format!("unstake({}) +0", staked)));
                pend = Some(Pend::TermUnstake);
            } else if ok {
                n.busy = false;
                set(&mut n, UNSTAKED);
                ans = Some(true);
            }
        }
        Pend::TermUnstake => {
            n.busy = false;
            set(&mut n, if ok { UNSTAKED } else { DEFICIT });
            ans = Some(ok);
        }
        Pend::TermUnstaked => {
            if ok && unstaked > 0 {
                outs.push((pool, format!("withdraw({}) +0", unstaked)));
                pend = Some(Pend::TermWithdraw(unstaked));
            } else if ok {
                n.busy = false;
                set(&mut n, READY);
                ans = Some(true);
            }
        }
        Pend::TermWithdraw(x) => {
            n.busy = false;
            set(&mut n, if ok { READY } else { UNSTAKED });
            if ok {
                n.d = n.d.saturating_sub(*x);
            }
            ans = Some(ok);
        }
        Pend::Pay(x) => {
            ans = Some(ok);
            if let Vest::Term { unv, .. } = l.vest {
                if ok {
                    n.paid += x;
                    if unv > *x {
                        n.vest = Vest::Term { unv: unv - x, st: READY };
                    } else {
                        n.vest = Vest::None;
                        n.foundation = false;
                    }
                } else {
                    set(&mut n, READY);
                }
            }
        }
        Pend::Done => {}
    }
    (Eff { l: n, outs, pend }, ans)
}
fn pend_props(p: &Pend) -> &'static [&'static str] {
    match p {
        Pend::Select(_) => &["L05"],
        Pend::Stake | Pend::Add(_) | Pend::Sub(_) | Pend::Refresh => &["L06", "L07"],
        Pend::WithdrawAll => &["L06", "L12"],
        Pend::Vote => &["L10"],
        Pend::TermStaked | Pend::TermUnstake | Pend::TermUnstaked | Pend::TermWithdraw(_) => &["L04"],
        Pend::Pay(_) => &["L03"],
        Pend::Done => &["L12"],
    }
}
/// What an execution on the lockup account sent out (views and self-callbacks aside), and its callback.
fn sent(w: &World, ev: &Event) -> (Outs, Vec<u64>) {
    let mut outs = vec![];
    let mut cbs = vec![];
    for c in &ev.children {
        let mut found: Option<Arc<ActReceipt>> = w.postponed.get(c).cloned();
        if found.is_none() {
            for r in w.queue.values().flatten() {
                if let Body::Act(a) = &r.body {
                    if a.id == *c {
                        found = Some(a.clone());
                    }
                }
            }
        }
        let Some(a) = found else { continue };
        let me = a.receiver == ev.receiver;
        if me && a.actions.iter().any(|x| matches!(x, Action::Call { .. })) && deposits(&a.actions) == 0 {
            cbs.push(*c);
            continue;
        }
        for x in &a.actions {
            let d = match x {
                Action::Transfer(v) => format!("transfer {}", v),
                Action::Call { method, args, deposit, .. } => {
                    if *deposit == 0 && (method.starts_with("get_") || method.starts_with("is_")) {
                        continue;
                    }
                    format!("{}({}) +{}", method, parse(args)["amount"].as_str().unwrap_or(""), deposit)
                }
                Action::AddKey { pk, perm } => format!("key {} {:?}", hex::encode(pk), perm),
                x => format!("{:?}", x),
            };
            outs.push((a.receiver.to_string(), d));
        }
    }
    (outs, cbs)
}

pub struct Lk {
    name: String,
    prop: String,
    inits: Vec<State<G>>,
    acts: Vec<Op>,
    max_epochs: u64,
    max_gifts: u64,
    /// 0: every call runs to its end; otherwise the number of calls that may be under way
    max_open: usize,
    max_fails: u64,
    gas: bool,
    /// "pool" is not the staking pool of this repository
    odd: bool,
}
impl Lk {
    fn p(&self, l: &[&str]) -> bool {
        self.prop == "*" || l.contains(&self.prop.as_str())
    }
    fn deliver(&self, s: &mut State<G>, c: &Chan, fail: bool, cx: &mut Cx) {
        let head = s.w.peek(c);
        if let Some((a, _)) = &head {
            // the answer a balance query must give
            if &*a.predecessor == "lockup" && Some(&*a.receiver) == s.g.l.pool && a.actions.iter().any(|x| matches!(x, Action::Call { method, .. } if method.starts_with("get_"))) {
                s.g.snap = pool_views(&s.w, &a.receiver);
            }
        }
        let mine = head.as_ref().map_or(false, |(a, _)| {
            &*a.receiver == "lockup" && &*a.predecessor == "lockup" && a.actions.iter().any(|x| matches!(x, Action::Call { .. }))
        });
        let keys0 = s.w.acc("lockup").unwrap().keys.clone();
        let storage0 = s.w.acc("lockup").unwrap().storage.clone();
        s.w.deliver(c, fail);
        let Some((a, results)) = head else { return };
        let ev = match s.w.events.last() {
            Some(e) if e.id == a.id => e.clone(),
            _ => return,
        };
        if &*a.predecessor == "lockup" && &*a.receiver != "lockup" && ev.ok() {
            s.g.out += a.actions.iter().map(|x| if let Action::Transfer(v) = x { *v } else { 0 }).sum::<u128>();
        }
        if &*a.receiver == "lockup" {
            let keys = &s.w.acc("lockup").unwrap().keys;
            if **keys != *keys0 {
                let asked = a.actions.iter().all(|x| matches!(x, Action::AddKey { pk: k, perm: KeyPerm::Full } if s.g.keys.iter().any(|n| *pk(*n) == **k)));
                cx.ensure("L08", "key", &*a.predecessor == "lockup" && asked, || format!("access keys changed by {:?}", a.actions));
            }
        }
        if mine {
            let Some(p) = s.g.pend.remove(&a.id) else {
                cx.fail("L09", "self call", format!("unexpected call of the lockup contract to itself: {}", ev.method()));
                return;
            };
            let (e, ans) = reply(&s.g, &p, &results);
            let (outs, cbs) = sent(&s.w, &ev);
            let props = pend_props(&p);
            for pr in props {
                if e.l == s.g.l && e.pend.is_none() && e.outs.is_empty() {
                    cx.ensure(pr, "unchanged", storage0 == s.w.acc("lockup").unwrap().storage, || format!("{} with reply {:?} changed the contract state ({:?})", ev.method(), short(&results), p));
                }
                if let Some(b) = ans {
                    let got = match &ev.result {
                        Ok(Res::Value(v)) => parse(v),
                        x => json!(format!("{:?}", x)),
                    };
                    cx.ensure(pr, "answer", got == json!(b), || format!("{} with reply {:?} answered {} instead of {}", ev.method(), short(&results), got, b));
                }
                cx.ensure(pr, "follow-up", outs == e.outs, || format!("{} with reply {:?} sent {:?}, expected {:?}", ev.method(), short(&results), outs, e.outs));
                cx.ensure(pr, "callback", cbs.len() == e.pend.is_some() as usize, || format!("{} with reply {:?} left {} callbacks", ev.method(), short(&results), cbs.len()));
            }
            cx.seen(format!("{} {}", ev.method(), if results.iter().all(|r| matches!(r, PromiseResult::Ok(_))) { "ok" } else { "failed" }));
            s.g.l = e.l;
            self.pending(&mut s.g, e.pend, cbs);
        }
        // the pool's own staking receipts
        for p in ["pool", "pool2"] {
            let c = (id(p), id(p));
            while s.w.queue.contains_key(&c) {
                s.w.deliver(&c, false);
            }
        }
    }
    fn pending(&self, g: &mut G, p: Option<Pend>, cbs: Vec<u64>) {
        let mut p = p;
        for c in cbs {
            g.pend.insert(c, p.take().unwrap_or(Pend::Done));
        }
    }
    fn run(&self, s: &mut State<G>, cx: &mut Cx) {
        let mut n = 0;
        while let Some(c) = s.w.next_chan() {
            self.deliver(s, &c, false, cx);
            n += 1;
            assert!(n < 1000);
        }
    }
    fn by(&self, s: &mut State<G>, who: &str, act: &Act, dep: u128, cx: &mut Cx) -> bool {
        let act = act.resolve(s);
        let (method, args, _) = act.call(&s.g.cfg);
        let storage0 = s.w.acc("lockup").unwrap().storage.clone();
        let (bal0, my0) = (s.w.amount("lockup"), s.w.amount(who));
        let want = predict(&s.w, &s.g, who, &act, dep);
        let given = if let Callback(_, k) = act { given(k) } else { vec![] };
        let rid = s.w.submit_after(who, "lockup", method, &args.to_string(), dep, given);
        s.w.deliver(&(id(who), id("lockup")), false);
        let ev = s.w.event(rid).unwrap().clone();
        let ok = ev.ok();
        cx.seen(format!("{} {}", method, if ok { "ok" } else { "rejected" }));
        let what = || format!("{:?} by {} with {} attached, locked {}, liquid {}, {:?}", act, who, dep, s.g.locked(s.w.ts), s.g.liquid(&s.w), s.g.l);
        match &want {
            Err(why) => {
                for p in why {
                    cx.ensure(p, "accepted", !ok, || format!("accepted: {}", what()));
                }
                if !ok {
                    // the deposit comes back
                    let c = (id("lockup"), id(who));
                    if dep > 0 {
                        s.w.deliver(&c, false);
                    }
                    let same = s.w.acc("lockup").unwrap().storage == storage0 && s.w.amount("lockup") == bal0 && s.w.amount(who) == my0;
                    cx.ensure("L09", "effect", same, || format!("rejected, but changed something: {:?}", act));
                    return false;
                }
                // reported above; nothing is predicted from here on
            }
            Ok(_) => {
                for p in act.owed(&s.g) {
                    let msg = ev.result.as_ref().err().cloned().unwrap_or_default();
                    cx.ensure(p, "rejected", ok, || format!("rejected ({}): {}", msg.chars().take(150).collect::<String>(), what()));
                }
                if !ok {
                    return false;
                }
            }
        }
        let (outs, cbs) = sent(&s.w, &ev);
        if let Key(k) = act {
            s.g.keys.push(k);
            s.g.keys.sort();
            s.g.keys.dedup();
        }
        if let Ok(e) = want {
            for p in act.about() {
                cx.ensure(p, "sent", outs == e.outs, || format!("{:?} sent {:?}, expected {:?}", act, outs, e.outs));
                cx.ensure(p, "callback", cbs.len() == e.pend.is_some() as usize, || format!("{:?} left {} callbacks", act, cbs.len()));
            }
            s.g.l = e.l;
            self.pending(&mut s.g, e.pend, cbs);
        } else {
            self.pending(&mut s.g, None, cbs);
        }
        true
    }
}
fn short(r: &[PromiseResult]) -> String {
    r.iter()
        .map(|x| match x {
            PromiseResult::Ok(b) => parse(b).to_string(),
            _ => "failed".into(),
        })
        .collect::<Vec<_>>()
        .join(",")
}
pub fn set_poll(w: &mut World, k: usize) {
    w.edit("poll", |a| {
        a.storage = Arc::new([(bytes(b"r"), bytes(POLL[k].as_bytes()))].into_iter().collect());
    });
}

impl Model for Lk {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<G>> {
        self.inits.clone()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        let mut v = vec![];
        for (i, c) in s.w.chans().iter().enumerate() {
            v.push(Deliver(i, false));
            if let Body::Act(a) = &s.w.head(c).body {
                let view = a.actions.iter().any(|x| matches!(x, Action::Call { method, .. } if method.starts_with("get_account")));
                if s.g.fails < self.max_fails && &*a.predecessor == "lockup" && &*a.receiver != "lockup" && !view {
                    v.push(Deliver(i, true));
                }
            }
        }
        for o in &self.acts {
            match o {
                Epoch(_) | Skip(_) => {
                    let n = if let Skip(n) = o { *n } else { 1 };
                    if s.g.epochs + n > self.max_epochs {
                        continue;
                    }
                }
                At(t) => {
                    if s.w.ts >= *t {
                        continue;
                    }
                }
                Gift(_) | Books(_) => {
                    if s.g.gifts >= self.max_gifts {
                        continue;
                    }
                }
                Poll(_) | List(..) => {
                    if s.g.polls >= 2 {
                        continue;
                    }
                }
                By(who, _, dep) => {
                    if self.max_open > 0 && s.g.pend.len() >= self.max_open {
                        continue;
                    }
                    if s.w.amount(who) < *dep {
                        continue;
                    }
                }
                _ => {}
            }
            v.push(*o);
        }
        v
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        match *op {
            Deliver(i, fail) => {
                let c = s.w.chans()[i].clone();
                s.g.fails += fail as u64;
                self.deliver(s, &c, fail, cx);
            }
            Epoch(r) => {
                s.w.next_epoch(&|a| if a == "pool" { r } else { 0 });
                s.g.epochs += 1;
                if s.w.acc("pool").unwrap().locked > 0 {
                    s.g.rewards += r;
                }
                for p in ["pool", "pool2"] {
                    let c = (id("alice"), id(p));
                    s.w.submit("alice", p, "ping", "{}", 0);
                    s.w.deliver(&c, false);
                    let c = (id(p), id(p));
                    while s.w.queue.contains_key(&c) {
                        s.w.deliver(&c, false);
                    }
                }
            }
            Skip(n) => {
                for _ in 0..n {
                    s.w.next_epoch(&|_| 0);
                }
                s.g.epochs += n;
            }
            At(t) => s.w.ts = t,
            Gift(x) => {
                s.w.gift("lockup", x);
                s.g.put += x;
                s.g.gifts += 1;
            }
            Books(k) => {
                s.w.edit("pool", |a| {
                    let (x, y) = books(&a.storage);
                    let (x, y) = match k {
                        0 => (0, 0),
                        1 => (x.saturating_sub(1), y),
                        2 => (x / 2, y / 2),
                        3 => (x + y, 0),
                        _ => (x + 3 * NEAR, y + 1),
                    };
                    a.storage = Arc::new(keep(x, y));
                });
                s.g.gifts += 1;
            }
            Poll(k) => {
                set_poll(&mut s.w, k as usize);
                s.g.polls += 1;
            }
            List(p, add) => {
                let m = if add { "add_staking_pool" } else { "remove_staking_pool" };
                let a = json!({"staking_pool_account_id": p}).to_string();
                s.w.submit("foundation", "whitelist", m, &a, 0);
                s.w.deliver(&(id("foundation"), id("whitelist")), false);
                s.g.polls += 1;
            }
            By(who, act, dep) => {
                let before = if self.gas { Some(s.clone()) } else { None };
                let ok = self.by(s, who, &act, dep, cx);
                if self.max_open == 0 {
                    self.run(s, cx);
                    if let (Some(b), true) = (before, ok) {
                        self.documented_gas(b, s, who, &act, cx);
                    }
                }
            }
        }
    }
    fn check(&self, s: &State<G>, cx: &mut Cx) {
        self.views(s, cx);
        if s.w.quiet() {
            self.settled(s, cx);
        }
    }
}
impl Lk {
    fn views(&self, s: &State<G>, cx: &mut Cx) {
        let (w, g) = (&s.w, &s.g);
        let v = |m: &str| w.view("lockup", m, "{}").unwrap_or_else(|e| json!(e));
        let st = |x: u128| json!(x.to_string());
        let about = || format!("at {} ({} epochs): {:?} {:?} balance {}", w.ts, (w.ts as i128 - T0 as i128) as f64 / E as f64, g.cfg, g.l, w.amount("lockup"));
        let mut same = |p: &str, m: &str, want: Value| {
            if self.p(&[p]) {
                let got = v(m);
                cx.ensure(p, m, got == want, || format!("{} is {}, expected {}; {}", m, got, want, about()));
            }
        };
        let now = w.ts;
        same("L01", "get_locked_amount", st(g.locked(now)));
        if g.l.vest == Vest::Hash {
            same("L13", "get_locked_amount", st(g.locked(now)));
        }
        if g.cfg.vest != V0::None && matches!(g.l.vest, Vest::Term { .. } | Vest::None) {
            same("L03", "get_locked_amount", st(g.locked(now)));
        }
        same("L02", "get_liquid_owners_balance", st(g.liquid(w)));
        same("L02", "get_owners_balance", st(g.owners(w)));
        same("L02", "get_balance", st(w.amount("lockup") + g.l.d));
        same("L05", "get_staking_pool_account_id", json!(g.l.pool));
        same("L07", "get_known_deposited_balance", st(g.l.d));
        same("L07", "get_owners_balance", st(g.owners(w)));
        same("L09", "get_owner_account_id", json!("owner"));
        same("L10", "are_transfers_enabled", json!(g.l.enabled.is_some()));
        same("L10", "get_locked_amount", st(g.locked(now)));
        let (unv, status) = match g.l.vest {
            Vest::Term { unv, st } => (unv, json!(STATUS[st as usize])),
            _ => (0, Value::Null),
        };
        same("L03", "get_terminated_unvested_balance", st(unv));
        same("L03", "get_terminated_unvested_balance_deficit", st(unv.saturating_sub(w.amount("lockup").saturating_sub(RESERVE))));
        same("L03", "get_locked_amount", st(g.locked(now)));
        same("L04", "get_termination_status", status.clone());
        let info = match (&g.l.vest, &g.cfg.vest) {
            (Vest::Hash, V0::Hash(s, salt)) => json!({"VestingHash": base64::encode(sched_hash(s, salt))}),
            (Vest::Hash, V0::Cut(s, salt, n)) => json!({"VestingHash": base64::encode(&sched_hash(s, salt)[..*n])}),
            (Vest::Sched, V0::Sched(s)) => json!({"VestingSchedule": sched_json(s)}),
            (Vest::Term { .. }, _) => json!({"Terminating": {"unvested_amount": unv.to_string(), "status": status}}),
            _ => json!("None"),
        };
        same("L03", "get_vesting_information", info.clone());
        same("L13", "get_vesting_information", info);
        // unvested part of a given schedule
        if self.p(&["L01", "L13", "L03"]) {
            let mut scheds: Vec<Sched> = vec![(T0 - 7 * E, T0 + 3 * E / 2, T0 + 11 * E)];
            if let V0::Hash(s, _) | V0::Sched(s) = &g.cfg.vest {
                scheds.push(*s);
            }
            for s in scheds {
                let a = json!({"vesting_schedule": sched_json(&s)}).to_string();
                let (got, want) = (w.view("lockup", "get_unvested_amount", &a).unwrap_or_else(|e| json!(e)), g.unvested(&s, now));
                for p in ["L01", "L13", "L03"] {
                    cx.ensure(p, "get_unvested_amount", got == st(want), || format!("get_unvested_amount({:?}) is {}, expected {}; {}", s, got, want, about()));
                }
                if g.locked(now) >= want {
                    let got = w.view("lockup", "get_locked_vested_amount", &a).unwrap_or_else(|e| json!(e));
                    cx.ensure("L01", "get_locked_vested_amount", got == st(g.locked(now) - want), || format!("get_locked_vested_amount({:?}) is {}, expected {}; {}", s, got, g.locked(now) - want, about()));
                }
            }
        }
    }
    /// nothing under way
    fn settled(&self, s: &State<G>, cx: &mut Cx) {
        let (w, g) = (&s.w, &s.g);
        for p in g.pend.values() {
            for pr in pend_props(p) {
                cx.ensure(pr, "lost callback", false, || format!("no receipt is under way, but the callback {:?} never ran", p));
            }
        }
        if self.odd {
            if self.p(&["L06"]) && g.l.pool.is_some() && !g.terminating() {
                let mut t = s.clone();
                self.by(&mut t, "owner", &Refresh, 0, cx);
            }
            return;
        }
        let total = |w: &World| ["pool", "pool2"].iter().map(|p| pool_views(w, p).2).sum::<u128>();
        let have = w.amount("lockup") + total(w);
        // conservation
        cx.ensure("L12", "lost", have + g.out + DUST >= g.put, || format!("{} put in, {} paid out, but only {} left on the account and in the pools; {:?}", g.put, g.out, have, g.l));
        cx.ensure("L12", "created", have + g.out <= g.put + g.rewards + DUST, || format!("{} put in, {} rewards, {} paid out, and {} left; {:?}", g.put, g.rewards, g.out, have, g.l));
        // locked tokens are still there
        // (a private schedule counts for nothing until it is revealed: what was free before that may be gone)
        let revealed = matches!(g.cfg.vest, V0::Hash(..)) && g.l.vest != Vest::Hash;
        cx.ensure("L02", "backing", revealed || have + DUST >= g.locked(w.ts), || format!("locked {}, but only {} left on the account and in the pools; {:?}", g.locked(w.ts), have, g.l));
        if let Some(p) = g.l.pool {
            let (_, _, t) = pool_views(w, p);
            cx.ensure("L07", "recoverable", g.l.d <= t + DUST, || format!("known deposit {}, the pool owes {}", g.l.d, t));
            if g.rewards == 0 {
                cx.ensure("L12", "records", g.l.d + DUST >= t && g.l.d <= t + DUST, || format!("known deposit {}, the pool owes {} (no rewards so far)", g.l.d, t));
            }
        }
        if self.p(&["L06"]) && g.l.pool.is_some() && !g.terminating() {
            let mut t = s.clone();
            self.by(&mut t, "owner", &Refresh, 0, cx);
        }
        if self.p(&["L12"]) && g.l.pool.is_some() && !g.terminating() {
            self.bring_back(s.clone(), have, cx);
        }
        if self.p(&["L04", "L03"]) {
            if let Vest::Term { unv, .. } = g.l.vest {
                self.pay_off(s.clone(), unv, have, cx);
            }
        }
    }
    /// everything unlocked can be brought back and transferred out
    fn bring_back(&self, mut s: State<G>, have: u128, cx: &mut Cx) {
        let pool = s.g.l.pool.unwrap();
        let fails = |o: Out| if o.ok() { None } else { Some(o.short()) };
        let mut bad = vec![];
        if pool_views(&s.w, pool).0 > 0 {
            bad.extend(fails(s.w.call("owner", "lockup", "unstake_all", "{}", 0)));
        }
        for _ in 0..4 {
            s.w.next_epoch(&|_| 0);
        }
        bad.extend(fails(s.w.call("owner", "lockup", "withdraw_all_from_staking_pool", "{}", 0)));
        bad.extend(fails(s.w.call("owner", "lockup", "refresh_staking_pool_balance", "{}", 0)));
        let got = s.w.amount("lockup");
        let d = num(&s.w.view("lockup", "get_known_deposited_balance", "{}").unwrap_or_default());
        let left = pool_views(&s.w, pool).2;
        let elsewhere = ["pool", "pool2"].iter().filter(|p| **p != pool).map(|p| pool_views(&s.w, p).2).sum::<u128>();
        cx.ensure("L12", "bring back", bad.is_empty() && got + elsewhere + DUST >= have && d == left && left <= DUST, || {
            format!("bringing everything back from the pool: {:?}; {} of {} on the account, known deposit {}, left in the pool {}", bad, got, have, d, left)
        });
        if let (Some(t), false) = (s.g.l.enabled, got < RESERVE) {
            let c = &s.g.cfg;
            let start = t.saturating_add(c.duration).max(c.lts.unwrap_or(0));
            let mut end = start.saturating_add(c.release.unwrap_or(0));
            if let V0::Sched(x) = &c.vest {
                end = end.max(x.2);
            }
            s.w.ts = s.w.ts.max(end);
            let all = got - RESERVE;
            if all > 0 {
                let before = s.w.amount("bank");
                let o = s.w.call("owner", "lockup", "transfer", &json!({"amount": all.to_string(), "receiver_id": "bank"}).to_string(), 0);
                cx.ensure("L12", "transfer out", o.ok() && s.w.amount("bank") == before + all && s.w.amount("lockup") == RESERVE, || format!("after everything was released, transferring the whole {}: {}", all, o.short()));
            }
        }
    }
    /// the foundation drives a termination on until it is paid
    fn pay_off(&self, mut s: State<G>, unv: u128, have: u128, cx: &mut Cx) {
        let mut trace = vec![];
        let before = s.w.amount("fund");
        for _ in 0..8 {
            let st = s.w.view("lockup", "get_termination_status", "{}").unwrap_or_default();
            let name = st.as_str().unwrap_or("none").to_string();
            match name.as_str() {
                "VestingTerminatedWithDeficit" | "EverythingUnstaked" => {
                    if name == "EverythingUnstaked" && trace.last() == Some(&name) {
                        for _ in 0..4 {
                            s.w.next_epoch(&|_| 0);
                        }
                    }
                    s.w.call("foundation", "lockup", "termination_prepare_to_withdraw", "{}", 0);
                }
                "ReadyToWithdraw" => {
                    if s.w.amount("lockup") <= RESERVE {
                        break;
                    }
                    s.w.call("foundation", "lockup", "termination_withdraw", r#"{"receiver_id":"fund"}"#, 0);
                }
                _ => break,
            }
            trace.push(name);
        }
        let got = s.w.amount("fund") - before;
        let max = unv.min(have.saturating_sub(RESERVE));
        let st = s.w.view("lockup", "get_termination_status", "{}").unwrap_or_default();
        for p in ["L03", "L04"] {
            cx.ensure(p, "paid off", got <= unv && got + DUST >= max, || format!("the foundation is owed {} of {}, and obtained {} going on through {:?}", unv, have, got, trace));
            cx.ensure(p, "finished", (got == unv) == st.is_null(), || format!("the foundation obtained {} of {}, status {}", got, unv, st));
        }
        if got == unv {
            // the owner is free again
            let m = match s.g.l.pool {
                Some(_) => ("refresh_staking_pool_balance", "{}"),
                None => ("select_staking_pool", r#"{"staking_pool_account_id":"pool"}"#),
            };
            let o = s.w.call("owner", "lockup", m.0, m.1, 0);
            cx.ensure("L04", "owner restored", o.ok(), || format!("after the termination the owner's {}: {}", m.0, o.short()));
            let o = s.w.call("foundation", "lockup", "termination_withdraw", r#"{"receiver_id":"fund"}"#, 0);
            cx.ensure("L03", "paid once", o.is_err() && s.w.amount("fund") == before + got, || format!("withdrawn again after everything was paid: {}", o.short()));
        }
    }
    /// the same call with the documented gas
    fn documented_gas(&self, mut b: State<G>, s: &State<G>, who: &str, act: &Act, cx: &mut Cx) {
        let act = act.resolve(&b);
        let (method, args, gas) = act.call(&b.g.cfg);
        b.w.clear_events();
        let rid = b.w.call_key(who, &default_pk(), "lockup", method, &args.to_string(), 0, gas).unwrap();
        b.w.drain();
        let gas_err: Vec<String> = b.w.events.iter().filter_map(|e| e.result.as_ref().err().map(|x| format!("{}.{}: {}", e.receiver, e.method(), x))).filter(|x| x.to_lowercase().contains("gas")).collect();
        let mut differ = vec![];
        for (n, a) in &b.w.accounts {
            let x = s.w.acc(n).unwrap();
            if a.amount != x.amount || a.locked != x.locked || *a.storage != *x.storage || a.keys != x.keys {
                differ.push(n.to_string());
            }
        }
        let used: u64 = b.w.events.iter().map(|e| e.gas_burnt).sum();
        cx.seen(format!("{} used {} of {} Tgas", method, used / TGAS, gas / TGAS));
        cx.ensure("G01", "gas", gas_err.is_empty() && differ.is_empty(), || {
            format!("{} with the documented {} Tgas: {} {:?}; accounts that differ from a run with 300 Tgas: {:?}", method, gas / TGAS, b.w.outcome(rid).short(), gas_err, differ)
        });
    }
}

// --------------------------------------------------------------------------------------- scenarios

/// strangers act in transactions signed by the privileged accounts, and the other way round
fn signers() -> Arc<Vec<(&'static str, &'static str)>> {
    Arc::new(vec![("owner", "alice"), ("foundation", "owner"), ("alice", "owner"), ("bank", "foundation"), ("powner", "foundation"), ("fund", "lockup"), ("lockup.owner", "foundation"), ("foundation.lockup", "owner"), ("owner.foundation", "owner")])
}
pub fn base_world(c: &Ctx) -> World {
    let env = c.env(&["lockup_contract", "staking_pool", "whitelist"], &[("poll", poll), ("vault", vault)], false, 0);
    let mut w = World::new(env);
    for u in ["owner", "foundation", "alice", "bank", "fund", "powner", "lockup.owner", "foundation.lockup", "owner.foundation"] {
        w.user(u, 1_000_000 * NEAR);
    }
    w.signers = signers();
    w.contract("whitelist", "whitelist", 100 * NEAR);
    w.must("alice", "whitelist", "new", r#"{"foundation_account_id":"foundation"}"#, 0);
    for (p, k) in [("pool", 1), ("pool2", 2)] {
        w.contract(p, "staking_pool", 40 * NEAR + FUND);
        w.must("powner", p, "new", &new_args("powner", k, 1, 10), 0);
        w.must("alice", p, "deposit_and_stake", "{}", 1000 * NEAR + 3);
        w.must("foundation", "whitelist", "add_staking_pool", &json!({"staking_pool_account_id": p}).to_string(), 0);
    }
    w.contract("poll", "poll", 10 * NEAR);
    set_poll(&mut w, 0);
    // a share price that rounds
    w.next_epoch(&|_| 77 * NEAR + 13);
    for p in ["pool", "pool2"] {
        w.must("alice", p, "ping", "{}", 0);
    }
    w.ts = T0;
    w.clear_events();
    w
}
pub fn with(w: &World, cfg: &Cfg) -> State<G> {
    let mut w = w.clone();
    w.contract("lockup", "lockup_contract", cfg.amount);
    w.must("alice", "lockup", "new", &cfg.args().to_string(), 0);
    w.clear_events();
    let l = L {
        amount: cfg.amount,
        paid: 0,
        enabled: cfg.enabled,
        vest: match cfg.vest {
            V0::None => Vest::None,
            V0::Hash(..) | V0::Cut(..) => Vest::Hash,
            V0::Sched(_) => Vest::Sched,
        },
        pool: None,
        busy: false,
        d: 0,
        foundation: cfg.vest != V0::None,
    };
    State {
        g: G {
            cfg: Arc::new(cfg.clone()),
            l,
            pend: BTreeMap::new(),
            snap: (0, 0, 0),
            epochs: 0,
            gifts: 0,
            fails: 0,
            polls: 0,
            put: cfg.amount,
            out: 0,
            rewards: 0,
            keys: vec![],
        },
        w,
    }
}
const N1: u128 = 100 * NEAR + 7;
pub fn cfgs() -> BTreeMap<&'static str, Cfg> {
    let open = Cfg { amount: N1, enabled: Some(T0 - 9 * E), duration: 0, lts: None, release: None, vest: V0::None };
    let sched = (T0 - 4 * E, T0 + E, T0 + 8 * E);
    let mut m = BTreeMap::new();
    m.insert("open", open.clone());
    m.insert("lockup", Cfg { enabled: Some(T0 - E), duration: 2 * E, ..open.clone() });
    m.insert("release", Cfg { enabled: Some(T0 - 2 * E), lts: Some(T0 - E), release: Some(10 * E), ..open.clone() });
    m.insert("vesting", Cfg { vest: V0::Sched(sched), ..open.clone() });
    m.insert("vesting+release", Cfg { vest: V0::Sched(sched), release: Some(15 * E), lts: Some(T0 - 5 * E), ..open.clone() });
    m.insert("vested half", Cfg { vest: V0::Sched((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E)), ..open.clone() });
    m.insert("hash", Cfg { vest: V0::Hash((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E), vec![1, 2, 3]), release: Some(30 * E), ..open.clone() });
    // not a hash: nothing opens it
    m.insert("hash cut", Cfg { vest: V0::Cut((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E), vec![1, 2, 3], 31), ..open.clone() });
    m.insert("hash empty", Cfg { vest: V0::Cut((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E), vec![1, 2, 3], 0), ..open.clone() });
    m.insert("hash long", Cfg { vest: V0::Hash((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E), (0..70).collect()), release: Some(30 * E), ..open.clone() });
    m.insert("hash open", Cfg { vest: V0::Hash((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E), vec![]), ..open.clone() });
    m.insert("disabled", Cfg { enabled: None, duration: 2 * E, release: Some(4 * E), ..open.clone() });
    m.insert("disabled vesting", Cfg { enabled: None, duration: E, vest: V0::Sched((T0 - 8 * E, T0 - 4 * E, T0 + 8 * E)), ..open.clone() });
    m.insert("disabled unvested", Cfg { enabled: None, duration: E, release: Some(9 * E), vest: V0::Sched(sched), ..open });
    m
}

fn lockup(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let p = c.prop.as_str();
    let w = base_world(c);
    let cf = cfgs();
    let mut out: Vec<Box<dyn Scenario>> = vec![];
    let mk_on = |w: &World, odd: bool, name: &str, inits: Vec<(&str, Vec<Op>)>, acts: Vec<Op>, epochs: u64, gifts: u64, open: usize, fails: u64| {
        let mut m = Lk { name: name.into(), prop: c.prop.clone(), inits: vec![], acts, max_epochs: epochs, max_gifts: gifts, max_open: 0, max_fails: fails, gas: p == "G01", odd };
        m.inits = inits
            .iter()
            .map(|(k, pre)| {
                let mut s = with(w, &cf[k]);
                for o in pre {
                    let mut cx = Cx::default();
                    m.step(&mut s, o, &mut cx);
                    for v in &cx.found {
                        eprintln!("   in the prelude of {}: {} [{}] {}", name, v.prop, v.key, v.msg);
                    }
                }
                s.g.epochs = 0;
                s.g.gifts = 0;
                s.g.polls = 0;
                s.w.clear_events();
                s
            })
            .collect();
        m.max_open = open;
        m
    };
    let mk = |name: &str, inits: Vec<(&str, Vec<Op>)>, acts: Vec<Op>, epochs: u64, gifts: u64, open: usize, fails: u64| mk_on(&w, false, name, inits, acts, epochs, gifts, open, fails);
    // the same with a pool whose books are not those of this repository's pool
    let mut wv = w.clone();
    wv.contract("pool", "vault", 1000 * NEAR);
    let sel = o(Select("pool"));
    let k = 10 * NEAR;
    let staked = vec![sel, o(DepositStake(X(60 * NEAR)))];
    let mixed = vec![sel, o(DepositStake(X(50 * NEAR))), o(Deposit(X(20 * NEAR + 1))), Epoch(50 * NEAR + 1), o(Unstake(X(k)))];
    let unstaked = vec![sel, o(DepositStake(X(60 * NEAR))), Epoch(50 * NEAR), o(UnstakeAll), Skip(4)];
    let all_staked = vec![sel, o(DepositStake(Account(0))), Epoch(90 * NEAR + 5)];
    let term = |mut v: Vec<Op>, t: u8| {
        v.push(f(Terminate(t)));
        v
    };
    let staking = vec![
        sel, o(Select("pool2")), o(Unselect), o(Deposit(X(k))), o(DepositStake(X(k))), o(DepositStake(Account(0))), o(Deposit(Account(1))), o(Refresh), o(Withdraw(X(NEAR))), o(Withdraw(Unstaked(0))), o(Withdraw(Unstaked(1))), o(Withdraw(X(u128::MAX))), o(WithdrawAll),
        o(Stake(X(5 * NEAR))), o(Unstake(X(5 * NEAR))), o(Unstake(X(900 * NEAR))), o(UnstakeAll),
    ];
    let money = vec![o(Transfer(Liquid(0), "bank")), o(Transfer(Liquid(1), "bank")), o(Transfer(X(NEAR), "nobody"))];
    let terms = vec![f(Terminate(0)), f(Terminate(1)), f(Prepare), f(Act::Pay("fund")), f(Act::Pay("nobody"))];
    let time = vec![Epoch(50 * NEAR + 1), Skip(4)];
    let cat = |vs: &[&Vec<Op>]| vs.iter().flat_map(|v| v.iter().copied()).collect::<Vec<Op>>();

    if ["L03", "L04", "L06", "L07"].contains(&p) {
        let inits = vec![("open", staked.clone()), ("vested half", staked.clone()), ("vesting", vec![sel, o(DepositStake(X(50 * NEAR))), o(Deposit(X(40 * NEAR)))]), ("vested half", term(all_staked.clone(), 0))];
        let mut acts = vec![f(Terminate(0)), f(Prepare), f(Act::Pay("fund")), Books(0), Books(1), Books(2), Books(3), Books(4), o(Refresh), o(WithdrawAll), o(UnstakeAll), o(Withdraw(X(NEAR))), o(Transfer(Liquid(0), "bank"))];
        if ["L06", "L07"].contains(&p) {
            acts.extend([o(DepositStake(X(k))), o(Unstake(X(k))), o(Unselect), sel]);
        }
        out.push(sc(mk_on(&wv, true, "a pool with other books", inits, acts, 0, 2, 0, 0), c.pick(5, 7)));
    }

    match p {
        "L01" => {
            out.push(Box::new(Sc { m: schedule_cases(c, &w), depth: 1, weight: 1 }));
            let acts = cat(&[&vec![f(Terminate(0)), f(Terminate(1)), f(Act::Pay("fund")), f(Act::Pay("nobody")), o(Transfer(Liquid(0), "bank")), Gift(5 * NEAR), o(Vote), Poll(1), Poll(2), Skip(1)],
                &vec![At(T0 + E - 1), At(T0 + E), At(T0 + E + 1), At(T0 + 3 * E), At(T0 + 8 * E - 1), At(T0 + 8 * E), At(T0 + 9 * E + 1)]]);
            let inits = cf.keys().map(|k| (*k, vec![])).chain([("vested half", staked.clone()), ("vesting+release", staked.clone())]).collect();
            out.push(sc(mk("schedules, termination and polls", inits, acts, 3, 1, 0, 0), c.pick(4, 6)));
        }
        "L02" | "L12" | "L07" => {
            if p == "L02" {
                let acts = vec![f(Terminate(0)), f(Terminate(1)), f(Act::Pay("fund")), f(Act::Pay("nobody")), o(Transfer(Liquid(0), "bank")), o(Transfer(Liquid(1), "bank")), Gift(5 * NEAR), o(Vote), Poll(2), Skip(1), At(T0 + E), At(T0 + 8 * E - 1), At(T0 + 9 * E + 1)];
                let mut all = vec![];
                for to in ["bank", "owner", "foundation", "lockup", "pool", "alice", "whitelist", "poll", "nobody"] {
                    for a in [X(0), X(1), Liquid(0), Liquid(1), Account(0), Account(1), X(u128::MAX), X(u128::MAX - RESERVE), X(1 << 64)] {
                        all.push(o(Transfer(a, to)));
                    }
                }
                for a in [X(u128::MAX), X(u128::MAX - RESERVE), Account(0), Account(1), X(1)] {
                    all.extend([o(Deposit(a)), o(DepositStake(a))]);
                }
                all.extend([At(T0 + E), At(T0 + 8 * E - 1), Epoch(50 * NEAR + 1), f(Terminate(0)), f(Act::Pay("owner")), f(Act::Pay("foundation")), f(Act::Pay("pool"))]);
                let inits = cf.keys().map(|k| (*k, vec![])).chain(cf.keys().map(|k| (*k, staked.clone()))).collect();
                out.push(sc(mk("every receiver and extreme amounts", inits, all, 2, 0, 0, 0), c.pick(2, 3)));
                out.push(sc(mk("transfers and termination, all schedules", cf.keys().map(|k| (*k, vec![])).collect(), acts, 3, 1, 0, 0), c.pick(6, 8)));
            }
            let inits = vec![("open", vec![]), ("open", staked.clone()), ("release", mixed.clone()), ("vesting", staked.clone()), ("vested half", unstaked.clone()), ("vesting+release", all_staked.clone()), ("lockup", unstaked.clone())];
            out.push(sc(mk("staking and transfers", inits, cat(&[&staking, &money, &time, &vec![Gift(3 * NEAR)]]), 5, 1, 0, 0), c.pick(3, 5)));
            let inits = vec![("vested half", staked.clone()), ("vested half", mixed.clone()), ("hash", all_staked.clone()), ("vesting", unstaked.clone())];
            let few = vec![o(Deposit(X(k))), o(Refresh), o(WithdrawAll), o(UnstakeAll), o(Unselect), sel];
            out.push(sc(mk("staking, transfers and termination", inits, cat(&[&few, &money, &terms, &time]), 9, 0, 0, 0), c.pick(5, 7)));
            let inits = vec![("open", staked.clone()), ("vested half", unstaked.clone()), ("vested half", term(all_staked.clone(), 0))];
            let few = vec![o(DepositStake(X(k))), o(Deposit(X(k))), o(Refresh), o(WithdrawAll), o(UnstakeAll), o(Transfer(Liquid(0), "bank")), f(Terminate(0)), f(Prepare), f(Act::Pay("fund")), Epoch(50 * NEAR + 1), Skip(4)];
            out.push(sc(mk("overlapping operations and failures", inits, few, 5, 0, 2, 1), c.pick(8, 11)));
        }
        "L03" | "L04" => {
            let inits = vec![
                ("vested half", vec![]), ("vested half", staked.clone()), ("vested half", mixed.clone()), ("vesting", all_staked.clone()), ("vesting+release", unstaked.clone()), ("hash", staked.clone()), ("vesting+release", vec![sel]),
                ("disabled vesting", all_staked.clone()), ("open", staked.clone()),
            ];
            let own = vec![o(Deposit(X(k))), o(UnstakeAll), o(WithdrawAll), o(Refresh), o(Transfer(Liquid(0), "bank")), o(Stake(X(NEAR))), o(Unselect), sel];
            out.push(sc(mk("termination", inits, cat(&[&terms, &own, &time, &vec![Gift(200 * NEAR), Skip(1)]]), 9, 1, 0, 0), c.pick(4, 6)));
            let deep = vec![f(Terminate(0)), f(Prepare), f(Act::Pay("fund")), f(Act::Pay("nobody")), Gift(200 * NEAR), Skip(4), Skip(1), o(Refresh), o(Transfer(Liquid(0), "bank"))];
            let inits = vec![("vested half", staked.clone()), ("vesting", all_staked.clone()), ("vested half", vec![sel]), ("vesting+release", mixed.clone()), ("disabled unvested", vec![])];
            out.push(sc(mk("termination, long histories", inits, deep, 12, 1, 0, 0), c.pick(8, 11)));
            let inits = vec![("vested half", term(staked.clone(), 0)), ("vesting", term(all_staked.clone(), 0)), ("vested half", staked.clone()), ("vested half", vec![]), ("vesting", vec![sel])];
            let il = vec![f(Terminate(0)), f(Prepare), f(Act::Pay("fund")), f(Act::Pay("nobody")), o(DepositStake(X(k))), o(UnstakeAll), o(Transfer(Liquid(0), "bank")), sel, Skip(4)];
            out.push(sc(mk("termination, overlapping and failing", inits, il, 8, 0, 2, 2), c.pick(10, 14)));
            if p == "L04" {
                out.push(failed_views(&w, &cf, &["termination, unstaking", "termination, withdrawing"], "L04"));
            }
        }
        "L05" => {
            let mut acts = cat(&[&staking, &vec![List("pool", false), List("pool2", false), List("pool", true), o(Select("alice")), o(Select("nobody")), o(Select("Bad id")), o(Deposit(X(1))), o(Transfer(Liquid(0), "bank")), Skip(4)]]);
            acts.retain(|x| !matches!(x, By(_, Stake(_), _) | By(_, Unstake(_), _)));
            let inits = vec![("open", vec![]), ("lockup", staked.clone()), ("open", unstaked.clone()), ("disabled", vec![sel])];
            out.push(sc(mk("selection", inits, acts, 4, 0, 0, 0), c.pick(4, 6)));
            let il = vec![sel, o(Select("pool2")), o(Select("alice")), o(Unselect), o(Deposit(X(k))), o(WithdrawAll), List("pool", false), List("pool2", false), List("pool", true), f(Terminate(0)), f(Act::Pay("fund"))];
            out.push(sc(mk("overlapping selections and failures", vec![("open", vec![]), ("vested half", vec![]), ("open", vec![sel, o(Deposit(X(k)))])], il, 0, 0, 3, 2), c.pick(8, 11)));
        }
        "L06" => {
            let inits = vec![("open", staked.clone()), ("open", unstaked.clone()), ("release", mixed.clone()), ("vested half", staked.clone()), ("open", vec![])];
            let il = cat(&[&staking, &vec![o(Transfer(Liquid(0), "bank")), o(Key(5)), f(Terminate(0)), f(Prepare), Skip(4)]]);
            out.push(sc(mk("overlapping operations and failures", inits, il, 4, 0, 3, 3), c.pick(6, 9)));
            let inits = vec![("open", staked.clone()), ("open", unstaked.clone()), ("release", mixed.clone()), ("vesting", all_staked.clone())];
            out.push(sc(mk("staking sequences", inits, cat(&[&staking, &time]), 5, 0, 0, 0), c.pick(3, 5)));
            out.push(failed_views(&w, &cf, &["refresh", "withdraw_all"], "L06"));
        }
        "L08" => {
            let mut acts = vec![o(Key(5)), o(Key(6)), o(DepositStake(X(k))), o(Transfer(Liquid(0), "bank")), f(Terminate(0)), f(Terminate(1)), f(Act::Pay("fund")), o(Vote), Poll(1), Poll(2), o(UnstakeAll), By("foundation", Key(7), 0), By("alice", Key(7), 0)];
            acts.extend([At(T0 + E - 1), At(T0 + E), At(T0 + 3 * E - 1), At(T0 + 3 * E), At(T0 + 7 * E), At(T0 + 8 * E - 1), At(T0 + 8 * E), At(T0 + 10 * E), At(T0 + 21 * E), Skip(4)]);
            let inits = cf.keys().map(|k| (*k, vec![])).chain([("vested half", staked.clone()), ("open", staked.clone())]).collect();
            out.push(sc(mk("adding keys", inits, acts.clone(), 8, 0, 0, 0), c.pick(4, 6)));
            let il = vec![o(Key(5)), o(DepositStake(X(k))), f(Terminate(1)), f(Act::Pay("fund")), o(Vote), Poll(2), o(Transfer(Liquid(0), "bank")), At(T0 + 8 * E)];
            out.push(sc(mk("adding keys with receipts under way", vec![("open", vec![sel]), ("hash open", vec![]), ("disabled", vec![])], il, 0, 0, 3, 2), c.pick(8, 11)));
        }
        "L09" => {
            let mut acts = vec![];
            for who in ["owner", "foundation", "alice", "lockup.owner", "foundation.lockup", "owner.foundation"] {
                for dep in [0, 1] {
                    for a in [Select("pool"), Unselect, Deposit(X(k)), DepositStake(X(k)), Refresh, Withdraw(X(1)), WithdrawAll, Stake(X(NEAR)), Unstake(X(NEAR)), UnstakeAll, Vote, Transfer(X(1), "bank"), Transfer(Liquid(0), "alice"), Key(5), Terminate(0), Terminate(1), Prepare, Act::Pay("fund"), Act::Pay("alice")] {
                        acts.push(By(who, a, dep));
                    }
                    for i in 0..CALLBACKS.len() {
                        for k in 0..if dep == 0 { GIVEN } else { 1 } {
                            acts.push(By(who, Callback(i, k), dep));
                        }
                    }
                    acts.push(By(who, New, dep));
                }
            }
            let mut inits: Vec<(&str, Vec<Op>)> = vec![];
            for k in cf.keys() {
                for pre in [vec![], staked.clone(), unstaked.clone()] {
                    inits.push((k, pre));
                }
            }
            for k in ["vested half", "vesting"] {
                for pre in [vec![], staked.clone(), all_staked.clone()] {
                    let mut v = term(pre, 0);
                    inits.push((k, v.clone()));
                    v.push(f(Prepare));
                    inits.push((k, v.clone()));
                    v.push(Skip(4));
                    v.push(f(Prepare));
                    inits.push((k, v.clone()));
                    v.push(f(Act::Pay("fund")));
                    inits.push((k, v));
                }
            }
            out.push(sc(mk("every caller, method and state", inits, acts.clone(), 0, 0, 0, 0), c.pick(1, 2)));
            // with the contract's own receipts under way
            let busy: Vec<Op> = acts.iter().copied().filter(|x| matches!(x, By(w, _, 0) if *w == "alice" || *w == "foundation" || *w == "owner")).collect();
            out.push(sc(mk("every caller and method, receipts under way", vec![("open", staked.clone()), ("vested half", staked.clone()), ("disabled", vec![])], busy, 0, 0, 1, 0), c.pick(4, 6)));
        }
        "L10" => {
            let acts = vec![o(Vote), Poll(0), Poll(1), Poll(2), Poll(3), Poll(4), o(Transfer(Liquid(0), "bank")), o(Transfer(X(1), "bank")), o(Key(5)), o(DepositStake(X(k))), sel, f(Terminate(0)), f(Act::Pay("fund")), Skip(1), At(T0 + 2 * E), At(T0 + 3 * E), At(T0 + 5 * E), At(T0 + 9 * E)];
            out.push(sc(mk("polls", vec![("disabled", vec![]), ("disabled", staked.clone()), ("disabled vesting", vec![]), ("open", vec![])], acts.clone(), 2, 0, 0, 0), c.pick(6, 8)));
            let il = vec![o(Vote), Poll(1), Poll(2), o(Transfer(X(1), "bank")), f(Terminate(0)), f(Act::Pay("fund")), At(T0 + 3 * E), sel];
            out.push(sc(mk("overlapping and failing polls", vec![("disabled", vec![]), ("disabled vesting", vec![])], il, 0, 0, 3, 2), c.pick(10, 13)));
        }
        "L13" => {
            let mut acts: Vec<Op> = (0..11).map(|k| f(Terminate(k))).collect();
            acts.extend([o(Transfer(Liquid(0), "bank")), f(Act::Pay("fund")), o(Key(5)), By("owner", Terminate(1), 0), By("alice", Terminate(1), 0), f(Prepare), o(DepositStake(X(k))), Skip(4)]);
            acts.extend([At(T0 + 8 * E - 1), At(T0 + 8 * E), At(T0 + 3 * E)]);
            out.push(sc(mk("committed schedules", vec![("hash", vec![]), ("hash open", vec![]), ("hash", all_staked.clone()), ("hash open", staked.clone()), ("hash cut", vec![]), ("hash empty", vec![]), ("hash long", vec![]), ("vested half", vec![])], acts, 4, 0, 0, 0), c.pick(5, 7)));
        }
        "G01" => {
            let inits = vec![
                ("open", vec![]), ("open", staked.clone()), ("release", mixed.clone()), ("vested half", unstaked.clone()), ("vesting", all_staked.clone()), ("disabled", staked.clone()), ("vested half", term(all_staked.clone(), 0)), ("hash", mixed.clone()),
            ];
            let mut acts = cat(&[&staking, &money, &terms, &time, &vec![o(Vote), Poll(1), o(Key(5))]]);
            acts.retain(|x| !matches!(x, By(_, Deposit(Account(1)), _) | By(_, Transfer(Liquid(1), _), _)));
            out.push(sc(mk("documented gas", inits, acts, 5, 0, 0, 0), c.pick(3, 5)));
            out.push(crate::m_system::documented_gas(c));
        }
        _ => {}
    }
    out
}

/// Every combination of schedule parameters, at every boundary.
fn schedule_cases(c: &Ctx, w: &World) -> impl Model<G = u64, Op = (u64, Cfg)> {
    let far = u64::MAX;
    let mut cases = vec![];
    for enabled in [None, Some(0), Some(T0 - 2 * E), Some(T0 + E), Some(far)] {
        for duration in [0, 3 * E, far] {
            for lts in [None, Some(T0 - 3 * E), Some(T0 + 2 * E), Some(far)] {
                for release in [None, Some(0), Some(1), Some(7 * E), Some(far)] {
                    for vest in [V0::None, V0::Hash((T0 - E, T0, T0 + 5 * E), vec![7]), V0::Sched((T0 - 4 * E, T0 + E, T0 + 8 * E)), V0::Sched((T0, T0, T0 + 1)), V0::Sched((T0 - E, T0 + 4 * E, T0 + 4 * E)), V0::Sched((0, 0, far))] {
                        for amount in [N1, 1_000_000_000 * NEAR - 3, 3] {
                            if !c.thorough && amount != N1 && (enabled.is_none() || vest != V0::None && release.is_some()) {
                                continue;
                            }
                            cases.push(Cfg { amount, enabled, duration, lts, release, vest: vest.clone() });
                        }
                    }
                }
            }
        }
    }
    let m = Lk { name: String::new(), prop: "L01".into(), inits: vec![], acts: vec![], max_epochs: 0, max_gifts: 0, max_open: 0, max_fails: 0, gas: false, odd: false };
    Cases {
        name: "every schedule at every boundary".into(),
        start: w.clone(),
        cases,
        run: move |w: &mut World, k: &Cfg, cx: &mut Cx| {
            let mut s = with(w, k);
            let mut times: Vec<u64> = vec![];
            let start = k.enabled.unwrap_or(T0).saturating_add(k.duration).max(k.lts.unwrap_or(0));
            let end = start.saturating_add(k.release.unwrap_or(0));
            let mut marks = vec![T0, k.enabled.unwrap_or(T0), start, end, k.lts.unwrap_or(T0), T0 + 3 * E / 2, T0 + 100 * E];
            if let V0::Hash(x, _) | V0::Sched(x) = &k.vest {
                marks.extend([x.0, x.1, x.2, x.1 + (x.2 - x.1) / 3]);
            }
            if end < u64::MAX {
                marks.push(start + (end - start) / 3);
            }
            for t in marks {
                times.extend([t.saturating_sub(1), t, t.saturating_add(1)]);
            }
            times.retain(|t| *t >= T0);
            times.sort();
            times.dedup();
            let mut last = u128::MAX;
            for t in times {
                s.w.ts = t;
                m.views(&s, cx);
                let now = s.w.view("lockup", "get_locked_amount", "{}").map(|v| num(&v)).unwrap_or(u128::MAX);
                cx.ensure("L01", "increases", now <= last, || format!("the locked amount grows from {} to {} until {}: {:?}", last, now, t, k));
                last = now;
            }
        },
    }
}

/// A balance query to the pool that fails must not leave the lockup unusable.
fn failed_views(w: &World, cf: &BTreeMap<&'static str, Cfg>, which: &[&'static str], prop: &'static str) -> Box<dyn Scenario> {
    let mut s = with(w, &cf["vesting"]);
    let m = Lk { name: String::new(), prop: "none".into(), inits: vec![], acts: vec![], max_epochs: 0, max_gifts: 0, max_open: 0, max_fails: 0, gas: false, odd: false };
    for op in [o(Select("pool")), o(DepositStake(X(90 * NEAR)))] {
        m.step(&mut s, &op, &mut Cx::default());
    }
    s.w.clear_events();
    sc(
        Cases {
            name: "failing balance queries".into(),
            start: s.w.clone(),
            cases: which.to_vec(),
            run: move |w: &mut World, k: &&'static str, cx: &mut Cx| {
                let (who, method) = match *k {
                    "refresh" => ("owner", "refresh_staking_pool_balance"),
                    "withdraw_all" => ("owner", "withdraw_all_from_staking_pool"),
                    _ => ("foundation", "termination_prepare_to_withdraw"),
                };
                if who == "foundation" {
                    w.must("foundation", "lockup", "terminate_vesting", "{}", 0);
                    if k.ends_with("withdrawing") {
                        w.must("foundation", "lockup", method, "{}", 0);
                        for _ in 0..4 {
                            w.next_epoch(&|_| 0);
                        }
                    }
                }
                w.submit(who, "lockup", method, "{}", 0);
                w.deliver(&(id(who), id("lockup")), false);
                w.deliver(&(id("lockup"), id("pool")), true);
                w.drain();
                let again = w.call(who, "lockup", method, "{}", 0);
                cx.ensure(prop, &format!("stuck-after-failed-query:{}", k.replace(", ", "-")), again.ok(), || format!("the pool's answer to the balance query of {} ({}) was a failure; every later call fails: {}", method, k, again.short()));
            },
        },
        1,
    )
}

// ----------------------------------------------------------------------------------- initialisation

#[derive(Clone, Debug)]
struct InitCase {
    args: String,
    want: bool,
    cfg: Option<Cfg>,
    balance: u128,
}
fn init_cases(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let env = c.env(&["lockup_contract"], &[("poll", poll)], false, 0);
    let mut w = World::new(env);
    for u in ["owner", "foundation", "alice"] {
        w.user(u, 1000 * NEAR);
    }
    w.signers = signers();
    w.ts = T0;
    w.contract("lockup", "lockup_contract", 0);
    let ids = ["owner", "a.b-c_d", "", "Owner", "a", "x..y", "-a", "0123456789012345678901234567890123456789012345678901234567890123", "01234567890123456789012345678901234567890123456789012345678901234"];
    let scheds: Vec<Sched> = vec![
        (T0, T0, T0 + 1), (T0, T0 + 1, T0 + 1), (0, 0, u64::MAX), (T0 - E, T0, T0 + E), // valid
        (T0, T0, T0), (0, 0, 0), (T0 + 1, T0, T0 + 2), (T0, T0 + 3, T0 + 2), (T0 + 2, T0 + 1, T0), (T0 + 2, T0 + 2, T0 + 1), (u64::MAX, u64::MAX, u64::MAX),
    ];
    let ok_sched = |s: &Sched| s.0 <= s.1 && s.1 <= s.2 && s.0 < s.2;
    let good = Cfg { amount: 0, enabled: Some(T0), duration: 5, lts: None, release: None, vest: V0::None };
    let mut cases = vec![];
    let mut add = |args: Value, want: bool, cfg: Option<Cfg>, balance: u128| cases.push(InitCase { args: args.to_string(), want, cfg, balance });
    let mut vests: Vec<V0> = vec![V0::None, V0::Hash((T0, T0, T0 + 1), vec![1])];
    vests.extend(scheds.iter().map(|s| V0::Sched(*s)));
    for balance in [0, 1, RESERVE - 1, 100 * NEAR] {
        for vest in &vests {
            for enabled in [None, Some(T0)] {
                for foundation in [None, Some("foundation"), Some("Bad"), Some("")] {
                    for (lts, release) in [(None, None), (Some(T0 + 9), Some(11))] {
                        let cfg = Cfg { amount: balance, enabled, lts, release, vest: vest.clone(), ..good.clone() };
                        let mut a = cfg.args();
                        a["foundation_account_id"] = json!(foundation);
                        let named = *vest != V0::None;
                        let fine = foundation.map_or(!named, |x| named && valid_account(x)) && if let V0::Sched(s) = vest { ok_sched(s) } else { true };
                        add(a, fine, Some(cfg), balance);
                    }
                }
            }
        }
    }
    for field in ["owner_account_id", "staking_pool_whitelist_account_id", "poll", "foundation_account_id"] {
        for x in ids {
            for vest in [V0::None, V0::Sched((T0, T0, T0 + 1)), V0::Hash((T0, T0, T0 + 1), vec![])] {
                let cfg = Cfg { amount: 50 * NEAR, enabled: if field == "poll" { None } else { Some(T0) }, vest: vest.clone(), ..good.clone() };
                let mut a = cfg.args();
                match field {
                    "poll" => a["transfers_information"]["TransfersDisabled"]["transfer_poll_account_id"] = json!(x),
                    _ => a[field] = json!(x),
                }
                let fine = valid_account(x) && (field != "foundation_account_id" || vest != V0::None);
                add(a, fine, None, 50 * NEAR);
            }
        }
    }
    let probe = Lk { name: String::new(), prop: "*".into(), inits: vec![], acts: vec![], max_epochs: 0, max_gifts: 0, max_open: 0, max_fails: 0, gas: false, odd: false };
    let run = move |w: &mut World, k: &InitCase, cx: &mut Cx| {
        w.edit("lockup", |a| a.amount = k.balance);
        let r = w.call("alice", "lockup", "new", &k.args, 0);
        cx.seen(if r.ok() { "initialised" } else { "rejected" });
        cx.ensure("L11", "accepted", r.ok() == k.want, || format!("{} with {}: expected {}, got {}", k.args, k.balance, if k.want { "success" } else { "rejection" }, r.short()));
        if !r.ok() {
            cx.ensure("L11", "no effect", w.acc("lockup").unwrap().storage.is_empty(), || format!("{} left state behind", k.args));
            return;
        }
        let a = parse(k.args.as_bytes());
        let check = |w: &World, cx: &mut Cx| {
            let g = |m: &str| w.view("lockup", m, "{}").unwrap_or_default();
            let none = g("get_staking_pool_account_id").is_null() && g("get_known_deposited_balance") == json!("0") && g("get_termination_status").is_null() && g("get_terminated_unvested_balance") == json!("0");
            cx.ensure("L11", "state", none && g("get_owner_account_id") == a["owner_account_id"] && g("get_balance") == json!(w.amount("lockup").to_string())
                && g("are_transfers_enabled") == json!(!a["transfers_information"]["TransfersEnabled"].is_null()), || format!("{}: wrong state after initialisation", k.args));
            if let Some(cfg) = &k.cfg {
                let mut s = State { w: w.clone(), g: with_state(cfg) };
                let mut found = Cx::default();
                for t in [T0, T0 + 5, T0 + 9, T0 + 12, T0 + 30] {
                    s.w.ts = t;
                    probe.views(&s, &mut found);
                }
                cx.compared += found.compared;
                for v in found.found {
                    cx.fail("L11", &v.key, format!("after initialisation: {}", v.msg));
                }
            }
        };
        check(w, cx);
        w.gift("lockup", 7 * NEAR);
        for who in ["owner", "alice", "foundation"] {
            let o = w.call(who, "lockup", "new", &Cfg { amount: 0, ..cfgs()["open"].clone() }.args().to_string(), 0);
            cx.ensure("L11", "again", o.is_err(), || format!("second initialisation: {}", o.short()));
        }
        check(w, cx);
    };
    let uninit: Vec<Act> = vec![Select("pool"), Refresh, Vote, Transfer(X(1), "alice"), Key(5), Terminate(0), Prepare, Act::Pay("alice"), Unselect];
    let u = Cases {
        name: "before initialisation".into(),
        start: {
            let mut w = w.clone();
            w.edit("lockup", |a| a.amount = 50 * NEAR);
            w
        },
        cases: uninit.into_iter().flat_map(|a| ["owner", "foundation"].map(|x| (x, a))).collect(),
        run: |w: &mut World, k: &(&'static str, Act), cx: &mut Cx| {
            let (m, a, _) = k.1.call(&cfgs()["open"]);
            let o = w.call(k.0, "lockup", m, &a.to_string(), 0);
            cx.ensure("L11", "uninit", o.is_err() && w.acc("lockup").unwrap().storage.is_empty() && w.amount("lockup") == 50 * NEAR, || format!("{:?} before initialisation: {}", k, o.short()));
        },
    };
    vec![sc(Cases { name: "initialisation".into(), start: w, cases, run }, 1), sc(u, 1)]
}
fn with_state(cfg: &Cfg) -> G {
    G {
        cfg: Arc::new(cfg.clone()),
        l: L {
            amount: cfg.amount,
            paid: 0,
            enabled: cfg.enabled,
            vest: match cfg.vest {
                V0::None => Vest::None,
                V0::Hash(..) | V0::Cut(..) => Vest::Hash,
                V0::Sched(_) => Vest::Sched,
            },
            pool: None,
            busy: false,
            d: 0,
            foundation: cfg.vest != V0::None,
        },
        pend: BTreeMap::new(),
        snap: (0, 0, 0),
        epochs: 0,
        gifts: 0,
        fails: 0,
        polls: 0,
        put: cfg.amount,
        out: 0,
        rewards: 0,
        keys: vec![],
    }
}
