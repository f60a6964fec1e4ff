//! The staking pool: share accounting, unlocking, rewards, stake proposals, administration.
use crate::check::*;
use crate::explore::*;
use crate::vm::{Input, Output, Ret, Storage};
use crate::world::*;
use serde_json::{json, Value};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

const A_POOL: &[&str] = &[
    "delegators: owner, two active ones and a passive one; amounts from a small set, at yocto scale (share prices that round) and at NEAR scale",
    "epochs advance by the driver; rewards are added to the locked balance at an epoch change, as on the network",
];
pub fn checks() -> Vec<Check> {
    let c = &["staking-pool"];
    vec![
        Check { prop: "P01", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P02", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P03", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P04", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P05", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P06", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P07", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P08", contracts: c, make: pool, assumptions: A_POOL },
        Check { prop: "P09", contracts: c, make: init_cases, assumptions: &[] },
    ]
}

pub const FUND: u128 = 1_000_000_000_000;

/// Records who called what (a stand-in for the voting contract).
pub fn recorder(method: &str, inp: &Input, st: &Storage) -> Output {
    let mut o = native_out(inp, st, Ok(Ret::Value(bytes(b"true"))));
    if method == "vote" {
        let n = o.storage.len() as u32;
        let v = format!("{} {} {}", inp.predecessor, String::from_utf8_lossy(inp.input), inp.attached);
        o.storage.insert(bytes(&n.to_be_bytes()), bytes(v.as_bytes()));
    } else {
        o.ret = Err("MethodNotFound".into());
    }
    o
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Dep(usize, u128),
    DepStake(usize, u128),
    Stake(usize, u128),
    StakeAll(usize),
    Unstake(usize, u128),
    UnstakeAll(usize),
    Withdraw(usize, u128),
    WithdrawAll(usize),
    Ping(usize),
    Gift(u128),
    Epoch(u128),
    Skip(u64),
    /// the network's minimum for staking proposals changes
    Min(u128),
    Key(usize, u8),
    Fee(usize, u32, u32),
    Pause(usize),
    Resume(usize),
    Vote(usize, bool),
    Callback(usize, usize),
    Reinit(usize),
    /// deliver the head of the n-th channel
    Deliver(usize),
}
use Op::*;
impl Op {
    fn actor(&self) -> Option<usize> {
        match *self {
            Dep(u, _) | DepStake(u, _) | Stake(u, _) | StakeAll(u) | Unstake(u, _) | UnstakeAll(u) | Withdraw(u, _) | WithdrawAll(u)
            | Ping(u) | Key(u, _) | Fee(u, _, _) | Pause(u) | Resume(u) | Vote(u, _) | Callback(u, _) | Reinit(u) => Some(u),
            _ => None,
        }
    }
    fn call(&self) -> (&'static str, String, u128) {
        let am = |x: &u128| json!({"amount": x.to_string()}).to_string();
        let e = || "{}".to_string();
        match self {
            Dep(_, d) => ("deposit", e(), *d),
            DepStake(_, d) => ("deposit_and_stake", e(), *d),
            Stake(_, x) => ("stake", am(x), 0),
            StakeAll(_) => ("stake_all", e(), 0),
            Unstake(_, x) => ("unstake", am(x), 0),
            UnstakeAll(_) => ("unstake_all", e(), 0),
            Withdraw(_, x) => ("withdraw", am(x), 0),
            WithdrawAll(_) => ("withdraw_all", e(), 0),
            Ping(_) => ("ping", e(), 0),
            Key(_, k) => ("update_staking_key", json!({"stake_public_key": pk_str(*k)}).to_string(), 0),
            Fee(_, n, d) => ("update_reward_fee_fraction", json!({"reward_fee_fraction": {"numerator": n, "denominator": d}}).to_string(), 0),
            Pause(_) => ("pause_staking", e(), 0),
            Resume(_) => ("resume_staking", e(), 0),
            Vote(_, b) => ("vote", json!({"voting_account_id": "voting", "is_vote": b}).to_string(), 0),
            Callback(..) => ("on_stake_action", e(), 0),
            Reinit(u) => ("new", new_args(USERS[*u], 9, 0, 1), 0),
            _ => unreachable!(),
        }
    }
}
pub fn new_args(owner: &str, key: u8, n: u32, d: u32) -> String {
    json!({"owner_id": owner, "stake_public_key": pk_str(key), "reward_fee_fraction": {"numerator": n, "denominator": d}}).to_string()
}

/// users[0] is the owner, the last two never act as delegators
/// (their names are related to the privileged ones)
const USERS: [&str; 6] = ["owner", "alice", "bob", "carol", "pool.owner", "owner.pool"];
const N: usize = 4; // delegators

#[derive(Clone)]
pub struct G {
    unlock: [u64; N],
    pending: u128,
    last: u64,
    fee: (u32, u32),
    key: u8,
    paused: bool,
    /// number of shares (reference), to know the share price
    shares: u128,
    epochs: u64,
    gifts: u64,
    /// the proposal may lag behind (epoch reward not yet restaked)
    lag: bool,
    /// a stake action failed since the receipts last settled
    rejected: bool,
    votes: Vec<String>,
    /// calls whose receipts are still under way (interleaved scenarios)
    open: u64,
}
impl Hash for G {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.unlock, self.pending, self.last, self.fee, self.key, self.paused, self.epochs, self.gifts, self.lag, self.rejected, self.open).hash(h);
        self.votes.hash(h);
    }
}

#[derive(Clone, Debug, PartialEq)]
struct V {
    t: u128,
    un: [u128; N],
    st: [u128; N],
    av: [bool; N],
}
fn num(v: &Value) -> u128 {
    v.as_str().and_then(|s| s.parse().ok()).unwrap_or(u128::MAX)
}
fn view(w: &World) -> V {
    let t = num(&w.view("pool", "get_total_staked_balance", "{}").unwrap_or_default());
    let (mut un, mut st, mut av) = ([0; N], [0; N], [true; N]);
    for i in 0..N {
        let a = w.view("pool", "get_account", &json!({"account_id": USERS[i]}).to_string()).unwrap_or_default();
        un[i] = num(&a["unstaked_balance"]);
        st[i] = num(&a["staked_balance"]);
        av[i] = a["can_withdraw"] == json!(true);
    }
    V { t, un, st, av }
}
fn div_up(a: u128, b: u128) -> u128 {
    (a + b - 1) / b.max(1)
}
/// floor(a*b/c) without overflow for the magnitudes used (amounts < 2^100)
fn muldiv(a: u128, b: u128, c: u128) -> u128 {
    // split a = q*c + r
    if c == 0 || a == u128::MAX {
        return u128::MAX / 4;
    }
    let (q, r) = (a / c, a % c);
    let base = q.saturating_mul(b);
    // r*b/c with r < c: long multiplication in base 2^32
    let mut rem: u128 = 0;
    let mut quo: u128 = 0;
    for i in (0..128).rev() {
        rem <<= 1;
        quo <<= 1;
        if rem >= c {
            rem -= c;
            quo += 1;
        }
        if (b >> i) & 1 == 1 {
            rem += r;
            if rem >= c {
                rem -= c;
                quo += 1;
            }
        }
    }
    base + quo
}

pub struct Pool {
    name: String,
    inits: Vec<State<G>>,
    acts: Vec<Op>,
    max_epochs: u64,
    max_gifts: u64,
    bank: bool,
    views: bool,
    interleave: bool,
    max_open: u64,
}

impl Pool {
}
fn slack(w: &World, v: &V, pending: u128) -> i128 {
    let a = w.acc("pool").unwrap();
    (a.amount + a.locked) as i128 - v.t as i128 - v.un.iter().sum::<u128>() as i128 - pending as i128
}

impl Model for Pool {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<G>> {
        self.inits.clone()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        let mut v = vec![];
        for i in 0..s.w.queue.len() {
            v.push(Deliver(i));
        }
        for o in &self.acts {
            match o {
                Epoch(_) | Skip(_) => {
                    let n = if let Skip(n) = o { *n } else { 1 };
                    if s.g.epochs + n > self.max_epochs || (!s.w.quiet() && s.g.open == 0) {
                        continue;
                    }
                }
                Min(x) => {
                    if *x == s.w.min_stake {
                        continue;
                    }
                }
                Gift(_) => {
                    if s.g.gifts >= self.max_gifts {
                        continue;
                    }
                }
                _ => {
                    if self.interleave && s.g.open >= self.max_open {
                        continue;
                    }
                    if let Dep(u, d) | DepStake(u, d) = o {
                        if s.w.amount(USERS[*u]) < *d {
                            continue;
                        }
                    }
                }
            }
            v.push(*o);
        }
        v
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        match op {
            Gift(x) => {
                s.w.gift("pool", *x);
                s.g.pending += x;
                s.g.gifts += 1;
                return;
            }
            Epoch(r) => {
                let r = *r;
                if s.w.acc("pool").unwrap().locked > 0 && r > 0 {
                    s.g.pending += r;
                    s.g.lag = true;
                }
                s.w.next_epoch(&|_| r);
                s.g.epochs += 1;
                return;
            }
            Min(x) => {
                s.w.min_stake = *x;
                return;
            }
            Skip(n) => {
                for _ in 0..*n {
                    s.w.next_epoch(&|_| 0);
                }
                s.g.epochs += n;
                return;
            }
            Deliver(i) => {
                let c = s.w.chans()[*i].clone();
                s.w.deliver(&c, false);
                self.note_stakes(s);
                self.settle(s);
                return;
            }
            _ => {}
        }
        let u = op.actor().unwrap();
        let (method, args, dep) = op.call();
        let pre = view(&s.w);
        let slack0 = slack(&s.w, &pre, s.g.pending);
        let storage0 = s.w.acc("pool").unwrap().storage.clone();
        let stake0 = (s.w.acc("pool").unwrap().stakes[0], s.w.acc("pool").unwrap().stake_pk.clone());
        let in_flight = |w: &World| -> u128 {
            w.queue.values().flatten().filter(|r| &*r.receiver == USERS[u] && &*r.predecessor == "pool").map(|r| if let Body::Act(a) = &r.body { deposits(&a.actions) } else { 0 }).sum()
        };
        let flight0 = in_flight(&s.w) as i128;
        let quiet0 = s.w.quiet();
        let wallet0: Vec<u128> = USERS.iter().map(|x| s.w.amount(x)).collect();
        // ------------------------------------------------ the effect of a mere ping in this state
        let mut b = s.w.clone();
        let pr = b.submit("pool.owner", "pool", "ping", "{}", 0);
        b.deliver(&(id("pool.owner"), id("pool")), false);
        let base = view(&b);
        cx.ensure("P05", "ping", b.first_ok(pr), || format!("ping fails: {}", b.outcome(pr).short()));
        let pinged = s.w.epoch != s.g.last;
        let r = if pinged { s.g.pending } else { 0 };
        let f = muldiv(r, s.g.fee.0 as u128, s.g.fee.1 as u128);
        let s_ref = s.g.shares;
        let gap0 = div_up(pre.t + r, s_ref) + 1;
        cx.ensure("P05", "total", base.t == pre.t + r, || {
            format!("gained {} since the last ping; total staked went from {} to {} (expected {})", r, pre.t, base.t, pre.t + r)
        });
        for i in 0..N {
            cx.ensure("P03", "ping", base.un[i] == pre.un[i] && base.st[i] >= pre.st[i] && base.av[i] == pre.av[i], || {
                format!("ping changed {} from {:?} to {:?}", USERS[i], (pre.un[i], pre.st[i]), (base.un[i], base.st[i]))
            });
            let lo = muldiv(pre.st[i], pre.t + r - f, pre.t) + if i == 0 { f } else { 0 };
            let growth = if r == 0 { 0 } else { div_up(pre.t + r, pre.t) + gap0 };
            let ok = if i == 0 && f > 0 { base.st[i] + gap0 + 1 >= lo && base.st[i] <= lo + growth + 1 } else { base.st[i] >= lo && base.st[i] <= lo + growth };
            cx.ensure("P05", if i == 0 { "owner share" } else { "delegator share" }, ok, || {
                format!("reward {} with fee {} of total {}: {}'s stake went from {} to {}, expected about {}", r, f, pre.t, USERS[i], pre.st[i], base.st[i], lo)
            });
        }
        // ------------------------------------------------------------------------------ the call
        let given = if let Callback(_, k) = op { given(*k) } else { vec![] };
        let rid = s.w.submit_after(USERS[u], "pool", method, &args, dep, given);
        s.w.deliver(&(id(USERS[u]), id("pool")), false);
        let ok = s.w.first_ok(rid);
        let why = s.w.outcome(rid).short();
        if !self.interleave {
            s.w.drain();
        }
        if self.interleave && quiet0 && s.w.queue.values().flatten().any(|r| matches!(&r.body, Body::Act(a) if a.actions.iter().any(|a| matches!(a, crate::vm::Action::Stake { .. })))) {
            s.g.rejected = false;
        }
        self.note_stakes(s);
        let post = view(&s.w);
        if pinged && ok && !matches!(op, Vote(..)) {
            let num = if pre.t + r - f > 0 { muldiv(f, s_ref, pre.t + r - f) } else { 0 };
            s.g.shares += num;
            s.g.last = s.w.epoch;
            s.g.pending = 0;
        }
        let sh = s.g.shares;
        let gap = div_up(base.t, sh) + 1;
        cx.seen(format!("{} {}", method, if ok { "ok" } else { "rejected" }));
        let wallet = |w: &World, i: usize| w.amount(USERS[i]) as i128 - wallet0[i] as i128;
        // ------------------------------------------------------------------------ own accounting
        let (bu, bs) = (if u < N { base.un[u] } else { 0 }, if u < N { base.st[u] } else { 0 });
        let (pu, ps) = (if u < N { post.un[u] } else { 0 }, if u < N { post.st[u] } else { 0 });
        let avail = u >= N || s.w.epoch >= s.g.unlock[u];
        // what must happen: Some(true) succeed, Some(false) fail, None either (rounding)
        let stakes = |x: u128, have: u128| if x == 0 || x > have + gap { Some(false) } else if x > gap && x <= have { Some(true) } else { None };
        let want = match *op {
            Dep(..) | Ping(_) => Some(true),
            DepStake(_, d) => stakes(d, bu + d),
            Stake(_, x) => stakes(x, bu),
            StakeAll(_) => stakes(bu, bu),
            Unstake(_, x) => Some(x > 0 && x <= bs),
            UnstakeAll(_) => Some(bs > 0),
            Withdraw(_, x) => Some(x > 0 && x <= bu && avail),
            WithdrawAll(_) => Some(bu > 0 && avail),
            // without staking at once, the pool need not notice that the network will refuse the key
            Key(_, UNSUITABLE) if u == 0 && s.g.paused => None,
            Key(_, k) => Some(u == 0 && k != UNSUITABLE),
            Fee(_, n, d) => Some(u == 0 && d > 0 && n <= d),
            Pause(_) => Some(u == 0 && !s.g.paused),
            Resume(_) => Some(u == 0 && s.g.paused && s.g.key != UNSUITABLE),
            Vote(..) => Some(u == 0),
            Callback(..) => Some(false),
            Reinit(_) => Some(false),
            _ => unreachable!(),
        };
        let admin = matches!(op, Key(..) | Fee(..) | Pause(_) | Resume(_) | Vote(..) | Callback(..) | Reinit(_));
        let p_op = match op {
            Reinit(_) => "P09",
            _ if admin => "P07",
            Ping(_) => "P05",
            _ => "P02",
        };
        let p_want = if matches!(op, Withdraw(..) | WithdrawAll(_)) && bu > 0 && !matches!(op, Withdraw(_, x) if *x == 0 || *x > bu) { "P04" } else { p_op };
        if let Some(w) = want {
            cx.ensure(p_want, "accepted", ok == w, || {
                format!("{:?} by {}: expected {}, got {} ({}); before: unstaked {} staked {} available {}", op, USERS[u], if w { "success" } else { "rejection" }, if ok { "success" } else { "rejection" }, why, bu, bs, avail)
            });
            if p_want == "P04" {
                cx.ensure("P02", "accepted", ok == w, || format!("{:?} by {}: expected {}: {}", op, USERS[u], w, why));
            }
        }
        if !ok {
            let same = s.w.acc("pool").unwrap().storage == storage0 && (s.w.acc("pool").unwrap().stakes[0], s.w.acc("pool").unwrap().stake_pk.clone()) == stake0;
            cx.ensure(p_op, "no effect", same, || format!("{:?} was rejected but changed the pool", op));
            if s.w.quiet() {
                cx.ensure(p_op, "refund", (0..USERS.len()).all(|i| wallet(&s.w, i) == 0), || format!("{:?} was rejected but tokens moved", op));
            }
            self.settle(s);
            return;
        }
        let paid = wallet(&s.w, u) + in_flight(&s.w) as i128 - flight0;
        let msg = |what: &str| {
            format!("{:?} by {}: {}; unstaked {} -> {}, staked {} -> {}, paid {}, total staked {} -> {}, price about {}", op, USERS[u], what, bu, pu, bs, ps, paid, base.t, post.t, gap - 1)
        };
        let sum0 = bu + bs;
        let sum1 = pu + ps;
        match *op {
            Dep(_, d) => {
                cx.ensure("P02", "deposit", pu == bu + d && ps == bs && paid == -(d as i128), || msg("wrong amounts"));
                cx.ensure("P05", "attached", post.t == base.t, || msg("a deposit changed the total stake"));
            }
            DepStake(_, d) | Stake(_, d) => {
                let at = if let DepStake(..) = op { d } else { 0 };
                let charge = (bu + at).wrapping_sub(pu);
                cx.ensure("P02", "charge", pu <= bu + at && charge <= d && charge + gap > d, || msg("charged outside (X - price, X]"));
                cx.ensure("P02", "sum", sum1 >= sum0 + at, || msg("the caller's balances dropped"));
                cx.ensure("P03", "gain", sum1 <= sum0 + at + gap, || msg("the caller gained by staking"));
                cx.ensure("P02", "wallet", paid == -(at as i128), || msg("wrong payment"));
                cx.ensure("P05", "attached", post.t >= base.t + charge && post.t <= base.t + charge + 1, || msg("the total stake does not match the charge"));
                s.g.shares += muldiv(d, sh, base.t);
            }
            StakeAll(_) => {
                let charge = bu.wrapping_sub(pu);
                cx.ensure("P02", "charge", pu <= bu && charge + gap > bu, || msg("charged outside (X - price, X]"));
                cx.ensure("P02", "sum", sum1 >= sum0, || msg("the caller's balances dropped"));
                cx.ensure("P03", "gain", sum1 <= sum0 + gap, || msg("the caller gained by staking"));
                cx.ensure("P02", "wallet", paid == 0, || msg("wrong payment"));
                cx.ensure("P05", "attached", post.t >= base.t + charge && post.t <= base.t + charge + 1, || msg("the total stake does not match the charge"));
                s.g.shares += muldiv(bu, sh, base.t);
            }
            Unstake(..) | UnstakeAll(_) => {
                let x = if let Unstake(_, x) = op { *x } else { bs };
                let got = pu.wrapping_sub(bu);
                cx.ensure("P02", "receive", pu >= bu + x && got < x + gap, || msg("received outside [X, X + price)"));
                cx.ensure("P02", "sum", sum1 >= sum0, || msg("the caller's balances dropped"));
                cx.ensure("P03", "gain", sum1 <= sum0 + gap, || msg("the caller gained by unstaking"));
                cx.ensure("P02", "wallet", paid == 0, || msg("wrong payment"));
                if let UnstakeAll(_) = op {
                    cx.ensure("P02", "all", ps == 0, || msg("something is still staked"));
                }
                cx.ensure("P05", "total", post.t + got >= base.t && post.t + got <= base.t + 1, || msg("the total stake does not match what was unstaked"));
                s.g.unlock[u] = s.w.epoch + 4;
                let n = muldiv(x, sh, base.t);
                // rounded up: the remainder of x * sh / base.t fits 128 bits, so it can be computed modulo 2^128
                let up = if x.wrapping_mul(sh).wrapping_sub(n.wrapping_mul(base.t)) > 0 { n + 1 } else { n };
                s.g.shares -= up.min(s.g.shares - 1);
            }
            Withdraw(..) | WithdrawAll(_) => {
                let x = if let Withdraw(_, x) = op { *x } else { bu };
                cx.ensure("P02", "withdraw", pu + x == bu && ps == bs && paid == x as i128, || msg("wrong amounts"));
                cx.ensure("P05", "total", post.t == base.t, || msg("a withdrawal changed the total stake"));
            }
            Ping(_) => {
                cx.ensure("P03", "ping", post == base, || msg("ping is not deterministic"));
            }
            Key(_, k) => s.g.key = k,
            Fee(_, n, d) => s.g.fee = (n, d),
            Pause(_) => s.g.paused = true,
            Resume(_) => s.g.paused = false,
            Vote(_, b) => {
                if !self.interleave {
                    s.g.votes.push(format!("pool {} 0", json!({"is_vote": b})));
                }
            }
            _ => {}
        }
        if admin {
            let b = if let Vote(..) = op { &pre } else { &base };
            cx.ensure("P03", "admin", post.un == b.un && post.st == b.st && post.t == b.t && post.av == b.av, || msg("an administrative call changed balances"));
            cx.ensure("P05", "admin", post.un == b.un && post.st == b.st && post.t == b.t, || msg("rewards were not credited as by a ping before the administrative call"));
            cx.ensure("P07", "admin balances", post.un == b.un && post.st == b.st && (0..USERS.len()).all(|i| wallet(&s.w, i) == 0), || msg("an administrative call changed balances"));
        } else {
            for i in (0..N).filter(|i| *i != u) {
                cx.ensure("P03", "others", post.un[i] == base.un[i] && post.st[i] >= base.st[i] && post.st[i] <= base.st[i] + gap && post.av[i] == base.av[i], || {
                    format!("{:?} by {} changed {}'s balances from {:?} to {:?}", op, USERS[u], USERS[i], (base.un[i], base.st[i], base.av[i]), (post.un[i], post.st[i], post.av[i]))
                });
            }
            cx.ensure("P02", "third wallets", (0..USERS.len()).all(|i| i == u || wallet(&s.w, i) == 0), || msg("someone else's wallet changed"));
        }
        // rounding reserve
        let slack1 = slack(&s.w, &post, s.g.pending);
        let allow = if matches!(op, DepStake(..) | Stake(..) | StakeAll(_) | Unstake(..) | UnstakeAll(_)) { 1 } else { 0 };
        cx.ensure("P01", "reserve", slack1 >= slack0 - allow, || {
            format!("{:?} by {} cost the pool's reserve {} yocto (unaccounted tokens {} -> {})", op, USERS[u], slack0 - slack1, slack0, slack1)
        });
        if !matches!(op, Vote(..)) {
            s.g.lag = false;
        }
        self.settle(s);
    }

    fn check(&self, s: &State<G>, cx: &mut Cx) {
        let v = view(&s.w);
        let a = s.w.acc("pool").unwrap();
        let owed: u128 = (0..N).map(|i| v.un[i] + v.st[i]).sum();
        cx.ensure("P01", "solvent", a.amount + a.locked >= owed, || format!("the pool holds {} but owes {}", a.amount + a.locked, owed));
        cx.ensure("P01", "stake covered", a.amount + a.locked >= v.t + v.un.iter().sum::<u128>(), || {
            format!("the pool holds {} but total staked {} plus unstaked {}", a.amount + a.locked, v.t, v.un.iter().sum::<u128>())
        });
        for i in 0..N {
            if v.un[i] > 0 {
                let want = s.w.epoch >= s.g.unlock[i];
                cx.ensure("P04", "available", v.av[i] == want, || {
                    format!("{}'s unstaked balance {} is reported {} in epoch {}, unlock epoch is {}", USERS[i], v.un[i], if v.av[i] { "available" } else { "unavailable" }, s.w.epoch, s.g.unlock[i])
                });
            }
        }
        if s.w.quiet() {
            // stake proposal
            let (p, pkey) = (a.stakes[0], &a.stake_pk);
            let may_stake = v.t >= s.w.min_stake;
            let m = || format!("latest stake proposal is {} with key {:?}; total staked {}, key {}, paused {}, rejected {}", p, pkey.get(1), v.t, s.g.key, s.g.paused, s.g.rejected);
            if s.g.paused {
                cx.ensure("P06", "paused", p == 0, m);
            } else if s.g.rejected {
                cx.ensure("P06", "rejected", p == 0 || (self.interleave && (s.g.lag || p == v.t && may_stake)), m);
            } else if !s.g.lag {
                cx.ensure("P06", "proposal", p == v.t && **pkey == *pk(s.g.key), m);
            }
            // administration
            if self.views {
                let f = s.w.view("pool", "get_reward_fee_fraction", "{}").unwrap_or_default();
                let k = s.w.view("pool", "get_staking_key", "{}").unwrap_or_default();
                let pa = s.w.view("pool", "is_staking_paused", "{}").unwrap_or_default();
                let o = s.w.view("pool", "get_owner_id", "{}").unwrap_or_default();
                cx.ensure("P07", "views", f == json!({"numerator": s.g.fee.0, "denominator": s.g.fee.1}) && k == json!(pk_str(s.g.key)) && pa == json!(s.g.paused) && o == json!("owner"), || {
                    format!("fee {} key {} paused {} owner {}; expected {:?}", f, k, pa, o, (s.g.fee, pk_str(s.g.key), s.g.paused))
                });
                let votes: Vec<String> = s.w.acc("voting").unwrap().storage.values().map(|x| String::from_utf8_lossy(x).to_string()).collect();
                cx.ensure("P07", "votes", votes == s.g.votes, || format!("votes cast: {:?}, expected {:?}", votes, s.g.votes));
            }
        }
        // listing
        if self.views {
            let n = s.w.view("pool", "get_number_of_accounts", "{}").unwrap_or_default();
            let held: Vec<usize> = (0..N).filter(|i| v.un[*i] + v.st[*i] > 0).collect();
            cx.ensure("P08", "count", n == json!(held.len()), || format!("{} accounts reported, {} hold something", n, held.len()));
            let page = |f: usize, l: usize| -> Vec<Value> {
                s.w.view("pool", "get_accounts", &json!({"from_index": f, "limit": l}).to_string()).ok().and_then(|x| x.as_array().cloned()).unwrap_or(vec![json!("failed")])
            };
            let all = page(0, 100);
            let mut names: Vec<&str> = all.iter().filter_map(|x| x["account_id"].as_str()).collect();
            names.sort();
            let mut want: Vec<&str> = held.iter().map(|i| USERS[*i]).collect();
            want.sort();
            cx.ensure("P08", "list", names == want && all.len() == want.len(), || format!("listed {:?}, expected {:?}", names, want));
            for x in &all {
                let i = USERS.iter().position(|u| x["account_id"] == json!(u)).unwrap_or(0);
                if i < N {
                    cx.ensure("P08", "numbers", x["unstaked_balance"] == json!(v.un[i].to_string()) && x["staked_balance"] == json!(v.st[i].to_string()) && x["can_withdraw"] == json!(v.av[i]), || format!("listed {}, individually {:?}", x, (v.un[i], v.st[i])));
                    let args = json!({"account_id": USERS[i]}).to_string();
                    let one = |m: &str| s.w.view("pool", m, &args).unwrap_or_default();
                    cx.ensure("P08", "single views", one("get_account_unstaked_balance") == json!(v.un[i].to_string()) && one("get_account_staked_balance") == json!(v.st[i].to_string())
                        && one("get_account_total_balance") == json!((v.un[i] + v.st[i]).to_string()) && one("is_account_unstaked_balance_available") == json!(v.av[i]),
                        || format!("individual views of {} disagree", USERS[i]));
                }
            }
            for f in 0..=all.len() + 1 {
                for l in 0..=all.len() + 1 {
                    let p = page(f, l);
                    let want: Vec<Value> = all.iter().skip(f).take(l).cloned().collect();
                    cx.ensure("P08", "page", p == want, || format!("page from {} limit {} is {:?}, expected {:?}", f, l, p, want));
                }
            }
        }
        // everyone leaves
        if self.bank && s.w.quiet() {
            let mut w = s.w.clone();
            let mut failed = None;
            for i in 0..N {
                if view(&w).st[i] > 0 {
                    let o = w.call(USERS[i], "pool", "unstake_all", "{}", 0);
                    if !o.ok() {
                        failed = Some((i, o));
                    }
                }
            }
            for _ in 0..4 {
                w.next_epoch(&|_| 0);
            }
            for i in 0..N {
                let (b, un) = (w.amount(USERS[i]), view(&w).un[i]);
                let owed = v.un[i] + v.st[i];
                if un > 0 {
                    let o = w.call(USERS[i], "pool", "withdraw_all", "{}", 0);
                    if !o.ok() || w.amount(USERS[i]) != b + un {
                        failed = Some((i, o));
                    }
                }
                cx.ensure("P01", "bank run", w.amount(USERS[i]) >= b + owed, || {
                    format!("everyone leaves: {} is owed {} and gets {} ({:?})", USERS[i], owed, w.amount(USERS[i]) - b, failed)
                });
            }
            cx.ensure("P01", "bank run", failed.is_none(), || format!("everyone leaves: {:?}", failed));
        }
    }
}
impl Pool {
    fn note_stakes(&self, s: &mut State<G>) {
        for e in &s.w.events {
            if &*e.receiver == "pool" && !e.ok() && e.actions.actions.iter().any(|a| matches!(a, crate::vm::Action::Stake { .. })) {
                s.g.rejected = true;
            } else if &*e.receiver == "pool" && e.ok() && !self.interleave && e.actions.actions.iter().any(|a| matches!(a, crate::vm::Action::Stake { amount, .. } if *amount > 0)) {
                s.g.rejected = false;
            }
        }
    }
    fn settle(&self, s: &mut State<G>) {
        if self.interleave {
            // number of calls whose stake action has not been performed
            s.g.open = s.w.queue.values().flatten().filter(|r| &*r.predecessor == "pool").count() as u64;
            if s.w.quiet() {
                s.g.open = 0;
            }
        }
    }
}

pub fn pool_world(env: Arc<Env>, balance: u128, wallets: u128, fee: (u32, u32)) -> World {
    let mut w = World::new(env);
    w.contract("pool", "staking_pool", balance);
    for u in USERS {
        w.user(u, wallets);
    }
    w.signers = Arc::new(vec![("owner", "alice"), ("alice", "owner"), ("bob", "alice"), ("carol", "bob"), ("pool.owner", "owner"), ("owner.pool", "owner")]);
    w.contract("voting", "recorder", 100 * NEAR);
    w.must("owner", "pool", "new", &new_args("owner", 1, fee.0, fee.1), 0);
    w.clear_events();
    w
}
fn fresh(w: World, fee: (u32, u32)) -> State<G> {
    let a = w.acc("pool").unwrap();
    let shares = a.amount + a.locked - FUND;
    let last = w.epoch;
    let rejected = shares < w.env.min_stake;
    State {
        g: G { unlock: [0; N], pending: 0, last, fee, key: 1, paused: false, shares, epochs: 0, gifts: 0, lag: false, rejected, votes: vec![], open: 0 },
        w,
    }
}
/// Runs a prelude through the model itself, so that the reference state follows.
fn prelude(m: &Pool, s: &State<G>, ops: &[Op]) -> State<G> {
    let mut s = s.clone();
    for o in ops {
        let mut cx = Cx::default();
        m.step(&mut s, o, &mut cx);
        while m.interleave && !s.w.quiet() {
            m.step(&mut s, &Deliver(0), &mut cx);
        }
    }
    s.g.epochs = 0;
    s.g.gifts = 0;
    s.w.clear_events();
    s
}

fn pool(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let p = c.prop.as_str();
    let env = |min_stake| c.env(&["staking_pool"], &[("recorder", recorder)], false, min_stake);
    let mk = |name: &str, base: State<G>, preludes: Vec<Vec<Op>>, acts: Vec<Op>, epochs: u64, gifts: u64, il: u64| {
        let mut m = Pool {
            name: name.into(),
            inits: vec![base.clone()],
            acts,
            max_epochs: epochs,
            max_gifts: gifts,
            bank: p == "P01",
            views: p == "P08" || p == "P07",
            interleave: il > 0,
            max_open: il,
        };
        m.inits = preludes.iter().map(|o| prelude(&m, &base, o)).collect();
        m
    };
    let (o, a, b, ca) = (0, 1, 2, 3);
    let mut out: Vec<Box<dyn Scenario>> = vec![];

    // 1. yocto scale: share prices that round
    let tiny = |fee: (u32, u32), n: u128| fresh(pool_world(env(0), FUND + n, 100_000, fee), fee);
    let round_acts = vec![
        Dep(a, 3), DepStake(a, 1), DepStake(a, 5), DepStake(b, 7), DepStake(b, 0), Stake(a, 2), Stake(b, 3), StakeAll(a), StakeAll(b), Unstake(a, 1), Unstake(a, 4), Unstake(b, 2), Unstake(b, 1000),
        UnstakeAll(a), UnstakeAll(b), Withdraw(a, 1), Withdraw(b, 3), WithdrawAll(a), WithdrawAll(b), Ping(4), Epoch(0), Epoch(5), Skip(4), Gift(3), Stake(a, 0), Unstake(a, 0), Withdraw(a, 0), UnstakeAll(o), WithdrawAll(o),
    ];
    let pre = |x: Vec<Op>| x;
    let preludes = vec![
        pre(vec![DepStake(ca, 50)]),
        pre(vec![DepStake(ca, 50), DepStake(a, 10), Dep(b, 9), Epoch(23), Ping(4)]),
        pre(vec![DepStake(ca, 41), DepStake(a, 10), DepStake(b, 11), Epoch(60), Ping(4), Epoch(7), Gift(2)]),
        pre(vec![DepStake(ca, 13), Dep(a, 30), DepStake(b, 20), Gift(100), Epoch(3), Unstake(b, 4), Unstake(ca, 3), Epoch(0)]),
        pre(vec![DepStake(ca, 29), DepStake(a, 8), DepStake(b, 8), DepStake(o, 4), Epoch(31), Unstake(a, 3), Skip(4), Dep(a, 2), UnstakeAll(b)]),
    ];
    let d_round = match p {
        "P01" | "P02" | "P03" => c.pick(3, 4),
        "P05" | "P04" => c.pick(2, 4),
        "P08" => c.pick(2, 3),
        _ => 0,
    };
    if d_round > 0 {
        out.push(sc(mk("rounding, fee 1/3", tiny((1, 3), 10), preludes.clone(), round_acts.clone(), 5, 1, 0), d_round));
        if c.thorough || p == "P05" {
            out.push(sc(mk("rounding, no fee", tiny((0, 1), 7), preludes.clone(), round_acts.clone(), 5, 1, 0), d_round.min(3)));
            out.push(sc(mk("rounding, fee 1", tiny((1, 1), 3), preludes.clone(), round_acts.clone(), 5, 1, 0), d_round.min(3)));
        }
        if p != "P08" && p != "P04" {
            // rewards far above the stake: one share is worth thousands of tokens
            let acts = vec![
                DepStake(a, 9000), DepStake(b, 4001), Stake(a, 2100), Stake(a, 6), StakeAll(a), Unstake(a, 1), Unstake(a, 4100), Unstake(b, 2500), UnstakeAll(a), UnstakeAll(b), WithdrawAll(a), Withdraw(b, 1), Ping(4), Epoch(0), Epoch(5), Epoch(9_000), Skip(4), Gift(1_000),
            ];
            let pres = vec![
                vec![DepStake(ca, 13), Epoch(50_000), Ping(4), Dep(b, 5_000)],
                vec![DepStake(ca, 13), DepStake(a, 5), Epoch(60_007), Gift(777), Epoch(12), DepStake(b, 7_000), Unstake(a, 2_500), Skip(4)],
            ];
            for fee in [(1, 3), (1, 100)] {
                out.push(sc(mk(&format!("rounding, expensive shares, fee {:?}", fee), tiny(fee, 7), pres.clone(), acts.clone(), 5, 1, 0), c.pick(3, 4)));
            }
        }
        if d_round > 2 {
            out.push(sc(mk("rounding, fee 7/10, two delegators deep", tiny((7, 10), 4), vec![preludes[1].clone(), preludes[3].clone()],
                vec![DepStake(a, 2), DepStake(a, 6), Stake(a, 2), StakeAll(b), Unstake(a, 3), Unstake(b, 2), UnstakeAll(a), UnstakeAll(b), WithdrawAll(a), Epoch(4), Skip(4)], 9, 0, 0), c.pick(4, 6)));
        }
    }
    // 2. NEAR scale: epochs, rewards, unlocking
    let big = |fee: (u32, u32)| {
        let e = c.env(&["staking_pool"], &[("recorder", recorder)], true, 0);
        fresh(pool_world(e, 40 * NEAR, 1_000_000 * NEAR, fee), fee)
    };
    let k = 1000 * NEAR;
    let bacts = |withdrawals: bool| {
        let mut v = vec![Dep(a, k + 7), DepStake(b, 2 * k + 3), Stake(a, k / 3), Unstake(a, k / 2), UnstakeAll(b), StakeAll(a), Ping(4), Epoch(0), Epoch(11 * NEAR + 1), Gift(5 * NEAR)];
        if withdrawals {
            v.extend([Withdraw(a, k / 4), WithdrawAll(a), WithdrawAll(b), Skip(3), Dep(b, 5), Pause(o), Resume(o)]);
        }
        v
    };
    let bpre = vec![
        vec![],
        vec![DepStake(ca, 3 * k), DepStake(a, k), Dep(b, k)],
        vec![DepStake(ca, 7 * k + 1), DepStake(a, k), DepStake(b, 2 * k), DepStake(o, k), Epoch(77 * NEAR + 13), Ping(4), Unstake(a, k / 2), Epoch(3 * NEAR)],
        vec![DepStake(ca, k), DepStake(a, k), DepStake(b, k), UnstakeAll(a), Skip(1), Unstake(b, k / 2), Skip(2)],
    ];
    match p {
        "P04" => {
            let acts = vec![
                Dep(a, k), DepStake(a, k), StakeAll(a), Unstake(a, k / 4), Unstake(b, k / 4), UnstakeAll(a), Withdraw(a, 1), WithdrawAll(a), WithdrawAll(b), Ping(4), Epoch(NEAR), Epoch(0), Skip(3), Pause(o), Resume(o),
            ];
            out.push(sc(mk("unlocking", big((1, 10)), bpre.clone(), acts, 10, 0, 0), c.pick(4, 5)));
            let acts = vec![UnstakeAll(a), Unstake(a, k / 4), StakeAll(a), WithdrawAll(a), Withdraw(a, 1), Epoch(NEAR), Dep(a, k)];
            let owner = vec![Dep(o, k), Pause(o), Resume(o), DepStake(o, k), Unstake(o, k / 4), UnstakeAll(o), StakeAll(o), Withdraw(o, 1), WithdrawAll(o), Epoch(NEAR), Skip(3), Ping(4), UnstakeAll(a), WithdrawAll(a)];
            out.push(sc(mk("unlocking, the owner delegates", big((1, 10)), vec![bpre[2].clone(), vec![DepStake(ca, k), DepStake(o, k), UnstakeAll(o)]], owner, 10, 0, 0), c.pick(5, 6)));
            out.push(sc(mk("unlocking, one delegator", big((1, 10)), vec![vec![DepStake(ca, k), DepStake(a, k)]], acts, 12, 0, 0), c.pick(7, 9)));
        }
        "P05" => {
            for fee in [(1, 10), (0, 1), (1, 1), (29, 97)] {
                let mut acts = bacts(true);
                acts.extend([Fee(o, 1, 4), Fee(o, 0, 1), DepStake(o, k)]);
                out.push(sc(mk(&format!("rewards, fee {:?}", fee), big(fee), bpre.clone(), acts, 6, 2, 0), c.pick(3, 4)));
            }
        }
        "P01" | "P02" | "P03" => out.push(sc(mk("NEAR amounts", big((1, 10)), bpre.clone(), bacts(true), 8, 1, 0), c.pick(3, 4))),
        "P06" => {
            let mut acts = bacts(true);
            acts.extend([Key(o, 2), Key(o, 1), Key(o, UNSUITABLE), Fee(o, 3, 8), Pause(a), Resume(a)]);
            out.push(sc(mk("proposals", big((1, 10)), bpre.clone(), acts, 6, 1, 0), c.pick(3, 4)));
            // proposals below the network's minimum are rejected
            let tiny_min = |m| fresh(pool_world(env(m), FUND + 10, 100_000, (1, 10)), (1, 10));
            let acts = vec![DepStake(a, 30), DepStake(b, 20), Unstake(a, 15), UnstakeAll(a), UnstakeAll(b), Ping(4), Epoch(4), Epoch(0), Pause(o), Resume(o), Key(o, 2), StakeAll(a), WithdrawAll(a)];
            let pres = vec![vec![], vec![DepStake(a, 30)], vec![DepStake(a, 30), DepStake(b, 30), Epoch(3), Ping(4)]];
            for min in [15, 35] {
                out.push(sc(mk(&format!("proposals, network minimum {}", min), tiny_min(min), pres.clone(), acts.clone(), 5, 0, 0), c.pick(4, 5)));
            }
            let acts = vec![DepStake(a, 30), DepStake(b, 20), Unstake(a, 15), UnstakeAll(a), UnstakeAll(b), Ping(4), Epoch(4), Pause(o), Resume(o), Min(35), Min(60), Min(1000)];
            out.push(sc(mk("proposals, the network minimum changes", tiny_min(15), pres.clone(), acts, 4, 0, 0), c.pick(4, 6)));
            let acts = vec![DepStake(a, 30), DepStake(b, 20), Unstake(a, 15), UnstakeAll(a), Ping(4), Epoch(4), Pause(o), Resume(o), Key(o, 2), WithdrawAll(b)];
            out.push(sc(mk("interleaved proposals", tiny_min(0), pres.clone(), acts.clone(), 2, 0, 3), c.pick(6, 8)));
            out.push(sc(mk("interleaved proposals, network minimum 35", tiny_min(35), pres, acts, 2, 0, 3), c.pick(5, 7)));
        }
        "P07" => {
            let mut acts = vec![DepStake(a, k), Unstake(a, k / 2), Epoch(NEAR)];
            for u in [o, a, 4, 5] {
                acts.extend([Key(u, 2), Key(u, 1), Key(u, UNSUITABLE), Fee(u, 1, 2), Fee(u, 0, 1), Fee(u, 1, 1), Fee(u, 2, 1), Fee(u, 4_294_967_295, 4_294_967_294), Fee(u, 0, 0), Fee(u, 1, 0), Pause(u), Resume(u), Vote(u, true), Vote(u, false)]);
                acts.extend((0..GIVEN).map(|k| Callback(u, k)));
            }
            out.push(sc(mk("administration", big((1, 10)), vec![bpre[1].clone(), bpre[2].clone()], acts, 2, 0, 0), c.pick(3, 4)));
        }
        "P08" => {
            let acts = vec![
                Dep(a, 5), DepStake(b, 7), DepStake(o, 3), UnstakeAll(a), UnstakeAll(b), UnstakeAll(ca), UnstakeAll(o), WithdrawAll(a), WithdrawAll(b), WithdrawAll(ca), WithdrawAll(o), StakeAll(a), Skip(4), Withdraw(a, 5), Epoch(30),
            ];
            let pres = vec![vec![], vec![DepStake(ca, 5), Dep(a, 5), Dep(b, 6)], vec![DepStake(ca, 5), DepStake(b, 6), UnstakeAll(b), DepStake(o, 4), UnstakeAll(o), Dep(a, 5), Skip(4)]];
            out.push(sc(mk("listing", tiny((1, 3), 10), pres, acts, 9, 0, 0), c.pick(4, 6)));
            out.push(crowd(c));
        }
        _ => {}
    }
    if p == "P01" {
        let acts = vec![DepStake(a, 5), DepStake(b, 7), Unstake(a, 3), UnstakeAll(b), WithdrawAll(a), Ping(4), Epoch(4), Dep(a, 3), Skip(4), Gift(3)];
        out.push(sc(mk("interleaved with staking receipts", tiny((1, 3), 10), vec![preludes[1].clone(), preludes[4].clone()], acts, 5, 1, 2), c.pick(5, 7)));
        let base = fresh(pool_world(env(35), FUND + 10, 100_000, (1, 3)), (1, 3));
        let acts = vec![DepStake(a, 30), DepStake(b, 20), Unstake(a, 15), UnstakeAll(a), UnstakeAll(b), WithdrawAll(a), Ping(4), Epoch(4), Skip(4), Pause(o), Resume(o)];
        out.push(sc(mk("network minimum 35, with staking receipts", base, vec![vec![DepStake(a, 30)], vec![DepStake(a, 30), DepStake(b, 30), Epoch(3), Ping(4)]], acts, 6, 0, 2), c.pick(5, 7)));
    }
    out
}

/// Pools with many delegators: every number of accounts, every kind of page.
#[derive(Clone, Debug)]
struct Crowd {
    accounts: usize,
    /// those who leave again (every n-th, 0: nobody)
    leave: usize,
}
fn crowd(c: &Ctx) -> Box<dyn Scenario> {
    let env = c.env(&["staking_pool"], &[("recorder", recorder)], false, 0);
    let max = c.pick(130, 300);
    let mut w = pool_world(env, FUND + 10, 100_000, (1, 3));
    let name = |i: usize| format!("u{:03}.users", (i * 37) % 1009);
    for i in 0..max {
        w.user(&name(i), 1000);
    }
    let mut cases = vec![];
    for n in (0..=max).filter(|n| *n < 4 || n % 7 == 3 || n % 50 < 3 || n % 64 < 2) {
        for leave in [0, 1, 2, 3] {
            cases.push(Crowd { accounts: n, leave });
        }
    }
    let run = move |w: &mut World, k: &Crowd, cx: &mut Cx| {
        let mut held: Vec<String> = vec![];
        for i in 0..k.accounts {
            let u = name(i);
            let o = if i % 2 == 0 { w.call(&u, "pool", "deposit", "{}", 5 + i as u128) } else { w.call(&u, "pool", "deposit_and_stake", "{}", 5 + i as u128) };
            cx.ensure("P02", "crowd", o.ok(), || format!("deposit of {} fails: {}", u, o.short()));
        }
        for i in 0..k.accounts {
            let u = name(i);
            if k.leave > 0 && i % k.leave == 0 && i % 2 == 0 {
                let o = w.call(&u, "pool", "withdraw_all", "{}", 0);
                cx.ensure("P02", "crowd", o.ok(), || format!("withdrawal of {} fails: {}", u, o.short()));
            } else {
                held.push(u);
            }
        }
        held.sort();
        cx.seen(if held.is_empty() { "nobody" } else if held.len() > 100 { "more than 100" } else { "some" });
        let n = w.view("pool", "get_number_of_accounts", "{}").unwrap_or_default();
        cx.ensure("P08", "count", n == json!(held.len()), || format!("{:?}: {} accounts reported, {} hold something", k, n, held.len()));
        let page = |f: usize, l: usize| -> Vec<Value> {
            w.view("pool", "get_accounts", &json!({"from_index": f, "limit": l}).to_string()).ok().and_then(|x| x.as_array().cloned()).unwrap_or(vec![json!("failed")])
        };
        let all = page(0, 1000);
        let mut names: Vec<String> = all.iter().filter_map(|x| x["account_id"].as_str().map(|s| s.to_string())).collect();
        names.sort();
        cx.ensure("P08", "list", names == held && all.len() == held.len(), || format!("{:?}: listed {} accounts, expected {}", k, all.len(), held.len()));
        for f in [0, 1, held.len() / 2, held.len().saturating_sub(1), held.len(), held.len() + 1] {
            for l in [0, 1, 2, 9, 10, 11, 49, 50, 51, 63, 64, 65, 99, 100, 101, 127, 128, 129, held.len(), held.len() + 1] {
                let p = page(f, l);
                let want: Vec<Value> = all.iter().skip(f).take(l).cloned().collect();
                cx.ensure("P08", "page", p == want, || format!("{:?}: page from {} limit {} has {} entries, expected {}", k, f, l, p.len(), want.len()));
            }
        }
        // pages of one size give the whole list
        for l in [1usize, 3, 10, 50] {
            let mut got = vec![];
            while got.len() < all.len() {
                let p = page(got.len(), l);
                if p.is_empty() {
                    break;
                }
                got.extend(p);
            }
            cx.ensure("P08", "pages", got == all, || format!("{:?}: reading pages of {} gives {} of {} accounts", k, l, got.len(), all.len()));
        }
    };
    sc(Cases { name: "many accounts".into(), start: w, cases, run }, 1)
}

// ------------------------------------------------------------------------------- initialisation

#[derive(Clone, Debug)]
struct InitCase {
    owner: &'static str,
    key: String,
    fee: (u64, u64),
    balance: u128,
    locked: u128,
    twice: bool,
    who: &'static str,
}
fn init_cases(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let env = c.env(&["staking_pool"], &[("recorder", recorder)], false, 0);
    let mut w = World::new(env);
    w.contract("pool", "staking_pool", 0);
    for u in USERS {
        w.user(u, 1000 * NEAR);
    }
    let mut cases = vec![];
    let good_key = pk_str(1);
    let short = pk_bs58(1);
    for owner in ["owner", "pool", "a.b-c_d", "", "Owner", "a", "x..y", "-a", "owner owner", "0123456789012345678901234567890123456789012345678901234567890123", "01234567890123456789012345678901234567890123456789012345678901234"] {
        for key in [good_key.clone(), short.clone()] {
            for fee in [(0u64, 1u64), (1, 10), (1, 1), (2, 1), (0, 0), (1, 0), (10, 9), (4294967295, 4294967295), (4294967296, 1), (3, 4294967295)] {
                for balance in [0, 1, FUND - 1, FUND + 1, FUND + 17, 30 * NEAR] {
                    for (twice, who) in [(false, "owner"), (true, "alice")] {
                        cases.push(InitCase { owner, key: key.clone(), fee, balance, locked: 0, twice, who });
                    }
                }
            }
        }
    }
    for key in ["", "ed25519:", "foo", "ed25519:111", "secp256k1:111", &pk_str(UNSUITABLE)] {
        cases.push(InitCase { owner: "owner", key: key.into(), fee: (0, 1), balance: 30 * NEAR, locked: 0, twice: false, who: "owner" });
    }
    for locked in [1, 5 * NEAR] {
        cases.push(InitCase { owner: "owner", key: good_key.clone(), fee: (0, 1), balance: 30 * NEAR, locked, twice: false, who: "owner" });
    }
    let run = |w: &mut World, k: &InitCase, cx: &mut Cx| {
        w.edit("pool", |a| {
            a.amount = k.balance;
            a.locked = k.locked;
        });
        let args = json!({"owner_id": k.owner, "stake_public_key": k.key, "reward_fee_fraction": {"numerator": k.fee.0, "denominator": k.fee.1}}).to_string();
        let key_ok = k.key == pk_str(1) || k.key == pk_bs58(1);
        let fee_ok = k.fee.1 > 0 && k.fee.0 <= k.fee.1 && k.fee.0 < 1 << 32 && k.fee.1 < 1 << 32;
        let want = crate::vm::valid_account(k.owner) && key_ok && fee_ok && k.balance > FUND && k.locked == 0;
        let o = w.call(k.who, "pool", "new", &args, 0);
        cx.seen(if o.ok() { "initialised" } else { "rejected" });
        cx.ensure("P09", "accepted", o.ok() == want, || format!("{:?}: expected {}, got {}", k, if want { "success" } else { "rejection" }, o.short()));
        if !o.ok() {
            cx.ensure("P09", "no effect", w.acc("pool").unwrap().storage.is_empty(), || format!("{:?} left state behind", k));
            return;
        }
        let check = |w: &World, cx: &mut Cx, when: &str| {
            let g = |m: &str| w.view("pool", m, "{}").unwrap_or_default();
            let a = w.acc("pool").unwrap();
            let t = k.balance - FUND;
            cx.ensure("P09", "state", g("get_owner_id") == json!(k.owner) && g("get_staking_key") == json!(pk_str(1)) && g("get_reward_fee_fraction") == json!({"numerator": k.fee.0, "denominator": k.fee.1})
                && g("is_staking_paused") == json!(false) && g("get_number_of_accounts") == json!(0) && g("get_total_staked_balance") == json!(t.to_string()) && a.stakes[0] == t && *a.stake_pk == *pk(1),
                || format!("{:?}: wrong state {}: owner {} key {} fee {} total {} proposal {}", k, when, g("get_owner_id"), g("get_staking_key"), g("get_reward_fee_fraction"), g("get_total_staked_balance"), a.stakes[0]));
        };
        check(w, cx, "after initialisation");
        if k.twice {
            for who in ["owner", "bob"] {
                let o = w.call(who, "pool", "new", &new_args("bob", 2, 0, 1), 0);
                cx.ensure("P09", "again", o.is_err(), || format!("second initialisation: {}", o.short()));
            }
            check(w, cx, "after a second initialisation attempt");
        }
    };
    // before initialisation nothing works
    let uninit = Cases {
        name: "before initialisation".into(),
        start: { let mut w = w.clone(); w.edit("pool", |a| a.amount = 30 * NEAR); w },
        cases: vec![Dep(1, 5), DepStake(1, 5), Stake(1, 1), Ping(1), Pause(0), Key(0, 2), Fee(0, 0, 1)],
        run: |w: &mut World, op: &Op, cx: &mut Cx| {
            let (m, a, d) = op.call();
            let before = w.amount("alice");
            let o = w.call(USERS[op.actor().unwrap()], "pool", m, &a, d);
            cx.ensure("P09", "uninit", o.is_err() && w.acc("pool").unwrap().storage.is_empty() && w.amount("alice") == before, || format!("{:?} before initialisation: {}", op, o.short()));
        },
    };
    vec![sc(Cases { name: "initialisation".into(), start: w, cases, run }, 1), sc(uninit, 1)]
}
