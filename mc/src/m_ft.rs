//! Wrapped NEAR (NEP-141) against a reference ledger.
use crate::check::*;
use crate::explore::*;
use crate::vm::{Action, Input, NewReceipt, Output, PromiseResult, Ret, Storage};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;

const A: &[&str] = &[
    "four accounts and one receiver contract whose behaviour is chosen per transfer from a list",
    "small amounts around the balances, the registration price and zero, plus the largest representable amount",
];
pub fn checks() -> Vec<Check> {
    ["T01", "T02", "T03", "T04", "T05", "T06"].iter().map(|prop| Check { prop, contracts: &["w-near"], make: if *prop == "T06" { upgrade } else { ft }, assumptions: A }).collect()
}
const W: &str = "wrap";
/// of the greatest length
const CAROL: &str = "c4r01234567890123456789012345678901234567890123456789.carol.near";
const PEOPLE: [&str; 4] = ["alice", "bob", "rcv", CAROL];

/// The receiver: acts as the message tells it. {"a": raw answer or null to fail, "do": "spend N" | "quit"}
pub fn receiver(method: &str, inp: &Input, st: &Storage) -> Output {
    let mut o = native_out(inp, st, Ok(Ret::None));
    let v = parse(inp.input);
    let msg = match method {
        "ft_on_transfer" => parse(v["msg"].as_str().unwrap_or("").as_bytes()),
        "answer" if inp.predecessor == inp.current => v,
        _ => {
            o.ret = Err("MethodNotFound".into());
            return o;
        }
    };
    if let (Some(x), true) = (msg["do"].as_str(), method == "ft_on_transfer") {
        let call = |to: &str, m: &str, args: String, deposit: u128, deps: Vec<usize>| NewReceipt {
            receiver: to.into(),
            deps,
            actions: vec![Action::Call { method: m.into(), args: bytes(args.as_bytes()), deposit, gas: 20 * TGAS, }],
        };
        let first = match x.strip_prefix("spend ") {
            Some(n) => call(inp.predecessor, "ft_transfer", json!({"receiver_id": "bob", "amount": n}).to_string(), 1, vec![]),
            None => call(inp.predecessor, "storage_unregister", json!({"force": true}).to_string(), 1, vec![]),
        };
        o.balance -= 1;
        o.receipts.push(first);
        o.receipts.push(call(inp.current, "answer", msg.to_string(), 0, vec![0]));
        o.ret = Ok(Ret::Receipt(1));
        return o;
    }
    o.ret = match msg["a"].as_str() {
        Some(s) => Ok(if s.is_empty() { Ret::None } else { Ret::Value(bytes(s.as_bytes())) }),
        None => Err("receiver panicked".into()),
    };
    o
}

#[derive(Clone, Debug)]
enum Op {
    Do(&'static str, &'static str, String, u128),
    /// a call made as the caller's own callback, with the k-th kind of promise results
    After(&'static str, &'static str, String, u128, usize),
    Deliver(usize),
    /// deploys the current contract over the legacy one
    Upgrade,
}
use Op::*;

#[derive(Clone, Hash, Default)]
struct G {
    /// registered accounts
    bal: BTreeMap<String, u128>,
    supply: u128,
    /// NEAR each party gained
    near: BTreeMap<String, i128>,
    open: u64,
    /// the account still runs the legacy contract; how many more calls it gets
    legacy: u64,
    /// calls made since the upgrade
    since: u64,
}

struct Ft {
    /// for the upgrade: the legacy contract's operations; every mismatch after the upgrade counts as T06
    old: Vec<Op>,
    max_since: u64,
    name: String,
    inits: Vec<State<G>>,
    ops: Vec<Op>,
    interleave: u64,
    price: u128,
    start: BTreeMap<String, u128>,
    base: u128,
}

/// What the reference model says about one execution on the token contract.
struct Want {
    /// None: must fail without effect
    ok: Option<Ok_>,
    prop: &'static str,
}
#[derive(Default)]
struct Ok_ {
    ret: Option<Value>,
    pay: Vec<(String, u128)>,
    /// either outcome is fine (no token effect, the same NEAR effect)
    free: bool,
}
fn amount(v: &Value) -> Option<u128> {
    v.as_str()?.parse().ok()
}
fn name_ok(s: &str) -> bool {
    (2..=64).contains(&s.len()) && s.bytes().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == b'.' || c == b'_' || c == b'-')
}

impl Ft {
    /// applies the call to the reference ledger
    fn apply(&self, g: &mut G, p: &str, method: &str, args: &Value, d: u128, results: &[PromiseResult]) -> Want {
        let reject = |prop| Want { ok: None, prop };
        let ok = |prop, ret: Option<Value>, pay: Vec<(String, u128)>| Want { ok: Some(Ok_ { ret, pay, free: false }), prop };
        let sb = || json!({"total": self.price.to_string(), "available": "0"});
        match method {
            "near_deposit" => {
                let reg = g.bal.contains_key(p);
                if d == 0 || (!reg && d < self.price) {
                    return reject("T03");
                }
                let credit = if reg { d } else { d - self.price };
                *g.bal.entry(p.into()).or_insert(0) += credit;
                g.supply += credit;
                ok("T03", None, vec![])
            }
            "near_withdraw" => {
                let x = match amount(&args["amount"]) {
                    Some(x) if d == 1 && g.bal.get(p).map_or(false, |b| *b >= x) => x,
                    _ => return reject("T03"),
                };
                *g.bal.get_mut(p).unwrap() -= x;
                g.supply -= x;
                let mut w = ok("T03", None, vec![(p.into(), x + 1)]);
                w.ok.as_mut().unwrap().free = x == 0;
                w
            }
            "ft_transfer" | "ft_transfer_call" => {
                let to = args["receiver_id"].as_str().unwrap_or("");
                let x = match amount(&args["amount"]) {
                    Some(x) if d == 1 && x > 0 && to != p && g.bal.contains_key(to) && g.bal.get(p).map_or(false, |b| *b >= x) => x,
                    _ => return reject("T05"),
                };
                *g.bal.get_mut(p).unwrap() -= x;
                *g.bal.get_mut(to).unwrap() += x;
                ok("T05", None, vec![])
            }
            "ft_resolve_transfer" => {
                if p != W {
                    return reject("T02");
                }
                let (from, to) = (args["sender_id"].as_str().unwrap(), args["receiver_id"].as_str().unwrap());
                let x = amount(&args["amount"]).unwrap();
                let unused = match &results[0] {
                    PromiseResult::Ok(b) => serde_json::from_slice::<Value>(b).ok().and_then(|v| amount(&v)).unwrap_or(x).min(x),
                    _ => x,
                };
                let refund = unused.min(g.bal.get(to).copied().unwrap_or(0));
                if refund > 0 {
                    *g.bal.get_mut(to).unwrap() -= refund;
                }
                let used = match g.bal.get_mut(from) {
                    Some(b) => {
                        *b += refund;
                        x - refund
                    }
                    None => {
                        g.supply -= refund;
                        x
                    }
                };
                ok("T02", Some(json!(used.to_string())), vec![])
            }
            "storage_deposit" => {
                let who = args["account_id"].as_str().unwrap_or(p);
                if !name_ok(who) {
                    return reject("T04");
                }
                let back = if g.bal.contains_key(who) {
                    d
                } else if d < self.price {
                    return reject("T04");
                } else {
                    g.bal.insert(who.into(), 0);
                    d - self.price
                };
                ok("T04", Some(sb()), vec![(p.into(), back)])
            }
            "storage_withdraw" => {
                if d != 1 || !g.bal.contains_key(p) || amount(&args["amount"]).unwrap_or(0) > 0 {
                    return reject("T04");
                }
                ok("T04", Some(sb()), vec![])
            }
            "storage_unregister" => {
                let force = args["force"].as_bool().unwrap_or(false);
                if d != 1 {
                    return reject("T04");
                }
                match g.bal.get(p).copied() {
                    None => {
                        let mut w = ok("T04", Some(json!(false)), vec![]);
                        w.ok.as_mut().unwrap().free = true;
                        w
                    }
                    Some(b) if b == 0 || force => {
                        g.bal.remove(p);
                        g.supply -= b;
                        ok("T04", Some(json!(true)), vec![(p.into(), self.price + 1)])
                    }
                    _ => reject("T04"),
                }
            }
            _ => reject("T05"),
        }
    }
    /// delivers one receipt; executions on the token contract are compared with the reference ledger
    fn deliver(&self, s: &mut State<G>, c: &Chan, cx: &mut Cx) {
        let (a, results) = match s.w.peek(c) {
            Some(x) if &*x.0.receiver == W => x,
            _ => {
                s.w.deliver(c, false);
                return;
            }
        };
        let (method, args, d) = match a.actions.as_slice() {
            [Action::Call { method, args, deposit, .. }] => (method.to_string(), parse(args), *deposit),
            [Action::Transfer(_)] => {
                s.w.deliver(c, false);
                return;
            }
            x => panic!("unexpected receipt {:?}", x),
        };
        let rid = a.id;
        let p = a.predecessor.to_string();
        let before = s.w.acc(W).unwrap().storage.clone();
        let mut g = s.g.clone();
        let want = self.apply(&mut g, &p, &method, &args, d, &results);
        s.w.deliver(c, false);
        let ev = s.w.event(rid).expect("executed").clone();
        let desc = || format!("{}({}) by {} with {} yocto", method, args, p, d);
        let what = if ev.ok() { "ok" } else { "rejected" };
        cx.seen(format!("{} {}", method, what));
        match &want.ok {
            None => {
                cx.ensure(want.prop, "accepted", !ev.ok(), || format!("{} must fail", desc()));
                cx.ensure(want.prop, "effect", s.w.acc(W).unwrap().storage == before, || format!("{} failed but changed the state", desc()));
                if want.prop != "T05" && matches!(method.as_str(), "near_withdraw" | "storage_unregister") {
                    cx.ensure("T05", "accepted", !ev.ok(), || format!("{} must fail", desc()));
                }
            }
            Some(w) => {
                if w.free {
                    // nothing of value moves; only a kept yocto may differ
                    if ev.ok() {
                        *g.near.entry(p.clone()).or_insert(0) -= d as i128;
                        for (to, x) in &w.pay {
                            *g.near.entry(to.clone()).or_insert(0) += *x as i128;
                        }
                    }
                    s.g = g;
                    return;
                }
                cx.ensure(want.prop, "rejected", ev.ok(), || format!("{} must succeed: {:?}", desc(), ev.result));
                if ev.ok() {
                    if let (Some(r), Out::Ok(v)) = (&w.ret, s.w.outcome(rid)) {
                        cx.ensure(want.prop, "result", v == *r, || format!("{} returned {}, expected {}", desc(), v, r));
                        cx.seen(format!("{} returns {}", method, if method == "ft_resolve_transfer" { v.to_string() } else { "ok".into() }));
                    }
                }
                if p != W {
                    *g.near.entry(p.clone()).or_insert(0) -= d as i128;
                }
                for (to, x) in &w.pay {
                    *g.near.entry(to.clone()).or_insert(0) += *x as i128;
                }
                s.g = g;
            }
        }
        // the effect on every account
        let props: Vec<&str> = if want.prop == "T05" { vec!["T05"] } else { vec![want.prop, "T05"] };
        for who in PEOPLE.iter().chain(["ghost"].iter()) {
            let got = s.w.view(W, "ft_balance_of", &json!({"account_id": who}).to_string());
            let exp = s.g.bal.get(*who).copied().unwrap_or(0);
            let reg = s.w.view(W, "storage_balance_of", &json!({"account_id": who}).to_string());
            let is = reg.as_ref().map_or(false, |v| !v.is_null());
            for pr in &props {
                cx.ensure(pr, "balances", got == Ok(json!(exp.to_string())), || format!("after {}: balance of {} is {:?}, expected {}", desc(), who, got, exp));
                if *pr != "T05" || method.starts_with("ft_") {
                    cx.ensure(pr, "registered", is == s.g.bal.contains_key(*who), || format!("after {}: {} registered: {:?}", desc(), who, reg));
                }
            }
        }
    }
}

impl Model for Ft {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<G>> {
        self.inits.clone()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        let mut v: Vec<Op> = (0..s.w.chans().len()).map(Deliver).collect();
        if s.g.legacy > 0 {
            v.push(Upgrade);
            if s.g.legacy > 1 && s.w.quiet() {
                // registering twice: refused by the legacy contract
                let again = |o: &Op| match o {
                    Do(who, "storage_deposit", args, _) => s.g.bal.contains_key(parse(args.as_bytes())["account_id"].as_str().unwrap_or(who)),
                    _ => false,
                };
                v.extend(self.old.iter().filter(|o| !again(o)).cloned());
            }
            return v;
        }
        if self.max_since > 0 && s.g.since >= self.max_since {
            return v;
        }
        if s.w.quiet() || (self.interleave > 0 && s.g.open < self.interleave) {
            v.extend(self.ops.iter().cloned());
        }
        v
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        if self.old.is_empty() {
            return self.act(s, op, cx);
        }
        let was = s.g.legacy > 0;
        let mut mine = Cx::default();
        match op {
            Do(..) | After(..) if was => s.g.legacy -= 1,
            Do(..) | After(..) => s.g.since += 1,
            _ => {}
        }
        self.act(s, op, &mut mine);
        self.relabel(mine, if was { "legacy" } else { "" }, cx);
    }
    fn check(&self, s: &State<G>, cx: &mut Cx) {
        if self.old.is_empty() {
            return self.state(s, cx);
        }
        if s.g.legacy > 0 {
            return;
        }
        let mut mine = Cx::default();
        self.state(s, &mut mine);
        self.relabel(mine, "", cx);
    }
}
impl Ft {
    fn relabel(&self, from: Cx, tag: &str, cx: &mut Cx) {
        cx.compared += from.compared;
        for (k, n) in from.outcomes {
            *cx.outcomes.entry(format!("{}{}{}", tag, if tag.is_empty() { "" } else { " " }, k)).or_insert(0) += n;
        }
        for v in from.found {
            // the legacy contract answers differently; what counts is the state it leaves
            if !tag.is_empty() && matches!(v.key.as_str(), "result" | "registered") {
                continue;
            }
            cx.fail("T06", &format!("{}{}", tag, v.key), v.msg);
        }
    }
    fn act(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        s.w.clear_events();
        if s.w.quiet() {
            s.g.open = 0;
        }
        match op {
            Upgrade => {
                let code = s.w.env.code("w_near");
                let len = match &s.w.env.codes[code as usize] {
                    CodeKind::Wasm(c) => c.bytes.len() as u64,
                    _ => 0,
                };
                s.w.edit(W, |a| {
                    a.code = Some(CodeRef::Known(code));
                    a.code_len = len;
                });
                s.g.legacy = 0;
                cx.seen(if s.w.quiet() { "upgrade" } else { "upgrade with transfers in flight" });
            }
            Deliver(i) => {
                let c = s.w.chans()[*i].clone();
                self.deliver(s, &c, cx);
            }
            Do(who, method, args, d) | After(who, method, args, d, _) => {
                let given = if let After(.., k) = op { given(*k) } else { vec![] };
                s.w.submit_after(who, W, method, args, *d, given);
                let c: Chan = (id(who), id(W));
                s.g.open += 1;
                // the transaction's own receipt; other arrival orders equal other submission orders
                let n = s.w.queue[&c].len();
                for _ in 0..n {
                    self.deliver(s, &c, cx);
                }
                if self.interleave == 0 {
                    while let Some(c) = s.w.next_chan() {
                        self.deliver(s, &c, cx);
                    }
                }
            }
        }
        if s.w.quiet() {
            s.g.open = 0;
        }
    }
    fn state(&self, s: &State<G>, cx: &mut Cx) {
        let sum: u128 = s.g.bal.values().sum();
        cx.ensure("T01", "ledger", sum == s.g.supply, || format!("reference supply {} and sum {}", s.g.supply, sum));
        let mut shown = 0u128;
        for who in PEOPLE.iter().chain(["ghost"].iter()) {
            if let Ok(v) = s.w.view(W, "ft_balance_of", &json!({"account_id": who}).to_string()) {
                shown += amount(&v).unwrap_or(0);
            }
        }
        let total = s.w.view(W, "ft_total_supply", "{}").ok().and_then(|v| amount(&v));
        cx.ensure("T01", "supply", total == Some(shown), || format!("total supply {:?}, sum of balances {}", total, shown));
        cx.ensure("T01", "supply-history", total == Some(s.g.supply), || format!("total supply {:?}, expected {}", total, s.g.supply));
        let held = s.w.amount(W);
        let owed = s.g.supply + s.g.bal.len() as u128 * self.price;
        cx.ensure("T01", "backing", held >= self.base + owed, || format!("holds {} beyond its own {}, owes {}", held as i128 - self.base as i128, self.base, owed));
        let owed = total.unwrap_or(0) + s.g.bal.len() as u128 * self.price;
        cx.ensure("T01", "backing-shown", held >= self.base + owed, || format!("holds {} beyond its own {}, shows {}", held as i128 - self.base as i128, self.base, owed));
        let b = s.w.view(W, "storage_balance_bounds", "{}");
        let e = json!({"min": self.price.to_string(), "max": self.price.to_string()});
        cx.ensure("T04", "price", b == Ok(e), || format!("storage bounds {:?}", b));
        let m = s.w.view(W, "ft_metadata", "{}").unwrap_or_default();
        cx.ensure("T03", "metadata", m["decimals"] == json!(24) && m["spec"] == json!("ft-1.0.0") && m["symbol"] == json!("wNEAR"), || format!("metadata {}", m));
        if s.w.quiet() {
            for who in PEOPLE {
                let exp = self.start[who] as i128 + s.g.near.get(who).copied().unwrap_or(0);
                for p in ["T03", "T04"] {
                    cx.ensure(p, "near", s.w.amount(who) as i128 == exp, || format!("{} has {} NEAR-yocto, expected {}", who, s.w.amount(who), exp));
                }
            }
        }
    }
}

fn ft(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let mut w = World::new(c.env(&["w_near"], &[("receiver", receiver)], true, 0));
    w.contract(W, "w_near", 100 * NEAR);
    for u in ["alice", "bob", CAROL] {
        w.user(u, 1000 * NEAR);
    }
    w.user("rcv", 1000 * NEAR);
    w.signers = std::sync::Arc::new(vec![("alice", "bob"), ("bob", CAROL), (CAROL, "alice")]);
    let code = w.env.code("receiver");
    w.edit("rcv", |a| a.code = Some(CodeRef::Known(code)));
    let uninit = w.clone();
    w.must("alice", W, "new", "{}", 0);
    w.clear_events();
    let price = amount(&w.view(W, "storage_minimum_balance", "{}").unwrap()).unwrap();
    assert!(price > 0);
    let base = w.amount(W);
    let start: BTreeMap<String, u128> = PEOPLE.iter().map(|p| (p.to_string(), w.amount(p))).collect();
    let mk = |name: &str, pre: Vec<Vec<Op>>, ops: Vec<Op>, il: u64| {
        let mut m = Ft { name: name.into(), old: vec![], max_since: 0, inits: vec![], ops, interleave: 0, price, start: start.clone(), base };
        for p in pre {
            let mut s = State { w: w.clone(), g: G::default() };
            let mut cx = Cx::default();
            for o in &p {
                m.step(&mut s, o, &mut cx);
            }
            s.w.clear_events();
            m.inits.push(s);
        }
        m.interleave = il;
        m
    };
    let sa = |x: u128| x.to_string();
    let dep = |u, d| Do(u, "near_deposit", "{}".into(), d);
    let wd = |u, x: u128, d| Do(u, "near_withdraw", json!({"amount": sa(x)}).to_string(), d);
    let tr = |u, to: &str, x: u128, d| Do(u, "ft_transfer", json!({"receiver_id": to, "amount": sa(x)}).to_string(), d);
    let tc = |u, to: &str, x: u128, msg: Value, d| Do(u, "ft_transfer_call", json!({"receiver_id": to, "amount": sa(x), "msg": msg.to_string()}).to_string(), d);
    let reg = |u, who: Option<&str>, only: Option<bool>, d| Do(u, "storage_deposit", json!({"account_id": who, "registration_only": only}).to_string(), d);
    let unreg = |u, f: Option<bool>, d| Do(u, "storage_unregister", json!({"force": f}).to_string(), d);
    let sw = |u, x: Option<u128>, d| Do(u, "storage_withdraw", json!({"amount": x.map(sa)}).to_string(), d);
    let resolve = |u, from: &str, to: &str, x: u128| Do(u, "ft_resolve_transfer", json!({"sender_id": from, "receiver_id": to, "amount": sa(x)}).to_string(), 0);

    let mut ledger = vec![];
    for u in ["alice", "bob"] {
        for d in [0, 1, price - 1, price, price + 10] {
            ledger.push(dep(u, d));
        }
        for (x, d) in [(0, 1), (1, 1), (10, 1), (11, 1), (price, 1), (u128::MAX, 1), (1, 0), (1, 2), (0, 0), (10, NEAR)] {
            ledger.push(wd(u, x, d));
        }
        for to in ["alice", "bob", CAROL, "Bad Name"] {
            for (x, d) in [(0, 1), (1, 1), (10, 1), (11, 1), (u128::MAX, 1), (1, 0), (1, 2)] {
                if (to == CAROL && x == 0) || (to == "Bad Name" && x != 1) {
                    continue;
                }
                ledger.push(tr(u, to, x, d));
            }
        }
        for who in [None, Some(CAROL), Some("alice")] {
            for d in [0, price - 1, price, price + 5] {
                ledger.push(reg(u, who, if d == price { Some(true) } else { None }, d));
            }
        }
        for (f, d) in [(None, 1), (Some(false), 1), (Some(true), 1), (Some(true), 0), (None, 0), (Some(true), 2)] {
            ledger.push(unreg(u, f, d));
        }
        for (x, d) in [(None, 1), (Some(0), 1), (Some(1), 1), (None, 0), (Some(price), 1)] {
            ledger.push(sw(u, x, d));
        }
    }
    ledger.extend([dep("alice", 300 * NEAR), wd("alice", 300 * NEAR, 1), tr("alice", "bob", 200 * NEAR, 1), dep(CAROL, price), dep(CAROL, price - 1), reg(CAROL, None, None, price + 7)]);
    ledger.push(reg("alice", Some("ghost"), None, price + 1));
    ledger.push(reg("alice", Some("Bad Name"), None, price));
    ledger.push(unreg(CAROL, None, 1));
    ledger.push(unreg(CAROL, Some(true), 1));
    ledger.push(tr(CAROL, "bob", 1, 1));
    ledger.push(Do("alice", "new", "{}".into(), 0));
    ledger.push(resolve("alice", "bob", "alice", 1));
    ledger.push(resolve("rcv", "alice", "rcv", 1));
    let funded = || vec![dep("alice", price + 10), dep("bob", price + 3)];
    let l = mk("token ledger (transactions run to completion)", vec![vec![], funded()], ledger, 0);

    let answer = |x: &str| json!({ "a": x });
    let mut msgs = vec![
        answer("\"0\""),
        answer("\"3\""),
        answer("\"5\""),
        answer("\"6\""),
        answer("\"340282366920938463463374607431768211455\""),
        answer(""),
        answer("3"),
        answer("\"-1\""),
        answer("\"340282366920938463463374607431768211456\""),
        answer("null"),
        json!({ "a": null }),
    ];
    for spend in ["spend 4", "spend 5", "spend 7", "quit"] {
        for a in ["\"5\"", "\"2\"", "\"0\""] {
            msgs.push(json!({"do": spend, "a": a}));
        }
        msgs.push(json!({"do": spend, "a": null}));
    }
    let calls = |small: bool| {
        let mut v = vec![];
        for (i, m) in msgs.iter().enumerate() {
            if small && ![1, 4, 10, 12, 15, 19, 23].contains(&i) {
                continue;
            }
            v.push(tc("alice", "rcv", 5, m.clone(), 1));
            if !small || i == 4 {
                v.push(tc("bob", "rcv", 2, m.clone(), 1));
            }
        }
        v.push(tc("alice", "bob", 5, json!({}), 1));
        if !small {
            for d in [0, 2] {
                v.push(tc("alice", "rcv", 5, answer("\"0\""), d));
            }
            v.push(tc("alice", "rcv", 0, answer("\"0\""), 1));
            v.push(tc("alice", "rcv", 11, answer("\"0\""), 1));
            v.push(tc("alice", "alice", 5, answer("\"0\""), 1));
            v.push(tc("alice", CAROL, 5, answer("\"0\""), 1));
            v.push(tc(CAROL, "rcv", 5, answer("\"0\""), 1));
            v.push(tc("rcv", "rcv", 1, answer("\"0\""), 1));
            v.push(tc("rcv", "alice", 1, answer("\"0\""), 1));
        }
        for u in ["alice", "rcv"] {
            v.push(unreg(u, Some(true), 1));
            v.push(reg(u, None, None, price));
        }
        v.push(tr("rcv", "alice", 2, 1));
        v.push(tr("rcv", "bob", 7, 1));
        v.push(wd("rcv", 2, 1));
        v.push(dep("rcv", 3));
        v.push(dep("alice", 3));
        v.push(wd("alice", 5, 1));
        v.push(resolve("alice", "alice", "rcv", 1));
        v.push(resolve("rcv", "bob", "rcv", 1));
        for k in 0..if small { 2 } else { GIVEN } {
            for (u, from, to) in [("rcv", "alice", "rcv"), ("bob", "bob", "alice")] {
                if let Do(u, m, a, d) = resolve(u, from, to, 1) {
                    v.push(After(u, m, a, d, k));
                }
            }
        }
        v
    };
    let start = || vec![vec![dep("alice", price + 10), dep("bob", price + 3), dep("rcv", price + 2)], vec![dep("alice", price + 10), dep("bob", price + 3), reg("rcv", None, None, price)]];
    let seq = mk("transfer-and-call, every receiver answer", start(), calls(false), 0);
    let il = mk("transfer-and-call interleaved with other transactions", start(), calls(true), c.pick(2, 3));

    let mut before = vec![];
    for (m, a, d) in [
        ("near_deposit", "{}", NEAR),
        ("near_withdraw", r#"{"amount":"1"}"#, 1),
        ("ft_transfer", r#"{"receiver_id":"bob","amount":"1"}"#, 1),
        ("storage_deposit", "{}", NEAR),
        ("storage_unregister", r#"{"force":true}"#, 1),
        ("ft_resolve_transfer", r#"{"sender_id":"bob","receiver_id":"alice","amount":"1"}"#, 0),
    ] {
        before.push((m, a, d));
    }
    let cases = Cases {
        name: "token contract before initialisation".into(),
        start: uninit,
        cases: before,
        run: |w: &mut World, (m, a, d): &(&'static str, &'static str, u128), cx: &mut Cx| {
            let n = w.amount("alice");
            let o = w.call("alice", W, m, a, *d);
            cx.seen(if o.is_err() { "rejected" } else { "accepted" });
            cx.ensure("T05", "uninitialised", o.is_err() && w.amount("alice") == n && w.acc(W).unwrap().storage.is_empty(), || format!("{} before initialisation: {}", m, o.short()));
        },
    };
    let deep = matches!(c.prop.as_str(), "T01" | "T02");
    vec![sc(cases, 1), sc(l, c.pick(3, 4)), sc(seq, c.pick(3, 4)), sc(il, c.pick(if deep { 7 } else { 5 }, 11))]
}

/// The current contract deployed over every state the legacy contract can reach.
fn upgrade(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    let mut w = World::new(c.env(&["w_near", "legacy_w_near"], &[("receiver", receiver)], true, 0));
    w.contract(W, "legacy_w_near", 100 * NEAR);
    for u in PEOPLE {
        w.user(u, 1000 * NEAR);
    }
    w.signers = std::sync::Arc::new(vec![("alice", "bob"), ("bob", CAROL), (CAROL, "alice")]);
    let code = w.env.code("receiver");
    w.edit("rcv", |a| a.code = Some(CodeRef::Known(code)));
    w.must("alice", W, "new", "{}", 0);
    w.clear_events();
    let price = amount(&w.view(W, "storage_minimum_balance", "{}").unwrap()).unwrap();
    let base = w.amount(W);
    let start: BTreeMap<String, u128> = PEOPLE.iter().map(|p| (p.to_string(), w.amount(p))).collect();
    let sa = |x: u128| x.to_string();
    let dep = |u, d| Do(u, "near_deposit", "{}".into(), d);
    let wd = |u, x: u128, d| Do(u, "near_withdraw", json!({"amount": sa(x)}).to_string(), d);
    let tr = |u, to: &str, x: u128, d| Do(u, "ft_transfer", json!({"receiver_id": to, "amount": sa(x)}).to_string(), d);
    let tc = |u, to: &str, x: u128, msg: Value, d| Do(u, "ft_transfer_call", json!({"receiver_id": to, "amount": sa(x), "msg": msg.to_string()}).to_string(), d);
    let reg = |u, who: Option<&str>, d| Do(u, "storage_deposit", json!({"account_id": who}).to_string(), d);
    let unreg = |u, f: Option<bool>, d| Do(u, "storage_unregister", json!({"force": f}).to_string(), d);
    let answer = |x: &str| json!({ "a": x });
    // registration first: the legacy contract does not register on deposit
    let old = vec![
        reg("alice", None, price),
        reg("bob", None, price),
        reg("alice", Some("rcv"), price),
        dep("alice", 10),
        dep("bob", 4),
        tr("alice", "bob", 3, 1),
        tr("bob", "alice", 4, 1),
        wd("alice", 2, 1),
        wd("bob", 4, 1),
        tc("alice", "rcv", 5, answer("\"2\""), 1),
        tc("alice", "rcv", 5, json!({"a": null}), 1),
        tc("bob", "rcv", 1, answer("\"1\""), 1),
    ];
    let ops = vec![
        reg("alice", None, price),
        reg(CAROL, None, price + 2),
        dep("alice", 7),
        dep("bob", price + 7),
        dep(CAROL, price),
        wd("alice", 8, 1),
        wd("bob", 3, 1),
        wd("rcv", 3, 1),
        tr("alice", "bob", 3, 1),
        tr("bob", "alice", 4, 1),
        tr("rcv", "bob", 1, 1),
        tc("alice", "rcv", 5, answer("\"2\""), 1),
        tc("bob", "rcv", 1, answer("\"1\""), 1),
        unreg("alice", Some(true), 1),
        unreg("bob", None, 1),
        Do("alice", "new", "{}".into(), 0),
    ];
    let g = G { legacy: c.pick(5, 7) + 1, ..G::default() };
    let m = Ft { name: "upgrade from the legacy contract".into(), old: old.clone(), max_since: c.pick(2, 3), inits: vec![State { w: w.clone(), g }], ops: ops.clone(), interleave: 1, price, start: start.clone(), base };
    vec![sc(m, 100)]
}
