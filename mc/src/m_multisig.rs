//! The two multisig contracts against one reference model.
use crate::check::*;
use crate::explore::*;
use crate::m_pool::recorder;
use crate::vm::{Action, KeyPerm};
use crate::world::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

const A1: &[&str] = &[
    "transactions are executed one after another (a key acting between the confirmation of its removal and the removal itself is not explored)",
    "keys, accounts and request contents from a small set; request contents cover every kind of action",
];
pub fn checks() -> Vec<Check> {
    let mut v = vec![];
    for prop in ["M01", "M02", "M03", "M04"] {
        v.push(Check { prop, contracts: &["multisig"], make: v1, assumptions: A1 });
    }
    for prop in ["N01", "N02", "N03", "N04", "N05", "N06"] {
        v.push(Check { prop, contracts: &["multisig2"], make: v2, assumptions: A1 });
    }
    v
}

const COOLDOWN: u64 = 900_000_000_000;
const MS: &str = "ms";
/// account names of the greatest length that differ in the last character only, or nowhere near the end
const LONG1: &str = "sixty-four-characters-that-are-the-same-for-almost-every-member1";
const LONG2: &str = "sixty-four-characters-that-are-the-same-for-almost-every-member2";
const LONG3: &str = "6ixty-four-characters-that-are-the-same-for-almost-every-member2";
pub const METHODS: [&str; 4] = ["add_request", "add_request_and_confirm", "confirm", "delete_request"];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Who {
    Key(u8),
    Acct(&'static str),
}
use Who::*;
impl Who {
    pub fn json(&self) -> Value {
        match self {
            Key(n) => json!({"public_key": pk_str(*n)}),
            Acct(a) => json!({"account_id": a}),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Act {
    Transfer(u128),
    Create,
    Deploy,
    /// key, 0: full access, otherwise a function-call permission
    AddKey(u8, u8),
    DelKey(u8),
    AddMember(Who),
    DelMember(Who),
    Call(&'static str, String, u128, u64),
    SetNum(u32),
    SetLimit(u32),
}
use Act::*;
#[derive(Clone, Debug)]
struct Req(&'static str, Vec<Act>);

fn b64(x: &[u8]) -> String {
    base64::encode(x)
}
const CODE: &[u8] = b"\0asm\x01\0\0\0 not really";
fn perm(n: u8) -> (Option<u128>, &'static str, Vec<&'static str>) {
    match n {
        1 => (None, "ms", METHODS.to_vec()),
        2 => (Some(5 * NEAR), "rec", vec![]),
        _ => (Some(0), "bob", vec!["x"]),
    }
}
impl Act {
    fn json(&self) -> Value {
        match self {
            Transfer(x) => json!({"type": "Transfer", "amount": x.to_string()}),
            Create => json!({"type": "CreateAccount"}),
            Deploy => json!({"type": "DeployContract", "code": b64(CODE)}),
            AddKey(k, 0) => json!({"type": "AddKey", "public_key": pk_str(*k)}),
            AddKey(k, n) => {
                let (al, r, m) = perm(*n);
                json!({"type": "AddKey", "public_key": pk_str(*k), "permission": {"allowance": al.map(|x| x.to_string()), "receiver_id": r, "method_names": m}})
            }
            DelKey(k) => json!({"type": "DeleteKey", "public_key": pk_str(*k)}),
            AddMember(w) => json!({"type": "AddMember", "member": w.json()}),
            DelMember(w) => json!({"type": "DeleteMember", "member": w.json()}),
            Call(m, a, d, g) => json!({"type": "FunctionCall", "method_name": m, "args": b64(a.as_bytes()), "deposit": d.to_string(), "gas": g.to_string()}),
            SetNum(n) => json!({"type": "SetNumConfirmations", "num_confirmations": n}),
            SetLimit(n) => json!({"type": "SetActiveRequestsLimit", "active_requests_limit": n}),
        }
    }
}
impl Req {
    fn json(&self) -> Value {
        json!({"receiver_id": self.0, "actions": self.1.iter().map(|a| a.json()).collect::<Vec<_>>()})
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add(Who, usize),
    AddConfirm(Who, usize),
    Confirm(Who, u32),
    Delete(Who, u32),
    Time(u64),
    /// another account calls a method of the multisig; the number selects the method
    Outside(&'static str, usize, u32),
    New(Who),
    /// a member's key signs a transaction for something it must not do
    Misuse(u8, u8),
}
use Op::*;

#[derive(Clone, Hash, PartialEq, Debug)]
struct R {
    tpl: usize,
    by: Who,
    ts: u64,
    conf: BTreeSet<Who>,
}
#[derive(Clone, Hash, PartialEq, Debug)]
struct G {
    k: u32,
    limit: u32,
    nonce: u32,
    req: BTreeMap<u32, R>,
    members: BTreeSet<Who>,
    times: u8,
    /// keys added or deleted in a batch of actions that then failed
    taint: BTreeSet<u8>,
}
impl G {
    fn count(&self, w: &Who) -> u32 {
        self.req.values().filter(|r| r.by == *w).count() as u32
    }
}

struct Ms {
    name: String,
    two: bool,
    inits: Vec<State<G>>,
    tpls: Vec<Req>,
    who: Vec<Who>,
    adds: (bool, bool),
    max_nonce: u32,
    extra: Vec<Op>,
    times: Vec<u64>,
    max_times: u8,
    removal: bool,
}
enum Eff {
    None,
    /// executed: the receipt's receiver and actions, and the calls it makes to the multisig itself
    Executed(usize),
}

impl Ms {
    /// the member a call counts for
    fn member(&self, w: &World, g: &G, who: &Who) -> bool {
        match who {
            Key(n) if !self.two => w.acc(MS).unwrap().keys.contains_key(&pk(*n)),
            Acct(_) if !self.two => false,
            // (a key whose addition failed asynchronously cannot sign)
            Key(n) => g.members.contains(who) && w.acc(MS).unwrap().keys.contains_key(&pk(*n)),
            _ => g.members.contains(who),
        }
    }
    /// None: the property leaves the outcome open
    fn execute(&self, w: &World, g: &mut G, tpl: usize, lenient: bool) -> Result<(), String> {
        let Req(recv, acts) = &self.tpls[tpl];
        let cost: u128 = acts.iter().map(|a| if let Transfer(x) | Call(_, _, x, _) = a { *x } else { 0 }).sum();
        for a in acts {
            match a {
                AddKey(..) | DelKey(_) | AddMember(_) | DelMember(_) | SetNum(_) | SetLimit(_) if *recv != MS => return Err("not self-directed".into()),
                SetNum(_) | SetLimit(_) if acts.len() > 1 => return Err("not a single action".into()),
                _ => {}
            }
            let gone = match a {
                DelKey(n) => Some(Key(*n)),
                DelMember(m) => {
                    if !g.members.remove(m) && !lenient {
                        return Err("open".into());
                    }
                    if (g.members.len() as u32) < g.k {
                        return Err("too few members".into());
                    }
                    Some(*m)
                }
                AddMember(m) => {
                    g.members.insert(*m);
                    None
                }
                SetNum(n) => {
                    if self.two && *n as usize > g.members.len() {
                        return Err("threshold above member count".into());
                    }
                    g.k = *n;
                    None
                }
                SetLimit(n) => {
                    g.limit = *n;
                    None
                }
                _ => None,
            };
            if let Some(m) = gone {
                g.req.retain(|_, r| r.by != m);
                for r in g.req.values_mut() {
                    r.conf.remove(&m);
                }
            }
        }
        if cost > w.amount(MS) {
            return Err("not enough tokens".into());
        }
        Ok(())
    }
    fn confirm(&self, w: &World, g: &mut G, who: &Who, i: u32, lenient: bool) -> Result<Eff, String> {
        let k = g.k;
        let r = g.req.get_mut(&i).ok_or("no such request")?;
        if r.conf.contains(who) {
            return Err("already confirmed".into());
        }
        if r.conf.len() as u32 + 1 >= k {
            let r = g.req.remove(&i).unwrap();
            self.execute(w, g, r.tpl, lenient)?;
            return Ok(Eff::Executed(r.tpl));
        }
        r.conf.insert(*who);
        Ok(Eff::None)
    }
    fn apply(&self, w: &World, g: &mut G, op: &Op, lenient: bool) -> Result<Eff, String> {
        match op {
            Outside(a, m, i) if self.member(w, g, &Acct(a)) => {
                let (who, t) = (Acct(a), *i as usize % self.tpls.len());
                let op = match m {
                    0 => Add(who, t),
                    1 => AddConfirm(who, t),
                    2 => Confirm(who, *i),
                    _ => Delete(who, *i),
                };
                self.apply(w, g, &op, lenient)
            }
            Add(who, t) | AddConfirm(who, t) => {
                if !self.member(w, g, who) {
                    return Err("not a member".into());
                }
                if g.count(who) + 1 > g.limit {
                    return Err("too many requests".into());
                }
                let i = g.nonce;
                g.nonce += 1;
                g.req.insert(i, R { tpl: *t, by: *who, ts: w.ts, conf: BTreeSet::new() });
                if let AddConfirm(..) = op {
                    return self.confirm(w, g, who, i, lenient);
                }
                Ok(Eff::None)
            }
            Confirm(who, i) => {
                if !self.member(w, g, who) {
                    return Err("not a member".into());
                }
                self.confirm(w, g, who, *i, lenient)
            }
            Delete(who, i) => {
                if !self.member(w, g, who) {
                    return Err("not a member".into());
                }
                let r = g.req.get(i).ok_or("no such request")?;
                if w.ts <= r.ts + COOLDOWN {
                    return Err("too early".into());
                }
                g.req.remove(i);
                Ok(Eff::None)
            }
            Outside(..) | New(_) | Misuse(..) => Err("outsider".into()),
            Time(_) => unreachable!(),
        }
    }
    fn p(&self, n: u8) -> &'static str {
        match (self.two, n) {
            (false, 1) => "M01",
            (false, 2) => "M02",
            (false, 3) => "M03",
            (false, _) => "M04",
            (true, 1) => "N01",
            (true, 2) => "N02",
            (true, 3) => "N03",
            (true, 5) => "N05",
            (true, 6) => "N06",
            (true, _) => "N04",
        }
    }
    /// the property a wrong acceptance / rejection breaks
    fn blame(&self, op: &Op, g: &G, why: &str, ok: bool) -> Vec<&'static str> {
        let admin = |t: usize| self.tpls[t].1.iter().any(|a| !matches!(a, Transfer(_) | Create | Deploy | Call(..)));
        let tpl = match op {
            Add(_, t) | AddConfirm(_, t) => Some(*t),
            Confirm(_, i) => g.req.get(i).map(|r| r.tpl),
            _ => None,
        };
        match why {
            "too many requests" | "too early" => vec![self.p(2)],
            "not a member" => vec![self.p(1), self.p(3), self.p(4)],
            "too few members" | "threshold above member count" => vec![self.p(5)],
            "outsider" => vec![self.p(4)],
            "not self-directed" | "not a single action" => vec![self.p(4)],
            "no such request" => vec![self.p(1), self.p(2)],
            "already confirmed" => vec![self.p(1)],
            _ => {
                // expected success
                let mut v = vec![];
                if matches!(op, Add(..) | Delete(..)) {
                    v.push(self.p(2));
                    v.push(self.p(1));
                } else {
                    v.push(self.p(1));
                    if tpl.map_or(false, admin) {
                        v.push(self.p(4));
                        if self.two {
                            v.push("N05");
                        }
                    }
                    if self.removal {
                        v.push(self.p(3));
                    }
                }
                if self.two && !ok {
                    if let Add(Key(_), _) | AddConfirm(Key(_), _) | Confirm(Key(_), _) | Delete(Key(_), _) = op {
                        v.push("N06");
                    }
                }
                v
            }
        }
    }
    fn expect_action(&self, a: &Act, got: &Action, was_member: &BTreeSet<Who>) -> bool {
        match (a, got) {
            (Transfer(x), Action::Transfer(y)) => x == y,
            (Create, Action::CreateAccount) => true,
            (Deploy, Action::Deploy(b)) => **b == *CODE,
            (AddKey(k, 0), Action::AddKey { pk: p, perm }) => *p == pk(*k) && *perm == KeyPerm::Full,
            (AddKey(k, n), Action::AddKey { pk: p, perm: pe }) => {
                let (al, r, m) = perm(*n);
                let want: Vec<String> = m.iter().map(|x| x.to_string()).collect();
                *p == pk(*k) && *pe == KeyPerm::Call { receiver: r.into(), methods: want, allowance: al.unwrap_or(0) }
            }
            (DelKey(k), Action::DeleteKey(p)) => *p == pk(*k),
            (DelMember(Key(k)), Action::DeleteKey(p)) => *p == pk(*k),
            (AddMember(Key(k)), Action::AddKey { pk: p, .. }) => *p == pk(*k) && !was_member.contains(&Key(*k)),
            (Call(m, a, d, g), Action::Call { method, args, gas, deposit }) => m == method && a.as_bytes() == &**args && g == gas && d == deposit,
            _ => false,
        }
    }
}

impl Model for Ms {
    type G = G;
    type Op = Op;
    fn name(&self) -> String {
        self.name.clone()
    }
    fn init(&self) -> Vec<State<G>> {
        self.inits.clone()
    }
    fn ops(&self, s: &State<G>) -> Vec<Op> {
        let mut v = vec![];
        for w in &self.who {
            if s.g.nonce < self.max_nonce {
                for t in 0..self.tpls.len() {
                    if self.adds.0 {
                        v.push(Add(*w, t));
                    }
                    if self.adds.1 {
                        v.push(AddConfirm(*w, t));
                    }
                }
            }
            for i in 0..=s.g.nonce.min(self.max_nonce) {
                v.push(Confirm(*w, i));
                v.push(Delete(*w, i));
            }
        }
        if s.g.times < self.max_times {
            v.extend(self.times.iter().map(|t| Time(*t)));
        }
        v.extend(self.extra.iter());
        v
    }
    fn step(&self, s: &mut State<G>, op: &Op, cx: &mut Cx) {
        if let Time(t) = op {
            s.w.advance(*t);
            s.g.times += 1;
            return;
        }
        let before = s.w.acc(MS).unwrap().clone();
        let w0 = s.w.clone();
        let g0 = s.g.clone();
        let mut g = s.g.clone();
        let mut want = self.apply(&s.w, &mut g, op, false);
        // ------------------------------------------------------------------------------- the call
        let (who, method, args) = match op {
            Add(w, t) => (*w, "add_request", json!({"request": self.tpls[*t].json()})),
            AddConfirm(w, t) => (*w, "add_request_and_confirm", json!({"request": self.tpls[*t].json()})),
            Confirm(w, i) => (*w, "confirm", json!({ "request_id": i })),
            Delete(w, i) => (*w, "delete_request", json!({ "request_id": i })),
            Outside(a, m, i) => {
                let args = if *m < 2 { json!({"request": self.tpls[*i as usize % self.tpls.len()].json()}) } else { json!({ "request_id": i }) };
                (Acct(a), METHODS[*m], args)
            }
            New(w) => (*w, "new", if self.two { json!({"members": [{"account_id": "alice.ms"}], "num_confirmations": 1}) } else { json!({"num_confirmations": 1}) }),
            Misuse(..) => (Key(0), "", json!({})),
            Time(_) => unreachable!(),
        };
        let args = args.to_string();
        let rid = match (op, who) {
            (Misuse(k, n), _) => {
                // signed by the member key k, for anything but a call of a request method
                let call = |m: &str| vec![Action::Call { method: m.into(), args: bytes(b"{}"), gas: TGAS * 50, deposit: 0 }];
                let (to, acts) = match n {
                    0 => ("bob", vec![Action::Transfer(1)]),
                    1 => (MS, vec![Action::DeleteKey(pk(0))]),
                    2 => (MS, vec![Action::AddKey { pk: pk(77), perm: KeyPerm::Full }]),
                    3 => ("rec", call("vote")),
                    4 => (MS, vec![Action::Deploy(bytes(b"x"))]),
                    _ => (MS, call("new")),
                };
                s.w.tx_key(MS, &pk(*k), to, acts)
            }
            (_, Key(n)) => s.w.call_key(MS, &pk(n), MS, method, &args, 0, MAX_GAS),
            // by an account in a transaction signed by another one (with a member's key pair, if the account
            // is not a member)
            (_, Acct(a)) => {
                let key = if s.g.members.contains(&who) { default_pk() } else { pk(0) };
                s.w.relayed(a, &key, MS, method, &args, 0, MAX_GAS)
            }
        };
        if rid.is_ok() {
            s.w.drain();
        }
        let (out, ok) = match &rid {
            Ok(r) => (s.w.outcome(*r), s.w.first_ok(*r)),
            Err(e) => (Out::Err(e.clone()), false),
        };
        let after = s.w.acc(MS).unwrap().clone();
        if matches!(&want, Err(e) if e == "open") && ok {
            // deleting someone who is no member may be refused or done without effect
            g = g0.clone();
            want = self.apply(&w0, &mut g, op, true);
        }
        cx.seen(format!("{} {}", if method.is_empty() { "misuse" } else { method }, if ok { "accepted" } else { "rejected" }));
        let why = want.as_ref().err().cloned().unwrap_or_default();
        if !why.is_empty() {
            cx.seen(format!("expected rejection: {}", why));
        }
        if let Misuse(k, n) = op {
            // for a key with a full-access permission the property says nothing; member keys are restricted
            if before.keys.get(&pk(*k)).is_some() && self.two {
                cx.ensure("N06", "misuse", rid.is_err(), || format!("the member key {} could sign transaction kind {}", k, n));
            }
        }
        for p in self.blame(op, &g0, &why, want.is_ok()) {
            let (exp, got) = (want.is_ok(), ok);
            cx.ensure(p, "accepted", exp == got, || {
                format!("{:?}: expected {}, got {}; state {:?}", op, if exp { "success".into() } else { format!("rejection ({})", why) }, out.short(), g0)
            });
        }
        if ok != want.is_ok() {
            // keep following the reference only if nothing happened; the mismatch is reported for its property
            if ok {
                s.g = g0;
            }
            return;
        }
        if !ok {
            for p in [self.p(4), self.p(1), self.p(2)] {
                cx.ensure(p, "no effect", before.storage == after.storage && before.keys == after.keys && before.amount == after.amount && before.code == after.code, || {
                    format!("{:?} was rejected but changed the multisig", op)
                });
            }
            return;
        }
        // ------------------------------------------------------------------------------ its effect
        let rid = rid.unwrap();
        let ev = s.w.event(rid).unwrap().clone();
        let mut receipts: Vec<Event> = ev.children.iter().filter_map(|c| s.w.event(*c).cloned()).collect();
        receipts.retain(|e| !(e.actions.actions.is_empty()));
        match want.unwrap() {
            Eff::None => {
                cx.ensure(self.p(1), "premature", receipts.is_empty(), || format!("{:?} must not execute anything but sent {:?}", op, receipts.iter().map(|e| &e.actions.actions).collect::<Vec<_>>()));
                if let Add(..) | AddConfirm(..) = op {
                    cx.ensure(self.p(2), "new id", out == Out::Ok(json!(g0.nonce)), || format!("{:?}: expected the new request id {}, got {}", op, g0.nonce, out.short()));
                }
                cx.ensure(self.p(4), "keys", before.keys == after.keys, || format!("{:?} changed the access keys", op));
            }
            Eff::Executed(t) => {
                cx.seen("executed");
                let Req(recv, acts) = &self.tpls[t];
                let was = &g0.members;
                // a member change without a key, or of an existing member, needs no action on the account
                let exp: Vec<&Act> = acts
                    .iter()
                    .filter(|a| !matches!(a, SetNum(_) | SetLimit(_) | AddMember(Acct(_)) | DelMember(Acct(_))) && !matches!(a, AddMember(m) if was.contains(m)))
                    .collect();
                let got: Vec<&Action> = receipts.iter().flat_map(|e| e.actions.actions.iter()).collect();
                // adding an existing member again may be sent (and then fails) or not
                let re_add = |a: &Action| matches!(a, Action::AddKey { pk: p, .. } if acts.iter().any(|x| matches!(x, AddMember(m @ Key(k)) if was.contains(m) && pk(*k) == *p)));
                let got: Vec<&Action> = got.into_iter().filter(|a| !re_add(a)).collect();
                let same = exp.len() == got.len() && exp.iter().zip(got.iter()).all(|(a, b)| self.expect_action(a, b, was));
                let to = receipts.len() <= 1 && receipts.iter().all(|e| &*e.receiver == *recv && &*e.predecessor == MS);
                let mut ps = vec![self.p(1)];
                if *recv == MS {
                    ps.push(self.p(4));
                    ps.push(self.p(3));
                    if self.two {
                        ps.push("N06");
                    }
                }
                for p in ps {
                    cx.ensure(p, "executed", same && to, || format!("{:?} executes request {} {:?} but sent {:?}", op, recv, acts, receipts.iter().map(|e| (e.receiver.to_string(), &e.actions.actions)).collect::<Vec<_>>()));
                }
                if *recv != MS {
                    cx.ensure(self.p(4), "keys", before.keys == after.keys, || format!("{:?} changed the access keys", op));
                }
                // a failed batch on the account itself does not change keys; members follow the contract state
                let worked = receipts.iter().all(|e| e.ok());
                if !worked {
                    for a in acts {
                        if let AddMember(Key(k)) | DelMember(Key(k)) = a {
                            g.taint.insert(*k);
                        }
                    }
                    cx.seen("executed, receipt failed");
                }
                // calls of the multisig to itself
                for a in acts.iter().filter(|_| *recv == MS && worked) {
                    if let Call(m, args, _, _) = a {
                        let signer = if let Key(k) = who { Key(k) } else { Key(0) };
                        let i = serde_json::from_str::<Value>(args).ok().and_then(|v| v["request_id"].as_u64()).unwrap_or(99) as u32;
                        let op = if *m == "confirm" { Confirm(signer, i) } else { Delete(signer, i) };
                        let mut g2 = g.clone();
                        let r = self.apply(&w0, &mut g2, &op, true);
                        cx.ensure(self.p(1), "self call", r.is_ok(), || format!("{:?} succeeded by a call of the multisig to itself, but must fail: {:?}", op, r.as_ref().err()));
                        if r.is_ok() {
                            g = g2;
                        }
                    }
                }
            }
        }
        s.g = g;
    }
    fn check(&self, s: &State<G>, cx: &mut Cx) {
        let w = &s.w;
        let g = &s.g;
        let v = |m: &str, a: Value| w.view(MS, m, &a.to_string());
        let mut ids: Vec<u64> = v("list_request_ids", json!({})).ok().and_then(|x| x.as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect())).unwrap_or(vec![9999]);
        ids.sort();
        let want: Vec<u64> = g.req.keys().map(|x| *x as u64).collect();
        let mut ps = vec![self.p(2)];
        if self.removal {
            ps.push(self.p(3));
        }
        for p in ps {
            cx.ensure(p, "listed", ids == want, || format!("requests listed {:?}, expected {:?}", ids, want));
        }
        let k = v("get_num_confirmations", json!({}));
        cx.ensure(self.p(4), "threshold", k == Ok(json!(g.k)), || format!("confirmations required {:?}, expected {}", k, g.k));
        let n = v("get_request_nonce", json!({}));
        cx.ensure(self.p(2), "nonce", n == Ok(json!(g.nonce)), || format!("request nonce {:?}, expected {}", n, g.nonce));
        for (i, r) in &g.req {
            let got = v("get_request", json!({ "request_id": i }));
            let mut want = self.tpls[r.tpl].json();
            if self.two {
                // an absent permission may be listed as null
                norm(&mut want);
            }
            let got2 = got.clone().map(|mut x| {
                norm(&mut x);
                x
            });
            norm(&mut want);
            cx.ensure(self.p(2), "content", got2 == Ok(want.clone()), || format!("request {} is listed as {:?}, expected {}", i, got, want));
            let c: Option<BTreeSet<String>> = v("get_confirmations", json!({ "request_id": i })).ok().and_then(|x| {
                x.as_array().map(|a| a.iter().map(|x| if self.two { serde_json::from_str::<Value>(x.as_str().unwrap_or("")).unwrap_or_default().to_string() } else { x.to_string() }).collect())
            });
            let e: BTreeSet<String> = r.conf.iter().map(|w| if self.two { w.json().to_string() } else { w.json()["public_key"].to_string() }).collect();
            for p in [self.p(1), self.p(3)] {
                if p == self.p(1) || self.removal {
                    cx.ensure(p, "confirmations", c.as_ref() == Some(&e), || format!("confirmations of request {}: {:?}, expected {:?}", i, c, e));
                }
            }
        }
        for i in (0..=g.nonce).filter(|i| !g.req.contains_key(i)) {
            cx.ensure(self.p(2), "gone", v("get_request", json!({ "request_id": i })).is_err(), || format!("request {} should not exist", i));
        }
        for who in &self.who {
            let n = match (self.two, who) {
                (true, w) => v("get_num_requests_per_member", json!({"member": w.json()})),
                (false, Key(k)) => v("get_num_requests_pk", json!({"public_key": pk_str(*k)})),
                _ => continue,
            };
            cx.ensure(self.p(2), "count", n == Ok(json!(g.count(who))), || format!("{:?} has {} active requests, reported {:?}", who, g.count(who), n));
        }
        if self.two {
            let m: Option<BTreeSet<String>> = v("get_members", json!({})).ok().and_then(|x| x.as_array().map(|a| a.iter().map(|x| x.to_string()).collect()));
            let len = v("get_members", json!({})).ok().and_then(|x| x.as_array().map(|a| a.len()));
            let e: BTreeSet<String> = g.members.iter().map(|w| w.json().to_string()).collect();
            for p in ["N03", "N04"] {
                cx.ensure(p, "members", m.as_ref() == Some(&e) && len == Some(e.len()), || format!("members {:?}, expected {:?}", m, e));
            }
            cx.ensure("N05", "enough", len.unwrap_or(0) as u64 >= k.clone().ok().and_then(|x| x.as_u64()).unwrap_or(999), || format!("{:?} members, {:?} confirmations required", len, k));
            key_members(w, MS, &g.members, &g.taint, cx);
        }
    }
}
/// every key member's access key can call exactly the multisig's request methods
pub fn key_members(w: &World, ms: &str, members: &BTreeSet<Who>, taint: &BTreeSet<u8>, cx: &mut Cx) {
    for m in members {
        if let Key(n) = m {
            if taint.contains(n) {
                continue;
            }
            let ok = match w.acc(ms).unwrap().keys.get(&pk(*n)) {
                Some(KeyPerm::Call { receiver, methods, allowance }) => receiver == ms && *allowance == 0 && METHODS.iter().all(|x| methods.iter().any(|m| m == x)),
                _ => false,
            };
            cx.ensure("N06", "access key", ok, || format!("member key {} has access key {:?}", n, w.acc(ms).unwrap().keys.get(&pk(*n))));
        }
    }
    for (k, _) in w.acc(ms).unwrap().keys.iter() {
        let known = members.iter().any(|m| matches!(m, Key(n) if pk(*n) == *k)) || (60..90).any(|n| pk(n) == *k) || taint.iter().any(|n| pk(*n) == *k) || *k == pk(0);
        cx.ensure("N06", "no other keys", known, || format!("access key {} belongs to no member", hex::encode(k)));
    }
}
fn norm(v: &mut Value) {
    if let Some(a) = v["actions"].as_array_mut() {
        for x in a {
            if let Some(o) = x.as_object_mut() {
                if o.get("permission").map_or(false, |p| p.is_null()) {
                    o.remove("permission");
                }
            }
        }
    }
}

pub fn base(c: &Ctx, two: bool) -> World {
    let code = if two { "multisig2" } else { "multisig" };
    let env = c.env(&[code], &[("recorder", recorder)], true, 0);
    let mut w = World::new(env);
    w.contract(MS, code, 1000 * NEAR);
    w.contract("rec", "recorder", 100 * NEAR);
    for u in ["alice", "bob", "carol", "alice.ms"] {
        w.user(u, 100 * NEAR);
    }
    if two && ["N01", "N02", "N03"].contains(&c.prop.as_str()) {
        [LONG1, LONG2, LONG3].iter().for_each(|u| w.user(u, 100 * NEAR));
    }
    w.signers = std::sync::Arc::new(vec![("alice", "alice.ms"), ("bob", "alice.ms"), ("carol", "alice"), ("alice.ms", "alice")]);
    w
}
fn start(c: &Ctx, two: bool, k: u32, who: &[Who]) -> State<G> {
    let mut w = base(c, two);
    let mut members = BTreeSet::new();
    if two {
        members = who.iter().cloned().collect();
        let m: Vec<Value> = who.iter().map(|x| x.json()).collect();
        w.must("alice.ms", MS, "new", &json!({"members": m, "num_confirmations": k}).to_string(), 0);
    } else {
        w.must("alice.ms", MS, "new", &json!({ "num_confirmations": k }).to_string(), 0);
        w.edit(MS, |a| {
            let mut m = BTreeMap::new();
            for x in who {
                if let Key(n) = x {
                    m.insert(pk(*n), KeyPerm::Call { receiver: MS.into(), methods: vec![], allowance: 0 });
                }
            }
            a.keys = std::sync::Arc::new(m);
        });
    }
    w.clear_events();
    State { w, g: G { k, limit: 12, nonce: 0, req: BTreeMap::new(), members, times: 0, taint: BTreeSet::new() } }
}

impl Ms {
    fn prelude(&self, s: &State<G>, ops: &[Op]) -> State<G> {
        let mut s = s.clone();
        for o in ops {
            let mut cx = Cx::default();
            self.step(&mut s, o, &mut cx);
        }
        s.w.clear_events();
        s.g.times = 0;
        s
    }
}

fn rec_call(dep: u128) -> Act {
    Call("vote", json!({"x": 1}).to_string(), dep, 20 * TGAS)
}

fn v1(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    build(c, false)
}
fn v2(c: &Ctx) -> Vec<Box<dyn Scenario>> {
    build(c, true)
}
fn build(c: &Ctx, two: bool) -> Vec<Box<dyn Scenario>> {
    let who: Vec<Who> = if two { vec![Key(1), Acct("alice"), Key(2), Acct("bob")] } else { vec![Key(1), Key(2), Key(3)] };
    // the members that act in the scenarios, and one that is no member
    let stranger = if two { Acct("alice.ms") } else { Key(4) };
    let rm = |w: Who| if two { DelMember(w) } else if let Key(n) = w { DelKey(n) } else { unreachable!() };
    let ad = |w: Who| if two { AddMember(w) } else if let Key(n) = w { AddKey(n, 1) } else { unreachable!() };
    let p: u8 = c.prop[1..].parse().unwrap();
    let mk = |name: &str, k: u32, members: &[Who], who: Vec<Who>, tpls: Vec<Req>, max_nonce: u32| {
        let m = Ms {
            name: name.into(),
            two,
            inits: vec![start(c, two, k, members)],
            tpls,
            who,
            adds: (true, true),
            max_nonce,
            extra: vec![],
            times: vec![],
            max_times: 0,
            removal: true,
        };
        m
    };
    let mut out: Vec<Box<dyn Scenario>> = vec![];
    let (a, b, d) = (who[0], who[1], who[2]);
    let members3 = [a, b, d];
    let ws = |x: &[Who]| x.to_vec();
    // 1. confirmation orders
    if [1, 2].contains(&p) {
        for k in [2, 3] {
            let mut m = mk(&format!("confirming, {} of 3", k), k, &members3, ws(&[a, b, d, stranger]), vec![Req("bob", vec![Transfer(7)]), Req("rec", vec![rec_call(3)])], 2);
            m.removal = false;
            out.push(sc(m, c.pick(5, 7)));
        }
        // many members
        let mem: Vec<Who> = (1..=12).map(|n| if two && n % 4 == 0 { Acct(["carol", "alice", "bob"][n as usize / 4 - 1]) } else { Key(n) }).collect();
        for k in [9, 12] {
            let last = k as usize - 2;
            let mut m = mk(&format!("confirming, {} of 12", k), k, &mem, vec![mem[0], mem[last], mem[last + 1], mem[last + 2 - k as usize / 12], stranger], vec![Req("bob", vec![Transfer(7)]), Req(MS, vec![rm(mem[3])])], 3);
            let pres: Vec<Vec<Op>> = [0, 1].iter().map(|t| {
                let mut v = vec![AddConfirm(mem[0], *t)];
                v.extend((1..last).map(|i| Confirm(mem[i], 0)));
                v
            }).collect();
            let i0 = m.inits[0].clone();
            m.inits = pres.iter().map(|x| m.prelude(&i0, x)).collect();
            out.push(sc(m, c.pick(3, 5)));
        }
        // members that are hard to tell apart
        let mem: Vec<Vec<Who>> = if two {
            vec![vec![Acct(LONG1), Acct(LONG2), Acct(LONG3)], vec![Key(230), Key(231), Acct(LONG1)], vec![Key(240), Key(241), Acct("alice")]]
        } else {
            vec![vec![Key(230), Key(231), Key(232)], vec![Key(240), Key(241), Key(230)]]
        };
        for (i, mem) in mem.iter().enumerate() {
            let mut m = mk(&format!("similar members, {}", i + 1), 3, mem, ws(mem), vec![Req("bob", vec![Transfer(7)]), Req(MS, vec![rm(mem[1])])], 2);
            m.adds = (p == 2, true);
            m.times = vec![COOLDOWN + 1];
            m.max_times = 1;
            out.push(sc(m, c.pick(4, 6)));
        }
        // time and deletion, small limits
        let lim = Req(MS, vec![SetLimit(2)]);
        let mut m = mk("cooldown and limit", 2, &members3, ws(&[a, b]), vec![Req("bob", vec![Transfer(7)]), lim, Req(MS, vec![SetLimit(1)])], 6);
        m.times = vec![COOLDOWN - 1, COOLDOWN, COOLDOWN + 1, 1];
        m.max_times = 2;
        let pre = m.prelude(&m.inits[0], &[AddConfirm(a, 1), Confirm(b, 0)]);
        let pre2 = m.prelude(&m.inits[0], &[AddConfirm(a, 1), Confirm(b, 0), Add(a, 0), Add(a, 0), Add(b, 0), Time(COOLDOWN)]);
        m.inits = vec![pre, pre2];
        m.removal = false;
        out.push(sc(m, c.pick(4, 6)));
        // the default limit
        let mut m = mk("default limit", 2, &members3, ws(&[a, b]), vec![Req("bob", vec![Transfer(7)])], 26);
        let adds: Vec<Op> = (0..11).map(|_| Add(a, 0)).collect();
        let mut adds2 = adds.clone();
        adds2.extend((0..12).map(|_| Add(b, 0)));
        m.inits = vec![m.prelude(&m.inits[0], &adds), m.prelude(&m.inits[0], &adds2)];
        m.times = vec![COOLDOWN + 1];
        m.max_times = 1;
        m.removal = false;
        out.push(sc(m, 2));
    }
    // 2. every kind of action
    if [1, 4, 6].contains(&p) {
        let mut tpls = vec![
            Req("bob", vec![Transfer(7)]),
            Req("rec", vec![rec_call(5), Transfer(3)]),
            Req("rec", vec![Transfer(3), rec_call(0), rec_call(2)]),
            Req("sub.ms", vec![Create, Transfer(2 * NEAR), Deploy]),
            Req("sub.ms", vec![Create, Transfer(1)]),
            Req("bob", vec![]),
            Req(MS, vec![AddKey(61, 0)]),
            Req(MS, vec![AddKey(62, 2), AddKey(63, 3), Transfer(1)]),
            Req("bob", vec![AddKey(64, 1)]),
            Req("sub.ms", vec![Create, AddKey(61, 0)]),
            Req(MS, vec![SetNum(1)]),
            Req(MS, vec![SetNum(3)]),
            Req(MS, vec![SetNum(2)]),
            Req(MS, vec![SetNum(0)]),
            Req("bob", vec![SetNum(1)]),
            Req(MS, vec![SetNum(1), Transfer(1)]),
            Req(MS, vec![Transfer(1), SetNum(1)]),
            Req(MS, vec![SetNum(1), SetNum(3)]),
            Req(MS, vec![SetLimit(1)]),
            Req("bob", vec![SetLimit(5)]),
            Req(MS, vec![SetLimit(5), SetNum(1)]),
            Req(MS, vec![Transfer(1), SetLimit(5)]),
            Req(MS, vec![Deploy, Transfer(5000 * NEAR)]),
            Req("bob", vec![Transfer(5000 * NEAR)]),
            Req(MS, vec![Call("confirm", json!({"request_id": 0}).to_string(), 0, 50 * TGAS)]),
            Req(MS, vec![Call("delete_request", json!({"request_id": 0}).to_string(), 0, 50 * TGAS)]),
            Req(MS, vec![rm(d)]),
            Req(MS, vec![ad(stranger)]),
            Req("bob", vec![rm(d)]),
            Req("bob", vec![ad(stranger)]),
            Req(MS, vec![ad(stranger), rm(d), Transfer(1)]),
            Req(MS, vec![Transfer(1), rm(d), rm(b)]),
        ];
        if two {
            tpls.extend([
                Req(MS, vec![AddMember(Key(5))]),
                Req(MS, vec![AddMember(Key(5)), AddMember(Key(6)), DelMember(Key(1))]),
                Req(MS, vec![DelMember(a)]),
                Req(MS, vec![DelMember(b)]),
                Req(MS, vec![AddMember(a)]),
                Req(MS, vec![AddMember(Acct("alice"))]),
                Req("alice", vec![AddMember(Key(5))]),
                Req(MS, vec![DelMember(b), SetNum(2)]),
                Req(MS, vec![SetNum(4)]),
                Req(MS, vec![AddMember(Acct("carol")), AddMember(Key(5)), Transfer(4)]),
            ]);
        } else {
            tpls.extend([Req(MS, vec![DelKey(1)]), Req(MS, vec![DelKey(9)]), Req(MS, vec![DelKey(2), AddKey(2, 1)]), Req(MS, vec![AddKey(1, 1)])]);
        }
        for k in [1, 2] {
            let mut m = mk(&format!("every action kind, {} of 3", k), k, &members3, ws(&[a, b]), tpls.clone(), 2);
            m.adds = (k == 1, true);
            m.extra = vec![New(a), New(Acct("alice.ms")), New(Acct("bob"))];
            for n in 0..4 {
                m.extra.push(Outside("alice.ms", n, 0));
                m.extra.push(Outside("carol", n, 1));
            }
            for n in 0..6 {
                m.extra.push(Misuse(1, n));
            }
            out.push(sc(m, c.pick(3, 4)));
        }
    }
    // 3. removals with pending requests
    if [1, 2, 3, 4, 5, 6].contains(&p) {
        let mut tpls = vec![Req("bob", vec![Transfer(7)]), Req(MS, vec![rm(a)]), Req(MS, vec![rm(d)])];
        if [3, 6].contains(&p) {
            tpls.push(Req(MS, vec![ad(a)]));
        }
        let mem: Vec<Who> = if two { who.clone() } else { vec![Key(1), Key(2), Key(3)] };
        let mut m = mk("removals with pending requests", 2, &mem, ws(&[a, b, d]), tpls.clone(), 4);
        m.adds = (false, true);
        let pres = vec![
            vec![],
            vec![AddConfirm(a, 0), AddConfirm(b, 0)],
            vec![AddConfirm(b, 0), Add(a, 0), AddConfirm(d, 1)],
        ];
        let i0 = m.inits[0].clone();
        m.inits = pres.iter().map(|x| m.prelude(&i0, x)).collect();
        out.push(sc(m, if [3].contains(&p) { c.pick(4, 6) } else { c.pick(3, 5) }));
        // many requests of several members, in mixed order, some confirmed
        if p == 3 || p == 1 {
            let mem: Vec<Who> = if two { who.clone() } else { vec![Key(1), Key(2), Key(3), Key(4)] };
            let e = mem[3];
            let mut m = mk("removals, many requests", 3, &mem, ws(&[b, d]), vec![Req("bob", vec![Transfer(7)]), Req(MS, vec![rm(a)]), Req(MS, vec![rm(b), rm(a)]), Req(MS, vec![rm(d)])], 9);
            m.adds = (false, true);
            let i0 = m.inits[0].clone();
            let pres = vec![
                vec![AddConfirm(a, 0), AddConfirm(a, 0), AddConfirm(b, 0), AddConfirm(a, 0), AddConfirm(d, 0), AddConfirm(a, 0), Confirm(a, 2), AddConfirm(e, 1), Confirm(d, 6)],
                vec![AddConfirm(b, 0), Confirm(a, 0), AddConfirm(a, 0), Confirm(b, 1), AddConfirm(a, 0), AddConfirm(b, 0), AddConfirm(a, 0), Confirm(e, 4), AddConfirm(e, 2), Confirm(d, 5)],
                vec![Add(a, 0), AddConfirm(d, 0), Confirm(a, 1), Add(a, 0), Add(b, 0), Confirm(a, 3), Add(a, 0), AddConfirm(e, 1), Confirm(a, 5)],
            ];
            m.inits = pres.iter().map(|x| m.prelude(&i0, x)).collect();
            out.push(sc(m, c.pick(3, 4)));
            // as many requests as the limit allows
            let mut m = mk("removals, full of requests", 3, &mem, ws(&[b, d]), vec![Req("bob", vec![Transfer(7)]), Req(MS, vec![rm(a)]), Req(MS, vec![rm(b)])], 27);
            m.adds = (false, false);
            let mut full: Vec<Op> = (0..12).map(|_| AddConfirm(a, 0)).collect();
            for i in 0..12 {
                full.extend([AddConfirm(b, 0), Confirm(a, 12 + i)]);
            }
            full.extend([AddConfirm(d, 1), Confirm(e, 24)]);
            let mut mixed: Vec<Op> = vec![];
            for i in 0..12 {
                mixed.extend([AddConfirm(a, 0), Confirm(b, 2 * i), AddConfirm(e, 0), Confirm(a, 2 * i + 1)]);
            }
            mixed.extend([AddConfirm(d, 1), Confirm(e, 24), AddConfirm(d, 2), Confirm(e, 25)]);
            m.inits = [full, mixed].iter().map(|x| m.prelude(&i0, x)).collect();
            out.push(sc(m, c.pick(2, 3)));
        }
        // threshold 3, more confirmations pending
        if p == 3 || p == 1 {
            let mem4: Vec<Who> = if two { who.clone() } else { vec![Key(1), Key(2), Key(3), Key(4)] };
            let acting = ws(&mem4);
            let mut m = mk("removals, threshold 3 of 4", 3, &mem4, acting, vec![Req("bob", vec![Transfer(7)]), Req(MS, vec![rm(mem4[1])])], 3);
            m.adds = (false, true);
            let i0 = m.inits[0].clone();
            let pres = vec![vec![AddConfirm(mem4[1], 0), Confirm(mem4[0], 0), AddConfirm(mem4[0], 1)], vec![AddConfirm(mem4[0], 0), Confirm(mem4[1], 0), AddConfirm(mem4[1], 1)]];
            m.inits = pres.iter().map(|x| m.prelude(&i0, x)).collect();
            out.push(sc(m, c.pick(4, 6)));
        }
    }
    // 4. thresholds and members
    if [4, 5, 6].contains(&p) {
        let mut tpls = vec![Req(MS, vec![SetNum(1)]), Req(MS, vec![SetNum(2)]), Req(MS, vec![SetNum(3)]), Req(MS, vec![rm(a)]), Req(MS, vec![rm(d)]), Req(MS, vec![ad(d)]), Req(MS, vec![rm(b)]), Req(MS, vec![rm(d), rm(b)]), Req(MS, vec![rm(b), rm(d)])];
        if two {
            tpls.extend([Req(MS, vec![SetNum(4)]), Req(MS, vec![AddMember(a), AddMember(Key(8))]), Req(MS, vec![SetNum(4_294_967_295)])]);
        }
        let mut m = mk("members and thresholds", 1, &members3, ws(&[a, b]), tpls, 5);
        m.adds = (false, true);
        out.push(sc(m, c.pick(4, 5)));
    }
    // 5. initialisation
    if two && [4, 5, 6].contains(&p) {
        out.push(v2_init(c));
    }
    out
}

fn v2_init(c: &Ctx) -> Box<dyn Scenario> {
    let pool = [Key(1), Acct("alice"), Key(2), Acct("bob")];
    let mut lists: Vec<Vec<Who>> = vec![vec![]];
    let mut layer = lists.clone();
    for _ in 0..3 {
        layer = layer.iter().flat_map(|l| pool.iter().map(move |w| { let mut l = l.clone(); l.push(*w); l })).collect();
        lists.extend(layer.clone());
    }
    let mut cases = vec![];
    for l in lists {
        for k in 0..=4u32 {
            cases.push((l.clone(), k));
        }
    }
    let w = base(c, true);
    sc(
        Cases {
            name: "initialisation".into(),
            start: w,
            cases,
            run: |w: &mut World, (l, k): &(Vec<Who>, u32), cx: &mut Cx| {
                let set: BTreeSet<Who> = l.iter().cloned().collect();
                let m: Vec<Value> = l.iter().map(|x| x.json()).collect();
                let out = w.call("alice.ms", MS, "new", &json!({"members": m, "num_confirmations": k}).to_string(), 0);
                cx.seen(if out.ok() { "initialised" } else { "rejected" });
                let dup = set.len() < l.len();
                // with duplicates the call may be rejected or treat them as one member
                if set.len() < *k as usize {
                    cx.ensure("N05", "init", out.is_err(), || format!("initialised with members {:?} and threshold {}", l, k));
                } else if !dup {
                    for p in ["N04", "N05"] {
                        cx.ensure(p, "init accepted", out.ok(), || format!("members {:?}, threshold {}: {}", l, k, out.short()));
                    }
                }
                if out.is_err() {
                    cx.ensure("N05", "init effect", w.acc(MS).unwrap().storage.is_empty() && w.acc(MS).unwrap().keys.is_empty(), || "a failed initialisation left something behind".into());
                    return;
                }
                let got: Option<BTreeSet<String>> = w.view(MS, "get_members", "{}").ok().and_then(|x| x.as_array().map(|a| a.iter().map(|x| x.to_string()).collect()));
                let exp: BTreeSet<String> = set.iter().map(|w| w.json().to_string()).collect();
                cx.ensure("N04", "init members", got.as_ref() == Some(&exp), || format!("members {:?}, expected {:?}", got, exp));
                key_members(w, MS, &set, &BTreeSet::new(), cx);
                let before = w.acc(MS).unwrap().storage.clone();
                for x in ["alice.ms", "alice"] {
                    let o = w.call(x, MS, "new", &json!({"members": [{"account_id": "alice.ms"}], "num_confirmations": 1}).to_string(), 0);
                    cx.ensure("N04", "again", o.is_err() && w.acc(MS).unwrap().storage == before, || format!("second initialisation: {}", o.short()));
                }
                // every key member can use every request method
                for m in &set {
                    if let Key(n) = m {
                        let req = Req("rec", vec![]).json();
                        for (i, meth) in METHODS.iter().enumerate() {
                            let args = if i < 2 { json!({"request": req}) } else { json!({"request_id": 0}) };
                            let mut w2 = w.clone();
                            let r = w2.call_key(MS, &pk(*n), MS, meth, &args.to_string(), 0, 100 * TGAS);
                            cx.ensure("N06", "usable", r.is_ok(), || format!("key member {} cannot call {}: {:?}", n, meth, r));
                        }
                        for bad in ["new", "get_members"] {
                            let mut w2 = w.clone();
                            let r = w2.call_key(MS, &pk(*n), MS, bad, "{}", 0, 100 * TGAS);
                            cx.ensure("N06", "restricted", r.is_err(), || format!("key member {} may call {}", n, bad));
                        }
                    }
                }
            },
        },
        1,
    )
}
