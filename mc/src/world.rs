//! A deterministic NEAR runtime: accounts, receipts (FIFO per sender->receiver pair), callbacks,
//! refunds, access keys, staking with the protocol's three-epoch unlock delay.
//! Gas price is zero (token arithmetic is exact); prepaid gas limits are enforced.
use crate::record;
use crate::vm::{self, Action, Bytes, Code, Input, KeyPerm, NewReceipt, Output, PromiseResult, Ret, Storage};
use serde_json::Value;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::hash::{Hash, Hasher};
use std::sync::Arc;

pub type Id = Arc<str>;
pub const NEAR: u128 = 1_000_000_000_000_000_000_000_000;
pub const TGAS: u64 = 1_000_000_000_000;
pub const MAX_GAS: u64 = 300 * TGAS;
pub const EPOCH_NS: u64 = 43_200_000_000_000;
pub const EPOCH_BLOCKS: u64 = 43_200;
pub const BYTE_COST: u128 = 10_000_000_000_000_000_000;

pub type NativeFn = fn(&str, &Input, &Storage) -> Output;

pub enum CodeKind {
    Wasm(Code),
    Native(&'static str, NativeFn),
}

/// The static part of a world: available code and protocol parameters.
pub struct Env {
    pub codes: Vec<CodeKind>,
    pub storage_check: bool,
    pub min_stake: u128,
}
impl Env {
    pub fn code(&self, name: &str) -> u16 {
        self.codes
            .iter()
            .position(|c| match c {
                CodeKind::Wasm(c) => c.name == name,
                CodeKind::Native(n, _) => *n == name,
            })
            .unwrap_or_else(|| panic!("no code {}", name)) as u16
    }
    fn find(&self, b: &[u8]) -> Option<u16> {
        self.codes.iter().position(|c| matches!(c, CodeKind::Wasm(c) if c.bytes.len()==b.len() && c.bytes[..]==*b)).map(|x| x as u16)
    }
}

#[derive(Clone, PartialEq, Eq)]
#[derive(Debug)]
pub enum CodeRef {
    Known(u16),
    Opaque(Bytes),
}

#[derive(Clone)]
pub struct Account {
    pub amount: u128,
    pub locked: u128,
    pub code: Option<CodeRef>,
    pub code_len: u64,
    pub storage: Arc<Storage>,
    pub keys: Arc<BTreeMap<Bytes, KeyPerm>>,
    /// stake targets as of the end of the current and the two previous epochs
    pub stakes: [u128; 3],
    pub stake_pk: Bytes,
    pub hash: u64,
    pub hash2: u64,
}
/// The size of an access key's record.
fn key_len(p: &KeyPerm) -> u64 {
    match p {
        KeyPerm::Full => 9,
        KeyPerm::Call { receiver, methods, allowance } => {
            9 + 1
                + if *allowance > 0 { 16 } else { 0 }
                + 4
                + receiver.len() as u64
                + 4
                + methods.iter().map(|m| 4 + m.len() as u64).sum::<u64>()
        }
    }
}
impl Account {
    pub fn new(amount: u128) -> Account {
        Account {
            amount,
            locked: 0,
            code: None,
            code_len: 0,
            storage: Default::default(),
            keys: Default::default(),
            stakes: [0; 3],
            stake_pk: Arc::from(&[][..]),
            hash: 0,
            hash2: 0,
        }
    }
    pub fn base_usage(&self) -> u64 {
        100 + self.code_len + self.keys.iter().map(|(k, p)| 40 + k.len() as u64 + key_len(p)).sum::<u64>()
    }
    pub fn usage(&self) -> u64 {
        self.base_usage() + vm::storage_usage(&self.storage)
    }
    fn compute_hash(&self, salt: u64) -> u64 {
        let mut h = DefaultHasher::new();
        salt.hash(&mut h);
        self.amount.hash(&mut h);
        self.locked.hash(&mut h);
        match &self.code {
            None => 0u8.hash(&mut h),
            Some(CodeRef::Known(i)) => (1u8, i).hash(&mut h),
            Some(CodeRef::Opaque(b)) => (2u8, b.len()).hash(&mut h),
        }
        self.storage.hash(&mut h);
        self.keys.hash(&mut h);
        self.stakes.hash(&mut h);
        self.stake_pk.hash(&mut h);
        h.finish()
    }
    fn rehash(&mut self) {
        self.hash = self.compute_hash(1);
        self.hash2 = self.compute_hash(2);
    }
}

#[derive(Clone, Debug)]
pub struct Receipt {
    pub seq: u64,
    pub predecessor: Id,
    pub receiver: Id,
    pub body: Body,
}
#[derive(Clone, Debug)]
pub enum Body {
    Act(Arc<ActReceipt>),
    Data(u64, Option<Bytes>),
}
#[derive(Clone, Debug)]
pub struct ActReceipt {
    pub id: u64,
    pub signer: Id,
    pub signer_pk: Bytes,
    pub predecessor: Id,
    pub receiver: Id,
    pub actions: Vec<Action>,
    pub input: Vec<u64>,
    pub outputs: Vec<(u64, Id)>,
    /// promise results of a call made as another account's callback (see `submit_after`)
    pub given: Vec<PromiseResult>,
}

#[derive(Clone, Debug)]
pub struct Event {
    pub id: u64,
    pub predecessor: Id,
    pub receiver: Id,
    pub actions: Arc<ActReceipt>,
    pub result: Result<Res, String>,
    pub children: Vec<u64>,
    pub gas_used: u64,
    pub gas_burnt: u64,
    pub logs: Vec<String>,
}
#[derive(Clone, Debug)]
pub enum Res {
    None,
    Value(Bytes),
    Receipt(u64),
}
impl Event {
    pub fn method(&self) -> &str {
        for a in &self.actions.actions {
            if let Action::Call { method, .. } = a {
                return method;
            }
        }
        ""
    }
    pub fn ok(&self) -> bool {
        self.result.is_ok()
    }
}

pub type Chan = (Id, Id);

#[derive(Clone)]
pub struct World {
    pub env: Arc<Env>,
    pub accounts: BTreeMap<Id, Arc<Account>>,
    pub queue: BTreeMap<Chan, VecDeque<Receipt>>,
    pub postponed: BTreeMap<u64, Arc<ActReceipt>>,
    pub data: BTreeMap<u64, Option<Bytes>>,
    pub validators: Arc<BTreeMap<String, u128>>,
    pub block: u64,
    pub ts: u64,
    pub epoch: u64,
    pub next: u64,
    pub burnt: u128,
    /// the network's minimum for staking proposals
    pub min_stake: u128,
    /// Who signs the transactions behind the calls an account makes (by `submit`): like calls through a
    /// wallet contract, the signer is not the caller. Unlisted accounts: "someone". Static.
    pub signers: Arc<Vec<(&'static str, &'static str)>>,
    /// trace since the last clear_events(); not part of the state
    pub events: Vec<Event>,
}

pub fn id(s: &str) -> Id {
    Arc::from(s)
}
pub fn bytes(b: &[u8]) -> Bytes {
    Arc::from(b)
}
pub fn default_pk() -> Bytes {
    bytes(&[0u8; 33])
}
/// "ed25519:<base58>" -> internal bytes (0 prefix + 32 bytes)
/// A well-formed public key that the network refuses as a staking key.
pub const UNSUITABLE: u8 = 255;
/// Public keys: points of the right order, as those of real key pairs (except UNSUITABLE).
pub fn pk(n: u8) -> Bytes {
    if n == UNSUITABLE {
        let mut v = vec![1u8; 33];
        v[0] = 0;
        return v.into();
    }
    // keys that differ in one byte only, of either curve
    if (230..250).contains(&n) {
        let mut v = vec![7u8; if n < 240 { 33 } else { 65 }];
        v[0] = (n >= 240) as u8;
        *v.last_mut().unwrap() = n % 10;
        return v.into();
    }
    use curve25519_dalek::{constants::ED25519_BASEPOINT_POINT, scalar::Scalar};
    thread_local!(static KEYS: std::cell::RefCell<BTreeMap<u8, Bytes>> = Default::default());
    KEYS.with(|k| {
        k.borrow_mut()
            .entry(n)
            .or_insert_with(|| {
                let mut v = vec![0u8];
                v.extend((ED25519_BASEPOINT_POINT * Scalar::from(n as u64 + 1)).compress().to_bytes());
                v.into()
            })
            .clone()
    })
}
/// Whether the network takes the key as a staking key.
pub fn suitable(pk: &Bytes) -> bool {
    use curve25519_dalek::edwards::CompressedEdwardsY;
    thread_local!(static SEEN: std::cell::RefCell<BTreeMap<Bytes, bool>> = Default::default());
    SEEN.with(|k| {
        *k.borrow_mut().entry(pk.clone()).or_insert_with(|| {
            pk.len() == 33
                && pk[0] == 0
                && CompressedEdwardsY::from_slice(&pk[1..]).decompress().map_or(false, |p| p.is_torsion_free())
        })
    })
}
pub fn pk_str(n: u8) -> String {
    let k = pk(n);
    format!("{}:{}", if k[0] == 0 { "ed25519" } else { "secp256k1" }, bs58::encode(&k[1..]).into_string())
}
pub fn pk_bs58(n: u8) -> String {
    bs58::encode(&pk(n)[1..]).into_string()
}

/// How a function call went, following returned promises.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Value),
    Err(String),
    Pending,
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok(_))
    }
    pub fn is_err(&self) -> bool {
        matches!(self, Out::Err(_))
    }
    pub fn val(&self) -> Option<&Value> {
        match self {
            Out::Ok(v) => Some(v),
            _ => None,
        }
    }
    pub fn short(&self) -> String {
        match self {
            Out::Ok(v) => {
                let s = v.to_string();
                format!("ok {}", if s.len() > 120 { &s[..120] } else { &s })
            }
            Out::Err(e) => {
                let e: String = e.chars().take(160).collect();
                format!("failed ({})", e)
            }
            Out::Pending => "pending".into(),
        }
    }
}
/// promise results to call other contracts' callbacks with: none, a failure, no value, true, an amount
pub const GIVEN: usize = 5;
pub fn given(k: usize) -> Vec<PromiseResult> {
    match k {
        0 => vec![],
        1 => vec![PromiseResult::Failed],
        2 => vec![PromiseResult::Ok(bytes(b""))],
        3 => vec![PromiseResult::Ok(bytes(b"true"))],
        _ => vec![PromiseResult::Ok(bytes(b"\"1000000000000000000000000\""))],
    }
}
pub fn parse(b: &[u8]) -> Value {
    if b.is_empty() {
        return Value::Null;
    }
    serde_json::from_slice(b).unwrap_or_else(|_| Value::String(format!("raw:{}", hex::encode(b))))
}

impl World {
    pub fn new(env: Arc<Env>) -> World {
        World {
            min_stake: env.min_stake,
            signers: Default::default(),
            env,
            accounts: BTreeMap::new(),
            queue: BTreeMap::new(),
            postponed: BTreeMap::new(),
            data: BTreeMap::new(),
            validators: Default::default(),
            block: 1000,
            ts: 1_600_000_000_000_000_000,
            epoch: 100,
            next: 1,
            burnt: 0,
            events: vec![],
        }
    }
    pub fn put(&mut self, name: &str, mut a: Account) {
        a.rehash();
        self.accounts.insert(id(name), Arc::new(a));
    }
    pub fn user(&mut self, name: &str, amount: u128) {
        let mut a = Account::new(amount);
        a.keys = Arc::new([(default_pk(), KeyPerm::Full)].into_iter().collect());
        self.put(name, a);
    }
    pub fn contract(&mut self, name: &str, code: &str, amount: u128) {
        let mut a = Account::new(amount);
        let c = self.env.code(code);
        a.code = Some(CodeRef::Known(c));
        if let CodeKind::Wasm(w) = &self.env.codes[c as usize] {
            a.code_len = w.bytes.len() as u64;
        }
        self.put(name, a);
    }
    pub fn acc(&self, name: &str) -> Option<&Account> {
        self.accounts.get(name).map(|a| &**a)
    }
    pub fn amount(&self, name: &str) -> u128 {
        self.acc(name).map_or(0, |a| a.amount)
    }
    pub fn total(&self, name: &str) -> u128 {
        self.acc(name).map_or(0, |a| a.amount + a.locked)
    }
    pub fn edit<T>(&mut self, name: &str, f: impl FnOnce(&mut Account) -> T) -> T {
        let a = Arc::make_mut(self.accounts.get_mut(name).unwrap_or_else(|| panic!("no account {}", name)));
        let r = f(a);
        a.rehash();
        r
    }
    pub fn gift(&mut self, name: &str, amount: u128) {
        self.edit(name, |a| a.amount += amount);
    }
    /// All tokens: on accounts and inside receipts under way.
    pub fn supply(&self) -> u128 {
        let mut s: u128 = self.accounts.values().map(|a| a.amount + a.locked).sum();
        s += self.burnt;
        for q in self.queue.values() {
            for r in q {
                if let Body::Act(a) = &r.body {
                    s += deposits(&a.actions);
                }
            }
        }
        s + self.postponed.values().map(|a| deposits(&a.actions)).sum::<u128>()
    }
    pub fn quiet(&self) -> bool {
        self.queue.is_empty() && self.postponed.is_empty()
    }
    pub fn chans(&self) -> Vec<Chan> {
        self.queue.keys().cloned().collect()
    }
    pub fn head(&self, c: &Chan) -> &Receipt {
        &self.queue[c][0]
    }
    /// The execution that delivering the head of this channel causes, with the promise results it sees.
    pub fn peek(&self, c: &Chan) -> Option<(Arc<ActReceipt>, Vec<PromiseResult>)> {
        match &self.head(c).body {
            Body::Act(a) => Some((a.clone(), a.given.clone())),
            Body::Data(d, v) => {
                let a = self.postponed.values().find(|a| a.input.contains(d))?;
                let get = |i: &u64| if i == d { Some(v.clone()) } else { self.data.get(i).cloned() };
                let all: Option<Vec<_>> = a.input.iter().map(get).collect();
                let f = |x| match x {
                    Some(b) => PromiseResult::Ok(b),
                    None => PromiseResult::Failed,
                };
                Some((a.clone(), all?.into_iter().map(f).collect()))
            }
        }
    }
    fn push(&mut self, from: &Id, r: Receipt) {
        self.queue.entry((from.clone(), r.receiver.clone())).or_default().push_back(r);
    }
    fn fresh(&mut self) -> u64 {
        self.next += 1;
        self.next
    }

    /// Canonical 128-bit fingerprint (receipt identities renamed by first occurrence).
    pub fn fingerprint(&self, h1: &mut DefaultHasher, h2: &mut DefaultHasher) {
        struct Two<'a>(&'a mut DefaultHasher, &'a mut DefaultHasher);
        impl<'a> Hasher for Two<'a> {
            fn finish(&self) -> u64 {
                0
            }
            fn write(&mut self, b: &[u8]) {
                self.0.write(b);
                self.1.write(b);
            }
        }
        let mut h = Two(h1, h2);
        for (k, a) in &self.accounts {
            k.hash(&mut h);
            a.hash.hash(&mut h);
            a.hash2.hash(&mut h);
        }
        (self.block, self.ts, self.epoch, self.burnt, self.min_stake).hash(&mut h);
        self.validators.hash(&mut h);
        let mut names: BTreeMap<u64, u64> = BTreeMap::new();
        fn name(names: &mut BTreeMap<u64, u64>, x: u64) -> u64 {
            let n = names.len() as u64;
            *names.entry(x).or_insert(n)
        }
        fn act<H: Hasher>(a: &ActReceipt, names: &mut BTreeMap<u64, u64>, h: &mut H) {
            a.signer.hash(h);
            a.signer_pk.hash(h);
            a.predecessor.hash(h);
            a.receiver.hash(h);
            a.actions.hash(h);
            a.given.hash(h);
            for i in &a.input {
                name(names, *i).hash(h);
            }
            for (i, r) in &a.outputs {
                name(names, *i).hash(h);
                r.hash(h);
            }
        }
        for (k, q) in &self.queue {
            k.hash(&mut h);
            for r in q {
                match &r.body {
                    Body::Act(a) => act(a, &mut names, &mut h),
                    Body::Data(i, d) => {
                        name(&mut names, *i).hash(&mut h);
                        d.hash(&mut h);
                    }
                }
            }
        }
        // Postponed receipts: first those whose data id is already named (in name order), then the rest in
        // creation order.
        let mut rest: Vec<&Arc<ActReceipt>> = self.postponed.values().collect();
        while !rest.is_empty() {
            let pos = rest
                .iter()
                .enumerate()
                .filter_map(|(p, a)| a.input.iter().filter_map(|i| names.get(i)).min().map(|n| (*n, p)))
                .min()
                .map_or(0, |x| x.1);
            let a = rest.remove(pos);
            act(a, &mut names, &mut h);
        }
        let mut data: Vec<(u64, &Option<Bytes>)> =
            self.data.iter().map(|(k, v)| (names.get(k).copied().unwrap_or(u64::MAX), v)).collect();
        data.sort();
        data.hash(&mut h);
    }

    // ------------------------------------------------------------------------------ transactions

    /// Enters a transaction; the receipt goes to channel signer->receiver. The deposit is taken now.
    pub fn tx_key(&mut self, signer: &str, key: &Bytes, receiver: &str, actions: Vec<Action>) -> Result<u64, String> {
        self.tx_from(signer, key, signer, key, receiver, actions)
    }
    /// As tx_key, but the receipt says that another account's key signed the transaction: the call is made
    /// by a contract (`signer`) on behalf of the transaction's signer (`by`, `by_key`).
    pub fn tx_from(&mut self, signer: &str, key: &Bytes, by: &str, by_key: &Bytes, receiver: &str, actions: Vec<Action>) -> Result<u64, String> {
        let dep = deposits(&actions);
        let acc = match self.acc(signer) {
            Some(a) => a,
            None => return Err("SignerDoesNotExist".into()),
        };
        match acc.keys.get(key) {
            None => return Err("AccessKeyNotFound".into()),
            Some(KeyPerm::Full) => {}
            Some(KeyPerm::Call { receiver: r, methods, .. }) => {
                if actions.len() != 1 {
                    return Err("RequiresFullAccess".into());
                }
                match &actions[0] {
                    Action::Call { method, deposit, .. } => {
                        if *deposit > 0 {
                            return Err("DepositWithFunctionCall".into());
                        }
                        if r != receiver {
                            return Err("ReceiverMismatch".into());
                        }
                        if !methods.is_empty() && !methods.contains(method) {
                            return Err("MethodNameMismatch".into());
                        }
                    }
                    _ => return Err("RequiresFullAccess".into()),
                }
            }
        }
        if acc.amount < dep {
            return Err("NotEnoughBalance".into());
        }
        if dep > 0 {
            self.edit(signer, |a| a.amount -= dep);
        }
        let rid = self.fresh();
        let seq = self.fresh();
        let (s, r) = (id(signer), id(receiver));
        let act = ActReceipt {
            id: rid,
            signer: id(by),
            signer_pk: by_key.clone(),
            predecessor: s.clone(),
            receiver: r.clone(),
            actions,
            input: vec![],
            outputs: vec![],
            given: vec![],
        };
        self.push(&s, Receipt { seq, predecessor: s.clone(), receiver: r, body: Body::Act(Arc::new(act)) });
        Ok(rid)
    }
    pub fn call_key(&mut self, signer: &str, key: &Bytes, receiver: &str, method: &str, args: &str, deposit: u128, gas: u64) -> Result<u64, String> {
        let a = Action::Call { method: method.into(), args: bytes(args.as_bytes()), gas, deposit };
        self.tx_key(signer, key, receiver, vec![a])
    }
    pub fn relayed(&mut self, who: &str, by_key: &Bytes, receiver: &str, method: &str, args: &str, deposit: u128, gas: u64) -> Result<u64, String> {
        let a = Action::Call { method: method.into(), args: bytes(args.as_bytes()), gas, deposit };
        let by = self.signers.iter().find(|x| x.0 == who).map_or("someone", |x| x.1);
        self.tx_from(who, &default_pk(), by, by_key, receiver, vec![a])
    }
    pub fn submit(&mut self, signer: &str, receiver: &str, method: &str, args: &str, deposit: u128) -> u64 {
        self.relayed(signer, &pk(1), receiver, method, args, deposit, MAX_GAS)
            .unwrap_or_else(|e| panic!("tx {} {} {}: {}", signer, receiver, method, e))
    }
    /// As `submit`, but the account makes the call as a callback of promises of its own, with these results:
    /// any contract can do that (`Promise::new(x).then(victim.method())`).
    pub fn submit_after(&mut self, signer: &str, receiver: &str, method: &str, args: &str, deposit: u128, given: Vec<PromiseResult>) -> u64 {
        let rid = self.submit(signer, receiver, method, args, deposit);
        if let Some(Receipt { body: Body::Act(a), .. }) = self.queue.get_mut(&(id(signer), id(receiver))).and_then(|q| q.back_mut()) {
            Arc::make_mut(a).given = given;
        }
        rid
    }
    /// Submits and runs until nothing is under way.
    pub fn call(&mut self, signer: &str, receiver: &str, method: &str, args: &str, deposit: u128) -> Out {
        let r = self.submit(signer, receiver, method, args, deposit);
        self.drain();
        self.outcome(r)
    }
    pub fn must(&mut self, signer: &str, receiver: &str, method: &str, args: &str, deposit: u128) -> Value {
        match self.call(signer, receiver, method, args, deposit) {
            Out::Ok(v) => v,
            o => panic!("setup call {}.{}({}) by {}: {:?}", receiver, method, args, signer, o),
        }
    }
    /// Only the tx's first receipt and everything it caused; requires the queue to be otherwise empty.
    pub fn drain(&mut self) {
        let mut n = 0;
        while let Some(c) = self.next_chan() {
            self.deliver(&c, false);
            n += 1;
            assert!(n < 10_000, "receipt storm");
        }
    }
    /// the channel whose head receipt is the oldest
    pub fn next_chan(&self) -> Option<Chan> {
        self.queue.iter().min_by_key(|(_, q)| q[0].seq).map(|(c, _)| c.clone())
    }
    pub fn clear_events(&mut self) {
        self.events.clear();
    }
    pub fn event(&self, rid: u64) -> Option<&Event> {
        self.events.iter().find(|e| e.id == rid)
    }
    pub fn outcome(&self, rid: u64) -> Out {
        match self.event(rid) {
            None => Out::Pending,
            Some(e) => match &e.result {
                Err(x) => Out::Err(x.clone()),
                Ok(Res::None) => Out::Ok(Value::Null),
                Ok(Res::Value(v)) => Out::Ok(parse(v)),
                Ok(Res::Receipt(j)) => self.outcome(*j),
            },
        }
    }
    /// did the first receipt itself succeed (regardless of what it returned)
    pub fn first_ok(&self, rid: u64) -> bool {
        self.event(rid).map_or(false, |e| e.ok())
    }

    pub fn view(&self, contract: &str, method: &str, args: &str) -> Result<Value, String> {
        let a = self.acc(contract).ok_or("no such account")?;
        let inp = Input {
            current: contract,
            signer: "",
            signer_pk: &[],
            predecessor: "",
            input: args.as_bytes(),
            block_index: self.block,
            timestamp: self.ts,
            epoch: self.epoch,
            balance: a.amount,
            locked: a.locked,
            attached: 0,
            gas: MAX_GAS,
            view: true,
            results: &[],
            validators: &self.validators,
            base_usage: a.base_usage(),
        };
        let o = match &a.code {
            Some(CodeRef::Known(i)) => match &self.env.codes[*i as usize] {
                CodeKind::Wasm(c) => c.run(method, &inp, &a.storage),
                CodeKind::Native(_, f) => f(method, &inp, &a.storage),
            },
            _ => return Err("CodeDoesNotExist".into()),
        };
        match o.ret? {
            Ret::Value(v) => Ok(parse(&v)),
            Ret::None => Ok(Value::Null),
            Ret::Receipt(_) => Err("promise in view".into()),
        }
    }

    // --------------------------------------------------------------------------------- execution

    /// Delivers the head of a channel. With `fail`, the receiving execution fails (as by running out of
    /// gas at its first instruction).
    pub fn deliver(&mut self, c: &Chan, fail: bool) {
        let q = self.queue.get_mut(c).expect("no such channel");
        let r = q.pop_front().unwrap();
        if q.is_empty() {
            self.queue.remove(c);
        }
        match r.body {
            Body::Act(a) => {
                let given = a.given.clone();
                self.exec(a, &given, fail)
            }
            Body::Data(d, v) => {
                self.data.insert(d, v);
                let ready = self.postponed.iter().find(|(_, a)| a.input.contains(&d)).map(|(k, _)| *k);
                if let Some(k) = ready {
                    let a = self.postponed[&k].clone();
                    if a.input.iter().all(|i| self.data.contains_key(i)) {
                        self.postponed.remove(&k);
                        let res: Vec<PromiseResult> = a
                            .input
                            .iter()
                            .map(|i| match self.data.remove(i).unwrap() {
                                Some(b) => PromiseResult::Ok(b),
                                None => PromiseResult::Failed,
                            })
                            .collect();
                        self.exec(a, &res, fail);
                    }
                }
            }
        }
    }

    fn exec(&mut self, r: Arc<ActReceipt>, results: &[PromiseResult], fail: bool) {
        let before = self.accounts.get(&r.receiver).cloned();
        let trace = if !fail && record::on() { record::start(self, &r, results) } else { None };
        let mut new: Vec<(NewReceipt, u64)> = vec![]; // with base index of its call
        let mut work: Option<Account> = before.as_ref().map(|a| (**a).clone());
        let mut deleted_to: Option<(String, u128)> = None;
        let mut ret: Result<Res, String> = Ok(Res::None);
        let mut ret_idx: Option<usize> = None;
        let mut actor = r.predecessor.clone();
        let (mut gas_used, mut gas_burnt) = (0u64, 0u64);
        let mut logs = vec![];
        let system = &*r.predecessor == "system";
        if fail {
            ret = Err("injected failure".into());
        } else {
            for a in &r.actions {
                ret_idx = None;
                let x = self.action(
                    &r, a, results, &mut work, &mut actor, &mut new, &mut ret_idx, &mut deleted_to,
                    &mut gas_used, &mut gas_burnt, &mut logs,
                );
                match x {
                    Ok(v) => ret = Ok(v),
                    Err(e) => {
                        ret = Err(e);
                        break;
                    }
                }
            }
            if ret.is_ok() && self.env.storage_check && !system {
                if let Some(a) = &work {
                    if a.amount + a.locked < a.usage() as u128 * BYTE_COST {
                        ret = Err("LackBalanceForState".into());
                    }
                }
            }
        }
        let rid = r.id;
        let me = r.receiver.clone();
        let mut children = vec![];
        let traced = trace.map(|t| (t, new.clone(), deleted_to.clone()));
        if ret.is_ok() {
            match work {
                Some(mut a) => {
                    a.rehash();
                    self.accounts.insert(me.clone(), Arc::new(a));
                }
                None => {
                    self.accounts.remove(&me);
                }
            }
            if let Some((b, amt)) = deleted_to {
                if amt > 0 {
                    self.system_transfer(&me, &b, amt);
                }
            }
            // materialise the created receipts
            let ids: Vec<u64> = new.iter().map(|_| self.fresh()).collect();
            let mut outs: Vec<Vec<(u64, Id)>> = vec![vec![]; new.len()];
            let mut ins: Vec<Vec<u64>> = vec![vec![]; new.len()];
            for (i, (n, base)) in new.iter().enumerate() {
                for d in &n.deps {
                    let did = self.fresh();
                    outs[*d + *base as usize].push((did, id(&n.receiver)));
                    ins[i].push(did);
                }
            }
            if let Some(j) = ret_idx {
                outs[j].extend(r.outputs.iter().cloned());
                ret = Ok(Res::Receipt(ids[j]));
            }
            for (i, (n, _)) in new.into_iter().enumerate() {
                let act = Arc::new(ActReceipt {
                    id: ids[i],
                    signer: r.signer.clone(),
                    signer_pk: r.signer_pk.clone(),
                    predecessor: me.clone(),
                    receiver: id(&n.receiver),
                    actions: n.actions,
                    input: ins[i].clone(),
                    outputs: outs[i].clone(),
                    given: vec![],
                });
                children.push(ids[i]);
                if act.input.is_empty() {
                    let seq = self.fresh();
                    let rc = act.receiver.clone();
                    self.push(&me, Receipt { seq, predecessor: me.clone(), receiver: rc, body: Body::Act(act) });
                } else {
                    self.postponed.insert(ids[i], act);
                }
            }
        } else {
            let dep = deposits(&r.actions);
            if dep > 0 {
                if system {
                    self.burnt += dep;
                } else {
                    self.system_transfer(&me, &r.predecessor, dep);
                }
            }
        }
        if let Some((t, new, gone)) = traced {
            let r2 = match &ret {
                Ok(Res::Value(v)) => Ok(serde_json::json!(hex::encode(&v[..]))),
                Ok(Res::None) => Ok(serde_json::json!(null)),
                Ok(Res::Receipt(_)) => Ok(serde_json::json!(ret_idx)),
                Err(e) => Err(e.clone()),
            };
            let refund = match (&ret, gone) {
                (Err(_), _) if system => 0,
                (Err(_), _) => deposits(&r.actions),
                (_, Some((_, x))) => x,
                _ => 0,
            };
            record::done(self, t, &me, &r2, &new, refund, (gas_used, gas_burnt), &logs);
        }
        if ret_idx.is_none() || ret.is_err() {
            let data = match &ret {
                Ok(Res::Value(v)) => Some(v.clone()),
                Ok(_) => Some(bytes(&[])),
                Err(_) => None,
            };
            for (d, to) in &r.outputs {
                let seq = self.fresh();
                self.push(&me, Receipt { seq, predecessor: me.clone(), receiver: to.clone(), body: Body::Data(*d, data.clone()) });
            }
        }
        self.events.push(Event {
            id: rid,
            predecessor: r.predecessor.clone(),
            receiver: me,
            actions: r,
            result: ret,
            children,
            gas_used,
            gas_burnt,
            logs,
        });
    }

    fn system_transfer(&mut self, from: &Id, to: &str, amount: u128) {
        let (rid, seq) = (self.fresh(), self.fresh());
        let sys = id("system");
        let act = ActReceipt {
            id: rid,
            signer: sys.clone(),
            signer_pk: default_pk(),
            predecessor: sys.clone(),
            receiver: id(to),
            actions: vec![Action::Transfer(amount)],
            input: vec![],
            outputs: vec![],
            given: vec![],
        };
        self.push(from, Receipt { seq, predecessor: sys, receiver: id(to), body: Body::Act(Arc::new(act)) });
    }

    #[allow(clippy::too_many_arguments)]
    fn action(
        &mut self,
        r: &ActReceipt,
        a: &Action,
        results: &[PromiseResult],
        work: &mut Option<Account>,
        actor: &mut Id,
        new: &mut Vec<(NewReceipt, u64)>,
        ret_idx: &mut Option<usize>,
        deleted_to: &mut Option<(String, u128)>,
        gas_used: &mut u64,
        gas_burnt: &mut u64,
        logs: &mut Vec<String>,
    ) -> Result<Res, String> {
        let me = &r.receiver;
        if let Action::CreateAccount = a {
            if work.is_some() {
                return Err("AccountAlreadyExists".into());
            }
            let sub = me.strip_suffix(&**actor).map_or(false, |p| {
                p.len() > 1 && p.ends_with('.') && !p[..p.len() - 1].contains('.')
            });
            let top = !me.contains('.');
            if !sub && !(top && me.len() >= 32) {
                return Err("CreateAccountNotAllowed".into());
            }
            *work = Some(Account::new(0));
            *actor = me.clone();
            return Ok(Res::None);
        }
        let acc = match work {
            Some(a) => a,
            None => return Err("AccountDoesNotExist".into()),
        };
        match a {
            Action::Deploy(_) | Action::Stake { .. } | Action::AddKey { .. } | Action::DeleteKey(_) | Action::DeleteAccount(_) => {
                if actor != me {
                    return Err("ActorNoPermission".into());
                }
            }
            _ => {}
        }
        match a {
            Action::CreateAccount => unreachable!(),
            Action::Transfer(x) => {
                acc.amount += x;
                Ok(Res::None)
            }
            Action::Deploy(b) => {
                acc.code_len = b.len() as u64;
                acc.code = Some(match self.env.find(b) {
                    Some(i) => CodeRef::Known(i),
                    None => CodeRef::Opaque(b.clone()),
                });
                Ok(Res::None)
            }
            Action::AddKey { pk, perm } => {
                let m = Arc::make_mut(&mut acc.keys);
                if m.contains_key(pk) {
                    return Err("AddKeyAlreadyExists".into());
                }
                m.insert(pk.clone(), perm.clone());
                Ok(Res::None)
            }
            Action::DeleteKey(pk) => {
                if Arc::make_mut(&mut acc.keys).remove(pk).is_none() {
                    return Err("DeleteKeyDoesNotExist".into());
                }
                Ok(Res::None)
            }
            Action::DeleteAccount(b) => {
                if acc.locked > 0 {
                    return Err("DeleteAccountStaking".into());
                }
                *deleted_to = Some((b.clone(), acc.amount));
                *work = None;
                Ok(Res::None)
            }
            Action::Stake { amount, pk } => {
                if acc.locked == 0 && *amount == 0 {
                    return Err("TriesToUnstake".into());
                }
                if *amount > 0 && *amount < self.min_stake {
                    return Err("InsufficientStake".into());
                }
                if *amount > acc.locked {
                    let inc = amount - acc.locked;
                    if acc.amount < inc {
                        return Err("TriesToStake".into());
                    }
                    acc.amount -= inc;
                    acc.locked += inc;
                }
                acc.stakes[0] = *amount;
                acc.stake_pk = pk.clone();
                Ok(Res::None)
            }
            Action::Call { method, args, gas, deposit } => {
                acc.amount += deposit;
                let inp = Input {
                    current: me,
                    signer: &r.signer,
                    signer_pk: &r.signer_pk,
                    predecessor: &r.predecessor,
                    input: args,
                    block_index: self.block,
                    timestamp: self.ts,
                    epoch: self.epoch,
                    balance: acc.amount,
                    locked: acc.locked,
                    attached: *deposit,
                    gas: *gas,
                    view: false,
                    results,
                    validators: &self.validators,
                    base_usage: acc.base_usage(),
                };
                let o = match &acc.code {
                    Some(CodeRef::Known(i)) => match &self.env.codes[*i as usize] {
                        CodeKind::Wasm(c) => c.run(method, &inp, &acc.storage),
                        CodeKind::Native(_, f) => f(method, &inp, &acc.storage),
                    },
                    _ => return Err("CodeDoesNotExist".into()),
                };
                *gas_used += o.gas_used;
                *gas_burnt += o.gas_burnt;
                logs.extend(o.logs.iter().cloned());
                let ret = o.ret?;
                acc.amount = o.balance;
                if *acc.storage != o.storage {
                    acc.storage = Arc::new(o.storage);
                }
                // a receipt that the network does not accept fails the call that makes it
                for x in &o.receipts {
                    for a in &x.actions {
                        if matches!(a, Action::Stake { pk, .. } if !suitable(pk)) {
                            return Err("UnsuitableStakingKey".into());
                        }
                        if matches!(a, Action::Call { gas: 0, .. }) {
                            return Err("FunctionCallZeroAttachedGas".into());
                        }
                    }
                }
                let base = new.len();
                for mut x in o.receipts {
                    for a in &mut x.actions {
                        // known code is shared, not copied into every state
                        if let Action::Deploy(b) = a {
                            if let Some(CodeKind::Wasm(c)) = self.env.find(b).map(|i| &self.env.codes[i as usize]) {
                                *b = c.bytes.clone();
                            }
                        }
                    }
                    new.push((x, base as u64));
                }
                match ret {
                    Ret::None => Ok(Res::None),
                    Ret::Value(v) => Ok(Res::Value(v)),
                    Ret::Receipt(j) => {
                        *ret_idx = Some(base + j);
                        Ok(Res::None)
                    }
                }
            }
        }
    }

    // ---------------------------------------------------------------------------------- the chain

    /// Starts the next epoch; `reward(account)` is paid into the stake of accounts that validate.
    pub fn next_epoch(&mut self, reward: &dyn Fn(&str) -> u128) {
        self.epoch += 1;
        self.block += EPOCH_BLOCKS;
        self.ts += EPOCH_NS;
        let names: Vec<Id> = self.accounts.keys().cloned().collect();
        for n in names {
            let a = &self.accounts[&n];
            if a.locked == 0 && a.stakes == [0; 3] {
                continue;
            }
            let r = if a.locked > 0 { reward(&n) } else { 0 };
            self.edit(&n, |a| {
                a.locked += r;
                if a.stakes[0] > 0 {
                    a.stakes[0] += r;
                }
                let need = *a.stakes.iter().max().unwrap();
                if a.locked > need {
                    a.amount += a.locked - need;
                    a.locked = need;
                }
                a.stakes = [a.stakes[0], a.stakes[0], a.stakes[1]];
            });
        }
    }
    pub fn advance(&mut self, ns: u64) {
        self.ts += ns;
        self.block += 1;
    }
    pub fn existing(&self) -> BTreeSet<String> {
        self.accounts.keys().map(|x| x.to_string()).collect()
    }
}

pub fn deposits(a: &[Action]) -> u128 {
    a.iter()
        .map(|a| match a {
            Action::Transfer(x) => *x,
            Action::Call { deposit, .. } => *deposit,
            _ => 0,
        })
        .sum()
}

/// Result of a native (mock) contract.
pub fn native_out(inp: &Input, storage: &Storage, ret: Result<Ret, String>) -> Output {
    Output {
        ret,
        balance: inp.balance,
        storage: storage.clone(),
        receipts: vec![],
        logs: vec![],
        gas_used: 0,
        gas_burnt: 0,
    }
}
