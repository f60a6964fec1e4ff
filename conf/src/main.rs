//! Conformance of the model's runtime (mc/src/vm.rs, mc/src/world.rs) to nearcore's.
//!
//! Reads executions recorded by the checker (mc/src/record.rs) and applies each to nearcore's `Runtime`:
//! the state before as genesis records, the data receipts, the action receipt. Compares the account after
//! (balances, storage, keys, storage usage, code), the receipts made, the result, the logs and the gas.
use borsh::BorshDeserialize;
use near_crypto::PublicKey;
use near_primitives::account::{AccessKey, AccessKeyPermission, Account, FunctionCallPermission};
use near_primitives::errors::EpochError;
use near_primitives::hash::{hash, CryptoHash};
use near_primitives::receipt::{ActionReceipt, DataReceipt, DataReceiver, Receipt, ReceiptEnum};
use near_primitives::runtime::config::RuntimeConfig;
use near_primitives::state_record::StateRecord;
use near_primitives::transaction::*;
use near_primitives::trie_key::trie_key_parsers;
use near_primitives::types::{AccountId, Balance, EpochId, EpochInfoProvider};
use near_primitives::version::PROTOCOL_VERSION;
use near_runtime::{ApplyState, Runtime};
use near_store::test_utils::create_test_store;
use near_store::{get_account, ShardTries};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};

struct Epochs {
    validators: HashMap<String, Balance>,
    min: Balance,
}
impl EpochInfoProvider for Epochs {
    fn validator_stake(&self, _: &EpochId, _: &CryptoHash, a: &AccountId) -> Result<Option<Balance>, EpochError> {
        Ok(self.validators.get(a).cloned())
    }
    fn validator_total_stake(&self, _: &EpochId, _: &CryptoHash) -> Result<Balance, EpochError> {
        Ok(self.validators.values().sum())
    }
    fn minimum_stake(&self, _: &CryptoHash) -> Result<Balance, EpochError> {
        Ok(self.min)
    }
}

#[derive(Default)]
struct Cache(Mutex<HashMap<Vec<u8>, Vec<u8>>>);
impl near_primitives::types::CompiledContractCache for Cache {
    fn put(&self, k: &[u8], v: &[u8]) -> Result<(), std::io::Error> {
        self.0.lock().unwrap().insert(k.to_vec(), v.to_vec());
        Ok(())
    }
    fn get(&self, k: &[u8]) -> Result<Option<Vec<u8>>, std::io::Error> {
        Ok(self.0.lock().unwrap().get(k).cloned())
    }
}

fn unhex(v: &Value) -> Vec<u8> {
    hex::decode(v.as_str().unwrap()).unwrap()
}
fn num(v: &Value) -> u128 {
    v.as_str().unwrap().parse().unwrap()
}
fn s(v: &Value) -> String {
    v.as_str().unwrap().to_string()
}
fn pk(v: &Value) -> PublicKey {
    PublicKey::try_from_slice(&unhex(v)).unwrap()
}
fn access(v: &Value) -> AccessKey {
    AccessKey {
        nonce: 0,
        permission: if v.is_null() {
            AccessKeyPermission::FullAccess
        } else {
            let a = num(&v["allowance"]);
            AccessKeyPermission::FunctionCall(FunctionCallPermission {
                allowance: if a == 0 { None } else { Some(a) },
                receiver_id: s(&v["receiver"]),
                method_names: v["methods"].as_array().unwrap().iter().map(s).collect(),
            })
        },
    }
}

struct Codes {
    by_name: BTreeMap<String, Vec<u8>>,
}
impl Codes {
    fn get(&self, v: &Value) -> Vec<u8> {
        self.by_name[v.as_str().unwrap()].clone()
    }
    fn name(&self, b: &[u8]) -> Value {
        self.by_name.iter().find(|(_, x)| x[..] == *b).map_or(Value::Null, |(n, _)| json!(n))
    }
}

fn action(c: &Codes, v: &Value) -> Action {
    match v["t"].as_str().unwrap() {
        "create" => Action::CreateAccount(CreateAccountAction {}),
        "deploy" => Action::DeployContract(DeployContractAction {
            code: if v["code"].is_null() { unhex(&v["hex"]) } else { c.get(&v["code"]) },
        }),
        "call" => Action::FunctionCall(FunctionCallAction {
            method_name: s(&v["method"]),
            args: unhex(&v["args"]),
            gas: v["gas"].as_u64().unwrap(),
            deposit: num(&v["deposit"]),
        }),
        "transfer" => Action::Transfer(TransferAction { deposit: num(&v["amount"]) }),
        "stake" => Action::Stake(StakeAction { stake: num(&v["amount"]), public_key: pk(&v["pk"]) }),
        "addkey" => Action::AddKey(AddKeyAction { public_key: pk(&v["pk"]), access_key: access(&v["perm"]) }),
        "deletekey" => Action::DeleteKey(DeleteKeyAction { public_key: pk(&v["pk"]) }),
        "delete" => Action::DeleteAccount(DeleteAccountAction { beneficiary_id: s(&v["to"]) }),
        x => panic!("{}", x),
    }
}
fn pk_hex(p: &PublicKey) -> String {
    use borsh::BorshSerialize;
    hex::encode(p.try_to_vec().unwrap())
}
fn perm_out(p: &AccessKeyPermission) -> Value {
    match p {
        AccessKeyPermission::FullAccess => Value::Null,
        AccessKeyPermission::FunctionCall(f) => {
            json!({"receiver": f.receiver_id, "methods": f.method_names, "allowance": f.allowance.unwrap_or(0).to_string()})
        }
    }
}
fn action_out(c: &Codes, a: &Action) -> Value {
    match a {
        Action::CreateAccount(_) => json!({"t": "create"}),
        Action::DeployContract(d) => {
            let n = c.name(&d.code);
            let h = if n.is_null() { json!(hex::encode(&d.code)) } else { Value::Null };
            json!({"t": "deploy", "code": n, "hex": h})
        }
        Action::FunctionCall(f) => {
            json!({"t": "call", "method": f.method_name, "args": hex::encode(&f.args), "gas": f.gas, "deposit": f.deposit.to_string()})
        }
        Action::Transfer(t) => json!({"t": "transfer", "amount": t.deposit.to_string()}),
        Action::Stake(x) => json!({"t": "stake", "amount": x.stake.to_string(), "pk": pk_hex(&x.public_key)}),
        Action::AddKey(x) => {
            json!({"t": "addkey", "pk": pk_hex(&x.public_key), "perm": perm_out(&x.access_key.permission)})
        }
        Action::DeleteKey(x) => json!({"t": "deletekey", "pk": pk_hex(&x.public_key)}),
        Action::DeleteAccount(x) => json!({"t": "delete", "to": x.beneficiary_id}),
    }
}

/// The execution, in the recorder's own terms.
fn run(c: &Codes, cache: &Arc<Cache>, v: &Value) -> Value {
    let me = s(&v["receiver"]);
    let mut cfg = RuntimeConfig::default();
    cfg.storage_amount_per_byte = if v["storage_check"].as_bool().unwrap() { 10u128.pow(19) } else { 0 };
    cfg.account_creation_config.min_allowed_top_level_account_length = 32;
    let mut records = vec![];
    let b = &v["before"];
    if !b.is_null() {
        let code = if !b["code"].is_null() {
            Some(c.get(&b["code"]))
        } else if !b["opaque"].is_null() {
            Some(unhex(&b["opaque"]))
        } else {
            None
        };
        records.push(StateRecord::Account {
            account_id: me.clone(),
            account: Account {
                amount: num(&b["amount"]),
                locked: num(&b["locked"]),
                code_hash: code.as_ref().map_or(CryptoHash::default(), |x| hash(x)),
                storage_usage: b["usage"].as_u64().unwrap(),
            },
        });
        if let Some(code) = code {
            records.push(StateRecord::Contract { account_id: me.clone(), code });
        }
        for x in b["storage"].as_array().unwrap() {
            records.push(StateRecord::Data { account_id: me.clone(), data_key: unhex(&x[0]), value: unhex(&x[1]) });
        }
        for x in b["keys"].as_array().unwrap() {
            records.push(StateRecord::AccessKey { account_id: me.clone(), public_key: pk(&x[0]), access_key: access(&x[1]) });
        }
    }
    let tries = ShardTries::new(create_test_store(), 1);
    let rt = Runtime::new();
    let (up, root) = rt.apply_genesis_state(tries.clone(), 0, &[], &records, &cfg);
    up.commit().unwrap();
    let deps = |x: &Value| x.as_array().unwrap().clone();
    let mut incoming = vec![];
    let mut ids = vec![];
    for (i, r) in deps(&v["results"]).iter().enumerate() {
        let data_id = hash(format!("data{}", i).as_bytes());
        ids.push(data_id);
        incoming.push(Receipt {
            predecessor_id: "other".into(),
            receiver_id: me.clone(),
            receipt_id: hash(format!("dr{}", i).as_bytes()),
            receipt: ReceiptEnum::Data(DataReceipt { data_id, data: if r.is_null() { None } else { Some(unhex(r)) } }),
        });
    }
    let outputs: Vec<DataReceiver> = (0..v["outputs"].as_u64().unwrap())
        .map(|i| DataReceiver { data_id: hash(format!("out{}", i).as_bytes()), receiver_id: "waiting".into() })
        .collect();
    let acts: Vec<Action> = deps(&v["actions"]).iter().map(|a| action(c, a)).collect();
    incoming.push(Receipt {
        predecessor_id: s(&v["predecessor"]),
        receiver_id: me.clone(),
        receipt_id: hash(b"act"),
        receipt: ReceiptEnum::Action(ActionReceipt {
            signer_id: s(&v["signer"]),
            signer_public_key: pk(&v["signer_pk"]),
            gas_price: 0,
            output_data_receivers: outputs.clone(),
            input_data_ids: ids,
            actions: acts.clone(),
        }),
    });
    let state = ApplyState {
        block_index: v["block"].as_u64().unwrap(),
        prev_block_hash: Default::default(),
        block_hash: Default::default(),
        epoch_id: Default::default(),
        epoch_height: v["epoch"].as_u64().unwrap(),
        gas_price: 0,
        block_timestamp: v["ts"].as_u64().unwrap(),
        gas_limit: None,
        random_seed: Default::default(),
        current_protocol_version: PROTOCOL_VERSION,
        config: Arc::new(cfg.clone()),
        cache: Some(cache.clone()),
        profile: Default::default(),
    };
    let epochs = Epochs {
        validators: deps(&v["validators"]).iter().map(|x| (s(&x[0]), num(&x[1]))).collect(),
        min: num(&v["min_stake"]),
    };
    let res = rt
        .apply(tries.get_trie_for_shard(0), root, &None, &state, &incoming, &[], &epochs)
        ;
    let res = match res {
        Ok(x) => x,
        // a receipt that the network does not take in at all
        Err(e) => return json!({"invalid": format!("{:?}", e)}),
    };
    let (up, _) = tries.apply_all(&res.trie_changes, 0).unwrap();
    up.commit().unwrap();
    let o = &res.outcomes.last().expect("no outcome").outcome;
    // receipts
    let mut made: Vec<&Receipt> = vec![];
    let mut refund = 0u128;
    let mut answer = json!("none");
    for r in &res.outgoing_receipts {
        match &r.receipt {
            ReceiptEnum::Action(a) if r.predecessor_id == "system" => {
                for x in &a.actions {
                    if let Action::Transfer(t) = x {
                        refund += t.deposit;
                    }
                }
            }
            ReceiptEnum::Action(_) => made.push(r),
            ReceiptEnum::Data(d) => answer = d.data.as_ref().map_or(Value::Null, |x| json!(hex::encode(x))),
        }
    }
    let body = |r: &Receipt| match &r.receipt {
        ReceiptEnum::Action(a) => a.clone(),
        _ => unreachable!(),
    };
    let made_out: Vec<Value> = made
        .iter()
        .map(|r| {
            let a = body(r);
            assert_eq!(r.predecessor_id, me);
            assert_eq!(a.signer_id, s(&v["signer"]));
            assert_eq!(a.signer_public_key, pk(&v["signer_pk"]));
            let d: Vec<usize> = a
                .input_data_ids
                .iter()
                .map(|i| {
                    made.iter()
                        .position(|x| body(x).output_data_receivers.iter().any(|o| o.data_id == *i && o.receiver_id == r.receiver_id))
                        .expect("dangling input")
                })
                .collect();
            json!({"receiver": r.receiver_id, "deps": d, "actions": a.actions.iter().map(|x| action_out(c, x)).collect::<Vec<_>>()})
        })
        .collect();
    // who answers the waiting receipts
    let forwards = made.iter().position(|r| outputs.iter().any(|o| body(r).output_data_receivers.contains(o)));
    let ret = match &o.status {
        ExecutionStatus::SuccessValue(x) => json!({"ok": hex::encode(x)}),
        ExecutionStatus::SuccessReceiptId(id) => json!({"ok": made.iter().position(|r| r.receipt_id == *id)}),
        ExecutionStatus::Failure(e) => json!({"err": format!("{:?}", e)}),
        ExecutionStatus::Unknown => json!("unknown"),
    };
    // state
    let st = tries.new_trie_update(0, res.state_root);
    let after = get_account(&st, &me).unwrap().map(|a| {
        let mut storage = vec![];
        let pre = trie_key_parsers::get_raw_prefix_for_contract_data(&me, &[]);
        for k in st.iter(&pre).unwrap() {
            let k = k.unwrap();
            let data_key = trie_key_parsers::parse_data_key_from_contract_data_key(&k, &me).unwrap().to_vec();
            let val = st
                .get(&near_primitives::trie_key::TrieKey::ContractData { account_id: me.clone(), key: data_key.clone() })
                .unwrap()
                .unwrap();
            storage.push(json!([hex::encode(data_key), hex::encode(val)]));
        }
        let mut keys = vec![];
        let pre = trie_key_parsers::get_raw_prefix_for_access_keys(&me);
        for k in st.iter(&pre).unwrap() {
            let p = trie_key_parsers::parse_public_key_from_access_key_key(&k.unwrap(), &me).unwrap();
            let a = near_store::get_access_key(&st, &me, &p).unwrap().unwrap();
            keys.push(json!([pk_hex(&p), perm_out(&a.permission)]));
        }
        let code = near_store::get_code(&st, &me, None).unwrap().map(|x| x.code.clone());
        let name = code.as_ref().map_or(Value::Null, |x| c.name(x));
        json!({
            "amount": a.amount.to_string(), "locked": a.locked.to_string(), "usage": a.storage_usage,
            "code": name,
            "opaque": match &code { Some(x) if name.is_null() => json!(hex::encode(x)), _ => Value::Null },
            "storage": storage, "keys": keys,
        })
    });
    // the virtual machine's gas: what was burnt less the fees of the receipt and its actions
    let t = &cfg.transaction_costs;
    let a = &t.action_creation_config;
    let mut fees = t.action_receipt_creation_config.exec_fee();
    for x in &acts {
        fees += match x {
            Action::CreateAccount(_) => a.create_account_cost.exec_fee(),
            Action::DeployContract(d) => {
                a.deploy_contract_cost.exec_fee() + a.deploy_contract_cost_per_byte.exec_fee() * d.code.len() as u64
            }
            Action::FunctionCall(f) => {
                a.function_call_cost.exec_fee()
                    + a.function_call_cost_per_byte.exec_fee() * (f.method_name.as_bytes().len() + f.args.len()) as u64
            }
            _ => return_fee(x, a),
        };
        if let Action::FunctionCall(_) = x {}
    }
    json!({
        "after": after, "made": made_out, "refund": refund.to_string(), "ret": ret, "logs": o.logs,
        "answer": answer, "forwards": forwards, "gas": o.gas_burnt as i64 - fees as i64,
    })
}
fn return_fee(x: &Action, a: &near_primitives::runtime::fees::ActionCreationConfig) -> u64 {
    match x {
        Action::Transfer(_) => a.transfer_cost.exec_fee(),
        Action::Stake(_) => a.stake_cost.exec_fee(),
        Action::AddKey(k) => match &k.access_key.permission {
            AccessKeyPermission::FullAccess => a.add_key_cost.full_access_cost.exec_fee(),
            AccessKeyPermission::FunctionCall(f) => {
                a.add_key_cost.function_call_cost.exec_fee()
                    + a.add_key_cost.function_call_cost_per_byte.exec_fee()
                        * f.method_names.iter().map(|m| m.len() as u64 + 1).sum::<u64>()
            }
        },
        Action::DeleteKey(_) => a.delete_key_cost.exec_fee(),
        Action::DeleteAccount(_) => a.delete_account_cost.exec_fee(),
        _ => 0,
    }
}

fn main() {
    let dir = std::env::args().nth(1).expect("usage: conf DIR");
    let mut by_name = BTreeMap::new();
    let mut files = vec![];
    for f in std::fs::read_dir(&dir).unwrap() {
        let p = f.unwrap().path();
        let n = p.file_name().unwrap().to_str().unwrap().to_string();
        if let Some(x) = n.strip_suffix(".wasm") {
            by_name.insert(x.to_string(), std::fs::read(&p).unwrap());
        } else if n.ends_with(".jsonl") {
            files.push(p);
        }
    }
    files.sort();
    let codes = Codes { by_name };
    let cache = Arc::new(Cache::default());
    let (mut n, mut bad, mut edge, mut invalid) = (0u64, 0u64, 0u64, 0u64);
    let mut gas: BTreeMap<i64, u64> = BTreeMap::new();
    let mut worst = (i64::MIN, 1i64, String::new());
    let mut per: BTreeMap<String, u64> = BTreeMap::new();
    for f in files {
        let text = std::fs::read_to_string(&f).unwrap();
        for line in text.lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            let got = run(&codes, &cache, &v);
            n += 1;
            *per.entry(v["before"]["code"].as_str().unwrap_or("(no contract)").to_string()).or_default() += 1;
            if !got["invalid"].is_null() {
                // such a receipt is never made, or is a transaction that is refused: the model must not
                // count on it
                invalid += 1;
                println!("NEVER HAPPENS {} {}", v["class"], got["invalid"]);
                continue;
            }
            let mut diff = vec![];
            let mut cmp = |what: &str, want: &Value, got: &Value| {
                if want != got {
                    diff.push(format!("{}: model {} real {}", what, want, got));
                }
            };
            let ok = v["ret"].get("ok").is_some();
            // the cost of touching trie nodes depends on the whole chain's state and is only estimated
            // by the model: near the limit, one may run out of gas and the other not
            let limit: u64 = v["actions"].as_array().unwrap().iter().filter_map(|a| a["gas"].as_u64()).sum();
            let out = |x: &Value| x["ret"]["err"].as_str().map_or(false, |e| e.contains("GasExceeded") || e.contains("Exceeded the prepaid gas"));
            if out(&v) != out(&got) {
                let need = if out(&v) { got["gas"].as_i64().unwrap() as u64 } else { v["gas"][0].as_u64().unwrap() };
                if (need as i64 - limit as i64).abs() < 2_500_000_000_000 {
                    edge += 1;
                    continue;
                }
            }
            cmp("ends well", &json!(ok), &json!(got["ret"].get("ok").is_some()));
            if ok {
                let want = if v["ret"]["ok"].is_null() { json!("") } else { v["ret"]["ok"].clone() };
                cmp("result", &want, &got["ret"]["ok"]);
                cmp("logs", &v["logs"], &got["logs"]);
            } else {
                // the reason: a contract's own panic message must be the same
                let e = v["ret"]["err"].as_str().unwrap();
                let g = got["ret"]["err"].as_str().unwrap_or("");
                let same = match e.strip_prefix("GuestPanic: ") {
                    Some(m) => format!("{:?}", g).contains(&format!("{:?}", m).trim_matches('"').replace('\\', "\\\\").chars().take(40).collect::<String>()) || g.contains(m),
                    None => true,
                };
                if !same {
                    cmp("reason", &json!(e), &json!(g));
                }
            }
            for k in &["after", "made", "refund"] {
                if *k == "after" && !v["after"].is_null() && !got["after"].is_null() {
                    for f in &["amount", "locked", "usage", "code", "opaque", "storage", "keys"] {
                        cmp(f, &v["after"][f], &got["after"][f]);
                    }
                } else {
                    cmp(k, &v[k], &got[k]);
                }
            }
            let d = got["gas"].as_i64().unwrap() - v["gas"][1].as_i64().unwrap();
            if ok {
                *gas.entry(d / 100_000_000_000).or_default() += 1;
                let m = v["gas"][1].as_i64().unwrap().max(1);
                if d > worst.0 {
                    worst = (d, m, v["class"].to_string());
                }
            }
            if !diff.is_empty() {
                bad += 1;
                println!("DIFFERENT {}", v["class"]);
                println!("   real: {}", got["ret"].to_string().chars().take(300).collect::<String>());
                println!("   model: {}", v["ret"].to_string().chars().take(300).collect::<String>());
                for d in diff {
                    println!("   {}", d.chars().take(600).collect::<String>());
                }
            }
        }
    }
    println!("executions {} different {} at the edge of running out of gas {} never happening {}", n, bad, edge, invalid);
    for (k, x) in per {
        println!("  {} {}", k, x);
    }
    println!("gas burnt, real minus model, in units of 0.1 Tgas -> executions: {:?}", gas);
    println!("most underestimated: by {} of {} in {}", worst.0, worst.1, worst.2);
    std::process::exit(if bad > 0 { 1 } else { 0 });
}
