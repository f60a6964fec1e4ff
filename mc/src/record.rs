//! Recording of executions for the conformance tool (`bin/conform`), off unless MC_TRACE names a directory.
//!
//! Every execution of a receipt is classed by what it runs and how it ends; the first few of each class are
//! written out in full (account before, receipt, promise results, block; account after, receipts made,
//! outcome, gas). The tool runs them through nearcore's own runtime and compares.
use crate::vm::*;
use crate::world::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::Write;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

struct Sink {
    dir: String,
    out: std::fs::File,
    seen: HashMap<String, u32>,
    per_class: u32,
}
static SINK: Mutex<Option<Sink>> = Mutex::new(None);
static ON: AtomicBool = AtomicBool::new(false);

/// Called once, at the start.
pub fn init() {
    if let Ok(dir) = std::env::var("MC_TRACE") {
        std::fs::create_dir_all(&dir).unwrap();
        let out = std::fs::File::create(format!("{}/{}.jsonl", dir, std::process::id())).unwrap();
        let per_class = std::env::var("MC_TRACE_N").ok().and_then(|x| x.parse().ok()).unwrap_or(3);
        *SINK.lock().unwrap() = Some(Sink { dir, out, seen: HashMap::new(), per_class });
        ON.store(true, Ordering::SeqCst);
    }
}
pub fn on() -> bool {
    ON.load(Ordering::Relaxed)
}

fn code_name(env: &Env, c: &CodeRef) -> Option<String> {
    match c {
        CodeRef::Known(i) => match &env.codes[*i as usize] {
            CodeKind::Wasm(c) => Some(c.name.clone()),
            CodeKind::Native(..) => None,
        },
        CodeRef::Opaque(_) => None,
    }
}
fn known(env: &Env, b: &[u8]) -> Option<String> {
    env.codes.iter().find_map(|c| match c {
        CodeKind::Wasm(c) if c.bytes[..] == *b => Some(c.name.clone()),
        _ => None,
    })
}
fn perm(p: &KeyPerm) -> Value {
    match p {
        KeyPerm::Full => json!(null),
        KeyPerm::Call { receiver, methods, allowance } => {
            json!({"receiver": receiver, "methods": methods, "allowance": allowance.to_string()})
        }
    }
}
fn account(env: &Env, a: &Account) -> Value {
    json!({
        "amount": a.amount.to_string(), "locked": a.locked.to_string(), "usage": a.usage(),
        "code": a.code.as_ref().and_then(|c| code_name(env, c)),
        "opaque": match &a.code { Some(CodeRef::Opaque(b)) => Some(hex::encode(&b[..])), _ => None },
        "storage": a.storage.iter().map(|(k, v)| json!([hex::encode(&k[..]), hex::encode(&v[..])])).collect::<Vec<_>>(),
        "keys": a.keys.iter().map(|(k, p)| json!([hex::encode(&k[..]), perm(p)])).collect::<Vec<_>>(),
    })
}
fn actions(env: &Env, v: &[Action]) -> Value {
    v.iter()
        .map(|a| match a {
            Action::CreateAccount => json!({"t": "create"}),
            Action::Deploy(b) => json!({"t": "deploy", "code": known(env, b), "hex": if known(env, b).is_none() { Some(hex::encode(&b[..])) } else { None }}),
            Action::Call { method, args, gas, deposit } => {
                json!({"t": "call", "method": method, "args": hex::encode(&args[..]), "gas": gas, "deposit": deposit.to_string()})
            }
            Action::Transfer(x) => json!({"t": "transfer", "amount": x.to_string()}),
            Action::Stake { amount, pk } => json!({"t": "stake", "amount": amount.to_string(), "pk": hex::encode(&pk[..])}),
            Action::AddKey { pk, perm: p } => json!({"t": "addkey", "pk": hex::encode(&pk[..]), "perm": perm(p)}),
            Action::DeleteKey(pk) => json!({"t": "deletekey", "pk": hex::encode(&pk[..])}),
            Action::DeleteAccount(b) => json!({"t": "delete", "to": b}),
        })
        .collect()
}
fn results(v: &[PromiseResult]) -> Value {
    v.iter()
        .map(|r| match r {
            PromiseResult::Ok(b) => json!(hex::encode(&b[..])),
            PromiseResult::Failed => json!(null),
        })
        .collect()
}

/// What the execution was to start from; written out by `done` if the execution is worth keeping.
pub struct Start {
    head: Value,
    class: String,
}

pub fn start(w: &World, r: &ActReceipt, res: &[PromiseResult]) -> Option<Start> {
    let before = w.accounts.get(&r.receiver);
    let code = before.and_then(|a| a.code.as_ref());
    if let Some(c) = code {
        if code_name(&w.env, c).is_none() && r.actions.iter().any(|a| matches!(a, Action::Call { .. })) {
            return None; // a native stand-in
        }
    }
    let kinds: Vec<String> = r
        .actions
        .iter()
        .map(|a| match a {
            Action::Call { method, .. } => method.clone(),
            Action::Deploy(_) => "Deploy".into(),
            x => format!("{:?}", x).chars().take_while(|c| c.is_alphanumeric()).collect(),
        })
        .collect();
    let class = format!(
        "{:?} {:?} {:?} sys={} self={}",
        code.and_then(|c| code_name(&w.env, c)),
        kinds,
        res.iter().map(|r| matches!(r, PromiseResult::Ok(_))).collect::<Vec<_>>(),
        &*r.predecessor == "system",
        r.predecessor == r.receiver
    );
    {
        let s = SINK.lock().unwrap();
        let s = s.as_ref().unwrap();
        // enough seen of this class: skip the expensive part
        if s.seen.get(&class).copied().unwrap_or(0) > 4000 * s.per_class {
            return None;
        }
    }
    let head = json!({
        "storage_check": w.env.storage_check, "min_stake": w.min_stake.to_string(),
        "block": w.block, "ts": w.ts, "epoch": w.epoch,
        "validators": w.validators.iter().map(|(k, v)| json!([k, v.to_string()])).collect::<Vec<_>>(),
        "receiver": &*r.receiver, "predecessor": &*r.predecessor, "signer": &*r.signer,
        "signer_pk": hex::encode(&r.signer_pk[..]), "outputs": r.outputs.len(),
        "actions": actions(&w.env, &r.actions), "results": results(res),
        "before": before.map(|a| account(&w.env, a)),
    });
    Some(Start { head, class })
}

/// `made`: the receipts made, with the indices of those each waits for.
pub fn done(w: &World, st: Start, me: &str, ret: &Result<Value, String>, made: &[(NewReceipt, u64)], refund: u128, gas: (u64, u64), logs: &[String]) {
    let mut s = SINK.lock().unwrap();
    let s = s.as_mut().unwrap();
    *s.seen.entry(st.class.clone()).or_default() += 1;
    let end = match ret {
        Ok(v) => format!("ok {}", v.as_str().map_or(v.to_string(), |_| "value".into())),
        Err(e) => e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect(),
    };
    let class = format!("{} -> {} ({})", st.class, end, made.len());
    let n = s.seen.entry(class.clone()).or_default();
    *n += 1;
    if *n > s.per_class {
        return;
    }
    let mut v = st.head;
    for i in 0..w.env.codes.len() {
        if let CodeKind::Wasm(c) = &w.env.codes[i] {
            let f = format!("{}/{}.wasm", s.dir, c.name);
            if !std::path::Path::new(&f).exists() {
                let t = format!("{}.{}", f, std::process::id());
                std::fs::write(&t, &c.bytes[..]).unwrap();
                std::fs::rename(&t, &f).unwrap();
            }
        }
    }
    v["class"] = json!(class);
    v["ret"] = match ret {
        Ok(v) => json!({"ok": v}),
        Err(e) => json!({"err": e}),
    };
    v["after"] = json!(w.accounts.get(me).map(|a| account(&w.env, a)));
    v["made"] = if ret.is_ok() {
        made.iter()
            .map(|(n, base)| {
                json!({"receiver": n.receiver, "deps": n.deps.iter().map(|d| *d as u64 + base).collect::<Vec<_>>(), "actions": actions(&w.env, &n.actions)})
            })
            .collect()
    } else {
        json!([])
    };
    v["refund"] = json!(refund.to_string());
    v["gas"] = json!([gas.0, gas.1]);
    v["logs"] = json!(logs);
    writeln!(s.out, "{}", v).unwrap();
}
