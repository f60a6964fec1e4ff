//! Executes the real compiled contracts: a wasm engine with the NEAR host interface
//! (registers, context, storage, promises), deterministic and metered with the public
//! NEAR fee schedule (near-primitives-core 0.4.0 defaults).
use sha2::{Digest, Sha256};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::Arc;
use wasmer::{
    BaseTunables, CompilerConfig, Cranelift, CraneliftOptLevel, Export, Exportable, Exports, Function,
    FunctionMiddleware, Instance, Resolver, LocalFunctionIndex, Memory, MiddlewareError, MiddlewareReaderState,
    Module, ModuleMiddleware, Store, Target, JIT,
};
use wasmer::wasmparser::{Operator, Type as WpType, TypeOrFuncType};
use wasmer::{ExportIndex, GlobalInit, GlobalType, Mutability, Type};
use wasmer_vm::ModuleInfo;

pub type Bytes = Arc<[u8]>;
pub type Storage = BTreeMap<Bytes, Bytes>;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum PromiseResult {
    Ok(Bytes),
    Failed,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum KeyPerm {
    Full,
    Call { receiver: String, methods: Vec<String>, allowance: u128 },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Action {
    CreateAccount,
    Deploy(Bytes),
    Call { method: String, args: Bytes, gas: u64, deposit: u128 },
    Transfer(u128),
    Stake { amount: u128, pk: Bytes },
    AddKey { pk: Bytes, perm: KeyPerm },
    DeleteKey(Bytes),
    DeleteAccount(String),
}

/// A receipt created by the executing contract (index based links, resolved by the runtime).
#[derive(Clone, Debug)]
pub struct NewReceipt {
    pub receiver: String,
    pub deps: Vec<usize>,
    pub actions: Vec<Action>,
}

#[derive(Clone, Debug)]
pub enum Ret {
    None,
    Value(Bytes),
    Receipt(usize),
}

pub struct Input<'a> {
    pub current: &'a str,
    pub signer: &'a str,
    pub signer_pk: &'a [u8],
    pub predecessor: &'a str,
    pub input: &'a [u8],
    pub block_index: u64,
    pub timestamp: u64,
    pub epoch: u64,
    /// balance including the attached deposit
    pub balance: u128,
    pub locked: u128,
    pub attached: u128,
    pub gas: u64,
    pub view: bool,
    pub results: &'a [PromiseResult],
    pub validators: &'a BTreeMap<String, u128>,
    pub base_usage: u64,
}

pub struct Output {
    pub ret: Result<Ret, String>,
    pub balance: u128,
    pub storage: Storage,
    pub receipts: Vec<NewReceipt>,
    pub logs: Vec<String>,
    pub gas_used: u64,
    pub gas_burnt: u64,
}

// ---------------------------------------------------------------------------------------- metering

const REGULAR_OP: i64 = 3_856_371;

#[derive(Debug)]
struct Meter {
    idx: std::sync::Mutex<u32>,
}
#[derive(Debug)]
struct FnMeter {
    global: u32,
    acc: i64,
}
impl ModuleMiddleware for Meter {
    fn generate_function_middleware(&self, _: LocalFunctionIndex) -> Box<dyn FunctionMiddleware> {
        Box::new(FnMeter { global: *self.idx.lock().unwrap(), acc: 0 })
    }
    fn transform_module_info(&self, info: &mut ModuleInfo) {
        let g = info.globals.push(GlobalType::new(Type::I64, Mutability::Var));
        info.global_initializers.push(GlobalInit::I64Const(0));
        // every mutable global is exported, so that a recycled instance can be reset
        let muts: Vec<_> = info
            .globals
            .iter()
            .filter(|(_, t)| t.mutability == Mutability::Var)
            .map(|(i, _)| i)
            .collect();
        for i in muts {
            info.exports.insert(format!("__global_{}", i.as_u32()), ExportIndex::Global(i));
        }
        info.exports.insert("__gas_left".to_string(), ExportIndex::Global(g));
        *self.idx.lock().unwrap() = g.as_u32();
    }
}
impl FunctionMiddleware for FnMeter {
    fn feed<'a>(
        &mut self,
        op: Operator<'a>,
        st: &mut MiddlewareReaderState<'a>,
    ) -> Result<(), MiddlewareError> {
        self.acc += REGULAR_OP;
        match op {
            Operator::Loop { .. }
            | Operator::End
            | Operator::If { .. }
            | Operator::Else
            | Operator::Br { .. }
            | Operator::BrTable { .. }
            | Operator::BrIf { .. }
            | Operator::Call { .. }
            | Operator::CallIndirect { .. }
            | Operator::Return => {
                if self.acc > 0 {
                    let g = self.global;
                    st.extend(&[
                        Operator::GlobalGet { global_index: g },
                        Operator::I64Const { value: self.acc },
                        Operator::I64LtS,
                        Operator::If { ty: TypeOrFuncType::Type(WpType::EmptyBlockType) },
                        Operator::I64Const { value: -1 },
                        Operator::GlobalSet { global_index: g },
                        Operator::Unreachable,
                        Operator::End,
                        Operator::GlobalGet { global_index: g },
                        Operator::I64Const { value: self.acc },
                        Operator::I64Sub,
                        Operator::GlobalSet { global_index: g },
                    ]);
                    self.acc = 0;
                }
            }
            _ => {}
        }
        st.push_operator(op);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- fees

mod fee {
    pub const M: u64 = 3;
    pub const BASE: u64 = M * 88256037;
    pub const COMPILE_BASE: u64 = M * 11815321;
    pub const COMPILE_BYTE: u64 = M * 72250;
    pub const RM_BASE: u64 = M * 869954400;
    pub const RM_BYTE: u64 = M * 1267111;
    pub const WM_BASE: u64 = M * 934598287;
    pub const WM_BYTE: u64 = M * 907924;
    pub const RR_BASE: u64 = M * 839055062;
    pub const RR_BYTE: u64 = M * 32854;
    pub const WR_BASE: u64 = M * 955174162;
    pub const WR_BYTE: u64 = M * 1267188;
    pub const UTF8_BASE: u64 = M * 1037259687;
    pub const UTF8_BYTE: u64 = M * 97193493;
    pub const SHA_BASE: u64 = M * 1513656750;
    pub const SHA_BYTE: u64 = M * 8039117;
    pub const LOG_BASE: u64 = M * 1181104350;
    pub const LOG_BYTE: u64 = M * 4399597;
    pub const SW_BASE: u64 = M * 21398912000;
    pub const SW_KEY: u64 = M * 23494289;
    pub const SW_VAL: u64 = M * 10339513;
    pub const SW_EV: u64 = M * 10705769;
    pub const SR_BASE: u64 = M * 18785615250;
    pub const SR_KEY: u64 = M * 10317511;
    pub const SR_VAL: u64 = M * 1870335;
    pub const SD_BASE: u64 = M * 17824343500;
    pub const SD_KEY: u64 = M * 12740128;
    pub const SD_VAL: u64 = M * 3843852;
    pub const SH_BASE: u64 = M * 18013298875;
    pub const SH_KEY: u64 = M * 10263615;
    pub const TRIE: u64 = M * 5367318642 * 6; // assumed path length of 6 nodes per access
    pub const AND_BASE: u64 = M * 488337800;
    pub const AND_PER: u64 = M * 1817392;
    pub const RET: u64 = M * 186717462;
    pub const VAL: u64 = M * 303944908800;
    // (send, exec)
    pub const RECEIPT: (u64, u64) = (108059500000, 108059500000);
    pub const DATA: u64 = 2 * 4697339419375;
    pub const CREATE: (u64, u64) = (99607375000, 99607375000);
    pub const DEPLOY: (u64, u64) = (184765750000, 184765750000);
    pub const DEPLOY_BYTE: (u64, u64) = (6812999, 6812999);
    pub const CALL: (u64, u64) = (2319861500000, 2319861500000);
    pub const CALL_BYTE: (u64, u64) = (2235934, 2235934);
    pub const TRANSFER: (u64, u64) = (115123062500, 115123062500);
    pub const STAKE: (u64, u64) = (141715687500, 102217625000);
    pub const ADDKEY: (u64, u64) = (102217625000, 102217625000);
    pub const DELKEY: (u64, u64) = (94946625000, 94946625000);
    pub const DELACC: (u64, u64) = (147489000000, 147489000000);
}
/// (total) gas a plain transaction/receipt action costs is not charged: the explored accounts pay
/// a gas price of zero, only the prepaid gas *limits* of calls are enforced.
const MAX_BURNT: u64 = 300_000_000_000_000;

// ---------------------------------------------------------------------------------------- context

enum Prom {
    Receipt(usize),
    And(Vec<usize>),
}

struct Ctx<'a> {
    inp: &'a Input<'a>,
    mem: Memory,
    gas_left: wasmer::Global,
    gas_start: i64,
    host_used: u64,  // burnt by host + reserved
    reserved: u64,   // reserved (not burnt)
    regs: Vec<(u64, Vec<u8>)>,
    storage: Storage,
    storage0: Arc<Storage>,
    dirty: bool,
    balance: u128,
    receipts: Vec<NewReceipt>,
    promises: Vec<Prom>,
    ret: Ret,
    logs: Vec<String>,
}

thread_local! {
    static CTX: Cell<*mut ()> = Cell::new(std::ptr::null_mut());
}
fn ctx() -> &'static mut Ctx<'static> {
    let p = CTX.with(|c| c.get()) as *mut Ctx<'static>;
    assert!(!p.is_null());
    unsafe { &mut *p }
}

#[derive(Debug)]
pub struct HostErr(pub String);
impl std::fmt::Display for HostErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for HostErr {}
type R<T> = Result<T, HostErr>;
fn err<T>(s: impl Into<String>) -> R<T> {
    Err(HostErr(s.into()))
}

impl<'a> Ctx<'a> {
    fn wasm_used(&self) -> u64 {
        match self.gas_left.get() {
            wasmer::Val::I64(x) => {
                if x < 0 {
                    self.gas_start as u64 + 1
                } else {
                    (self.gas_start - x) as u64
                }
            }
            _ => unreachable!(),
        }
    }
    fn used(&self) -> u64 {
        self.wasm_used() + self.host_used
    }
    fn charge(&mut self, g: u64) -> R<()> {
        self.host_used += g;
        Ok(())
    }
    fn check_gas(&self) -> R<()> {
        let used = self.used();
        if used > self.inp.gas || used - self.reserved > MAX_BURNT {
            return err("Exceeded the prepaid gas.");
        }
        Ok(())
    }
    fn reserve(&mut self, g: u64) -> R<()> {
        self.host_used = self.host_used.saturating_add(g);
        self.reserved = self.reserved.saturating_add(g);
        self.check_gas()
    }
    fn mem_read(&mut self, ptr: u64, len: u64) -> R<Vec<u8>> {
        let size = self.mem.data_size();
        if ptr.checked_add(len).map_or(true, |e| e > size) {
            return err("MemoryAccessViolation");
        }
        let mut v = vec![0u8; len as usize];
        unsafe {
            std::ptr::copy_nonoverlapping(
                self.mem.data_ptr().add(ptr as usize),
                v.as_mut_ptr(),
                len as usize,
            )
        };
        self.charge(fee::RM_BASE + fee::RM_BYTE * len)?;
        Ok(v)
    }
    fn mem_write(&mut self, ptr: u64, b: &[u8]) -> R<()> {
        let size = self.mem.data_size();
        if ptr.checked_add(b.len() as u64).map_or(true, |e| e > size) {
            return err("MemoryAccessViolation");
        }
        unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), self.mem.data_ptr().add(ptr as usize), b.len())
        };
        self.charge(fee::WM_BASE + fee::WM_BYTE * b.len() as u64)
    }
    fn reg(&self, id: u64) -> Option<&Vec<u8>> {
        self.regs.iter().find(|r| r.0 == id).map(|r| &r.1)
    }
    fn set_reg(&mut self, id: u64, b: Vec<u8>) -> R<()> {
        self.charge(fee::WR_BASE + fee::WR_BYTE * b.len() as u64)?;
        if let Some(r) = self.regs.iter_mut().find(|r| r.0 == id) {
            r.1 = b;
        } else {
            self.regs.push((id, b));
        }
        Ok(())
    }
    fn bytes(&mut self, len: u64, ptr: u64) -> R<Vec<u8>> {
        if len == u64::MAX {
            let v = match self.reg(ptr) {
                Some(v) => v.clone(),
                None => return err("InvalidRegisterId"),
            };
            self.charge(fee::RR_BASE + fee::RR_BYTE * v.len() as u64)?;
            Ok(v)
        } else {
            self.mem_read(ptr, len)
        }
    }
    fn utf8(&mut self, len: u64, ptr: u64) -> R<String> {
        let b = if len == u64::MAX {
            let mut v = vec![];
            let size = self.mem.data_size();
            let mut p = ptr;
            loop {
                if p >= size {
                    return err("MemoryAccessViolation");
                }
                let c = unsafe { *self.mem.data_ptr().add(p as usize) };
                if c == 0 {
                    break;
                }
                v.push(c);
                p += 1;
            }
            v
        } else {
            self.mem_read(ptr, len)?
        };
        self.charge(fee::UTF8_BASE + fee::UTF8_BYTE * b.len() as u64)?;
        String::from_utf8(b).or_else(|_| err("BadUTF8"))
    }
    fn u128(&mut self, ptr: u64) -> R<u128> {
        let b = self.mem_read(ptr, 16)?;
        let mut a = [0u8; 16];
        a.copy_from_slice(&b);
        Ok(u128::from_le_bytes(a))
    }
    fn account(&mut self, len: u64, ptr: u64) -> R<String> {
        let b = self.bytes(len, ptr)?;
        let s = String::from_utf8(b).or_else(|_| err("BadUTF8"))?;
        if !valid_account(&s) {
            return err("InvalidAccountId");
        }
        Ok(s)
    }
    fn no_view(&self, what: &str) -> R<()> {
        if self.inp.view {
            return err(format!("ProhibitedInView: {}", what));
        }
        Ok(())
    }
    fn deps_of(&self, p: u64) -> R<Vec<usize>> {
        match self.promises.get(p as usize) {
            None => err("InvalidPromiseIndex"),
            Some(Prom::Receipt(i)) => Ok(vec![*i]),
            Some(Prom::And(v)) => Ok(v.clone()),
        }
    }
    fn new_receipt(&mut self, receiver: String, deps: Vec<usize>) -> R<u64> {
        self.charge(fee::RECEIPT.0 + fee::DATA * deps.len() as u64)?;
        self.reserve(fee::RECEIPT.1)?;
        self.receipts.push(NewReceipt { receiver, deps, actions: vec![] });
        self.promises.push(Prom::Receipt(self.receipts.len() - 1));
        Ok(self.promises.len() as u64 - 1)
    }
    fn batch_of(&self, p: u64) -> R<usize> {
        match self.promises.get(p as usize) {
            None => err("InvalidPromiseIndex"),
            Some(Prom::Receipt(i)) => Ok(*i),
            Some(Prom::And(_)) => err("CannotAppendActionToJointPromise"),
        }
    }
    fn add_action(&mut self, p: u64, a: Action, f: (u64, u64)) -> R<()> {
        let i = self.batch_of(p)?;
        self.charge(f.0)?;
        self.reserve(f.1)?;
        self.receipts[i].actions.push(a);
        Ok(())
    }
    fn take(&mut self, amount: u128) -> R<()> {
        match self.balance.checked_sub(amount) {
            Some(b) => {
                self.balance = b;
                Ok(())
            }
            None => err("BalanceExceeded"),
        }
    }
    fn call_action(&mut self, p: u64, method: Vec<u8>, args: Vec<u8>, amount: u128, gas: u64) -> R<()> {
        let i = self.batch_of(p)?;
        let method = String::from_utf8(method).or_else(|_| err("BadUTF8"))?;
        if method.is_empty() {
            return err("EmptyMethodName");
        }
        let n = (method.len() + args.len()) as u64;
        self.charge(fee::CALL.0 + fee::CALL_BYTE.0 * n)?;
        self.reserve((fee::CALL.1 + fee::CALL_BYTE.1 * n).saturating_add(gas))?;
        self.take(amount)?;
        self.receipts[i].actions.push(Action::Call { method, args: args.into(), gas, deposit: amount });
        Ok(())
    }
    fn usage(&self) -> u64 {
        self.inp.base_usage + storage_usage(&self.storage)
    }
}

pub fn storage_usage(s: &Storage) -> u64 {
    s.iter().map(|(k, v)| 40 + k.len() as u64 + v.len() as u64).sum()
}

pub fn valid_account(s: &str) -> bool {
    if s.len() < 2 || s.len() > 64 {
        return false;
    }
    let mut sep = true;
    for c in s.bytes() {
        let is_sep = match c {
            b'a'..=b'z' | b'0'..=b'9' => false,
            b'-' | b'_' | b'.' => true,
            _ => return false,
        };
        if is_sep && sep {
            return false;
        }
        sep = is_sep;
    }
    !sep
}

// ------------------------------------------------------------------------------------- host calls

macro_rules! host {
    ($c:ident; $body:block) => {{
        let $c = ctx();
        $c.charge(fee::BASE)?;
        let r = (|| -> R<_> { $body })()?;
        ctx().check_gas()?;
        Ok(r)
    }};
}

fn read_register(id: u64, ptr: u64) -> R<()> {
    host!(c; {
        let v = match c.reg(id) { Some(v) => v.clone(), None => return err("InvalidRegisterId") };
        c.charge(fee::RR_BASE + fee::RR_BYTE * v.len() as u64)?;
        c.mem_write(ptr, &v)
    })
}
fn register_len(id: u64) -> R<u64> {
    host!(c; { Ok(c.reg(id).map_or(u64::MAX, |v| v.len() as u64)) })
}
fn current_account_id(r: u64) -> R<()> {
    host!(c; { let v = c.inp.current.as_bytes().to_vec(); c.set_reg(r, v) })
}
fn signer_account_id(r: u64) -> R<()> {
    host!(c; { c.no_view("signer_account_id")?; let v = c.inp.signer.as_bytes().to_vec(); c.set_reg(r, v) })
}
fn signer_account_pk(r: u64) -> R<()> {
    host!(c; { c.no_view("signer_account_pk")?; let v = c.inp.signer_pk.to_vec(); c.set_reg(r, v) })
}
fn predecessor_account_id(r: u64) -> R<()> {
    host!(c; { c.no_view("predecessor_account_id")?; let v = c.inp.predecessor.as_bytes().to_vec(); c.set_reg(r, v) })
}
fn input(r: u64) -> R<()> {
    host!(c; { let v = c.inp.input.to_vec(); c.set_reg(r, v) })
}
fn block_index() -> R<u64> {
    host!(c; { Ok(c.inp.block_index) })
}
fn block_timestamp() -> R<u64> {
    host!(c; { Ok(c.inp.timestamp) })
}
fn epoch_height() -> R<u64> {
    host!(c; { Ok(c.inp.epoch) })
}
fn storage_usage_h() -> R<u64> {
    host!(c; { Ok(c.usage()) })
}
fn account_balance(p: u64) -> R<()> {
    host!(c; { let v = c.balance.to_le_bytes(); c.mem_write(p, &v) })
}
fn account_locked_balance(p: u64) -> R<()> {
    host!(c; { let v = c.inp.locked.to_le_bytes(); c.mem_write(p, &v) })
}
fn attached_deposit(p: u64) -> R<()> {
    host!(c; { c.no_view("attached_deposit")?; let v = c.inp.attached.to_le_bytes(); c.mem_write(p, &v) })
}
fn prepaid_gas() -> R<u64> {
    host!(c; { c.no_view("prepaid_gas")?; Ok(c.inp.gas) })
}
fn used_gas() -> R<u64> {
    host!(c; { c.no_view("used_gas")?; Ok(c.used()) })
}
fn validator_stake(len: u64, ptr: u64, out: u64) -> R<()> {
    host!(c; {
        c.charge(fee::VAL)?;
        let a = c.account(len, ptr)?;
        let s = c.inp.validators.get(&a).copied().unwrap_or(0);
        c.mem_write(out, &s.to_le_bytes())
    })
}
fn validator_total_stake(out: u64) -> R<()> {
    host!(c; {
        c.charge(fee::VAL)?;
        let s: u128 = c.inp.validators.values().sum();
        c.mem_write(out, &s.to_le_bytes())
    })
}
fn random_seed(r: u64) -> R<()> {
    host!(c; { c.set_reg(r, vec![7u8; 32]) })
}
fn sha256(len: u64, ptr: u64, r: u64) -> R<()> {
    host!(c; {
        let b = c.bytes(len, ptr)?;
        c.charge(fee::SHA_BASE + fee::SHA_BYTE * b.len() as u64)?;
        let h = Sha256::digest(&b).to_vec();
        c.set_reg(r, h)
    })
}
fn keccak(_: u64, _: u64, _: u64) -> R<()> {
    err("keccak is not provided by this runtime")
}
fn value_return(len: u64, ptr: u64) -> R<()> {
    host!(c; { let b = c.bytes(len, ptr)?; c.ret = Ret::Value(b.into()); Ok(()) })
}
fn panic_() -> R<()> {
    err("GuestPanic: explicit guest panic")
}
fn panic_utf8(len: u64, ptr: u64) -> R<()> {
    let c = ctx();
    let s = c.utf8(len, ptr)?;
    err(format!("GuestPanic: {}", s))
}
fn log_utf8(len: u64, ptr: u64) -> R<()> {
    host!(c; {
        let s = c.utf8(len, ptr)?;
        c.charge(fee::LOG_BASE + fee::LOG_BYTE * s.len() as u64)?;
        if c.logs.len() >= 100 { return err("NumberOfLogsExceeded"); }
        c.logs.push(s);
        Ok(())
    })
}
fn log_utf16(_: u64, _: u64) -> R<()> {
    host!(c; { c.logs.push("utf16".into()); Ok(()) })
}
fn storage_write(kl: u64, kp: u64, vl: u64, vp: u64, r: u64) -> R<u64> {
    host!(c; {
        c.no_view("storage_write")?;
        let k = c.bytes(kl, kp)?;
        let v = c.bytes(vl, vp)?;
        c.charge(fee::SW_BASE + fee::TRIE + fee::SW_KEY * k.len() as u64 + fee::SW_VAL * v.len() as u64)?;
        c.dirty = true;
        match c.storage.insert(k.into(), v.into()) {
            Some(old) => {
                c.charge(fee::SW_EV * old.len() as u64)?;
                c.set_reg(r, old.to_vec())?;
                Ok(1)
            }
            None => Ok(0),
        }
    })
}
fn storage_read(kl: u64, kp: u64, r: u64) -> R<u64> {
    host!(c; {
        let k = c.bytes(kl, kp)?;
        c.charge(fee::SR_BASE + fee::TRIE + fee::SR_KEY * k.len() as u64)?;
        match c.storage.get(&k[..]).cloned() {
            Some(v) => {
                c.charge(fee::SR_VAL * v.len() as u64)?;
                c.set_reg(r, v.to_vec())?;
                Ok(1)
            }
            None => Ok(0),
        }
    })
}
fn storage_remove(kl: u64, kp: u64, r: u64) -> R<u64> {
    host!(c; {
        c.no_view("storage_remove")?;
        let k = c.bytes(kl, kp)?;
        c.charge(fee::SD_BASE + fee::TRIE + fee::SD_KEY * k.len() as u64)?;
        c.dirty = true;
        match c.storage.remove(&k[..]) {
            Some(v) => {
                c.charge(fee::SD_VAL * v.len() as u64)?;
                c.set_reg(r, v.to_vec())?;
                Ok(1)
            }
            None => Ok(0),
        }
    })
}
fn storage_has_key(kl: u64, kp: u64) -> R<u64> {
    host!(c; {
        let k = c.bytes(kl, kp)?;
        c.charge(fee::SH_BASE + fee::TRIE + fee::SH_KEY * k.len() as u64)?;
        Ok(c.storage.contains_key(&k[..]) as u64)
    })
}
fn promise_results_count() -> R<u64> {
    host!(c; { c.no_view("promise_results_count")?; Ok(c.inp.results.len() as u64) })
}
fn promise_result(i: u64, r: u64) -> R<u64> {
    host!(c; {
        c.no_view("promise_result")?;
        match c.inp.results.get(i as usize) {
            None => err("InvalidPromiseResultIndex"),
            Some(PromiseResult::Ok(b)) => { let b = b.to_vec(); c.set_reg(r, b)?; Ok(1) }
            Some(PromiseResult::Failed) => Ok(2),
        }
    })
}
fn promise_return(p: u64) -> R<()> {
    host!(c; {
        c.no_view("promise_return")?;
        c.charge(fee::RET)?;
        match c.promises.get(p as usize) {
            Some(Prom::Receipt(i)) => { c.ret = Ret::Receipt(*i); Ok(()) }
            Some(Prom::And(_)) => err("CannotReturnJointPromise"),
            None => err("InvalidPromiseIndex"),
        }
    })
}
fn promise_and(ptr: u64, n: u64) -> R<u64> {
    host!(c; {
        c.no_view("promise_and")?;
        c.charge(fee::AND_BASE + fee::AND_PER * n)?;
        let b = c.mem_read(ptr, n * 8)?;
        let mut deps = vec![];
        for ch in b.chunks(8) {
            let mut a = [0u8; 8];
            a.copy_from_slice(ch);
            deps.extend(c.deps_of(u64::from_le_bytes(a))?);
        }
        c.promises.push(Prom::And(deps));
        Ok(c.promises.len() as u64 - 1)
    })
}
fn promise_batch_create(len: u64, ptr: u64) -> R<u64> {
    host!(c; {
        c.no_view("promise_batch_create")?;
        let a = c.account(len, ptr)?;
        c.new_receipt(a, vec![])
    })
}
fn promise_batch_then(p: u64, len: u64, ptr: u64) -> R<u64> {
    host!(c; {
        c.no_view("promise_batch_then")?;
        let a = c.account(len, ptr)?;
        let d = c.deps_of(p)?;
        c.new_receipt(a, d)
    })
}
#[allow(clippy::too_many_arguments)]
fn promise_create(al: u64, ap: u64, ml: u64, mp: u64, dl: u64, dp: u64, amt: u64, gas: u64) -> R<u64> {
    let p = promise_batch_create(al, ap)?;
    promise_batch_action_function_call(p, ml, mp, dl, dp, amt, gas)?;
    Ok(p)
}
#[allow(clippy::too_many_arguments)]
fn promise_then(p: u64, al: u64, ap: u64, ml: u64, mp: u64, dl: u64, dp: u64, amt: u64, gas: u64) -> R<u64> {
    let p = promise_batch_then(p, al, ap)?;
    promise_batch_action_function_call(p, ml, mp, dl, dp, amt, gas)?;
    Ok(p)
}
fn promise_batch_action_function_call(p: u64, ml: u64, mp: u64, dl: u64, dp: u64, amt: u64, gas: u64) -> R<()> {
    host!(c; {
        c.no_view("promise_batch_action_function_call")?;
        let amount = c.u128(amt)?;
        let m = c.bytes(ml, mp)?;
        let a = c.bytes(dl, dp)?;
        c.call_action(p, m, a, amount, gas)
    })
}
fn promise_batch_action_create_account(p: u64) -> R<()> {
    host!(c; { c.no_view("create_account")?; c.add_action(p, Action::CreateAccount, fee::CREATE) })
}
fn promise_batch_action_deploy_contract(p: u64, l: u64, ptr: u64) -> R<()> {
    host!(c; {
        c.no_view("deploy_contract")?;
        let code = c.bytes(l, ptr)?;
        let n = code.len() as u64;
        c.add_action(p, Action::Deploy(code.into()),
            (fee::DEPLOY.0 + fee::DEPLOY_BYTE.0 * n, fee::DEPLOY.1 + fee::DEPLOY_BYTE.1 * n))
    })
}
fn promise_batch_action_transfer(p: u64, amt: u64) -> R<()> {
    host!(c; {
        c.no_view("transfer")?;
        let amount = c.u128(amt)?;
        c.batch_of(p)?;
        c.take(amount)?;
        c.add_action(p, Action::Transfer(amount), fee::TRANSFER)
    })
}
fn promise_batch_action_stake(p: u64, amt: u64, l: u64, ptr: u64) -> R<()> {
    host!(c; {
        c.no_view("stake")?;
        let amount = c.u128(amt)?;
        let pk = c.bytes(l, ptr)?;
        if !valid_pk(&pk) { return err("InvalidPublicKey"); }
        c.add_action(p, Action::Stake { amount, pk: pk.into() }, fee::STAKE)
    })
}
fn valid_pk(b: &[u8]) -> bool {
    (b.len() == 33 && b[0] == 0) || (b.len() == 65 && b[0] == 1)
}
fn promise_batch_action_add_key_with_full_access(p: u64, l: u64, ptr: u64, _nonce: u64) -> R<()> {
    host!(c; {
        c.no_view("add_key")?;
        let pk = c.bytes(l, ptr)?;
        if !valid_pk(&pk) { return err("InvalidPublicKey"); }
        c.add_action(p, Action::AddKey { pk: pk.into(), perm: KeyPerm::Full }, fee::ADDKEY)
    })
}
#[allow(clippy::too_many_arguments)]
fn promise_batch_action_add_key_with_function_call(p: u64, l: u64, ptr: u64, _nonce: u64, al: u64, rl: u64, rp: u64, ml: u64, mp: u64) -> R<()> {
    host!(c; {
        c.no_view("add_key")?;
        let pk = c.bytes(l, ptr)?;
        if !valid_pk(&pk) { return err("InvalidPublicKey"); }
        let allowance = c.u128(al)?;
        let receiver = c.account(rl, rp)?;
        let m = c.bytes(ml, mp)?;
        let m = String::from_utf8(m).or_else(|_| err("BadUTF8"))?;
        let methods: Vec<String> = if m.is_empty() { vec![] } else { m.split(',').map(|x| x.to_string()).collect() };
        if methods.iter().any(|x| x.is_empty()) { return err("EmptyMethodName"); }
        c.add_action(p, Action::AddKey { pk: pk.into(), perm: KeyPerm::Call { receiver, methods, allowance } }, fee::ADDKEY)
    })
}
fn promise_batch_action_delete_key(p: u64, l: u64, ptr: u64) -> R<()> {
    host!(c; {
        c.no_view("delete_key")?;
        let pk = c.bytes(l, ptr)?;
        if !valid_pk(&pk) { return err("InvalidPublicKey"); }
        c.add_action(p, Action::DeleteKey(pk.into()), fee::DELKEY)
    })
}
fn promise_batch_action_delete_account(p: u64, l: u64, ptr: u64) -> R<()> {
    host!(c; {
        c.no_view("delete_account")?;
        let a = c.account(l, ptr)?;
        c.add_action(p, Action::DeleteAccount(a), fee::DELACC)
    })
}

// ------------------------------------------------------------------------------------------ engine

pub struct Code {
    pub name: String,
    id: u64,
    pub bytes: Bytes,
    module: Module,
    imports: Table,
    compile_gas: u64,
}

/// Host functions by import index. The functions carry no environment (they use CTX), so they may be
/// shared between threads.
struct Table(Vec<Option<Export>>);
unsafe impl Send for Table {}
unsafe impl Sync for Table {}
impl Resolver for Table {
    fn resolve(&self, index: u32, _: &str, _: &str) -> Option<Export> {
        self.0.get(index as usize).cloned().flatten()
    }
}

/// An instance that is reset to its initial state after each call.
struct Live {
    inst: Instance,
    mem: Memory,
    gas: wasmer::Global,
    globals: Vec<(wasmer::Global, wasmer::Val)>,
    pool: Arc<crate::pool::PoolMemory>,
    image: (usize, Vec<u8>),
}
thread_local! {
    static POOL: std::cell::RefCell<std::collections::HashMap<u64, Vec<Live>>> = Default::default();
}
static NEXT_ID: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

pub fn store() -> Store {
    let mut c = Cranelift::default();
    c.opt_level(CraneliftOptLevel::Speed);
    c.push_middleware(Arc::new(Meter { idx: Default::default() }));
    Store::new_with_tunables(
        &JIT::new(c).engine(),
        crate::pool::PoolTunables(BaseTunables::for_target(&Target::default())),
    )
}

impl Code {
    fn fresh(&self) -> Live {
        let inst = match Instance::new(&self.module, &self.imports) {
            Ok(i) => i,
            Err(e) => panic!("cannot instantiate {}: {}", self.name, e),
        };
        let pool = crate::pool::LAST.with(|l| l.borrow_mut().take()).unwrap();
        let globals = inst
            .exports
            .iter()
            .globals()
            .filter(|(n, _)| n.starts_with("__global_"))
            .map(|(_, g)| (g.clone(), g.get()))
            .collect();
        Live {
            mem: inst.exports.get_memory("memory").unwrap().clone(),
            gas: inst.exports.get_global("__gas_left").unwrap().clone(),
            globals,
            image: pool.image(),
            pool,
            inst,
        }
    }

    pub fn new(name: &str, bytes: &[u8]) -> Result<Code, String> {
        // one engine per module: the metering middleware keeps the per-module global index
        let store = store();
        let module = Module::new(&store, bytes).map_err(|e| format!("{}: {}", name, e))?;
        let mut e = Exports::new();
        macro_rules! f {
            ($($n:ident),*) => { $( e.insert(stringify!($n), Function::new_native(&store, $n)); )* };
        }
        f!(
            read_register, register_len, current_account_id, signer_account_id, signer_account_pk,
            predecessor_account_id, input, block_index, block_timestamp, epoch_height,
            account_balance, account_locked_balance, attached_deposit, prepaid_gas, used_gas,
            validator_stake, validator_total_stake, random_seed, sha256, value_return, panic_utf8,
            log_utf8, log_utf16, storage_write, storage_read, storage_remove, storage_has_key,
            promise_results_count, promise_result, promise_return, promise_and,
            promise_batch_create, promise_batch_then, promise_create, promise_then,
            promise_batch_action_function_call, promise_batch_action_create_account,
            promise_batch_action_deploy_contract, promise_batch_action_transfer,
            promise_batch_action_stake, promise_batch_action_add_key_with_full_access,
            promise_batch_action_add_key_with_function_call, promise_batch_action_delete_key,
            promise_batch_action_delete_account
        );
        e.insert("storage_usage", Function::new_native(&store, storage_usage_h));
        e.insert("keccak256", Function::new_native(&store, keccak));
        e.insert("keccak512", Function::new_native(&store, keccak));
        e.insert("panic", Function::new_native(&store, panic_));
        let imports = Table(
            module
                .imports()
                .map(|i| {
                    if i.module() != "env" {
                        return None;
                    }
                    e.get_extern(i.name()).map(|x| x.to_export())
                })
                .collect(),
        );
        let compile_gas = fee::COMPILE_BASE + fee::COMPILE_BYTE * bytes.len() as u64;
        let id = NEXT_ID.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        Ok(Code { name: name.into(), id, bytes: bytes.into(), module, imports, compile_gas })
    }

    pub fn exports(&self) -> Vec<String> {
        let mut v: Vec<String> = self.module.exports().functions().map(|f| f.name().to_string()).collect();
        v.sort();
        v
    }

    pub fn run(&self, method: &str, inp: &Input, storage: &Arc<Storage>) -> Output {
        let fail = |e: String| Output {
            ret: Err(e),
            balance: inp.balance,
            storage: Storage::new(),
            receipts: vec![],
            logs: vec![],
            gas_used: 0,
            gas_burnt: 0,
        };
        let live = POOL
            .with(|p| p.borrow_mut().get_mut(&self.id).and_then(|v| v.pop()))
            .unwrap_or_else(|| self.fresh());
        let inst = &live.inst;
        let f = match inst.exports.get_function(method) {
            Ok(f) => f.clone(),
            Err(_) => {
                POOL.with(|p| p.borrow_mut().entry(self.id).or_default().push(live));
                return fail(format!("MethodNotFound: {}", method));
            }
        };
        let gas_left = live.gas.clone();
        let gas_start = inp.gas.min(MAX_BURNT) as i64;
        gas_left.set(wasmer::Val::I64(gas_start)).unwrap();
        let mut c = Ctx {
            inp,
            mem: live.mem.clone(),
            gas_left,
            gas_start,
            host_used: self.compile_gas,
            reserved: 0,
            regs: Vec::with_capacity(8),
            storage: (**storage).clone(),
            storage0: storage.clone(),
            dirty: false,
            balance: inp.balance,
            receipts: vec![],
            promises: vec![],
            ret: Ret::None,
            logs: vec![],
        };
        CTX.with(|p| p.set(&mut c as *mut Ctx as *mut ()));
        let r = f.call(&[]);
        CTX.with(|p| p.set(std::ptr::null_mut()));
        let _ = &c.storage0;
        let used = c.used();
        let mut ret = match r {
            Ok(_) => Ok(std::mem::replace(&mut c.ret, Ret::None)),
            Err(e) => {
                if c.wasm_used() > c.gas_start as u64 {
                    Err("Exceeded the prepaid gas.".to_string())
                } else {
                    Err(e.message())
                }
            }
        };
        if ret.is_ok() && used > inp.gas {
            ret = Err("Exceeded the prepaid gas.".into());
        }
        for (g, v) in &live.globals {
            g.set(v.clone()).unwrap();
        }
        live.pool.reset(&live.image);
        POOL.with(|p| p.borrow_mut().entry(self.id).or_default().push(live));
        Output {
            ret,
            balance: c.balance,
            storage: c.storage,
            receipts: c.receipts,
            logs: c.logs,
            gas_used: used.min(inp.gas),
            gas_burnt: used - c.reserved.min(used),
        }
    }
}
