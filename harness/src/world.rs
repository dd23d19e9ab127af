//! The world a scenario runs in: addresses, an in-memory database with fault injection, and
//! recording implementations of the two external environments.
use alloy_primitives::{address, keccak256, Address, Bytes, B256, U256};
use mega_evm::{OracleEnv, SaltEnv};
use revm::{
    bytecode::Bytecode,
    primitives::KECCAK_EMPTY,
    state::{AccountInfo, EvmState},
    Database, DatabaseCommit,
};
use serde::{Deserialize, Serialize};
use std::{
    cell::{Cell, RefCell},
    collections::{BTreeMap, HashMap},
    fmt,
    rc::Rc,
};

pub const SYSTEM: Address = address!("A887dCB9D5f39Ef79272801d05Abdf707CFBbD1d");
pub const ORACLE: Address = address!("6342000000000000000000000000000000000001");
pub const TSORACLE: Address = address!("6342000000000000000000000000000000000002");
pub const KEYLESS: Address = address!("6342000000000000000000000000000000000003");
pub const L1BLOCK: Address = address!("4200000000000000000000000000000000000015");
pub const COINBASE: Address = address!("c01ba5e0000000000000000000000000000000c0");

/// Symbolic addresses used by generated scenarios.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Ref {
    /// Externally owned account.
    E(u8),
    /// Contract.
    C(u8),
    /// Account with an EIP-7702 delegation.
    D(u8),
    /// Address with no account.
    N(u8),
    /// Precompile (1..=0x11, 0x12 stands for 0x100).
    P(u8),
    /// Address created by contract `C(i)` with CREATE at nonce `j`.
    X(u8, u8),
    Oracle,
    TsOracle,
    Keyless,
    System,
    Coinbase,
}

pub fn addr(r: Ref) -> Address {
    fn tag(t: u8, i: u8) -> Address {
        let mut b = [0u8; 20];
        b[0] = t;
        b[10] = 0x5a;
        b[18] = i.wrapping_mul(7) ^ t;
        b[19] = i.wrapping_mul(13).wrapping_add(t);
        Address::from(b)
    }
    match r {
        Ref::E(i) => tag(0xe0, i),
        Ref::C(i) => tag(0xcc, i),
        Ref::D(i) => tag(0xdd, i),
        Ref::N(i) => tag(0x99, i),
        Ref::P(i) => {
            let mut b = [0u8; 20];
            if i == 0x12 {
                b[18] = 1;
            } else {
                b[19] = i;
            }
            Address::from(b)
        }
        Ref::X(i, j) => addr(Ref::C(i)).create(j as u64),
        Ref::Oracle => ORACLE,
        Ref::TsOracle => TSORACLE,
        Ref::Keyless => KEYLESS,
        Ref::System => SYSTEM,
        Ref::Coinbase => COINBASE,
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct DbErr(pub String);
impl fmt::Display for DbErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl std::error::Error for DbErr {}
impl revm::database_interface::DBErrorMarker for DbErr {}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Acc {
    pub balance: U256,
    pub nonce: u64,
    pub code: Bytes,
    pub storage: BTreeMap<U256, U256>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Read {
    Basic(Address),
    Slot(Address, U256),
    Code(B256),
    Hash(u64),
}

#[derive(Clone, Debug, Default)]
pub struct MemDb {
    pub accounts: BTreeMap<Address, Acc>,
    /// Whether `basic` carries the bytecode along.
    pub inline_code: bool,
    /// Whether block hashes are those of revm's empty database.
    pub text_hashes: bool,
    /// Whether missing accounts are reported as empty ones instead of absent.
    pub empties: bool,
    pub codes: HashMap<B256, Bytecode>,
    /// Fail the n-th read (counting down), if any.
    pub fail_at: Rc<Cell<Option<u64>>>,
    pub failed: Rc<Cell<bool>>,
    pub reads: Rc<Cell<u64>>,
    pub trace: Option<Rc<RefCell<Vec<Read>>>>,
}

pub fn mk_code(code: &Bytes) -> Bytecode {
    Bytecode::new_raw_checked(code.clone()).unwrap_or_else(|_| Bytecode::new_legacy(code.clone()))
}

impl MemDb {
    pub fn set(&mut self, a: Address, acc: Acc) {
        if !acc.code.is_empty() {
            self.codes.insert(keccak256(&acc.code), mk_code(&acc.code));
        }
        self.accounts.insert(a, acc);
    }
    /// A private copy that shares no counters with the original.
    pub fn detach(&self) -> Self {
        let mut d = self.clone();
        d.fail_at = Rc::new(Cell::new(None));
        d.failed = Rc::new(Cell::new(false));
        d.reads = Rc::new(Cell::new(0));
        d.trace = None;
        d
    }
    fn tick(&self, what: Read) -> Result<(), DbErr> {
        self.reads.set(self.reads.get() + 1);
        if let Some(t) = &self.trace {
            t.borrow_mut().push(what.clone());
        }
        if let Some(n) = self.fail_at.get() {
            if n == 0 {
                self.fail_at.set(None);
                self.failed.set(true);
                return Err(DbErr(format!("injected database failure")));
            }
            self.fail_at.set(Some(n - 1));
        }
        Ok(())
    }
    pub fn total(&self) -> U256 {
        self.accounts.values().fold(U256::ZERO, |s, a| s.wrapping_add(a.balance))
    }
    pub fn apply(&mut self, state: &EvmState) {
        for (a, acc) in state {
            if !acc.is_touched() {
                continue;
            }
            if acc.is_selfdestructed() {
                self.accounts.remove(a);
                continue;
            }
            let entry = self.accounts.entry(*a).or_default();
            if acc.is_created() {
                entry.storage.clear();
            }
            entry.balance = acc.info.balance;
            entry.nonce = acc.info.nonce;
            if acc.info.code_hash == KECCAK_EMPTY {
                entry.code = Bytes::new();
            } else if let Some(c) = &acc.info.code {
                entry.code = c.original_bytes();
                self.codes.insert(acc.info.code_hash, c.clone());
            }
            for (k, v) in &acc.storage {
                if v.present_value.is_zero() {
                    entry.storage.remove(k);
                } else {
                    entry.storage.insert(*k, v.present_value);
                }
            }
            if entry.balance.is_zero() && entry.nonce == 0 && entry.code.is_empty() {
                self.accounts.remove(a);
            }
        }
    }
}

impl Database for MemDb {
    type Error = DbErr;
    fn basic(&mut self, a: Address) -> Result<Option<AccountInfo>, DbErr> {
        self.tick(Read::Basic(a))?;
        if self.empties && !self.accounts.contains_key(&a) {
            return Ok(Some(AccountInfo::default()));
        }
        Ok(self.accounts.get(&a).map(|x| {
            let code_hash = if x.code.is_empty() { KECCAK_EMPTY } else { keccak256(&x.code) };
            let code = if x.code.is_empty() {
                if self.inline_code { Some(Bytecode::default()) } else { None }
            } else if self.inline_code {
                Some(self.codes.get(&code_hash).cloned().unwrap_or_else(|| mk_code(&x.code)))
            } else {
                None
            };
            AccountInfo { balance: x.balance, nonce: x.nonce, code_hash, code }
        }))
    }
    fn code_by_hash(&mut self, h: B256) -> Result<Bytecode, DbErr> {
        self.tick(Read::Code(h))?;
        if h == KECCAK_EMPTY {
            return Ok(Bytecode::default());
        }
        self.codes.get(&h).cloned().ok_or_else(|| DbErr(format!("unknown code hash {h}")))
    }
    fn storage(&mut self, a: Address, k: U256) -> Result<U256, DbErr> {
        self.tick(Read::Slot(a, k))?;
        Ok(self.accounts.get(&a).and_then(|x| x.storage.get(&k).copied()).unwrap_or_default())
    }
    fn block_hash(&mut self, n: u64) -> Result<B256, DbErr> {
        self.tick(Read::Hash(n))?;
        Ok(if self.text_hashes { keccak256(n.to_string()) } else { keccak256(n.to_be_bytes()) })
    }
}
impl DatabaseCommit for MemDb {
    fn commit(&mut self, changes: revm::primitives::HashMap<Address, revm::state::Account>) {
        self.apply(&changes);
    }
}

pub const N_BUCKETS: u32 = 32;
pub fn bucket_of_account(a: Address) -> u32 {
    (a[19] as u32 ^ (a[18] as u32) << 1) % (N_BUCKETS / 2)
}
pub fn bucket_of_slot(a: Address, k: U256) -> u32 {
    let kb = k.to_be_bytes::<32>();
    N_BUCKETS / 2 + (a[19] as u32 + kb[31] as u32 * 3 + kb[0] as u32) % (N_BUCKETS / 2)
}

#[derive(Debug, Clone, Default)]
pub struct Salt {
    /// Capacity of each bucket.
    pub caps: Rc<RefCell<Vec<u64>>>,
    pub queries: Rc<RefCell<Vec<u32>>>,
    pub fail_at: Rc<Cell<Option<u64>>>,
    pub failed: Rc<Cell<bool>>,
}
impl Salt {
    pub fn new(mults: &[u64]) -> Self {
        let caps = (0..N_BUCKETS as usize)
            .map(|i| if mults.is_empty() { 256 } else { mults[i % mults.len()] })
            .collect();
        Self { caps: Rc::new(RefCell::new(caps)), ..Default::default() }
    }
}
impl SaltEnv for Salt {
    type Error = DbErr;
    fn get_bucket_capacity(&self, id: u32) -> Result<u64, DbErr> {
        self.queries.borrow_mut().push(id);
        if let Some(n) = self.fail_at.get() {
            if n == 0 {
                self.fail_at.set(None);
                self.failed.set(true);
                return Err(DbErr("injected salt failure".into()));
            }
            self.fail_at.set(Some(n - 1));
        }
        let caps = self.caps.borrow();
        Ok(caps[id as usize % caps.len()])
    }
    fn bucket_id_for_account(a: Address) -> u32 {
        bucket_of_account(a)
    }
    fn bucket_id_for_slot(a: Address, k: U256) -> u32 {
        bucket_of_slot(a, k)
    }
}

pub type Hint = (Address, B256, Bytes);

#[derive(Debug, Clone, Default)]
pub struct Orc {
    pub values: Rc<BTreeMap<U256, U256>>,
    pub hints: Rc<RefCell<Vec<Hint>>>,
    pub queries: Rc<RefCell<Vec<U256>>>,
}
impl OracleEnv for Orc {
    fn get_oracle_storage(&self, slot: U256) -> Option<U256> {
        self.queries.borrow_mut().push(slot);
        self.values.get(&slot).copied()
    }
    fn on_hint(&self, from: Address, topic: B256, data: Bytes) {
        self.hints.borrow_mut().push((from, topic, data));
    }
}
