//! Scenario description (what the generators produce, what replay files contain) and its
//! translation to bytecode, accounts and transactions.
use crate::world::*;
use alloy_primitives::{Address, Bytes, TxKind, B256, U256};
use mega_evm::{MegaSpecId, MegaTransaction};
use op_revm::transaction::deposit::DepositTransactionParts;
use revm::{
    bytecode::opcode as op,
    context::{BlockEnv, TxEnv},
    context_interface::{
        either::Either,
        transaction::{
            AccessList, AccessListItem, Authorization, RecoveredAuthority, RecoveredAuthorization,
        },
    },
};
use serde::{Deserialize, Serialize};

pub const SPECS: [MegaSpecId; 7] = [
    MegaSpecId::EQUIVALENCE,
    MegaSpecId::MINI_REX,
    MegaSpecId::REX,
    MegaSpecId::REX1,
    MegaSpecId::REX2,
    MegaSpecId::REX3,
    MegaSpecId::REX4,
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Val {
    K(u64),
    /// A power of 2^64.
    Wide(u8),
    /// All-ones word.
    Max,
    Gas,
    Env(u8),
    Caller,
    CallValue,
    Data(u8),
    Slot(u8),
    Bal(Ref),
    RetSize,
}

/// An amount of ether or a word: from 2^63 on it stands for a number whose lowest 64 bits are zero.
pub fn amount(v: u64) -> U256 {
    if v >> 63 == 0 {
        U256::from(v)
    } else {
        U256::from(v & 0xffff) << (64 + (v >> 16 & 63) as usize)
    }
}

/// A byte standing for a price or value: from 200 on a multiple of 2^64.
pub fn price(v: u8) -> u128 {
    if v < 200 {
        v as u128
    } else {
        (v as u128 - 199) << 64
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Inp {
    /// Memory as it is.
    Mem(u16),
    /// These bytes.
    Data(Vec<u8>),
    /// `sendHint(topic, data)`; the flag truncates the encoding by one byte.
    Hint(u8, u8, bool),
    /// Well-formed (or nearly) input of that precompile, in a variant.
    Pre(u8, u16),
    /// `keylessDeploy(...)`.
    Keyless(Box<Keyless>),
}

/// A pre-signed creation transaction handed to the keyless deployment contract, and the state its
/// signer is in.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Keyless {
    pub init: Init,
    pub value: u8,
    pub price: u8,
    /// Gas limit in the signed transaction.
    pub gas: u32,
    /// Gas limit override.
    pub over: u64,
    /// Signed nonce.
    pub nonce: u8,
    /// Signature bytes; even: v = 27.
    pub sig: u8,
    /// 0: well-formed; otherwise how it is not.
    pub bad: u8,
    /// 0: a lot, 1: exactly what is needed, 2: one less, 3: nothing.
    pub fund: u8,
    /// Nonce of the signer.
    pub signer_nonce: u8,
    /// What is at the deployment address: 0 nothing, 1 ether, 2 code, 3 nonce, 4 code
    /// without a nonce.
    pub at: u8,
    /// 1: signer in the access list, 2: deployment address in the access list, 4: sent by the signer,
    /// 8: coinbase in the access list.
    pub bits: u8,
}

alloy_sol_types::sol! {
    function keylessDeploy(bytes keylessDeploymentTransaction, uint256 gasLimitOverride)
        returns (uint64 gasUsed, address deployedAddress, bytes errorData);
}

impl Keyless {
    /// The encoded transaction.
    pub fn raw(&self) -> Vec<u8> {
        use alloy_rlp::Encodable;
        let mut body = vec![];
        (self.nonce as u64).encode(&mut body);
        price(self.price).encode(&mut body);
        (self.gas as u64).encode(&mut body);
        if self.bad == 1 {
            Address::repeat_byte(0x77).encode(&mut body);
        } else {
            body.push(0x80);
        }
        price(self.value).encode(&mut body);
        Bytes::from(compile_init(&self.init)).encode(&mut body);
        let v = 27 + (self.sig & 1) as u64;
        match self.bad {
            2 => (v - 27 + 35 + 2 * CHAIN_ID).encode(&mut body),
            3 => (v + 2).encode(&mut body),
            4 => (v - 27).encode(&mut body),
            _ => v.encode(&mut body),
        }
        let r = match self.bad {
            5 => U256::ZERO,
            6 => U256::MAX,
            _ => U256::from_be_bytes([0x22 ^ (self.sig >> 1); 32]),
        };
        r.encode(&mut body);
        let s = if self.bad == 7 { U256::MAX >> 1 } else { U256::from_be_bytes([0x22; 32]) };
        s.encode(&mut body);
        let mut out = vec![];
        alloy_rlp::Header { list: true, payload_length: body.len() }.encode(&mut out);
        out.extend(body);
        match self.bad {
            8 => out.truncate(out.len() - 1),
            9 => out[0] = 0x02,
            10 => out.clear(),
            _ => {}
        }
        out
    }
    pub fn signer(&self) -> Option<Address> {
        use alloy_consensus::transaction::RlpEcdsaDecodableTx;
        let raw = self.raw();
        alloy_consensus::TxLegacy::rlp_decode_signed(&mut raw.as_slice()).ok()?.recover_signer().ok()
    }
    pub fn calldata(&self) -> Vec<u8> {
        use alloy_sol_types::SolCall;
        let mut over = U256::from(self.over);
        match self.bad {
            11 => over = U256::MAX,
            15 => over |= U256::from(1) << 64,
            _ => {}
        }
        let mut d = keylessDeployCall { keylessDeploymentTransaction: self.raw().into(), gasLimitOverride: over }.abi_encode();
        match self.bad {
            12 => d.truncate(d.len() - 33),
            13 => d[1] ^= 1,
            14 => d[8] = 1,
            _ => {}
        }
        d
    }
    fn provision(&self, db: &mut MemDb) {
        let Some(s) = self.signer() else { return };
        let need = U256::from(self.over) * U256::from(price(self.price)) + U256::from(price(self.value));
        let bal = match self.fund {
            0 => need + U256::from(1u64 << 60),
            1 => need,
            2 => need.saturating_sub(U256::from(1)),
            _ => U256::ZERO,
        };
        if !bal.is_zero() || self.signer_nonce > 0 {
            db.set(s, Acc { balance: bal, nonce: self.signer_nonce as u64, ..Default::default() });
        }
        let d = s.create(0);
        match self.at {
            1 => db.set(d, Acc { balance: U256::from(9), ..Default::default() }),
            2 => db.set(d, Acc { nonce: 1, code: Bytes::from(vec![0]), ..Default::default() }),
            3 => db.set(d, Acc { nonce: 1, ..Default::default() }),
            4 => db.set(d, Acc { code: Bytes::from(vec![0]), ..Default::default() }),
            _ => {}
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum CallGas {
    All,
    K(u32),
    Huge,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Call,
    CallCode,
    Delegate,
    Static,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rt {
    Empty,
    Zeros(u32),
    Ef,
    Prog(Vec<Stmt>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Init {
    pub ctor: Vec<Stmt>,
    pub rt: Rt,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Stmt {
    SStore(u8, Val),
    /// SSTORE with a full-width key.
    SStoreHi(u8, Val),
    SLoad(u8),
    TStore(u8, Val),
    /// Copies a transient slot to a storage slot.
    TLoad(u8, u8),
    Log(u8, u32),
    MStore(u16, Val),
    Keccak(u32),
    Env(u8),
    Acct(u8, Ref),
    /// EXTCODECOPY of n bytes.
    ExtCopy(Ref, u16),
    SelfBal,
    Call { kind: Kind, to: Ref, value: u64, gas: CallGas, inp: Inp, out: u16, keep: Option<u8> },
    Create { two: Option<u8>, value: u64, init: Box<Init>, keep: Option<u8>, unexpanded: bool },
    /// CREATE2 whose memory operand is taken from not yet allocated memory.
    CreateRaw { two: bool, off: u32, len: u32 },
    SelfDestruct(Ref),
    StoreGas(u8),
    Loop(u16, Vec<Stmt>),
    If(Val, Vec<Stmt>),
    /// EXP with an n-byte exponent.
    Exp(u8),
    Copy(u8, u16),
    /// Copies the return data buffer to memory.
    RetCopy,
    Return(u32),
    Revert(u32),
    Stop,
    Invalid,
    BadJump,
    Raw(Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Code {
    None,
    Prog(Vec<Stmt>),
    Raw(Vec<u8>),
    Delegate(Ref),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AccP {
    pub who: Ref,
    pub balance: u64,
    pub nonce: u64,
    pub code: Code,
    pub storage: Vec<(u8, u64)>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum TxT {
    Legacy,
    Acl,
    Dyn,
    SetCode,
    Deposit,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum GasP {
    /// Absolute gas limit.
    Abs(u64),
    /// Fraction (in 1/1024) of what the transaction needs when gas is plentiful.
    Rel(u16),
    /// That amount plus a signed offset.
    Off(i32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum To {
    Call(Ref),
    Create(Init),
    /// Create transaction with raw init code.
    CreateRaw(Vec<u8>),
    /// Create transaction with that many zero bytes of init code.
    CreateLen(u32),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct AuthP {
    pub authority: Option<Ref>,
    pub delegate: Ref,
    pub nonce_delta: u8,
    pub chain: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TxP {
    pub ty: TxT,
    pub caller: Ref,
    pub to: To,
    pub value: u64,
    pub gas: GasP,
    pub input: Inp,
    pub acl: Vec<(Ref, Vec<u8>)>,
    pub auths: Vec<AuthP>,
    pub nonce_delta: i8,
    pub fee: u8,
    pub tip: u8,
    pub mint: u64,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum LimP {
    Default,
    NoLimits,
    /// [data, kv, compute, growth, block-env, oracle]; 0 means the default of the spec.
    Abs([u64; 6]),
    /// For each dimension in the mask: the usage of transaction `tx` (without limits) times
    /// `milli`/1024 plus `off`; `det` likewise for the two detention limits.
    Rel { tx: u8, mask: u8, milli: u16, off: i8 },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Scenario {
    pub spec: u8,
    pub number: u64,
    pub timestamp: u64,
    pub basefee: u8,
    pub coinbase: Ref,
    pub l1fee: bool,
    pub inline_code: bool,
    pub mults: Vec<u64>,
    pub oracle: Vec<(u8, u64)>,
    pub accs: Vec<AccP>,
    pub lim: LimP,
    pub txs: Vec<TxP>,
    /// Block gas limit, if it matters.
    #[serde(default)]
    pub block_gas: Option<u64>,
}

impl Scenario {
    pub fn spec(&self) -> MegaSpecId {
        SPECS[self.spec as usize % 7]
    }
    pub fn block(&self) -> BlockEnv {
        BlockEnv {
            number: U256::from(self.number.max(1)),
            beneficiary: addr(self.coinbase),
            timestamp: U256::from(self.timestamp),
            gas_limit: self.block_gas.unwrap_or(1 << 44),
            basefee: self.basefee as u64,
            prevrandao: Some(B256::with_last_byte(7)),
            ..Default::default()
        }
    }
    pub fn db(&self) -> MemDb {
        let mut db = MemDb { inline_code: self.inline_code, ..Default::default() };
        for a in &self.accs {
            let code = compile_code(&a.code);
            let storage = a
                .storage
                .iter()
                .filter(|(_, v)| *v != 0)
                .map(|(k, v)| (slot_word(*k), amount(*v)))
                .collect();
            let mut acc = Acc {
                balance: amount(a.balance),
                nonce: a.nonce,
                code,
                storage,
            };
            if acc.nonce == 0 && acc.code.is_empty() {
                // storage without code or nonce does not occur on a real chain
                acc.storage.clear();
            }
            if acc.balance.is_zero() && acc.nonce == 0 && acc.code.is_empty() {
                continue;
            }
            db.set(addr(a.who), acc);
        }
        let mut l1 = Acc { nonce: 1, ..Default::default() };
        if self.l1fee {
            // base fee 1000, scalars packed for Ecotone, operator fee params in slot 8
            l1.storage.insert(U256::from(1), U256::from(1000));
            let mut w = [0u8; 32];
            w[16..20].copy_from_slice(&5227u32.to_be_bytes());
            w[20..24].copy_from_slice(&1014u32.to_be_bytes());
            l1.storage.insert(U256::from(3), U256::from_be_bytes(w));
            l1.storage.insert(U256::from(7), U256::from(500));
            let mut w = [0u8; 32];
            w[20..24].copy_from_slice(&1_000_000u32.to_be_bytes());
            w[24..32].copy_from_slice(&77u64.to_be_bytes());
            l1.storage.insert(U256::from(8), U256::from_be_bytes(w));
        }
        db.set(L1BLOCK, l1);
        for t in &self.txs {
            if let Inp::Keyless(k) = &t.input {
                k.provision(&mut db);
            }
        }
        db
    }
    pub fn oracle_values(&self) -> std::collections::BTreeMap<U256, U256> {
        self.oracle.iter().map(|(k, v)| (slot_word(*k), amount(*v))).collect()
    }
}

/// A storage slot: those from 0x80 on share the low bits of a small one and differ in the highest
/// or the middle bits.
pub fn slot_word(k: u8) -> U256 {
    let low = U256::from(k & 0x3f);
    match k >> 6 {
        0 | 1 => U256::from(k),
        2 => low | U256::from(1) << 64,
        _ => low | U256::from(k) << 248,
    }
}

pub fn compile_code(c: &Code) -> Bytes {
    match c {
        Code::None => Bytes::new(),
        Code::Prog(p) => compile(p),
        Code::Raw(r) => Bytes::from(r.clone()),
        Code::Delegate(r) => {
            let mut v = vec![0xef, 0x01, 0x00];
            v.extend_from_slice(addr(*r).as_slice());
            Bytes::from(v)
        }
    }
}

#[derive(Default)]
pub struct Asm {
    code: Vec<u8>,
    /// (position of a 3-byte immediate, data index)
    fix: Vec<(usize, usize)>,
    data: Vec<Vec<u8>>,
}

pub const ENV_OPS: [u8; 10] = [
    op::TIMESTAMP,
    op::NUMBER,
    op::COINBASE,
    op::DIFFICULTY,
    op::GASLIMIT,
    op::BASEFEE,
    op::BLOBBASEFEE,
    op::BLOCKHASH,
    op::BLOBHASH,
    op::CHAINID,
];

impl Asm {
    fn b(&mut self, x: u8) -> &mut Self {
        self.code.push(x);
        self
    }
    fn push(&mut self, v: u64) -> &mut Self {
        if v == 0 {
            return self.b(op::PUSH0);
        }
        let bytes = v.to_be_bytes();
        let skip = v.leading_zeros() as usize / 8;
        self.b(op::PUSH1 + (7 - skip) as u8);
        self.code.extend_from_slice(&bytes[skip..]);
        self
    }
    fn push_bytes(&mut self, v: &[u8]) -> &mut Self {
        self.b(op::PUSH1 + (v.len() - 1) as u8);
        self.code.extend_from_slice(v);
        self
    }
    fn push_slot(&mut self, k: u8) -> &mut Self {
        self.push_word(slot_word(k))
    }
    fn push_word(&mut self, v: U256) -> &mut Self {
        match u64::try_from(v) {
            Ok(v) => self.push(v),
            _ => {
                let b = v.to_be_bytes::<32>();
                let skip = v.leading_zeros() / 8;
                self.push_bytes(&b[skip..])
            }
        }
    }
    fn push_addr(&mut self, r: Ref) -> &mut Self {
        let a = addr(r);
        self.push_bytes(a.as_slice())
    }
    fn push_data_off(&mut self, d: usize) -> &mut Self {
        self.b(op::PUSH3);
        self.fix.push((self.code.len(), d));
        self.code.extend_from_slice(&[0; 3]);
        self
    }
    /// Copies `bytes` to memory offset 0 from the data section.
    fn blob(&mut self, bytes: Vec<u8>) -> usize {
        let n = bytes.len();
        self.data.push(bytes);
        let d = self.data.len() - 1;
        self.push(n as u64).push_data_off(d).b(op::PUSH0).b(op::CODECOPY);
        n
    }
    fn env(&mut self, e: u8) -> &mut Self {
        let o = ENV_OPS[e as usize % ENV_OPS.len()];
        match o {
            op::BLOCKHASH => {
                self.push(1 + e as u64 / ENV_OPS.len() as u64).b(op::NUMBER).b(op::SUB).b(o);
            }
            op::BLOBHASH => {
                self.b(op::PUSH0).b(o);
            }
            _ => {
                self.b(o);
            }
        }
        self
    }
    fn val(&mut self, v: &Val) -> &mut Self {
        match v {
            Val::K(k) => self.push(*k),
            Val::Max => self.b(op::PUSH0).b(op::NOT),
            Val::Wide(n) => self.push_word(U256::from(1) << (64 * (1 + *n as usize % 3))),
            Val::Gas => self.b(op::GAS),
            Val::Env(e) => self.env(*e),
            Val::Caller => self.b(op::CALLER),
            Val::CallValue => self.b(op::CALLVALUE),
            Val::Data(o) => self.push(*o as u64).b(op::CALLDATALOAD),
            Val::Slot(s) => self.push_slot(*s).b(op::SLOAD),
            Val::Bal(r) => self.push_addr(*r).b(op::BALANCE),
            Val::RetSize => self.b(op::RETURNDATASIZE),
        }
    }
    fn inp(&mut self, i: &Inp) -> usize {
        match i {
            Inp::Mem(n) => *n as usize,
            _ => {
                let b = inp_bytes(i);
                self.blob(b)
            }
        }
    }
    fn keep(&mut self, k: &Option<u8>) {
        match k {
            Some(s) => {
                self.push_slot(*s).b(op::SSTORE);
            }
            None => {
                self.b(op::POP);
            }
        }
    }
    pub fn stmts(&mut self, p: &[Stmt]) {
        for s in p {
            self.stmt(s);
        }
    }
    fn stmt(&mut self, s: &Stmt) {
        match s {
            Stmt::SStore(k, v) => {
                self.val(v).push_slot(*k).b(op::SSTORE);
            }
            Stmt::SStoreHi(k, v) => {
                let mut w = [0u8; 32];
                w[0] = *k | 0x80;
                w[31] = *k;
                self.val(v).push_bytes(&w).b(op::SSTORE);
            }
            Stmt::SLoad(k) => {
                self.push_slot(*k).b(op::SLOAD).b(op::POP);
            }
            Stmt::TStore(k, v) => {
                self.val(v).push_slot(*k).b(op::TSTORE);
            }
            Stmt::TLoad(k, d) => {
                self.push_slot(*k).b(op::TLOAD).push_slot(*d).b(op::SSTORE);
            }
            Stmt::Log(n, len) => {
                let n = *n % 5;
                for i in 0..n {
                    self.push(0x100 + i as u64);
                }
                self.push(*len as u64).b(op::PUSH0).b(op::LOG0 + n);
            }
            Stmt::MStore(o, v) => {
                self.val(v).push(*o as u64).b(op::MSTORE);
            }
            Stmt::Keccak(n) => {
                self.push(*n as u64).b(op::PUSH0).b(op::KECCAK256).b(op::POP);
            }
            Stmt::Env(e) => {
                self.env(*e).b(op::POP);
            }
            Stmt::Acct(k, r) => {
                let o = [op::BALANCE, op::EXTCODESIZE, op::EXTCODEHASH][*k as usize % 3];
                self.push_addr(*r).b(o).b(op::POP);
            }
            Stmt::ExtCopy(r, n) => {
                self.push(*n as u64).b(op::PUSH0).b(op::PUSH0).push_addr(*r).b(op::EXTCODECOPY);
            }
            Stmt::SelfBal => {
                self.b(op::SELFBALANCE).b(op::POP);
            }
            Stmt::Call { kind, to, value, gas, inp, out, keep } => {
                let n = self.inp(inp);
                self.push(*out as u64).b(op::PUSH0).push(n as u64).b(op::PUSH0);
                if matches!(kind, Kind::Call | Kind::CallCode) {
                    self.push_word(amount(*value));
                }
                self.push_addr(*to);
                match gas {
                    CallGas::All => self.b(op::GAS),
                    CallGas::K(k) => self.push(*k as u64),
                    CallGas::Huge => self.b(op::PUSH0).b(op::NOT),
                };
                self.b(match kind {
                    Kind::Call => op::CALL,
                    Kind::CallCode => op::CALLCODE,
                    Kind::Delegate => op::DELEGATECALL,
                    Kind::Static => op::STATICCALL,
                });
                self.keep(keep);
            }
            Stmt::Create { two, value, init, keep, unexpanded } => {
                let code = compile_init(init);
                let n = if *unexpanded && code.len() < 64 { 0 } else { self.blob(code) };
                if let Some(salt) = two {
                    self.push(*salt as u64);
                }
                self.push(n as u64).b(op::PUSH0).push_word(amount(*value));
                self.b(if two.is_some() { op::CREATE2 } else { op::CREATE });
                self.keep(keep);
            }
            Stmt::CreateRaw { two, off, len } => {
                if *two {
                    self.push(3);
                }
                self.push(*len as u64).push(*off as u64).b(op::PUSH0);
                self.b(if *two { op::CREATE2 } else { op::CREATE }).b(op::POP);
            }
            Stmt::SelfDestruct(r) => {
                self.push_addr(*r).b(op::SELFDESTRUCT);
            }
            Stmt::StoreGas(k) => {
                self.b(op::GAS).push_slot(*k).b(op::SSTORE);
            }
            Stmt::Loop(n, body) => {
                let n = (*n).max(1);
                self.push(n as u64);
                let at = self.code.len();
                self.b(op::JUMPDEST);
                self.stmts(body);
                self.push(1).b(op::SWAP1).b(op::SUB).b(op::DUP1);
                self.b(op::PUSH3);
                let a = (at as u32).to_be_bytes();
                self.code.extend_from_slice(&a[1..]);
                self.b(op::JUMPI).b(op::POP);
            }
            Stmt::If(v, body) => {
                self.val(v).b(op::ISZERO).b(op::PUSH3);
                let at = self.code.len();
                self.code.extend_from_slice(&[0; 3]);
                self.b(op::JUMPI);
                self.stmts(body);
                let here = (self.code.len() as u32).to_be_bytes();
                self.code[at..at + 3].copy_from_slice(&here[1..]);
                self.b(op::JUMPDEST);
            }
            Stmt::Exp(n) => {
                let n = (*n % 32) + 1;
                let w = vec![0xa5u8; n as usize];
                self.push_bytes(&w).push(3).b(op::EXP).b(op::POP);
            }
            Stmt::Copy(k, n) => match k % 3 {
                0 => {
                    self.push(*n as u64).b(op::PUSH0).b(op::PUSH0).b(op::CALLDATACOPY);
                }
                1 => {
                    self.push(*n as u64).b(op::PUSH0).b(op::PUSH0).b(op::CODECOPY);
                }
                _ => {
                    self.push(*n as u64).b(op::PUSH0).push(32).b(op::MCOPY);
                }
            },
            Stmt::RetCopy => {
                self.b(op::RETURNDATASIZE).b(op::PUSH0).b(op::PUSH0).b(op::RETURNDATACOPY);
            }
            Stmt::Return(n) => {
                self.push(*n as u64).b(op::PUSH0).b(op::RETURN);
            }
            Stmt::Revert(n) => {
                self.push(*n as u64).b(op::PUSH0).b(op::REVERT);
            }
            Stmt::Stop => {
                self.b(op::STOP);
            }
            Stmt::Invalid => {
                self.b(op::INVALID);
            }
            Stmt::BadJump => {
                self.b(op::PUSH0).b(op::JUMP);
            }
            Stmt::Raw(r) => {
                self.code.extend_from_slice(r);
            }
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        self.b(op::STOP);
        let fix = std::mem::take(&mut self.fix);
        let mut offs = vec![];
        for d in &self.data {
            offs.push(self.code.len());
            self.code.extend_from_slice(d);
        }
        for (at, d) in fix {
            let o = (offs[d] as u32).to_be_bytes();
            self.code[at..at + 3].copy_from_slice(&o[1..]);
        }
        self.code
    }
}

pub fn compile(p: &[Stmt]) -> Bytes {
    let mut a = Asm::default();
    a.stmts(p);
    Bytes::from(a.finish())
}

pub fn compile_init(i: &Init) -> Vec<u8> {
    let mut a = Asm::default();
    a.stmts(&i.ctor);
    match &i.rt {
        Rt::Empty => {
            a.b(op::PUSH0).b(op::PUSH0).b(op::RETURN);
        }
        Rt::Zeros(n) => {
            // runtime of n zero bytes taken from fresh memory
            a.push(*n as u64).push(0x2000).b(op::RETURN);
        }
        Rt::Ef => {
            let n = a.blob(vec![0xef, 0, 1]);
            a.push(n as u64).b(op::PUSH0).b(op::RETURN);
        }
        Rt::Prog(p) => {
            let code = compile(p).to_vec();
            let n = a.blob(code);
            a.push(n as u64).b(op::PUSH0).b(op::RETURN);
        }
    }
    a.finish()
}

fn pre_bytes(k: u8, v: u16) -> Vec<u8> {
    let word = |x: u64| -> [u8; 32] { alloy_primitives::U256::from(x).to_be_bytes() };
    match k {
        1 => {
            let mut out = alloy_primitives::hex!("18c547e4f7b0f325ad1e56f57e26c745b09a3e503d86e00e5255ff7f715d3d1c000000000000000000000000000000000000000000000000000000000000001c73b1693892219d736caba55bdb67216e485557ea6b6af75f37096c9aa6a5a75feeb940b1d03b21e36b0e47e79769f095fe2ab855bd91e3a38756b7d75a9c4549").to_vec();
            if v % 4 == 3 {
                out[70] ^= v as u8;
            }
            out
        }
        5 => {
            const L: [u64; 10] = [0, 1, 2, 31, 32, 33, 64, 200, 1024, 1025];
            let (b, e, m) = (L[v as usize % 10], L[v as usize / 10 % 10], L[v as usize / 100 % 10]);
            let mut out = [word(b), word(e), word(m)].concat();
            let fill = (v / 1000) as u8 + 1;
            out.extend((0..b + e + m).map(|i| fill.wrapping_mul(37).wrapping_add(i as u8)));
            out
        }
        6 => [word(1), word(2), word(1), word(2 + (v % 3 == 2) as u64)].concat(),
        7 => [word(1), word(2), word(v as u64)].concat(),
        8 => vec![0; if v % 2 == 0 { 192 * (v as usize % 5) } else { v as usize % 400 }],
        9 => {
            let mut out = vec![0u8; 213];
            out[2..4].copy_from_slice(&v.to_be_bytes());
            out[212] = (v % 3) as u8;
            out
        }
        0x0a => {
            let mut out = alloy_primitives::hex!("01e798154708fe7789429634053cbf9f99b619f9f084048927333fce637f549b73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff000000001522a4a7f34e1ea350ae07c29c96c7e79655aa926122e95fe69fcbd932ca49e98f59a8d2a1a625a17f3fea0fe5eb8c896db3764f3185481bc22f91b4aaffcca25f26936857bc3a7c2539ea8ec3a952b7a62ad71d14c5719385c0686f1871430475bf3a00f0aa3f7b8dd99a9abc2160744faf0070725e00b60ad9a026a15b1a8c").to_vec();
            if v % 5 == 4 {
                out[v as usize % 64] ^= 1;
            }
            out
        }
        _ => vec![v as u8; v as usize % 300],
    }
}

pub fn inp_bytes(i: &Inp) -> Vec<u8> {
    match i {
        Inp::Pre(k, v) => pre_bytes(*k, *v),
        Inp::Keyless(k) => k.calldata(),
        Inp::Mem(n) => (0..*n).map(|x| (x % 5) as u8).collect(),
        Inp::Data(d) => d.clone(),
        Inp::Hint(t, n, bad) => {
            use alloy_sol_types::SolCall;
            alloy_sol_types::sol! { function sendHint(bytes32 topic, bytes data); }
            let mut v = sendHintCall {
                topic: B256::repeat_byte(*t),
                data: vec![*t ^ 0x55; if *n < 200 { *n as usize } else { (*n as usize - 200) * 401 + 200 }].into(),
            }
            .abi_encode();
            if *bad {
                v.truncate(v.len() - 33.min(v.len()));
            }
            v
        }
    }
}

pub const CHAIN_ID: u64 = 6342;
pub const BIG_GAS: u64 = 2_000_000_000;

/// Builds the transaction as a node would hand it to the EVM. `nonce` is the sender's current
/// nonce, `gas` the resolved gas limit.
pub fn build_tx(t: &TxP, db: &MemDb, basefee: u64, gas: u64) -> MegaTransaction {
    let mut caller = addr(t.caller);
    let signer = match &t.input {
        Inp::Keyless(k) => k.signer().map(|s| (s, k.bits)),
        _ => None,
    };
    if let Some((s, b)) = signer {
        if b & 4 != 0 {
            caller = s;
        }
    }
    let nonce_now = db.accounts.get(&caller).map(|a| a.nonce).unwrap_or(0);
    let (kind, data) = match &t.to {
        To::Call(r) => (TxKind::Call(addr(*r)), inp_bytes(&t.input)),
        To::Create(i) => (TxKind::Create, compile_init(i)),
        To::CreateRaw(b) => (TxKind::Create, b.clone()),
        To::CreateLen(n) => (TxKind::Create, vec![0; (*n).min(2_000_000) as usize]),
    };
    let deposit = t.ty == TxT::Deposit;
    let fee = basefee as u128 + price(t.fee);
    let mut base = TxEnv {
        tx_type: match t.ty {
            TxT::Legacy => 0,
            TxT::Acl => 1,
            TxT::Dyn => 2,
            TxT::SetCode => 4,
            TxT::Deposit => 0x7e,
        },
        caller,
        gas_limit: gas,
        gas_price: if deposit { 0 } else { fee },
        kind,
        value: amount(t.value),
        data: data.into(),
        nonce: nonce_now.saturating_add_signed(t.nonce_delta as i64),
        chain_id: Some(CHAIN_ID),
        gas_priority_fee: if matches!(t.ty, TxT::Dyn | TxT::SetCode) {
            Some(price(t.tip).min(fee))
        } else {
            None
        },
        ..Default::default()
    };
    if deposit {
        base.nonce = 0;
        base.chain_id = None;
    }
    if !matches!(t.ty, TxT::Legacy | TxT::Deposit) {
        base.access_list = AccessList(
            t.acl
                .iter()
                .map(|(r, ks)| AccessListItem {
                    address: addr(*r),
                    storage_keys: ks.iter().map(|k| B256::from(slot_word(*k))).collect(),
                })
                .collect(),
        );
        if let Some((s, b)) = signer {
            for (bit, a) in [(1, s), (2, s.create(0)), (8, COINBASE)] {
                if b & bit != 0 {
                    base.access_list.0.push(AccessListItem { address: a, storage_keys: vec![B256::ZERO, B256::with_last_byte(1)] });
                }
            }
        }
    }
    if t.ty == TxT::SetCode {
        base.authorization_list = t
            .auths
            .iter()
            .map(|a| {
                let authority = a.authority.map(addr);
                let n = authority
                    .and_then(|x| db.accounts.get(&x))
                    .map(|x| x.nonce)
                    .unwrap_or(0);
                // the sender's nonce is bumped before authorizations are processed
                let n = if authority == Some(caller) { n.saturating_add(1) } else { n };
                let inner = Authorization {
                    chain_id: U256::from(match a.chain % 4 {
                        0 => 0,
                        3 => 99,
                        _ => CHAIN_ID,
                    }),
                    address: if a.delegate == Ref::N(255) { Address::ZERO } else { addr(a.delegate) },
                    nonce: n.saturating_add(a.nonce_delta as u64),
                };
                Either::Right(RecoveredAuthorization::new_unchecked(
                    inner,
                    match authority {
                        Some(x) => RecoveredAuthority::Valid(x),
                        None => RecoveredAuthority::Invalid,
                    },
                ))
            })
            .collect();
    }
    let mut tx = MegaTransaction::new(base);
    if deposit {
        tx.deposit = DepositTransactionParts {
            source_hash: B256::repeat_byte(0x11),
            mint: if t.mint == 0 { None } else { Some(amount(t.mint).saturating_to()) },
            is_system_transaction: false,
        };
        tx.enveloped_tx = None;
    } else {
        // stand-in for the EIP-2718 encoding: only its length and content matter for the L1 fee
        let mut e = vec![0x02u8; 100];
        e.extend_from_slice(&tx.base.data[..tx.base.data.len().min(200)]);
        tx.enveloped_tx = Some(e.into());
    }
    tx
}
